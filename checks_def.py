"""What every check is built from."""
REPO = "@REPO@"
ROOT = "@ROOT@"

BASE = ("-std=c++17 -g1 -fno-omit-frame-pointer -I@ROOT@/pbt -I@REPO@/include "
        "-DDLAF_ASSERT_ENABLE -DDLAF_ASSERT_MODERATE_ENABLE -DDLAF_ASSERT_HEAVY_ENABLE "
        "-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__ -DDLAF_WITH_OPENMP")
SAN = "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all"

CHECKS = {}


def add(cid, sources, flags, libs, cxx="g++", **kw):
    CHECKS[cid] = dict(sources=["pbt/pbt.cpp"] + sources, flags=flags, libs=libs, cxx=cxx, **kw)


def pure(cid, src, extra_src=(), extra_flags="", libs=""):
    add(cid, [f"checks/{src}"] + list(extra_src), f"{BASE} {SAN} {extra_flags}",
        f"-fsanitize=address,undefined {libs}")


# ---- parts that need neither tasks nor MPI
SIMMPI = "-I@ROOT@/sim/include/simmpi"
pure("C01", "c01_index2d.cpp", extra_flags=SIMMPI)
pure("C02", "c02_range2d.cpp", extra_flags=SIMMPI)
pure("C03", "c03_block_cyclic.cpp")
pure("C04", "c04_math.cpp")
pure("C05", "c05_data.cpp")

# ---- parts that need MPI: ranks are fibers of the simulation
SIM_SRC = ["sim/src/kernel.cpp", "sim/src/simmpi.cpp"]
COMM_SRC = ["@REPO@/src/communication/communicator.cpp", "@REPO@/src/communication/communicator_impl.cpp",
            "@REPO@/src/communication/datatypes.cpp"]


def simmpi(cid, src):
    pure(cid, src, SIM_SRC + COMM_SRC, f"{SIMMPI} -I@ROOT@/sim/include -I@ROOT@/checks", "-lboost_context")


simmpi("C07", "c07_communicator.cpp")
simmpi("C08", "c08_reduce.cpp")
COMPAT = "-I@ROOT@/sim/include/compat"
LA = "-llapackpp -lblaspp -lopenblas"
pure("C09", "c09_blas_scope.cpp", ["@REPO@/src/common/single_threaded_blas.cpp"], "-fopenmp", "-fopenmp")
pure("C10", "c10_names.cpp", extra_flags=COMPAT, libs=LA)
pure("C11", "c11_blas_shims.cpp", ["@REPO@/src/blas/scal.cpp"], COMPAT, LA)
pure("C12", "c12_adapters.cpp")
pure("C13", "c13_assert.cpp", [("checks/c13_assert_off.cpp",
     "-UDLAF_ASSERT_ENABLE -UDLAF_ASSERT_MODERATE_ENABLE -UDLAF_ASSERT_HEAVY_ENABLE")])

# ---- parts that need the task library too: senders on the simulation
SIM_INC = f"{SIMMPI} -I@ROOT@/sim/include {COMPAT} -I@ROOT@/checks -I@REPO@/src"
pure("C14", "c14_distribution.cpp", ["@REPO@/src/matrix/distribution.cpp"], SIM_INC)
pure("C15", "c15_sub_distribution.cpp", ["@REPO@/src/matrix/distribution.cpp"], SIM_INC)
pure("C06", "c06_messages.cpp", SIM_SRC + COMM_SRC, SIM_INC, f"-lboost_context")
TASK_SRC = SIM_SRC + ["sim/src/simmem.cpp"]
# reduced sanitizing for the template heavy parts of the library
ASAN = "-O1 -fsanitize=address"
GRID_SRC = COMM_SRC + ["@REPO@/src/communication/communicator_grid.cpp", "@REPO@/src/tune.cpp"]
SIM_LIBS = f"-lboost_context {LA}"
pure("C17", "c17_grid.cpp", TASK_SRC + GRID_SRC, SIM_INC, SIM_LIBS)

pure("C43", "c43_derived.cpp", TASK_SRC + ["@REPO@/src/tune.cpp"], SIM_INC, SIM_LIBS)

# ---- algorithms: the library's classes instantiated for double and complex<double> only
LIB_SRC = TASK_SRC + GRID_SRC + [
    ("eti/mat.cpp", "-DETI_T=double"), ("eti/mat.cpp", '"-DETI_T=std::complex<double>"'),
    "eti/kern_all_reduce.cpp", "eti/kern_broadcast.cpp", "eti/kern_p2p.cpp", "eti/kern_reduce.cpp",
    "@REPO@/src/matrix/distribution.cpp", "@REPO@/src/memory/memory_chunk.cpp",
    "@REPO@/src/blas/scal.cpp", "@REPO@/src/common/single_threaded_blas.cpp"]
DZ = ["-DETI_T=double", '"-DETI_T=std::complex<double>"']


def algo(cid, src, etis=(), lib=LIB_SRC, san=ASAN, types=DZ):
    srcs = [f"checks/{src}"] + list(lib) + [(f"eti/{e}.cpp", t) for e in etis for t in types]
    add(cid, srcs, f"{BASE} {san} {SIM_INC} -I@ROOT@/eti -fopenmp", f"-fsanitize=address -fopenmp {SIM_LIBS}")


algo("C23", "c23_cholesky.cpp", ["cholesky"])
algo("C24", "c24_inverse.cpp", ["inv_cholesky", "inv_triangular"])
algo("C25", "c25_triangular.cpp", ["solver_triangular", "mul_triangular"])
algo("C27", "c27_gen_to_std.cpp", ["gen_to_std"])
algo("C26", "c26_products.cpp", ["mul_general", "mul_hermitian"])
algo("C33", "c33_permutations.cpp", ["permutations"], types=DZ[:1])
algo("C34", "c34_norm.cpp", ["norm"])
algo("C35", "c35_t_factor.cpp", ["t_factor"])
algo("C28", "c28_red2band.cpp", ["red2band", "bt_red2band", "t_factor"])
algo("C30", "c30_tridiagonal.cpp", ["tridiag", "permutations", "mul_general"], types=DZ[:1])
algo("C29", "c29_band2trid.cpp", ["band2trid", "bt_band2trid", "t_factor"])
EIG = ["eigensolver", "red2band", "bt_red2band", "t_factor", "band2trid", "bt_band2trid"]
EIG_D = [(f"eti/{e}.cpp", DZ[0]) for e in ("tridiag", "permutations")]
algo("C31", "c31_eigensolver.cpp", EIG + ["mul_general"], lib=LIB_SRC + EIG_D)
algo("C32", "c32_gen_eigensolver.cpp", EIG + ["mul_general", "gen_eigensolver", "cholesky", "gen_to_std", "solver_triangular"],
     lib=LIB_SRC + EIG_D)
algo("C16", "c16_memory.cpp")
algo("C18", "c18_access_order.cpp")
algo("C20", "c20_copy.cpp", lib=LIB_SRC + ["@REPO@/src/matrix_mirror.cpp"])
algo("C21", "c21_panels.cpp")
algo("C22", "c22_comm_kernels.cpp")
algo("C19", "c19_tiles.cpp")
algo("C36", "c36_tile_ops.cpp", lib=LIB_SRC + ["eti/tile_float.cpp"])
pure("C37", "c37_configuration.cpp", TASK_SRC + ["@REPO@/src/init.cpp", "@REPO@/src/tune.cpp", "@REPO@/src/memory/memory_chunk.cpp"], SIM_INC,
     f"{SIM_LIBS} -lboost_program_options")
# the C interface: a library that every simulated process loads for itself
CAPI = [f"@REPO@/src/c_api/{f}.cpp" for f in ("grid", "utils", "init", "factorization/cholesky", "inverse/cholesky",
                                              "eigensolver/eigensolver", "eigensolver/gen_eigensolver")]
algo("C38", "c38_c_interface.cpp", EIG + ["mul_general", "gen_eigensolver", "cholesky", "gen_to_std", "solver_triangular",
                                          "inv_cholesky", "inv_triangular"],
     lib=LIB_SRC + EIG_D + ["@REPO@/src/init.cpp"])
CHECKS["C38"]["flags"] += " -DDLAF_WITH_SCALAPACK"
CHECKS["C38"]["libs"] += " -rdynamic -ldl -lboost_program_options"
CHECKS["C38"]["shared"] = (6, CAPI, f"{BASE} {ASAN} {SIM_INC} -I@ROOT@/eti -fopenmp -fPIC -DDLAF_WITH_SCALAPACK",
                           "-fsanitize=address -Wl,-z,lazy")
algo("C39", "c39_fill_print.cpp", lib=LIB_SRC + ["@REPO@/src/matrix_mirror.cpp"])
algo("C40", "c40_saved.cpp", lib=LIB_SRC + [("eti/mat.cpp", "-DETI_T=float"), "@REPO@/src/matrix_mirror.cpp", "@REPO@/src/matrix/hdf5.cpp"])
CHECKS["C40"]["flags"] += " -I@ROOT@/sim/include/hdf5 -DDLAF_WITH_HDF5"
algo("C46", "c46_dumps.cpp", EIG + ["mul_general", "gen_eigensolver", "cholesky", "gen_to_std", "solver_triangular",
                                    "inv_cholesky", "inv_triangular"],
     lib=LIB_SRC + EIG_D + ["@REPO@/src/matrix_mirror.cpp", "@REPO@/src/matrix/hdf5.cpp"])
CHECKS["C46"]["flags"] += " -I@ROOT@/sim/include/hdf5 -DDLAF_WITH_HDF5"
algo("C41", "c41_composition.cpp", ["cholesky", "gen_to_std", "solver_triangular", "mul_triangular", "mul_general",
                                    "mul_hermitian", "inv_cholesky", "inv_triangular", "norm"], types=DZ[1:])
algo("C42", "c42_senders.cpp")

# the miniapps, as they are: their main functions are called by the simulated processes
MINIAPPS = ["cholesky", "eigensolver", "gen_eigensolver", "gen_to_std", "triangular_solver", "triangular_multiplication",
            "inverse_from_cholesky_factor", "triangular_inverse", "reduction_to_band", "band_to_tridiag",
            "bt_band_to_tridiag", "bt_reduction_to_band", "tridiag_solver", "redistribution", "communication"]
algo("C44", "c44_miniapps.cpp",
     EIG + ["mul_general", "mul_hermitian", "mul_triangular", "norm", "gen_eigensolver", "cholesky", "gen_to_std",
            "solver_triangular", "inv_cholesky", "inv_triangular"],
     lib=LIB_SRC + EIG_D + ["@REPO@/src/matrix_mirror.cpp"])
CHECKS["C44"]["flags"] += " -I@REPO@/miniapp/include -I@REPO@/test/include -DVERIF_CHECKS=@ROOT@/checks -DDLAF_SCRIPTS=@REPO@/scripts"
CHECKS["C44"]["libs"] += " -rdynamic -ldl -lboost_program_options"
# in a library, because what they need for the element types that are not checked is not there
CHECKS["C44"]["shared"] = (1, [(f"@REPO@/miniapp/miniapp_{m}.cpp",
     f"-Dmain=miniapp_{m}_main -Dpika_main=miniapp_{m}_pika_main -DPROBE_APP={k} -include @ROOT@/checks/miniapp_wrap.hpp")
     for k, m in enumerate(MINIAPPS, 1)] +
    # (their options are types with the same name)
    [(f"@REPO@/miniapp/kernel/miniapp_{m}.cpp", f"-Dmain=miniapp_{m}_main -DOptions={m}Options -DTest={m}Test") for m in ["laset", "larft_gemv"]],
     f"{BASE} {ASAN} {SIM_INC} -I@ROOT@/eti -I@REPO@/miniapp/include -I@REPO@/test/include -fopenmp -fPIC", "-fsanitize=address -Wl,-z,lazy")
CHECKS["C44"]["known"] = ["KNOWN-FINDING: property=C44 miniapp_cholesky --uplo U with --check-result last or all (matrix size a "
                          "multiple of the block size) aborts: the check of an upper factor is not implemented"]
# the benchmark scripts: nothing to build
CHECKS["C45"] = dict(script="checks/c45_scripts.py")
