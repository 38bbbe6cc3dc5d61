"""C45: the benchmark scripts. What they write for a scheduler to run is what was asked, once and in order; what the
miniapps print is what comes out of the postprocessing. Generators and shrinking by Hypothesis; oracles are models."""
import argparse, contextlib, io, itertools, json, math, os, random, re, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
for o in ("property", "tier", "seed", "evidence", "replay-dir", "replay", "repo", "only", "scale", "max-seconds"):
    ap.add_argument("--" + o)
args = ap.parse_args()
sys.path[:0] = [os.path.join(HERE, "pystubs"), os.path.join(args.repo or "/repo", "scripts")]

from hypothesis import HealthCheck, given, seed, settings, strategies as st  # noqa: E402

import miniapps as mp  # noqa: E402
import postprocess as pp  # noqa: E402
import systems  # noqa: E402

mp.sleep = lambda _: None  # between submissions
SCRATCH = tempfile.mkdtemp(prefix="c45_")
APPS = os.path.join(SCRATCH, "apps")
for d in ("", "test", "tests"):
    os.makedirs(os.path.join(APPS, d), exist_ok=True)
for a in ["cholesky", "miniapp_evp_scalapack", "miniapp_evp_scalapack_z", "miniapp_evp_elpa", "miniapp_evp_elpa_z",
          "miniapp_evp_cusolver", "miniapp_evp_cusolvermp", "test/tester", "tests/testing_dpotrf", "tests/testing_dtrsm"] + [
              "miniapp_" + n for n in ("cholesky triangular_solver triangular_multiplication gen_to_std reduction_to_band "
                                       "band_to_tridiag tridiag_solver bt_band_to_tridiag bt_reduction_to_band eigensolver "
                                       "gen_eigensolver").split()]:
    open(os.path.join(APPS, a), "w").close()


def need(ok, *what):
    if not ok:
        raise AssertionError(" ".join(str(w) for w in what))


def refused(f, *errors):
    """The script stops with one of these errors."""
    try:
        f()
    except errors:
        return True
    except Exception as e:  # noqa: BLE001
        raise AssertionError(f"stopped by {type(e).__name__}: {e}") from None
    return False


# ---- what a command asks for
SQUARE = "--matrix-size {m_sz} --block-size {mb_sz}"
RECT = "--m {m_sz} --n {n_sz} --mb {mb_sz} --nb {mb_sz}"
ALGS = {  # name: (file prefix, miniapp, parameters, options)
    "chol": ("chol", "cholesky", "m_sz mb_sz", SQUARE),
    "trsm": ("trsm", "triangular_solver", "m_sz n_sz mb_sz", RECT),
    "trmm": ("trmm", "triangular_multiplication", "m_sz n_sz mb_sz", RECT),
    "gen2std": ("hegst", "gen_to_std", "m_sz mb_sz", SQUARE),
    "red2band": ("red2band", "reduction_to_band", "m_sz mb_sz band", SQUARE + " --band-size {band}"),
    "band2trid": ("band2trid", "band_to_tridiag", "m_sz mb_sz band", SQUARE + " --band-size {band}"),
    "trid_evp": ("trid_evp", "tridiag_solver", "m_sz mb_sz", SQUARE),
    "bt_band2trid": ("bt_band2trid", "bt_band_to_tridiag", "m_sz n_sz mb_sz band", RECT + " --b {band}"),
    "bt_red2band": ("bt_red2band", "bt_reduction_to_band", "m_sz n_sz mb_sz band", RECT + " --b {band}"),
    "evp": ("evp", "eigensolver", "m_sz mb_sz min_band", SQUARE),
    "gevp": ("gevp", "gen_eigensolver", "m_sz mb_sz min_band", SQUARE),
}
OTHERS = {  # (name, library): tokens in this order, after the application; None: anything
    ("chol", "slate"): ("test/tester", "--dim {m_sz}x{m_sz}x0 --nb {mb_sz} --p {gr} --q {gc} --repeat {nruns}", "potrf"),
    ("chol", "dplasma"): ("tests/testing_dpotrf", "-N {m_sz} --MB {mb_sz} --NB {mb_sz} --grid-rows {gr} --grid-cols {gc} -c {cores} --nruns {nruns}", None),
    ("chol", "scalapack"): ("cholesky", "-N {m_sz} -b {mb_sz} --p_grid={gr},{gc} -r {nruns}", None),
    ("trsm", "slate"): ("test/tester", "--dim {m_sz}x{n_sz}x0 --nb {mb_sz} --p {gr} --q {gc} --repeat {nruns}", "trsm"),
    ("trsm", "dplasma"): ("tests/testing_dtrsm", "-M {m_sz} -N {n_sz} --MB {mb_sz} --NB {mb_sz} --grid-rows {gr} --grid-cols {gc} -c {cores}", None),
    ("gen2std", "slate"): ("test/tester", "--dim {m_sz}x{m_sz}x0 --nb {mb_sz} --p {gr} --q {gc} --repeat {nruns}", "hegst"),
    ("evp", "slate"): ("test/tester", "--dim {m_sz} --nb {mb_sz} --grid {gr}x{gc} --repeat {nruns} --type {dtype}", "heev"),
    ("evp", "scalapack"): ("miniapp_evp_scalapack{_z}", "{m_sz} {mb_sz} {gr} {gc} {nruns}", None),
    ("evp", "elpa1"): ("miniapp_evp_elpa{_z}", "{m_sz} {mb_sz} {gr} {gc} {nruns} 1", None),
    ("evp", "elpa2"): ("miniapp_evp_elpa{_z}", "{m_sz} {mb_sz} {gr} {gc} {nruns} 2", None),
    ("evp", "cusolver"): ("miniapp_evp_cusolver", "{m_sz} {nruns}", None),
    ("evp", "cusolvermp"): ("miniapp_evp_cusolvermp", "{m_sz} {mb_sz} {gr} {gc} {nruns}", None),
}
ONLY_D = {(a, l) for a, l in OTHERS if l in ("dplasma", "cusolver", "cusolvermp") or (l in ("slate", "scalapack") and a != "evp")}
ANY_RPN = ("scalapack", "elpa", "slate")


def options(tokens):
    """--x y, --x=y, -x y as a dictionary of lists."""
    r, i = {}, 0
    while i < len(tokens):
        k = tokens[i]
        i += 1
        need(k.startswith("-"), "an option is expected, not", k)
        if "=" in k:
            k, v = k.split("=", 1)
        elif i < len(tokens) and not tokens[i].startswith("-"):
            v = tokens[i]
            i += 1
        else:
            v = None
        r.setdefault(k, []).append(v)
    return r


def factors(ranks, gr, gc):
    need(gr * gc == ranks, f"grid {gr} x {gc} for {ranks} ranks")
    best = max(i for i in range(1, math.isqrt(ranks) + 1) if ranks % i == 0)
    need(min(gr, gc) == best, f"grid {gr} x {gc} for {ranks} ranks, {best} x {ranks // best} is closer to a square")


def check_command(alg, lib, system, nodes, p, nruns, suffix, extra, env, dtype, got_env, command):
    """The command, and what is put in front of it."""
    p = dict(p)
    rpn = p["rpn"]
    ranks, cores = round(nodes * rpn), system["Cores"] // rpn
    if p.get("n_sz", 0) is None:
        p["n_sz"] = p["m_sz"]
    if p.get("band", 0) is None:
        p["band"] = p["mb_sz"]
    prefix, app, _, opts = ALGS[alg]
    t = command.split()
    need(t[-3:] == [">>", f"{prefix}_{lib}_{suffix}.out", "2>&1"], "output to", t[-3:])
    e = got_env.split()
    need(e[:len(env.split())] == env.split(), "environment", got_env, "without", env)
    need(f"OMP_NUM_THREADS={cores if not lib.startswith('dlaf') and lib != 'dplasma' else 1}" in e, "threads:", got_env)
    if lib.startswith("dlaf"):
        need(t[0] == f"{APPS}/miniapp_{app}", "runs", t[0])
        o = options(t[1:-3])
        want = options(f"--type {dtype} {opts.format(**p)} --nruns {nruns} {extra}".split())
        if alg in ("evp", "gevp") and p["min_band"] is not None:
            want.setdefault("--dlaf:eigensolver_min_band", []).append(str(p["min_band"]))
        gr, gc = int(o.pop("--grid-rows")[0]), int(o.pop("--grid-cols")[0])
        factors(ranks, gr, gc)
        need({k: sorted(map(str, v)) for k, v in o.items()} == {k: sorted(map(str, v)) for k, v in want.items()},
             "options", o, "instead of", want)
        return
    app, pattern, last = OTHERS[alg, lib]
    need(t[0] == f"{APPS}/" + app.format(_z="_z" if dtype == "z" else ""), "runs", t[0])
    body = t[1:-3]
    found = None
    for gr in [i for i in range(1, ranks + 1) if ranks % i == 0]:
        want = pattern.format(gr=gr, gc=ranks // gr, cores=cores, nruns=nruns, dtype=dtype, **p).split()
        rest = list(body)
        groups = [want] if not want[0].startswith("-") else [want[i:i + (1 if "=" in want[i] else 2)] for i in range(0, len(want)) if want[i].startswith("-")]
        if all(any(rest[i:i + len(g)] == g for i in range(len(rest))) for g in groups):
            found = gr
            if "{gr}" in pattern:
                factors(ranks, gr, ranks // gr)
            break
    need(found is not None, "asks", body, "for", pattern, p)
    if last:
        need(body[-1] == last, "the last word is", body[-1])
    if system["GPU"] and lib == "slate":
        need(" --origin d --target d" in command, "the GPU is not asked for")
    for w in extra.split():
        if lib in ("slate", "dplasma") or (alg, lib) == ("chol", "scalapack"):
            need(w in body, "without", w)


# ---- generators (all cases are plain data: they are written in the replay file)
PREAMBLE = "\n#!/bin/bash\n#JOB {run_name} nodes={nodes} min={time_min} {bs_name}%s\n\n# Commands\n"
word = st.text("abcdXYZ019_", min_size=1, max_size=5)


@st.composite
def gen_system(draw):
    if draw(st.booleans()):
        group = draw(st.sampled_from(["cscs", "csc"]))
        return {"real": [group, draw(st.sampled_from(sorted(getattr(systems, group))))]}
    rpns = draw(st.lists(st.sampled_from([1, 2, 4, 8]), min_size=1, max_size=4, unique=True))
    s = {"Cores": draw(st.sampled_from([8, 12, 36, 64, 128])), "Threads per core": draw(st.integers(1, 4)), "Allowed rpns": rpns,
         "Multiple rpn in same job": draw(st.booleans()), "GPU": draw(st.booleans()),
         "Run command": "run {srun_args} -N {nodes} -r {rpn} -n {total_ranks} -c {cores_per_rank} -t {threads_per_rank}",
         "Launch command": "echo {job_file} >> {job_path}/launched"}
    more = "" if s["Multiple rpn in same job"] else " {rpn} {total_ranks} {cores_per_rank} {threads_per_rank}"
    s["Batch preamble"] = PREAMBLE % more
    if draw(st.booleans()):
        s["sleep"] = draw(st.integers(0, 9))
    if draw(st.booleans()):
        s["extra"] = draw(word)
        s["Run command"] += " -x {extra}"
        s["Batch preamble"] += "# {extra}\n"
    return s


def the_system(s):
    if "real" in s:
        return getattr(systems, s["real"][0])[s["real"][1]]
    s = dict(s)
    if "extra" in s:
        x = s.pop("extra")
        s["Extra subs"] = lambda d: {**d, "extra": x + str(d["nodes"])}
    return s


def gen_nodes(rpn):
    return st.one_of(st.integers(1, 64), st.integers(1, 64 * rpn).map(lambda k: k / rpn))


EXTRA = st.lists(st.sampled_from(["--check=last", "--local", "--uplo L", "--nwarmups 0", "--pika:threads=4"]), max_size=3, unique=True).map(" ".join)
ENV = st.lists(st.sampled_from(["A=1", "B=xy", "PATH_TO=/a"]), max_size=2, unique=True).map(" ".join)


@st.composite
def gen_params(draw, alg, lists, blocks=st.integers(1, 512)):
    """Parameters of one algorithm: single values, or lists of them."""
    mb = draw(blocks)
    bands = [b for b in range(1, mb + 1) if mb % b == 0]
    one = {"m_sz": st.integers(0, 50000), "mb_sz": st.sampled_from([mb, 2 * mb]), "n_sz": st.one_of(st.none(), st.integers(0, 50000)),
           "band": st.one_of(st.none(), st.sampled_from(bands)), "min_band": st.one_of(st.none(), st.integers(2, 200))}
    return {k: draw(st.lists(one[k], min_size=1, max_size=3, unique=True)) if lists and draw(st.booleans()) else draw(one[k])
            for k in draw(st.permutations(ALGS[alg][2].split()))}


# ---- the sub-checks: (generator, check -> (non-trivial, description), quick, thorough, rule)
@st.composite
def gen_commands(draw):
    alg = draw(st.sampled_from(sorted(ALGS)))
    system = draw(gen_system())
    other = sorted(l for a, l in OTHERS if a == alg)
    lib = draw(st.sampled_from(["dlaf", "dlaf", "dlaf_v2"] + other))
    rpns = the_system(system)["Allowed rpns"]
    fault = draw(st.sampled_from([""] * 6 + ["rpn0", "rpn", "type", "band", "lib", "app", "min_band"]))
    rpn = draw(st.sampled_from(rpns))
    if lib == "dplasma":
        rpn = 1 if 1 in rpns else rpn
    elif lib.startswith(ANY_RPN):
        rpn = draw(st.sampled_from([1, 2, 3, 4, 6]))
    # a fraction of a node is a number of ranks as long as the product is one
    n = draw(gen_nodes(rpn if rpn in (1, 2, 4, 8) else 1))
    return {"alg": alg, "system": system, "lib": lib, "rpn": rpn, "nodes": n, "params": draw(gen_params(alg, False)),
            "nruns": draw(st.integers(1, 20)), "suffix": draw(word), "extra": draw(EXTRA), "env": draw(ENV),
            "dtype": draw(st.sampled_from("scdz")), "fault": fault, "bad": draw(st.integers(-3, 40))}


def check_commands(c):
    alg, lib, fault, system = c["alg"], c["lib"], c["fault"], the_system(c["system"])
    p = dict(c["params"], rpn=c["rpn"])
    dtype, app_dir, errors = c["dtype"], APPS, []
    others = not lib.startswith("dlaf")
    if fault == "rpn0":
        p["rpn"] = min(c["bad"], 0)
        errors = [ValueError]
    elif fault == "rpn" and not lib.startswith(ANY_RPN):
        p["rpn"] = next(r for r in range(abs(c["bad"]) + 1, 999) if r not in system["Allowed rpns"])
        errors = [ValueError]
    elif fault == "type":
        dtype = "dd" if c["bad"] % 2 else "x"
        errors = [RuntimeError]
    elif fault == "band" and alg in ("red2band", "band2trid", "bt_band2trid"):
        p["band"] = p["mb_sz"] + 1 + abs(c["bad"])
        errors = [RuntimeError]
    elif fault == "min_band" and alg in ("evp", "gevp") and not others:
        p["min_band"] = min(c["bad"], 1)
        errors = [RuntimeError]
    elif fault == "lib":
        lib = "scalapackx" if alg != "evp" else "elpa3"
        errors = [ValueError]
    elif fault == "app":
        app_dir = os.path.join(SCRATCH, "nowhere")
        errors = [RuntimeError]
    elif others and (alg, lib) in ONLY_D and dtype != "d" or lib in ("scalapack", "elpa1", "elpa2") and dtype not in "dz":
        errors = [RuntimeError]
    elif lib == "dplasma" and c["rpn"] != 1 or not lib.startswith(ANY_RPN) and c["rpn"] not in system["Allowed rpns"]:
        errors = [ValueError]
    # faults of two kinds at once are stopped by either
    allowed = tuple({*errors, *([RuntimeError, ValueError] if errors else [])})
    out = []

    def call():
        out.extend(getattr(mp, alg)(system=system, lib=lib, miniapp_dir=app_dir, nodes=c["nodes"], nruns=c["nruns"],
                                    suffix=c["suffix"], extra_flags=c["extra"], env=c["env"], dtype=dtype, **p))

    if errors:
        need(refused(call, *allowed), "not refused:", fault or "type or ranks", out)
        return True, f"{alg} {lib} refused {fault}"
    call()
    check_command(alg, lib, system, c["nodes"], p, c["nruns"], c["suffix"], c["extra"], c["env"], dtype, out[1], out[0])
    ranks = round(c["nodes"] * c["rpn"])
    return ranks > 1, f"{alg} {lib} {ranks} ranks {p}"


@st.composite
def gen_add(draw, system, weak):
    alg = draw(st.sampled_from(sorted(ALGS)))
    s = the_system(system)
    p = draw(gen_params(alg, True))
    rpn = draw(st.lists(st.sampled_from(s["Allowed rpns"]), min_size=1, max_size=2, unique=True))
    p["rpn"] = rpn if len(rpn) > 1 or draw(st.booleans()) else rpn[0]
    c = {"op": "add", "alg": alg, "lib": draw(st.sampled_from(["dlaf", "dlaf2"])), "params": p, "nruns": draw(st.integers(1, 9)),
         "suffix": draw(st.one_of(st.just(""), word)), "extra": draw(EXTRA), "env": draw(ENV), "dtype": draw(st.sampled_from("scdz")),
         "srun": draw(st.sampled_from(["", "-u", "--mem 3 -q"]))}
    if weak:
        c["weak"] = {"m_sz": p.pop("m_sz")}
        if "n_sz" in p and draw(st.booleans()):
            n = p.pop("n_sz")
            c["weak"]["n_sz"] = [v or 64 for v in n] if isinstance(n, list) else n or 64
        c["approx"] = draw(st.sampled_from([1, 2, 64, 100, 512]))
    if draw(st.integers(0, 9)) == 0:
        del p["rpn"]
    return c


gen_submit = st.fixed_dictionaries({"op": st.just("submit"), "dir": st.integers(0, 2), "debug": st.booleans(),
                                    "shell": st.integers(0, 9).map(bool)})


@st.composite
def gen_jobs(draw):
    weak = draw(st.booleans())
    system = draw(gen_system())
    step = st.integers(0, 9).flatmap(lambda k: gen_submit if k == 0 else
                                     st.just({"op": "print"}) if k == 1 else gen_add(system, weak))
    steps = draw(st.lists(step, min_size=1, max_size=6)) + draw(st.lists(gen_submit, min_size=0, max_size=1))
    if draw(st.integers(0, 4)):
        steps = [draw(gen_add(system, weak)) for _ in range(draw(st.integers(1, 3)))] + steps + [draw(gen_submit)]
    nodes = draw(st.lists(gen_nodes(min(the_system(system)["Allowed rpns"])), min_size=1, max_size=3, unique=True))
    return {"weak": weak, "system": system, "nodes": nodes, "time": draw(st.integers(1, 500)), "time0": draw(st.integers(0, 100)),
            "run": draw(word), "bs": draw(word), "steps": steps}


def expected_job(c, system, runs, nodes):
    """The lines of the job: lists of words, and for the commands what check_command needs."""
    def subs(rpn):
        d = {"nodes": math.ceil(nodes)}
        if rpn is not None:
            d.update(rpn=rpn, total_ranks=round(nodes * rpn), cores_per_rank=system["Cores"] // rpn,
                     threads_per_rank=system["Threads per core"] * (system["Cores"] // rpn))
        return d

    def fill(s, d):
        if "Extra subs" in system:
            d = system["Extra subs"](d)
        return s.format(**d)

    minutes = c["time"] if not c["weak"] else c["time0"] + round(math.sqrt(nodes) * c["time"])
    one = None if system["Multiple rpn in same job"] else [v for r in runs for v in r["p"]["rpn"]][0]
    head = dict(subs(one), run_name=c["run"], time_min=minutes, bs_name=c["bs"])
    lines = [("text", l.split()) for l in fill(system["Batch preamble"], head).strip().split("\n")]
    for r in runs:
        keys, weak_keys = list(r["p"]), list(r["w"])
        for wv in itertools.product(*r["w"].values()):
            for pv in itertools.product(*r["p"].values()):
                p = dict(zip(keys, pv))
                w = dict(zip(weak_keys, wv))
                rpn = p["rpn"]
                suffix = (r["suffix"] + "_" if r["suffix"] else "") + f"rpn={rpn}"
                lines.append(("command", r, p, w, suffix, fill(system["Run command"], dict(subs(rpn), srun_args=r["srun"])).split()))
                if "sleep" in system:
                    lines.append(("text", ["sleep", str(system["sleep"])]))
    return lines


def scaled(nodes, value, approx, got):
    need(got % approx == 0 and abs(got - value * math.sqrt(nodes)) <= approx / 2 * (1 + 1e-9) + 1e-6,
         f"{value} on {nodes} nodes: {got}, to the nearest multiple of {approx}")


def check_job(c, system, runs, nodes, text):
    want = expected_job(c, system, runs, nodes)
    lines = text.strip().split("\n")
    need(len(lines) == len(want), f"{len(lines)} lines instead of {len(want)}")
    for got, w in zip(lines, want):
        t = got.split()
        if w[0] == "text":
            need(t == w[1], "line", got, "instead of", " ".join(w[1]))
            continue
        _, r, p, wk, suffix, run = w
        at = next((i for i in range(len(t)) if t[i:i + len(run)] == run), None)
        need(at is not None, "line", got, "does not run by", " ".join(run))
        p = dict(p)
        o = options(t[at + len(run) + 1:-3])
        for k, v in wk.items():  # what the command says, after it is found to be right
            flag = "--n" if k == "n_sz" else "--m" if "--m" in o else "--matrix-size"
            p[k] = int(o[flag][0])
            scaled(nodes, v, r["approx"], p[k])
        check_command(r["alg"], r["lib"], system, nodes, p, r["nruns"], suffix, r["extra"], r["env"], r["dtype"],
                      " ".join(t[:at]), " ".join(t[at + len(run):]))


def quietly(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def copies(d):
    return {k: list(v) if isinstance(v, list) else v for k, v in d.items()}


def check_jobs(c):
    system, weak = the_system(c["system"]), c["weak"]
    if weak:
        s = mp.WeakScaling(system, c["run"], c["bs"], c["nodes"], c["time0"], c["time"])
    else:
        s = mp.StrongScaling(system, c["run"], c["bs"], c["nodes"], c["time"])
    root = tempfile.mkdtemp(dir=SCRATCH)
    runs, commands, history, files, launched = [], 0, [], {}, {}
    try:
        for x in c["steps"]:
            if x["op"] == "add":
                lists = {k: list(v) if isinstance(v, list) else [v] for k, v in x["params"].items()}
                rpns = lists.get("rpn")
                one = not system["Multiple rpn in same job"]
                before = {v for r in runs for v in r["p"]["rpn"]}
                more = {"weak_params": copies(x["weak"]), "approx": x["approx"]} if weak else {}

                def add():
                    s.add(getattr(mp, x["alg"]), x["lib"], APPS, copies(x["params"]), nruns=x["nruns"], suffix=x["suffix"],
                          extra_flags=x["extra"], env=x["env"], dtype=x["dtype"], srun_args=x["srun"], **more)

                if rpns is None:
                    need(refused(add, KeyError), "parameters without rpn are not refused")
                    history.append("no rpn")
                elif one and (len(rpns) != 1 or before and before != set(rpns)):
                    need(refused(add, ValueError), "different ranks per node are not refused", rpns, before)
                    history.append("mixed")
                else:
                    add()
                    w = {k: list(v) if isinstance(v, list) else [v] for k, v in x.get("weak", {}).items()}
                    runs.append(dict(x, p=lists, w=w))
                    commands += math.prod(map(len, list(lists.values()) + list(w.values())))
                    history.append(x["alg"])
            elif any((n * r) % 1 for n in c["nodes"] for run in runs for r in run["p"]["rpn"]):
                continue  # not a number of ranks
            elif x["op"] == "print":
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    s.print()
                if not runs:
                    need("miniapp" not in out.getvalue(), "printed without runs:", out.getvalue())
                    history.append("print nothing")
                    continue
                parts = re.split(r"^### (.*) Nodes ###\n", out.getvalue(), flags=re.M)
                need(parts[1::2] == [str(n) for n in c["nodes"]], "printed for", parts[1::2])
                for n, text in zip(c["nodes"], parts[2::2]):
                    check_job(c, system, runs, n, text)
                history.append("print")
            else:
                where = os.path.join(root, f"d{x['dir']}")
                launch = not x["debug"] and "real" not in c["system"]
                if not runs:
                    s.submit(where, debug=not launch)
                    need(not os.path.exists(where) or f"d{x['dir']}" in {f.split("/")[0] for f in files}, "a directory without runs")
                    history.append("submit nothing")
                    continue
                if launch and not x["shell"]:
                    os.environ.pop("SHELL", None)
                    need(refused(lambda: quietly(s.submit, where, debug=False), ValueError), "submitted without a shell")
                    return True, "no shell"
                os.environ["SHELL"] = "/bin/sh"
                quietly(s.submit, where, debug=not launch)
                if launch:
                    for n in c["nodes"]:
                        launched[f"d{x['dir']}/{n}/launched"] = launched.get(f"d{x['dir']}/{n}/launched", 0) + 1
                        with open(os.path.join(root, f"d{x['dir']}/{n}/launched")) as f:
                            got = f.read().split()
                        need(len(got) == launched[f"d{x['dir']}/{n}/launched"] and got[-1] == os.path.join(where, str(n), c["bs"] + ".sh"),
                             "launched", got)
                for n in c["nodes"]:
                    name = f"d{x['dir']}/{n}/{c['bs']}.sh"
                    files[name] = True
                    with open(os.path.join(root, name)) as f:
                        check_job(c, system, runs, n, f.read())
                got = {os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs}
                need(got == set(files) | set(launched), "files", got, "instead of", set(files) | set(launched))
                runs = []
                history.append("submit")
    finally:
        shutil.rmtree(root)
    return commands > 1 and ("submit" in history or "print" in history), f"{'weak' if weak else 'strong'} {c['nodes']} " + " ".join(history)


# job texts put together by hand
@st.composite
def gen_texts(draw):
    system = draw(gen_system())
    s = the_system(system)
    rpns = [r for r in s["Allowed rpns"]]
    commands = []
    first = draw(st.one_of(st.none(), st.sampled_from(rpns)))
    for _ in range(draw(st.integers(1, 4))):
        alg = draw(st.sampled_from(sorted(ALGS)))
        commands.append({"alg": alg, "p": draw(gen_params(alg, False)), "rpn": draw(st.sampled_from(rpns + ([first] * 3 if first else []))),
                         "srun": draw(st.sampled_from(["", "-u", "--mem 3 -q"])), "nruns": draw(st.integers(1, 9)), "suffix": draw(word),
                         "extra": draw(EXTRA), "env": draw(ENV), "dtype": draw(st.sampled_from("scdz"))})
    return {"system": system, "rpn": first, "nodes": draw(gen_nodes(min(rpns))), "time": draw(st.integers(1, 500)), "run": draw(word),
            "bs": draw(word), "commands": commands}


def check_texts(c):
    system, nodes, first = the_system(c["system"]), c["nodes"], c["rpn"]

    def make():
        return mp.JobText(system, c["run"], nodes, c["time"], c["bs"], first)

    if first is None and not system["Multiple rpn in same job"]:
        need(refused(make, ValueError), "a job without ranks per node on a system that needs them is not refused")
        return True, "no rpn"
    job = make()

    def subs(rpn):
        d = {"nodes": math.ceil(nodes)}
        if rpn is not None:
            d.update(rpn=rpn, total_ranks=int(nodes * rpn), cores_per_rank=system["Cores"] // rpn,
                     threads_per_rank=system["Threads per core"] * (system["Cores"] // rpn))
        return d

    def fill(text, d):
        return text.format(**(system["Extra subs"](d) if "Extra subs" in system else d)).strip()

    want = fill(system["Batch preamble"], dict(subs(first), run_name=c["run"], time_min=c["time"], bs_name=c["bs"])).split("\n")
    need([l.split() for l in job.job_text.split("\n")] == [l.split() for l in want], "preamble", job.job_text)
    mixed, added = 0, 0
    for x in c["commands"]:
        p = dict(x["p"], rpn=x["rpn"])
        before = job.job_text

        def add():
            job.addCommand(getattr(mp, x["alg"]), x["srun"], lib="dlaf", miniapp_dir=APPS, nruns=x["nruns"], suffix=x["suffix"],
                           extra_flags=x["extra"], env=x["env"], dtype=x["dtype"], **p)

        if first is not None and first != x["rpn"]:
            need(refused(add, ValueError), f"{x['rpn']} ranks per node in a job of {first} are not refused")
            need(job.job_text == before, "the text changed")
            mixed += 1
            continue
        if nodes * x["rpn"] % 1:
            continue
        add()
        added += 1
        need(job.job_text.startswith(before + "\n"), "the text before the command changed")
        lines = job.job_text[len(before) + 1:].split("\n")
        if "sleep" in system:
            need(lines[1:] == [f"sleep {system['sleep']}"], "after the command:", lines[1:])
        else:
            need(len(lines) == 1, "after the command:", lines[1:])
        t = lines[0].split()
        run_by = fill(system["Run command"], dict(subs(x["rpn"]), srun_args=x["srun"])).split()
        at = next((i for i in range(len(t)) if t[i:i + len(run_by)] == run_by), None)
        need(at is not None, "line", lines[0], "does not run by", " ".join(run_by))
        check_command(x["alg"], "dlaf", system, nodes, p, x["nruns"], x["suffix"], x["extra"], x["env"], x["dtype"],
                      " ".join(t[:at]), " ".join(t[at + len(run_by):]))
    return added > 1 or mixed > 0, f"{added} commands, {mixed} refused"


# ---- postprocessing
FIELDS = {  # as in the output of the miniapps: performance, indices of the eigenvalues, band
    "chol": (1, 0, 0), "hegst": (1, 0, 0), "trmm": (1, 0, 0), "trsm": (1, 1, 0), "red2band": (1, 0, 1), "band2trid": (1, 0, 1),
    "bt_band2trid": (1, 1, 1), "bt_red2band": (1, 1, 1), "trid_evp": (0, 0, 0), "evp": (0, 1, 1), "gevp": (0, 1, 1)}
size = st.integers(0, 10**6)
NOISE = ["", "CSVData-2, run, 0, time, 0.1", "Max Diff / Max A: 1e-15", "[-1]", "[0]", "slurmstepd: error: x", "  [1] 3s", "nid01: [0] x"]


@st.composite
def gen_outputs(draw):
    alg = draw(st.sampled_from(sorted(FIELDS)))
    records = draw(st.lists(st.fixed_dictionaries({
        "run": st.integers(-3, 99), "time": st.floats(1e-9, 1e7), "perf": st.floats(1e-6, 1e9), "type": st.sampled_from(["d", "zL", "sLLNN", "cU", ""]),
        "m": size, "n": size, "first": size, "last": size, "mb": size, "nb": size, "band": size, "gr": st.integers(1, 9999), "gc": st.integers(1, 9999),
        "threads": st.integers(1, 512), "backend": st.sampled_from(["MC", "GPU", ""]), "indices": st.booleans(), "spaces": st.integers(0, 3),
        "noise": st.lists(st.sampled_from(NOISE), max_size=2)}), min_size=1, max_size=6))
    return {"alg": alg, "suffix": draw(st.one_of(st.just(""), word)), "nodes": draw(st.sampled_from([0.5, 1.0, 2.0, 3.0, 16.0])), "records": records}


def num(x):
    return f"{x:g}"


def output_line(alg, r):
    perf, idx, band = FIELDS[alg]
    w = [f"[{r['run']}]", num(r["time"]) + "s"] + ([num(r["perf"]) + "GFlop/s"] if perf else []) + ([r["type"]] if r["type"] else [])
    w += [f"({r['m']}, {r['n']})"] + ([f"({r['first']}, {r['last']})" + " " * r["spaces"]] if idx and r["indices"] else [])
    w += [f"({r['mb']}, {r['nb']})"] + ([str(r["band"])] if band else []) + [f"({r['gr']}, {r['gc']})", str(r["threads"])]
    return " ".join(w + ([r["backend"]] if r["backend"] else []))


def expected_record(alg, r, bench, nodes):
    perf, idx, band = FIELDS[alg]
    d = {"run_index": r["run"], "time": float(num(r["time"])), "matrix_type": r["type"] or None, "matrix_rows": r["m"], "matrix_cols": r["n"],
         "block_rows": r["mb"], "block_cols": r["nb"], "grid_rows": r["gr"], "grid_cols": r["gc"], "backend": r["backend"] or None,
         "bench_name": bench, "nodes": nodes}
    if perf:
        d["perf"] = float(num(r["perf"]))
        d["perf_per_node"] = d["perf"] / nodes
    if band:
        d["band"] = r["band"]
    if idx:
        d["from_ev"], d["to_ev"] = (r["first"], r["last"]) if r["indices"] else (0, r["m"])
    return d


def same_records(got, want):
    need(len(got) == len(want), f"{len(got)} records instead of {len(want)}")
    for g, w in zip(got, want):
        bad = [(k, g.get(k), w[k]) for k in w if g.get(k) != w[k]]
        need(not bad, "field, read and printed:", bad)


def with_noise(alg, records):
    for r in records:
        yield from (l + "\n" for l in r["noise"])
        yield output_line(alg, r) + "\n"


def check_outputs(c):
    bench = f"{c['alg']}_dlaf" + ("_" + c["suffix"] if c["suffix"] else "")
    got = pp._parse_line_based(with_noise(c["alg"], c["records"]), bench, c["nodes"])
    same_records(got, [expected_record(c["alg"], r, bench, c["nodes"]) for r in c["records"]])
    return len(c["records"]) > 1, f"{bench}: {output_line(c['alg'], c['records'][0])}"


@st.composite
def gen_trees(draw):
    return {"dirs": draw(st.lists(st.fixed_dictionaries({
        "name": st.sampled_from(["d", "z", "other"]), "label": st.one_of(st.none(), word), "tag": st.one_of(st.none(), word),
        "files": st.lists(st.tuples(st.sampled_from([0.5, 1, 2, 16]), gen_outputs(), st.sampled_from([".out", ".out", ".txt"])), max_size=4)}),
        min_size=1, max_size=3)), "distinguish": draw(st.booleans()), "single": draw(st.booleans())}


def check_trees(c):
    root = tempfile.mkdtemp(dir=SCRATCH)
    want, paths, dirs = [], [], c["dirs"][:1] if c["single"] else c["dirs"]
    try:
        for i, d in enumerate(dirs):
            top = os.path.join(root, f"set{i}", d["name"])
            os.makedirs(top)
            label = (d["label"] or f"set{i}") + {"d": "-double", "z": "-complex"}.get(d["name"], "")
            written = {}
            for nodes, out, ext in d["files"]:
                bench = f"{out['alg']}_dlaf_{out['suffix']}"
                name = os.path.join(top, str(nodes), bench + ext)
                os.makedirs(os.path.dirname(name), exist_ok=True)
                with open(name, "w") as f:
                    f.writelines(with_noise(out["alg"], out["records"]))
                full = bench + (f"*{d['name']}" + (f"#{d['tag']}" if d["tag"] else "") + f"@{label}" if c["distinguish"] else "")
                written[name] = [expected_record(out["alg"], r, full, float(nodes)) for r in out["records"]] if ext == ".out" else []
            want += [r for v in written.values() for r in v]
            path = top + (":" + d["label"] if d["label"] else "")
            paths.append((d["tag"], path) if d["tag"] else path)
        with contextlib.redirect_stdout(io.StringIO()):
            got = pp.parse_jobs(paths[0] if c["single"] else paths, c["distinguish"])
    finally:
        shutil.rmtree(root)
    order = lambda r: json.dumps({k: r[k] for k in sorted(r) if k in ("bench_name", "nodes", "run_index", "time", "perf", "matrix_rows", "matrix_cols", "block_rows", "block_cols", "grid_rows", "grid_cols", "band", "from_ev", "to_ev", "matrix_type", "backend")}, default=str)  # noqa: E731
    same_records(sorted(got, key=order), sorted(want, key=order))
    return len(want) > 1, f"{len(want)} records of {paths if len(str(paths)) < 200 else len(paths)}"


SUBS = {
    "commands": (gen_commands(), check_commands, 6000, 120000, "more than one rank, or a command that has to be refused"),
    "texts": (gen_texts(), check_texts, 1500, 30000, "more than one command, or one that has to be refused"),
    "jobs": (gen_jobs(), check_jobs, 1500, 50000, "a job of more than one command, printed or written"),
    "outputs": (gen_outputs(), check_outputs, 4000, 80000, "more than one line"),
    "trees": (gen_trees(), check_trees, 800, 16000, "more than one line"),
}


def run(name, tier, the_seed, scale):
    gen, check, quick, thorough, rule = SUBS[name]
    planned = max(1, int((quick if tier == "quick" else thorough) * scale))
    state = {"cases": 0, "nontrivial": 0, "distinct": set(), "samples": [], "failed": None, "error": ""}

    @seed(the_seed)
    @settings(max_examples=planned, database=None, deadline=None, suppress_health_check=list(HealthCheck), print_blob=False)
    @given(gen)
    def prop(case):
        text = json.dumps(case)
        if state["failed"] is None:
            state["cases"] += 1
        try:
            nontrivial, what = check(json.loads(text))
        except Exception as e:
            state["failed"], state["error"] = case, f"{type(e).__name__}: {e}"
            raise
        if state["failed"] is None and nontrivial:
            state["nontrivial"] += 1
            state["distinct"].add(hash(text))
            if len(state["samples"]) < 3 and state["nontrivial"] % 50 == 7:
                state["samples"].append(f"{name}: {what}"[:400])

    with contextlib.redirect_stderr(io.StringIO()):
        try:
            prop()
        except Exception as e:  # noqa: BLE001
            if state["failed"] is None:
                raise
            del e
    state["planned"], state["rule"] = planned, rule
    return state


def main():
    cid = args.property or "C45"
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        try:
            SUBS[r["sub"]][1](r["case"])
        except Exception as e:  # noqa: BLE001
            print(f"  {r['sub']}: {type(e).__name__}: {e}")
            print(f"VIOLATION property={cid} replay={args.replay}")
            return 1
        print(f"{cid}: the case of {args.replay} passes")
        return 0
    start, rc, out, samples, rules = time.time(), 0, [], [], []
    for name in SUBS:
        if args.only and name not in args.only.split(","):
            continue
        t0 = time.time()
        s = run(name, args.tier, random.Random(f"{args.seed} {name}").getrandbits(62), float(args.scale or 1))
        print(f"  sub-check {name}: {s['cases']} cases, {s['nontrivial']} non-trivial, {time.time() - t0:.1f} s" + (" FAILED" if s["failed"] else ""), flush=True)
        out.append({"name": name, "cases": s["cases"], "nontrivial": s["nontrivial"], "distinct_nontrivial": len(s["distinct"]), "planned": s["planned"]})
        samples += s["samples"]
        rules.append(f"{name}: {s['rule']}")
        if s["failed"] is not None:
            rc = 1
            path = os.path.join(args.replay_dir or ".", f"{cid}-{name}-{args.seed}.json")
            with open(path, "w") as f:
                json.dump({"property": cid, "sub": name, "case": s["failed"], "message": s["error"]}, f, indent=1)
            print(f"  {s['error'][:2000]}\n  case: {json.dumps(s['failed'])[:2000]}")
            print(f"VIOLATION property={cid} replay={path}", flush=True)
    if args.evidence:
        with open(args.evidence, "w") as f:
            json.dump({"property": cid, "tier": args.tier, "seed": int(args.seed), "level": "exploration", "coverage": {
                "evaluations": sum(o["cases"] for o in out), "distinct_nontrivial": sum(o["distinct_nontrivial"] for o in out),
                "rule": "Cases are drawn by Hypothesis from the seed; distinct = distinct cases. Non-trivial: " + " | ".join(rules),
                "samples": samples, "sub_checks": out, "inconclusive": []}, "wall_s": round(time.time() - start, 3), "violations": rc}, f, indent=1)
    if rc == 0:
        print(f"{cid}: held on everything explored ({sum(o['cases'] for o in out)} cases)")
    return rc


try:
    code = main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
sys.exit(code)
