// C37: start-up, configuration and shut-down. Oracle: the documented precedence of the sources of an option (command
// line, environment, values given by the caller, defaults), computed for every option of the case.
#include <cstdlib>

#include <pika/mpi.hpp>
#include <pika/runtime.hpp>

#include <dlaf/init.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/tune.h>

#include "algo.hpp"

using namespace algo;
using dlaf::TuneParameters;
using dlaf::configuration;

namespace {
struct Option {
  std::string name;  // in the print out
  std::string env, cmd;
  bool tune;
  // reads and writes
  std::function<std::string(const configuration&, const TuneParameters&)> get;
  std::function<void(configuration&, TuneParameters&, const std::string&)> set;
  std::function<std::string(Gen&)> value;
  bool flag = false;
};
std::string upper(std::string s) {
  for (auto& c : s)
    c = static_cast<char>(c == '-' ? '_' : std::toupper(static_cast<unsigned char>(c)));
  return s;
}
std::string lower(std::string s) {
  for (auto& c : s)
    c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
  return s;
}
std::string dashes(std::string s) {
  for (auto& c : s)
    c = c == '_' ? '-' : c;
  return s;
}
template <class V>
std::string text(const V& v) {
  std::ostringstream s;
  s.precision(17);
  s << v;
  return s.str();
}
std::string integer(Gen& g) {
  return text(g.chance(1, 8) ? g.range(1, 1ll << 62) : g.range(0, 100000));
}
std::string ratio(Gen& g) {
  return text(g.pick({0.5, 0., 1., 1.5, 0.0625}));
}
std::string layout(Gen& g) {
  return std::string(g.pick({"ColMajor", "Tiles", "Blocks", "colmajor", "TILES", "blocks"}));
}
template <class V>
V from(const std::string& s) {
  std::istringstream i(s);
  V v{};
  i >> v;
  return v;
}

std::vector<Option> make_options() {
  std::vector<Option> o;
#define CFG(f, kind)                                                                                             \
  o.push_back({#f, upper(#f), dashes(#f), false, [](const configuration& c, const TuneParameters&) { return text(c.f); }, \
               [](configuration& c, TuneParameters&, const std::string& v) { c.f = from<decltype(c.f)>(v); }, kind})
#define TUNE(f, kind)                                                                                            \
  o.push_back({#f, upper(#f), dashes(#f), true, [](const configuration&, const TuneParameters& t) { return text(t.f); },  \
               [](configuration&, TuneParameters& t, const std::string& v) { t.f = from<decltype(t.f)>(v); }, kind})
#define DUMP(f)                                                                                                  \
  o.push_back({"", upper(#f), "", true, [](const configuration&, const TuneParameters& t) { return text(t.f); }, \
               [](configuration&, TuneParameters& t, const std::string& v) { t.f = from<bool>(v); }, nullptr, true})
#if PIKA_VERSION_FULL >= 0x001F00
  CFG(num_np_gpu_streams, integer);
  CFG(num_hp_gpu_streams, integer);
#else
  CFG(num_np_gpu_streams_per_thread, integer);
  CFG(num_hp_gpu_streams_per_thread, integer);
#endif
  CFG(umpire_host_memory_pool_initial_block_bytes, integer);
  CFG(umpire_host_memory_pool_next_block_bytes, integer);
  CFG(umpire_host_memory_pool_alignment_bytes, integer);
  CFG(umpire_host_memory_pool_coalescing_free_ratio, ratio);
  CFG(umpire_host_memory_pool_coalescing_reallocation_ratio, ratio);
  CFG(umpire_device_memory_pool_initial_block_bytes, integer);
  CFG(umpire_device_memory_pool_next_block_bytes, integer);
  CFG(umpire_device_memory_pool_alignment_bytes, integer);
  CFG(umpire_device_memory_pool_coalescing_free_ratio, ratio);
  CFG(umpire_device_memory_pool_coalescing_reallocation_ratio, ratio);
  CFG(num_gpu_blas_handles, integer);
  CFG(num_gpu_lapack_handles, integer);
  o.push_back({"", "PRINT_CONFIG", "print-config", false, [](const configuration& c, const TuneParameters&) { return text(c.print_config); },
               [](configuration& c, TuneParameters&, const std::string& v) { c.print_config = from<bool>(v); }, nullptr, true});

  TUNE(tfactor_num_threads, integer);
  TUNE(tfactor_num_streams, integer);
  TUNE(tfactor_barrier_busy_wait_us, integer);
  TUNE(red2band_panel_num_threads, integer);
  TUNE(red2band_barrier_busy_wait_us, integer);
  TUNE(tridiag_rank1_num_threads, integer);
  TUNE(tridiag_rank1_barrier_busy_wait_us, integer);
  TUNE(eigensolver_min_band, integer);
  TUNE(band_to_tridiag_1d_block_size_base, integer);
  TUNE(bt_band_to_tridiag_hh_apply_group_size, integer);
  TUNE(communicator_grid_num_pipelines, integer);
  o.push_back({"default_allocation_layout", "DEFAULT_ALLOCATION_LAYOUT", "default_allocation_layout", true,
               [](const configuration&, const TuneParameters& t) { return lower(text(t.default_allocation_layout)); },
               [](configuration&, TuneParameters& t, const std::string& v) {
                 const auto l = lower(v);
                 t.default_allocation_layout = l == "colmajor" ? AllocationLayout::ColMajor
                                               : l == "tiles"  ? AllocationLayout::Tiles
                                                               : AllocationLayout::Blocks;
               },
               layout});
  DUMP(debug_dump_cholesky_factorization_data);
  DUMP(debug_dump_generalized_eigensolver_data);
  DUMP(debug_dump_generalized_to_standard_data);
  DUMP(debug_dump_eigensolver_data);
  DUMP(debug_dump_inverse_from_cholesky_factor_data);
  DUMP(debug_dump_reduction_to_band_data);
  DUMP(debug_dump_band_to_tridiagonal_data);
  DUMP(debug_dump_triangular_inverse_data);
  DUMP(debug_dump_tridiag_solver_data);
  return o;
}
const std::vector<Option>& options() {
  static const auto o = make_options();
  return o;
}
std::string canonical(const Option& o, const std::string& v) {
  return o.flag ? v : o.name == "default_allocation_layout" ? lower(v) : v;
}

// Runs f as a program of one rank: with MPI and the task runtime, in a process of its own
void program(Gen& g, const std::function<void()>& f) {
  const auto cfg = gen_config(g, 1);
  sim_run(cfg, [&](int) {
    pika::sim_rt::state() = {};
    pika::sim_rt::state().initialized = true;
    f();
    sim::wait_rank_idle();
  });
}
struct Captured {  // standard output
  std::ostringstream s;
  std::streambuf* old = std::cout.rdbuf(s.rdbuf());
  ~Captured() {
    std::cout.rdbuf(old);
  }
};
void clear_environment() {
  for (const auto& o : options())
    unsetenv(("DLAF_" + o.env).c_str());
}

PBT_SUB(precedence, 15000, 400000, "some option is given by two sources") {
  clear_environment();
  configuration user;
  const int rounds = g.chance(1, 4) ? 2 : 1;
  bool two = false;
  program(g, [&] {
    TuneParameters tune;  // what the caller sets
    {
      const std::size_t threads = sim::config().os_threads, half = threads / 2 ? threads / 2 : 1;
      PBT_EQ(tune.tfactor_num_threads, half, "default");
      PBT_EQ(tune.red2band_panel_num_threads, half, "default");
      PBT_EQ(tune.tridiag_rank1_num_threads, threads, "default");
    }
    dlaf::getTuneParameters() = tune;
    for (int round = 0; round < rounds; ++round) {
      user = {};
      clear_environment();
      std::vector<std::string> args{"program"};
      std::vector<std::string> want;
      const auto density = g.range(1, 4);
      for (const auto& o : options()) {
        int sources = 0;
        const auto value = [&] { return o.flag ? std::string(g.boolean() ? "1" : "0") : o.value(g); };
        if (g.chance(1, 6)) {  // by the caller
          const auto v = value();
          o.set(user, dlaf::getTuneParameters(), v);
          ++sources;
        }
        std::string w = o.get(user, dlaf::getTuneParameters());
        if (g.chance(static_cast<pbt::u64>(density), 8)) {
          const auto v = value();
          std::string t = v;
          if (o.flag)
            t = v == "1" ? g.pick({"1", "ON", "true", "Yes"}) : g.pick({"0", "off", "FALSE", "no"});
          g << " " << o.env << "=" << t;
          setenv(("DLAF_" + o.env).c_str(), t.c_str(), 1);
          w = canonical(o, v);
          ++sources;
        }
        if (!o.cmd.empty() && g.chance(static_cast<pbt::u64>(density), 8)) {
          if (o.flag) {
            args.push_back("--dlaf:" + o.cmd);
            w = "1";
          }
          else {
            const auto v = value();
            if (g.boolean())
              args.push_back("--dlaf:" + o.cmd + "=" + v);
            else {
              args.push_back("--dlaf:" + o.cmd);
              args.push_back(v);
            }
            w = canonical(o, v);
          }
          g << " " << args.back();
          ++sources;
        }
        if (sources > 1)
          two = true;
        want.push_back(w);
      }
      std::vector<const char*> argv;
      for (const auto& a : args)
        argv.push_back(a.c_str());
      const auto polls = pika::mpi::experimental::poll_state();
      const int how = static_cast<int>(g.below(3));
      std::string out;
      {
        std::unique_ptr<dlaf::ScopedInitializer> scope;
        Captured c;
        const int argc = static_cast<int>(argv.size());
        if (how == 0)
          dlaf::initialize(argc, argv.data(), user);
        else if (how == 1)
          scope = std::make_unique<dlaf::ScopedInitializer>(argc, argv.data(), user);
        else {
          pika::program_options::variables_map vm;
          pika::program_options::store(pika::program_options::parse_command_line(argc, argv.data(), dlaf::getOptionsDescription()), vm);
          pika::program_options::notify(vm);
          if (g.boolean())
            scope = std::make_unique<dlaf::ScopedInitializer>(vm, user);
          else
            dlaf::initialize(vm, user);
        }
        out = c.s.str();
        const auto& cfg = dlaf::internal::getConfiguration();
        const auto& tp = dlaf::getTuneParameters();
        for (std::size_t i = 0; i < want.size(); ++i)
          PBT_EQ(options()[i].get(cfg, tp), want[i], "value of option ", options()[i].env);
        PBT_EQ(!out.empty(), cfg.print_config, "something is printed");
        PBT_EQ(pika::mpi::experimental::poll_state().starts, polls.starts + 1, "polling of MPI is started");
        if (cfg.print_config)
          for (std::size_t i = 0; i < want.size(); ++i) {
            const auto& o = options()[i];
            if (o.name.empty())
              continue;
            std::istringstream lines(out);
            std::string line;
            int found = 0;
            while (std::getline(lines, line)) {
              std::istringstream words(line);
              std::string name, eq, v;
              words >> name >> eq >> v;
              if (name != o.name)
                continue;
              ++found;
              std::ostringstream expected;  // numbers are printed with the precision of the stream
              if (want[i].find('.') == std::string::npos)
                expected << want[i];
              else
                expected << from<double>(want[i]);
              PBT_EQ(canonical(o, v), expected.str(), "printed value of ", o.name);
            }
            PBT_EQ(found, 1, "the printed configuration names ", o.name);
          }
        if (!scope)
          dlaf::finalize();
      }
      PBT_EQ(pika::mpi::experimental::poll_state().stops, polls.stops + 1, "polling of MPI is stopped");
      const configuration fresh;
      for (const auto& o : options())
        if (!o.tune)
          PBT_EQ(o.get(dlaf::internal::getConfiguration(), dlaf::getTuneParameters()), o.get(fresh, dlaf::getTuneParameters()),
                 "after the shut-down the configuration is the default one");
    }
  });
  clear_environment();
  g.nontrivial_if(two);
}

PBT_SUB(refused, 1500, 20000, "the life cycle or a value is wrong") {
  clear_environment();
  const char* argv[] = {"program"};
  const auto what = g.below(6);
  g.nontrivial();
  program(g, [&] {
    switch (what) {
      case 0: {
        g.label("initialized twice");
        dlaf::initialize(1, argv);
        PBT_CHECK(pbt::dies([&] { dlaf::initialize(1, argv); }), "a second initialization is accepted");
        dlaf::finalize();
        break;
      }
      case 1: {
        g.label("finalized without initialization");
        if (g.boolean()) {
          dlaf::initialize(1, argv);
          dlaf::finalize();
        }
        PBT_CHECK(pbt::dies([&] { dlaf::finalize(); }), "a shut-down without initialization is accepted");
        break;
      }
      case 2: {
        g.label("invalid switch");
        std::string env;
        for (int i = 0; i < 30; ++i) {
          const auto& o = g.pick_from(options());
          if (o.flag) {
            env = "DLAF_" + o.env;
            break;
          }
        }
        if (env.empty())
          return;
        const auto v = std::string(g.pick({"maybe", "2", "", "onn", "tru"}));
        g << " " << env << "='" << v << "'";
        setenv(env.c_str(), v.c_str(), 1);
        PBT_CHECK(pbt::dies([&] { dlaf::initialize(1, argv); }), "the value is accepted");
        break;
      }
      case 3: {
        g.label("invalid number or layout");
        const Option* o = nullptr;
        for (int i = 0; i < 30 && !o; ++i) {
          const auto& c = g.pick_from(options());
          if (!c.flag)
            o = &c;
        }
        if (!o)
          return;
        const auto v = std::string(g.pick({"x", "-", "many", "#3"}));
        const bool env = g.boolean();
        g << " " << o->env << "='" << v << "'";
        if (env)
          setenv(("DLAF_" + o->env).c_str(), v.c_str(), 1);
        const std::string arg = "--dlaf:" + o->cmd + "=" + v;
        const char* args[] = {"program", arg.c_str()};
        PBT_CHECK(pbt::dies([&] { dlaf::initialize(env ? 1 : 2, args); }), "the value is accepted");
        break;
      }
      case 4: {
        g.label("unknown option");
        const std::string arg = std::string(g.pick({"--dlaf:nothing=3", "--dlaf:eigensolver-max-band=3"}));
        const char* args[] = {"program", arg.c_str()};
        PBT_CHECK(pbt::dies([&] { dlaf::initialize(2, args); }), "an unknown option is accepted");
        break;
      }
      default: {
        g.label("tune parameters without runtime");
        pika::sim_rt::state().initialized = false;
        PBT_CHECK(pbt::dies([&] { TuneParameters t; }), "tune parameters exist without a runtime");
        pika::sim_rt::state().initialized = true;
      }
    }
  });
  clear_environment();
}
}  // namespace
