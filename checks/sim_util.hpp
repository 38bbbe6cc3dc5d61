// Glue between the PBT engine and the simulation
#pragma once
#include <sim/kernel.hpp>
#include <sim/simmpi.hpp>

#include "pbt.hpp"

inline void sim_to_pbt_fail(const std::string& kind, const std::string& msg) {
  pbt::fail(kind, msg);
}

// schedule of a run: everything is drawn from the case. Simplest: first in first out, one task at a time
// per rank in turn, eager messages.
inline sim::Config gen_config(pbt::Gen& g, int nranks) {
  sim::Config c;
  c.nranks = nranks;
  c.task_order = g.pick({sim::TaskOrder::Fifo, sim::TaskOrder::RandomPrio, sim::TaskOrder::Lifo,
                         sim::TaskOrder::Jitter, sim::TaskOrder::HonorPrio});
  c.rank_order = g.pick({sim::RankOrder::RoundRobin, sim::RankOrder::Random, sim::RankOrder::Starve});
  c.mpi_mode = g.pick({sim::MpiMode::Eager, sim::MpiMode::Rendezvous, sim::MpiMode::Mixed});
  c.os_threads = static_cast<unsigned>(g.pick({4, 2, 1, 3, 8}));
  c.seed = g.below(1u << 20);
  g << " sched{order=" << static_cast<int>(c.task_order) << "/" << static_cast<int>(c.rank_order)
    << " mpi=" << static_cast<int>(c.mpi_mode) << " threads=" << c.os_threads << " seed=" << c.seed << "}";
  return c;
}

inline void sim_run(const sim::Config& c, const std::function<void(int)>& f) {
  sim::set_fail_handler(sim_to_pbt_fail);
  sim::run(c, f);
}
