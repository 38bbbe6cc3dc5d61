// C43: what the library derives from the tuning parameters — band size, block size of the one-dimensional distribution,
// numbers of workers, waits. Oracle: the definitions, by enumeration.
#include <chrono>
#include <cmath>
#include <limits>

#include <pika/runtime.hpp>

#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>
#include <dlaf/factorization/qr/internal/get_tfactor_barrier_busy_wait.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>

#include "sim_util.hpp"

using dlaf::SizeType;
using dlaf::TuneParameters;
using pbt::Gen;
namespace ei = dlaf::eigensolver::internal;
namespace fi = dlaf::factorization::internal;

namespace {
// the parameters of the process for one case
template <class F, class G>
void with_parameters(sim::Config cfg, F&& change, G&& body) {
  sim_run(cfg, [&](int) {
    pika::start(0, nullptr);
    TuneParameters t;
    change(t);
    dlaf::getTuneParameters() = t;
    body();
  });
}
SizeType composite(Gen& g) {
  SizeType n = 1;
  for (int i = static_cast<int>(g.range(0, 8)); i > 0; --i) {
    const SizeType p = g.pick({2, 3, 5, 2, 7, 11, 2});
    if (n <= 2000000 / p)
      n *= p;
  }
  return n;
}
}  // namespace

PBT_SUB(band_size, 150000, 2000000, "the band is neither the whole block nor the minimum") {
  sim::Config cfg = gen_config(g, 1);
  const int kind = static_cast<int>(g.below(5));
  const SizeType nb = kind == 0 ? g.range(1, 60) : kind == 1 ? g.range(1, 2000) : kind == 2 ? composite(g)
                    : kind == 3 ? g.range(1, 100000) : g.range(2, 1400) * g.range(2, 1400);
  SizeType bmin = kind == 0 ? g.range(2, 70) : g.chance(1, 3) ? g.range(2, std::max<SizeType>(2, nb + 2)) : g.range(2, 200);
  if (g.chance(1, 20))
    bmin = std::numeric_limits<SizeType>::max() - g.range(0, 3);
  g << "block " << nb << " at least " << bmin;
  SizeType want = nb;
  for (SizeType d = 1; d * d <= nb; ++d)
    if (nb % d == 0)
      for (SizeType b : {d, nb / d})
        if (b >= bmin && b < want)
          want = b;
  g.label(want == nb ? "whole block" : want == bmin ? "minimum" : "between");
  g.nontrivial_if(want != nb && want != bmin);
  with_parameters(
      cfg, [&](TuneParameters& t) { t.eigensolver_min_band = bmin; },
      [&] { PBT_EQ(ei::getBandSize(nb), want, "band of a block of ", nb, " with at least ", bmin); });
}

PBT_SUB(block_size_1d, 150000, 2000000, "several blocks, not exactly the base") {
  sim::Config cfg = gen_config(g, 1);
  SizeType nb = g.chance(1, 2) ? g.range(1, 50) : g.chance(1, 2) ? g.range(1, 20000) : g.range(1, SizeType(1) << 40);
  const SizeType base = g.chance(1, 3) ? 8192 : g.chance(1, 2) ? g.range(1, 300) : g.range(1, SizeType(1) << 41);
  if (g.chance(1, 10))
    nb = std::max<SizeType>(1, base + g.range(-2, 2));
  g << "block " << nb << " base " << base;
  SizeType want = nb;  // the largest multiple that is not larger than the base, but at least one block
  if (nb <= base)
    want = base - base % nb;
  g.nontrivial_if(want > nb && want != base);
  with_parameters(
      cfg, [&](TuneParameters& t) { t.band_to_tridiag_1d_block_size_base = base; },
      [&] { PBT_EQ(ei::get1DBlockSize(nb), want, "distribution block of ", nb, " with base ", base); });
}

PBT_SUB(refused, 2500, 25000, "always: a block, a minimum or a base that is too small, next to the smallest good ones") {
  sim::Config cfg = gen_config(g, 1);
  const int what = static_cast<int>(g.below(4));
  const SizeType bad = g.chance(1, 2) ? (what == 1 ? g.range(0, 1) : 0) : -g.range(1, SizeType(1) << 40);
  const SizeType good = g.range(1, 500);
  g << "what " << what << " " << bad << " " << good;
  g.nontrivial();
  const bool refused = pbt::aborts([&] {
    with_parameters(
        cfg,
        [&](TuneParameters& t) {
          if (what == 1)
            t.eigensolver_min_band = bad;
          if (what == 3)
            t.band_to_tridiag_1d_block_size_base = bad;
        },
        [&] {
          volatile SizeType x = 0;
          x = what == 0 ? ei::getBandSize(bad) : what == 1 ? ei::getBandSize(good)
            : what == 2 ? ei::get1DBlockSize(bad) : ei::get1DBlockSize(good);
          (void) x;
        });
  });
  PBT_CHECK(refused, "was accepted");
  with_parameters(
      cfg,
      [&](TuneParameters& t) {
        t.eigensolver_min_band = 2;
        t.band_to_tridiag_1d_block_size_base = 1;
      },
      [&] {
        PBT_EQ(ei::getBandSize(1), 1, "band of the smallest block");
        PBT_EQ(ei::getBandSize(2 * good), 2, "the smallest band");
        PBT_EQ(ei::get1DBlockSize(1), 1, "the smallest block");
        PBT_EQ(ei::get1DBlockSize(good), good, "one block");
      });
}

PBT_SUB(workers, 150000, 1500000, "a number that is asked for but not available, or none") {
  sim::Config cfg = gen_config(g, 1);
  cfg.os_threads = static_cast<unsigned>(g.chance(1, 2) ? g.range(1, 6) : g.range(1, 300));
  const auto draw = [&] {
    const std::size_t n = g.chance(1, 8) ? std::numeric_limits<std::size_t>::max() - g.below(2)
                                         : static_cast<std::size_t>(g.range(0, static_cast<SizeType>(cfg.os_threads) + 3));
    return n;
  };
  const std::size_t r2b = draw(), tf = draw(), r1 = draw();
  const std::size_t w0 = g.below(g.chance(1, 3) ? 3000000 : 3000), w1 = g.below(3000), w2 = g.below(3000);
  const bool defaults = g.chance(1, 8);
  const std::size_t n = cfg.os_threads;
  g << n << " threads, asked " << r2b << " " << tf << " " << r1 << (defaults ? " defaults" : "") << " waits " << w0 << " " << w1 << " " << w2;
  // at least one; one thread is left for other work, except by the rank 1 update
  const auto within = [](std::size_t asked, std::size_t most) {
    return asked < 1 ? 1 : asked > std::max<std::size_t>(1, most) ? std::max<std::size_t>(1, most) : asked;
  };
  g.nontrivial_if(r2b == 0 || tf >= n || r1 > n);
  with_parameters(
      cfg,
      [&](TuneParameters& t) {
        if (defaults)
          return;
        t.red2band_panel_num_threads = r2b;
        t.tfactor_num_threads = tf;
        t.tridiag_rank1_num_threads = r1;
        t.red2band_barrier_busy_wait_us = w0;
        t.tfactor_barrier_busy_wait_us = w1;
        t.tridiag_rank1_barrier_busy_wait_us = w2;
      },
      [&] {
        const std::size_t half = std::max<std::size_t>(1, n / 2);
        PBT_EQ(ei::get_red2band_panel_num_workers(), within(defaults ? half : r2b, n - 1), "workers of a panel");
        PBT_EQ(fi::get_tfactor_num_workers<dlaf::Backend::MC>(), within(defaults ? half : tf, n - 1), "workers of a T factor");
        PBT_EQ(ei::get_tridiag_rank1_num_workers(), within(defaults ? n : r1, n), "workers of a rank 1 update");
        PBT_CHECK(ei::get_red2band_panel_worker_minwork() >= 1, "work of a worker");
        const auto us = [](std::chrono::duration<double> d) { return std::llround(d.count() * 1e6); };
        PBT_EQ(us(ei::getReductionToBandBarrierBusyWait()), static_cast<long long>(defaults ? 1000 : w0), "wait of a panel");
        PBT_EQ(us(fi::getTFactorBarrierBusyWait()), static_cast<long long>(defaults ? 0 : w1), "wait of a T factor");
        PBT_EQ(us(ei::getTridiagRank1BarrierBusyWait()), static_cast<long long>(defaults ? 0 : w2), "wait of a rank 1 update");
      });
}
