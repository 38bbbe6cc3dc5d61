// C10: textual names of enumerations and string helpers
#include <cctype>
#include <iomanip>
#include <sstream>
#include <string>
#include <vector>

#include <blas.hh>
#include <lapack/util.hh>

#include <dlaf/blas/enum_output.h>
#include <dlaf/blas/enum_parse.h>
#include <dlaf/common/format_short.h>
#include <dlaf/common/source_location.h>
#include <dlaf/eigensolver/tridiag_solver/coltype.h>
#include <dlaf/lapack/enum_output.h>
#include <dlaf/types.h>
#include <dlaf/util_string.h>

#include "pbt.hpp"

using dlaf::internal::FormatShort;
using pbt::Gen;

namespace {
std::string lower(std::string s) {
  for (auto& c : s)
    c = static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
  return s;
}
// spelling used by the BLAS/LAPACK wrappers without separators: the independent source of the names
std::string plain(const char* s) {
  std::string r;
  for (; *s; ++s)
    if (std::isalpha(static_cast<unsigned char>(*s)))
      r += static_cast<char>(*s);
  return lower(r);
}

struct Item {
  std::string expect;
  void (*put)(std::ostream&, int);
  int v;
};
template <class E>
constexpr E at(std::initializer_list<E> l, int i) {
  return *(l.begin() + i);
}
const std::initializer_list<blas::Diag> diags{blas::Diag::Unit, blas::Diag::NonUnit};
const std::initializer_list<blas::Layout> layouts{blas::Layout::RowMajor, blas::Layout::ColMajor};
const std::initializer_list<blas::Op> ops{blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans};
const std::initializer_list<blas::Side> sides{blas::Side::Left, blas::Side::Right};
const std::initializer_list<blas::Uplo> uplos{blas::Uplo::Lower, blas::Uplo::Upper, blas::Uplo::General};
using dlaf::eigensolver::internal::ColType;

Item gen_item(Gen& g) {
  switch (g.below(14)) {
    case 0: {
      const int i = static_cast<int>(g.below(2));
      return {i == 0 ? "Unit" : "NonUnit", [](std::ostream& o, int k) { o << at(diags, k); }, i};
    }
    case 1: {
      const int i = static_cast<int>(g.below(2));
      return {i == 0 ? "RowMajor" : "ColMajor", [](std::ostream& o, int k) { o << at(layouts, k); }, i};
    }
    case 2: {
      const int i = static_cast<int>(g.below(3));
      const char* n[] = {"NoTrans", "Trans", "ConjTrans"};
      return {n[i], [](std::ostream& o, int k) { o << at(ops, k); }, i};
    }
    case 3: {
      const int i = static_cast<int>(g.below(2));
      return {i == 0 ? "Left" : "Right", [](std::ostream& o, int k) { o << at(sides, k); }, i};
    }
    case 4: {
      const int i = static_cast<int>(g.below(3));
      const char* n[] = {"Lower", "Upper", "General"};
      return {n[i], [](std::ostream& o, int k) { o << at(uplos, k); }, i};
    }
    case 5: {
      const int i = static_cast<int>(g.below(2));
      return {std::string(1, blas::diag2char(at(diags, i))), [](std::ostream& o, int k) { o << FormatShort{at(diags, k)}; }, i};
    }
    case 6: {
      const int i = static_cast<int>(g.below(2));
      return {std::string(1, blas::layout2char(at(layouts, i))),
              [](std::ostream& o, int k) { o << FormatShort{at(layouts, k)}; }, i};
    }
    case 7: {
      const int i = static_cast<int>(g.below(3));
      return {std::string(1, blas::op2char(at(ops, i))), [](std::ostream& o, int k) { o << FormatShort{at(ops, k)}; }, i};
    }
    case 8: {
      const int i = static_cast<int>(g.below(2));
      return {std::string(1, blas::side2char(at(sides, i))), [](std::ostream& o, int k) { o << FormatShort{at(sides, k)}; }, i};
    }
    case 9: {
      const int i = static_cast<int>(g.below(3));
      return {std::string(1, blas::uplo2char(at(uplos, i))), [](std::ostream& o, int k) { o << FormatShort{at(uplos, k)}; }, i};
    }
    case 10: {
      const int i = static_cast<int>(g.below(2));
      return {i == 0 ? "CPU" : "GPU",
              [](std::ostream& o, int k) { o << (k == 0 ? dlaf::Device::CPU : dlaf::Device::GPU); }, i};
    }
    case 11: {
      const int i = static_cast<int>(g.below(2));
      return {i == 0 ? "MC" : "GPU",
              [](std::ostream& o, int k) { o << (k == 0 ? dlaf::Backend::MC : dlaf::Backend::GPU); }, i};
    }
    case 12: {
      const int i = static_cast<int>(g.below(4));
      const char* n[] = {"UpperHalf", "LowerHalf", "Dense", "Deflated"};
      return {n[i],
              [](std::ostream& o, int k) {
                const ColType c[] = {ColType::UpperHalf, ColType::LowerHalf, ColType::Dense, ColType::Deflated};
                o << c[k];
              },
              i};
    }
    default: {
      const int i = static_cast<int>(g.below(5));
      const char* n[] = {"OneNorm", "TwoNorm", "InfinityNorm", "FrobeniusNorm", "MaxNorm"};
      return {n[i],
              [](std::ostream& o, int k) {
                const lapack::Norm c[] = {lapack::Norm::One, lapack::Norm::Two, lapack::Norm::Inf, lapack::Norm::Fro,
                                          lapack::Norm::Max};
                o << c[k];
              },
              i};
    }
  }
}
template <class T>
std::string show(const T& t) {
  std::ostringstream s;
  s << t;
  return s.str();
}
}  // namespace

PBT_SUB(streams, 400000, 6000000, "at least 3 values of at least 2 kinds written to one stream") {
  const int n = static_cast<int>(g.range(1, 10));
  std::ostringstream s;
  std::string want;
  std::string first;
  bool mixed = false;
  for (int i = 0; i < n; ++i) {
    const Item it = gen_item(g);
    it.put(s, it.v);
    if (i == 0)
      first = it.expect;
    mixed |= it.expect != first;
    want += it.expect;
    if (g.boolean()) {
      s << ' ' << i;
      want += ' ' + std::to_string(i);
    }
  }
  g << want;
  g.nontrivial_if(n >= 3 && mixed);
  PBT_EQ(s.str(), want);
  PBT_CHECK(s.good(), "stream state");
}

PBT_SUB(blas_spelling, 50000, 300000, "always: the written name is the one the BLAS and LAPACK libraries use for the same value") {
  const auto d = g.pick({blas::Diag::Unit, blas::Diag::NonUnit});
  const auto l = g.pick({blas::Layout::RowMajor, blas::Layout::ColMajor});
  const auto o = g.pick({blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans});
  const auto s = g.pick({blas::Side::Left, blas::Side::Right});
  const auto u = g.pick({blas::Uplo::Lower, blas::Uplo::Upper, blas::Uplo::General});
  const auto m = g.pick({lapack::MatrixType::General, lapack::MatrixType::Lower, lapack::MatrixType::Upper,
                         lapack::MatrixType::Hessenberg});
  g << d << l << o << s << u << m;
  g.nontrivial();
  PBT_EQ(lower(show(d)), plain(blas::diag2str(d)));
  PBT_EQ(lower(show(s)), plain(blas::side2str(s)));
  PBT_EQ(lower(show(u)), plain(blas::uplo2str(u)));
  PBT_EQ(show(m), std::string(lapack::matrixtype2str(m)));
  PBT_EQ(show(FormatShort{d}), std::string(1, blas::diag2char(d)));
  PBT_EQ(show(FormatShort{l}), std::string(1, blas::layout2char(l)));
  PBT_EQ(show(FormatShort{o}), std::string(1, blas::op2char(o)));
  PBT_EQ(show(FormatShort{s}), std::string(1, blas::side2char(s)));
  PBT_EQ(show(FormatShort{u}), std::string(1, blas::uplo2char(u)));
  // the short name is read back as the same value
  PBT_CHECK(dlaf::internal::char2uplo(show(FormatShort{u})[0]) == u, "short name of ", u, " reads back as another value");
  PBT_CHECK(dlaf::internal::char2uplo(static_cast<char>(std::tolower(show(FormatShort{u})[0]))) == u, "lower case short name of ", u);
}

PBT_SUB(parse_uplo, 60000, 600000, "always: any byte; exactly l, u and g in either case name a triangle, everything else is refused") {
  const char c = static_cast<char>(g.boolean() ? g.pick({'L', 'U', 'G', 'l', 'u', 'g'}) : static_cast<char>(g.below(256)));
  g << static_cast<int>(static_cast<unsigned char>(c));
  g.nontrivial();
  const char lc = static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
  bool threw = false;
  blas::Uplo u{};
  try {
    u = dlaf::internal::char2uplo(c);
  }
  catch (const std::exception&) {
    threw = true;
  }
  if (lc == 'l' || lc == 'u' || lc == 'g') {
    PBT_CHECK(!threw, "refused");
    PBT_CHECK(u == (lc == 'l' ? blas::Uplo::Lower : lc == 'u' ? blas::Uplo::Upper : blas::Uplo::General), "is ", u);
  }
  else
    PBT_CHECK(threw, "accepted as ", u);
}

PBT_SUB(lower_case, 300000, 5000000, "a string with upper case letters and bytes outside of ASCII or embedded zeros") {
  const auto n = static_cast<std::size_t>(g.logrange(0, 300));
  std::string s;
  bool up = false, odd = false;
  for (std::size_t i = 0; i < n; ++i) {
    char c;
    switch (g.below(4)) {
      case 0: c = static_cast<char>('a' + g.below(26)); break;
      case 1: c = static_cast<char>('A' + g.below(26)); break;
      case 2: c = static_cast<char>(32 + g.below(95)); break;
      default: c = static_cast<char>(g.below(256)); break;
    }
    up |= c >= 'A' && c <= 'Z';
    odd |= c <= 0;
    s += c;
  }
  const std::string keep = s;
  g.note("length ", n);
  g.nontrivial_if(up && odd);
  const std::string r = dlaf::util::copy_to_lower(s);
  PBT_CHECK(s == keep, "the argument changed");
  PBT_EQ(r.size(), s.size());
  for (std::size_t i = 0; i < n; ++i)
    PBT_CHECK(r[i] == (s[i] >= 'A' && s[i] <= 'Z' ? static_cast<char>(s[i] + 32) : s[i]), "byte ", i, " (",
              static_cast<int>(s[i]), ") became ", static_cast<int>(r[i]));
  PBT_CHECK(dlaf::util::copy_to_lower(r) == r, "not idempotent");
}
