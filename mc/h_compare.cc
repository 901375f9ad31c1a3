// C11: every comparison of every pair of handles (and handle/plain value) from
// finite alphabets of value types, values, valueless states and allocators,
// with every table of operator results over a two-element domain.
#ifdef MC_CXX20
#include "indirect.h"
#include <compare>
#else
#include "indirect_cxx14.h"
#endif
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include "mini.hpp"
#include "types.hpp"
using mini::at;
using mini::fail;

namespace {
long allocs;
}
// an allocator that only counts; instances differ
template <class T, int Tag = 0>
struct CA {
  using value_type = T;
  template <class U>
  struct rebind {
    using other = CA<U, Tag>;
  };
  int id = Tag;
  CA() = default;
  explicit CA(int i) : id(i) {}
  template <class U>
  CA(const CA<U, Tag>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    ++allocs;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, std::size_t n) {
    ++allocs;
    std::allocator<T>().deallocate(p, n);
  }
  friend bool operator==(const CA& a, const CA& b) { return a.id == b.id; }
  friend bool operator!=(const CA& a, const CA& b) { return a.id != b.id; }
};

#ifdef MC_CXX20
template <class O>
const char* cat_name() {
  return std::is_same_v<O, std::strong_ordering>    ? "strong"
         : std::is_same_v<O, std::weak_ordering>    ? "weak"
         : std::is_same_v<O, std::partial_ordering> ? "partial"
                                                    : "other";
}
using PO = std::partial_ordering;
inline std::string po(PO o) {
  return o == 0 ? "equivalent" : o < 0 ? "less" : o > 0 ? "greater" : "unordered";
}
#endif

// ---- how each value type is described -------------------------------------
// Handle factory: k-th value, or valueless for k < 0.
template <class H, class V>
H make_handle(const V& v, bool valueless) {
  H h(std::allocator_arg, typename H::allocator_type(), v);
  if (valueless) {
    H g(std::move(h));
    (void)g;
  }
  return h;
}

// Which operators a pair of value types offers is said by the caller.
enum : unsigned { EQ = 1, REL = 2, TW = 4, NEQ = 8 };

template <class L, class R, class AL, class AR>
struct Pairs {
  using HL = xyz::indirect<L, AL>;
  using HR = xyz::indirect<R, AR>;

  // eq: expected ==; ne: expected !=; lt.. : expected relations of the values
  struct Want {
    bool eq = false, ne = true, lt = false, gt = false, le = false, ge = false;
  };
  static void valueless(Want& w, bool l, bool r) {
    // both or one valueless
    w.eq = l && r;
    w.ne = !w.eq;
    w.lt = l && !r;
    w.gt = r && !l;
    w.le = l;
    w.ge = r;
  }

  template <unsigned Ops, class A, class B>
  static void ops(const char* what, const A& a, const B& b, const Want& w) {
    long before = allocs;
    ops_eq(std::integral_constant<bool, (Ops & EQ) != 0>{}, what, a, b, w);
    ops_ne(std::integral_constant<bool, (Ops & NEQ) != 0>{}, what, a, b, w);
    ops_rel(std::integral_constant<bool, (Ops & REL) != 0>{}, what, a, b, w);
    if (allocs != before) fail("%s: comparing allocated or deallocated", what);
  }
#define ONE(OP, FIELD)                                                        \
  do {                                                                        \
    ++mini::sh->executions;                                                   \
    bool got = (a OP b);                                                      \
    if (got != w.FIELD)                                                       \
      fail("%s: handle " #OP " gives %s, should be %s", what,                 \
           got ? "true" : "false", w.FIELD ? "true" : "false");               \
  } while (0)
  template <class A, class B>
  static void ops_eq(std::true_type, const char* what, const A& a, const B& b, const Want& w) {
    ONE(==, eq);
  }
  template <class A, class B>
  static void ops_eq(std::false_type, const char*, const A&, const B&, const Want&) {}
  template <class A, class B>
  static void ops_ne(std::true_type, const char* what, const A& a, const B& b, const Want& w) {
    ONE(!=, ne);
  }
  template <class A, class B>
  static void ops_ne(std::false_type, const char*, const A&, const B&, const Want&) {}
  template <class A, class B>
  static void ops_rel(std::true_type, const char* what, const A& a, const B& b, const Want& w) {
    ONE(<, lt);
    ONE(>, gt);
    ONE(<=, le);
    ONE(>=, ge);
  }
  template <class A, class B>
  static void ops_rel(std::false_type, const char*, const A&, const B&, const Want&) {}
#undef ONE

  // plain: whether comparisons with plain values are to be tried
  template <unsigned Ops, class F>
  static void one(const L& l, const R& r, F want, const std::string& nm, bool sym = true) {
    for (int vl = 0; vl < 2; ++vl)
      for (int vr = 0; vr < 2; ++vr) {
        mini::state();
        HL hl = make_handle<HL>(l, vl != 0);
        HR hr = make_handle<HR>(r, vr != 0);
        at("%s l%s r%s", nm.c_str(), vl ? " valueless" : "", vr ? " valueless" : "");
        Want w;
        if (vl || vr)
          valueless(w, vl != 0, vr != 0);
        else
          w = want;
        const void* pl = vl ? nullptr : static_cast<const void*>(hl.operator->());
        const void* pr = vr ? nullptr : static_cast<const void*>(hr.operator->());
        mini::step();
        ops<Ops>("handle/handle", hl, hr, w);
        if (!vr) {  // handle / plain value: a plain value is never valueless
          mini::step();
          ops<Ops>("handle/value", hl, r, w);
          const R& cr = r;
          ops<Ops>("handle/const value", static_cast<const HL&>(hl), cr, w);
        }
        // (C++20 reverses the operands of value/handle comparisons, which only
        // makes a difference for operators no order can have)
        if (!vl && sym) {
          mini::step();
          ops<Ops>("value/handle", l, hr, w);
        }
        const void* ql = hl.valueless_after_move()
                             ? nullptr
                             : static_cast<const void*>(hl.operator->());
        const void* qr = hr.valueless_after_move()
                             ? nullptr
                             : static_cast<const void*>(hr.operator->());
        if (pl != ql || pr != qr) fail("comparing changed an operand");
      }
  }
};

// ---- values of the language and library -----------------------------------
// What the values' own operators say.
template <class W, class L, class R>
W direct(const L& l, const R& r) {
  W w;
  w.eq = l == r;
  w.ne = l != r;
  w.lt = l < r;
  w.gt = l > r;
  w.le = l <= r;
  w.ge = l >= r;
  return w;
}

template <class T>
std::string show(const T& x) { return std::to_string(x); }
inline std::string show(const std::string& s) { return "\"" + s + "\""; }
inline std::string show(const char* s) { return std::string("\"") + s + "\""; }
inline std::string show(const std::vector<int>& v) {
  std::string s = "[";
  for (int i : v) s += std::to_string(i) + " ";
  return s + "]";
}
#ifdef MC_CXX20
// <=> of handles, against <=> of the values
template <class HL, class HR, class L, class R>
void three(const HL& hl, const HR& hr, const L& l, const R& r, bool vl, bool vr) {
  using Want = decltype(l <=> r);
  using Got = decltype(hl <=> hr);
  ++mini::sh->executions;
  if (!std::is_same_v<Want, Got>)
    fail("<=> has category %s, the values' has %s", cat_name<Got>(), cat_name<Want>());
  PO want = vl && vr ? PO(PO::equivalent)
            : vl     ? PO(PO::less)
            : vr     ? PO(PO::greater)
                     : PO(l <=> r);
  PO got = hl <=> hr;
  if (got != want && !(po(got) == po(want)))
    fail("<=> gives %s, should be %s", po(got).c_str(), po(want).c_str());
  if (!vr) {
    using GotP = decltype(hl <=> r);
    if (!std::is_same_v<Want, GotP>)
      fail("<=> with a value has category %s, the values' has %s", cat_name<GotP>(),
           cat_name<Want>());
    PO g = hl <=> r;
    if (po(g) != po(want))
      fail("handle <=> value gives %s, should be %s", po(g).c_str(), po(want).c_str());
  }
  if (!vl) {
    using GotP = decltype(l <=> hr);
    if (!std::is_same_v<Want, GotP>) fail("value <=> handle has the wrong category");
    PO g = l <=> hr;
    if (po(g) != po(want))
      fail("value <=> handle gives %s, should be %s", po(g).c_str(), po(want).c_str());
  }
}
#endif

template <class L, class R, class AL, class AR>
void values(const char* name, const std::vector<L>& ls, const std::vector<R>& rs) {
  using P = Pairs<L, R, AL, AR>;
  for (auto& l : ls)
    for (auto& r : rs) {
      auto w = direct<typename P::Want>(l, r);
      std::string nm = std::string(name) + " " + show(l) + " " + show(r);
      P::template one<EQ | NEQ | REL>(l, r, w, nm);
#ifdef MC_CXX20
      for (int vl = 0; vl < 2; ++vl)
        for (int vr = 0; vr < 2; ++vr) {
          auto hl = make_handle<typename P::HL>(l, vl);
          auto hr = make_handle<typename P::HR>(r, vr);
          at("%s l%s r%s", nm.c_str(), vl ? " valueless" : "", vr ? " valueless" : "");
          mini::step();
          three(hl, hr, l, r, vl, vr);
        }
#endif
    }
}
template <class T>
void both(const char* name, const std::vector<T>& v) {
  values<T, T, std::allocator<T>, std::allocator<T>>(name, v, v);
  values<T, T, CA<T, 1>, CA<T, 1>>(name, v, v);
  values<T, T, CA<T, 1>, CA<T, 2>>(name, v, v);
}

MINI_PART("int") {
  using L = std::numeric_limits<int>;
  both<int>("int", {L::min(), -1, 0, 1, L::max()});
  both<unsigned>("unsigned", {0u, 1u, 0x80000000u, 0xffffffffu});
}
MINI_PART("double") {
  using L = std::numeric_limits<double>;
  both<double>("double", {L::quiet_NaN(), -L::infinity(), -1.5, -0.0, 0.0, L::denorm_min(),
                          1.5, L::infinity()});
}
MINI_PART("string") { both<std::string>("string", {"", "a", "ab", "b"}); }
MINI_PART("vector") { both<std::vector<int>>("vector", {{}, {0}, {0, 1}, {1}}); }
MINI_PART("mixed arithmetic") {
  using D = std::numeric_limits<double>;
  std::vector<int> i = {-2, 0, 1, 2000000};
  std::vector<double> d = {D::quiet_NaN(), -D::infinity(), -2, 0.5, 1, D::infinity()};
  std::vector<long> l = {-2, 0, 1, 1L << 40};
  std::vector<signed char> c = {-2, 0, 1};
  std::vector<float> f = {std::numeric_limits<float>::quiet_NaN(), 0.1f, 1};
  values<int, double, std::allocator<int>, std::allocator<double>>("int/double", i, d);
  values<double, int, CA<double, 1>, CA<int, 2>>("double/int", d, i);
  values<int, long, CA<int, 1>, std::allocator<long>>("int/long", i, l);
  values<signed char, long, CA<signed char, 1>, std::allocator<long>>("char/long", c, l);
  values<float, double, std::allocator<float>, std::allocator<double>>("float/double", f, d);
}
MINI_PART("string and C string") {
  values<std::string, const char*, std::allocator<std::string>, std::allocator<const char*>>(
      "string/const char*", {"", "a", "b"}, {"", "a", "b"});
}

// ---- tables ---------------------------------------------------------------
// A type whose operators give what a table says, for a two-element domain.
static bool tab[6][2][2];  // == != < > <= >=
static const void* seen_l;
static const void* seen_r;
#define TAB(OP, N)                                              \
  friend bool operator OP(const Full& a, const Full& b) {       \
    seen_l = &a;                                                \
    seen_r = &b;                                                \
    return tab[N][a.k][b.k];                                    \
  }
struct Full {  // all six, possibly inconsistent
  int k;
  TAB(==, 0) TAB(!=, 1) TAB(<, 2) TAB(>, 3) TAB(<=, 4) TAB(>=, 5)
};
#undef TAB
// six operators between different types, in both orders
struct XL {
  int k;
};
struct XR {
  int k;
};
#define TABX(OP, N)                                                     \
  inline bool operator OP(const XL& a, const XR& b) {                   \
    seen_l = &a;                                                        \
    seen_r = &b;                                                        \
    return tab[N][a.k][b.k];                                            \
  }                                                                     \
  inline bool operator OP(const XR& a, const XL& b) {                   \
    seen_l = &a;                                                        \
    seen_r = &b;                                                        \
    return tab[N][a.k][b.k];                                            \
  }
TABX(==, 0) TABX(!=, 1) TABX(<, 2) TABX(>, 3) TABX(<=, 4) TABX(>=, 5)
#undef TABX

#ifndef MC_CXX20
// The C++14 header forwards each operator to the same operator of the values.
template <class L, class R>
void all_tables(const char* name) {
  using HL = xyz::indirect<L, CA<L, 1>>;
  using HR = xyz::indirect<R, CA<R, 2>>;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      // entries (i,j) and (j,i) of the six operators
      for (unsigned bits = 0; bits < (1u << 12); ++bits) {
        if (i == j && bits >> 6) break;
        for (int n = 0; n < 6; ++n) {
          tab[n][j][i] = bits >> (6 + n) & 1;
          tab[n][i][j] = bits >> n & 1;
        }
        mini::state();
        L l{i};
        R r{j};
        HL hl(std::allocator_arg, CA<L, 1>(), l);
        HR hr(std::allocator_arg, CA<R, 2>(), r);
        at("%s i=%d j=%d table=%03x", name, i, j, bits);
        long before = allocs;
#define CHK(OP, N, A, B, PA, PB)                                               \
  do {                                                                         \
    mini::step();                                                              \
    ++mini::sh->executions;                                                    \
    bool got = (A)OP(B);                                                       \
    if (got != tab[N][i][j]) fail(#A " " #OP " " #B " gives %d", got);         \
    if (seen_l != static_cast<const void*>(PA) || seen_r != static_cast<const void*>(PB)) \
      fail(#A " " #OP " " #B " compares other objects");                       \
  } while (0)
#define SIX(A, B, PA, PB)                                                     \
  CHK(==, 0, A, B, PA, PB);                                                   \
  CHK(!=, 1, A, B, PA, PB);                                                   \
  CHK(<, 2, A, B, PA, PB);                                                    \
  CHK(>, 3, A, B, PA, PB);                                                    \
  CHK(<=, 4, A, B, PA, PB);                                                   \
  CHK(>=, 5, A, B, PA, PB)
        const L* pl = hl.operator->();
        const R* pr = hr.operator->();
        SIX(hl, hr, pl, pr);
        SIX(hl, r, pl, &r);
        SIX(l, hr, &l, pr);
        if (allocs != before) fail("comparing allocated");
      }
}
MINI_PART("operator tables, one type") { all_tables<Full, Full>("Full"); }
MINI_PART("operator tables, two types") { all_tables<XL, XR>("XL/XR"); }
MINI_PART("operator tables, two types, reversed") { all_tables<XR, XL>("XR/XL"); }
#endif

// consistent tables: every operator derived from one relation per ordered pair
enum Rel { LESS, EQUAL, GREATER, UNORD };
static Rel relt[2][2];
static bool eqt[2][2];
// types offering only ==, only <
struct OnlyEq {
  int k;
  friend bool operator==(const OnlyEq& a, const OnlyEq& b) { return eqt[a.k][b.k]; }
};
struct OnlyLess {
  int k;
  friend bool operator<(const OnlyLess& a, const OnlyLess& b) {
    return relt[a.k][b.k] == LESS;
  }
};
MINI_PART("only ==") {
  for (unsigned bits = 0; bits < 16; ++bits)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        for (int a = 0; a < 4; ++a) eqt[a >> 1][a & 1] = bits >> a & 1;
        using P = Pairs<OnlyEq, OnlyEq, CA<OnlyEq, 1>, std::allocator<OnlyEq>>;
        P::Want w;
        w.eq = eqt[i][j];
        w.ne = !w.eq;
        std::string nm = "table " + std::to_string(bits) + " " + std::to_string(i) + " " +
                         std::to_string(j);
#ifdef MC_CXX20
        P::one<EQ | NEQ>(OnlyEq{i}, OnlyEq{j}, w, nm, eqt[i][j] == eqt[j][i]);
#else
        P::one<EQ>(OnlyEq{i}, OnlyEq{j}, w, nm);
#endif
      }
}
template <class W>
W from_less(bool lr, bool rl) {  // what a weak order with this < says
  W w;
  w.lt = lr;
  w.gt = !lr && rl;
  w.le = lr || !rl;
  w.ge = !lr;
  return w;
}
MINI_PART("only <") {
  for (unsigned bits = 0; bits < 16; ++bits)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        for (int a = 0; a < 4; ++a) relt[a >> 1][a & 1] = bits >> a & 1 ? LESS : GREATER;
        bool lr = relt[i][j] == LESS, rl = relt[j][i] == LESS;
        OnlyLess l{i}, r{j};
        std::string nm = "table " + std::to_string(bits) + " " + std::to_string(i) + " " +
                         std::to_string(j);
#ifdef MC_CXX20
        if (lr && rl) continue;  // no order at all
        using P = Pairs<OnlyLess, OnlyLess, CA<OnlyLess, 1>, std::allocator<OnlyLess>>;
        auto w = from_less<P::Want>(lr, rl);
        P::one<REL>(l, r, w, nm);
        for (int vl = 0; vl < 2; ++vl)
          for (int vr = 0; vr < 2; ++vr) {
            auto hl = make_handle<P::HL>(l, vl);
            auto hr = make_handle<P::HR>(r, vr);
            at("%s <=> vl=%d vr=%d", nm.c_str(), vl, vr);
            mini::step();
            auto c = hl <=> hr;
            MINI_CHECKF((std::is_same_v<decltype(c), std::weak_ordering>),
                        "<=> of a type with only < has category %s", cat_name<decltype(c)>());
            PO want = vl && vr ? PO(PO::equivalent)
                      : vl     ? PO(PO::less)
                      : vr     ? PO(PO::greater)
                      : lr     ? PO(PO::less)
                      : rl     ? PO(PO::greater)
                               : PO(PO::equivalent);
            MINI_CHECKF(po(c) == po(want), "<=> gives %s", po(c).c_str());
            if (!vr) {
              auto d = hl <=> r;
              MINI_CHECKF((std::is_same_v<decltype(d), std::weak_ordering>), "category");
              MINI_CHECKF(po(d) == po(want), "handle <=> value gives %s", po(d).c_str());
            }
          }
#else
        // only < exists
        for (int vl = 0; vl < 2; ++vl)
          for (int vr = 0; vr < 2; ++vr) {
            using H = xyz::indirect<OnlyLess>;
            H hl = make_handle<H>(l, vl != 0);
            H hr = make_handle<H>(r, vr != 0);
            at("%s vl=%d vr=%d", nm.c_str(), vl, vr);
            mini::state();
            mini::step();
            bool want = vl ? !vr : !vr && lr;
            MINI_CHECK((hl < hr) == want);
            if (!vr) MINI_CHECK((hl < r) == (vl ? true : lr));
            if (!vl) MINI_CHECK((l < hr) == (vr ? false : lr));
          }
#endif
      }
}

#ifdef MC_CXX20
// types with <=> of each category, with every table
template <class C>
C as(Rel r) {
  if constexpr (std::is_same_v<C, PO>) {
    if (r == UNORD) return C::unordered;
  }
  return r == LESS ? C::less : r == GREATER ? C::greater : C::equivalent;
}
template <class C>
struct Three {
  int k;
  friend bool operator==(const Three& a, const Three& b) { return eqt[a.k][b.k]; }
  friend C operator<=>(const Three& a, const Three& b) { return as<C>(relt[a.k][b.k]); }
};
template <class C>
struct ThreeNoEq {  // <=> but no ==
  int k;
  friend C operator<=>(const ThreeNoEq& a, const ThreeNoEq& b) {
    return as<C>(relt[a.k][b.k]);
  }
};
template <class C>
struct HL3 {
  int k;
};
template <class C>
struct HR3 {
  int k;
  friend bool operator==(const HL3<C>& a, const HR3& b) { return eqt[a.k][b.k]; }
  friend C operator<=>(const HL3<C>& a, const HR3& b) { return as<C>(relt[a.k][b.k]); }
};
template <class L, class R, class C, bool Eq, class Cat>
void three_tables(const char* name) {
  using P = Pairs<L, R, CA<L, 1>, CA<R, 2>>;
  const int nrel = std::is_same_v<C, PO> ? 4 : 3;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      for (int rij = 0; rij < nrel; ++rij)
        for (int rji = 0; rji < nrel; ++rji) {
          if (i == j && rji != rij) continue;
          for (int e = 0; e < 4; ++e) {
            if (!Eq && e) break;
            relt[i][j] = Rel(rij);
            relt[j][i] = Rel(rji);
            eqt[i][j] = e & 1;
            if (i != j) eqt[j][i] = e >> 1;
            L l{i};
            R r{j};
            std::string nm = std::string(name) + " " + std::to_string(i) +
                             std::to_string(j) + " rel " + std::to_string(rij) +
                             std::to_string(rji) + " eq " + std::to_string(e);
            static const Rel rev[] = {GREATER, EQUAL, LESS, UNORD};
            const bool sym = rij == rev[rji] && eqt[i][j] == eqt[j][i];
            typename P::Want w;
            PO want = PO::unordered;
            constexpr bool syn = !std::is_same_v<Cat, C> || !Eq ||
                                 !std::three_way_comparable_with<L, R>;
            if constexpr (!syn) {
              auto c = l <=> r;
              w.lt = c < 0, w.gt = c > 0, w.le = c <= 0, w.ge = c >= 0;
              want = c;
            } else {  // from t < u and u < t
              bool lr = l < r, rl = r < l;
              w = from_less<typename P::Want>(lr, rl);
              want = lr ? PO(PO::less) : rl ? PO(PO::greater) : PO(PO::equivalent);
            }
            if constexpr (Eq) {
              w.eq = l == r;
              w.ne = !w.eq;
              P::template one<EQ | NEQ | REL>(l, r, w, nm, sym);
            } else
              P::template one<REL>(l, r, w, nm, sym);
            for (int vl = 0; vl < 2; ++vl)
              for (int vr = 0; vr < 2; ++vr) {
                auto hl = make_handle<typename P::HL>(l, vl);
                auto hr = make_handle<typename P::HR>(r, vr);
                at("%s <=> vl=%d vr=%d", nm.c_str(), vl, vr);
                mini::step();
                auto c = hl <=> hr;
                PO ww = vl && vr ? PO(PO::equivalent)
                        : vl     ? PO(PO::less)
                        : vr     ? PO(PO::greater)
                                 : want;
                MINI_CHECKF((std::is_same_v<decltype(c), Cat>), "<=> has category %s",
                            cat_name<decltype(c)>());
                MINI_CHECKF(po(c) == po(ww), "<=> gives %s, should be %s", po(c).c_str(),
                            po(ww).c_str());
                if (!vr) {
                  auto d = hl <=> r;
                  MINI_CHECKF((std::is_same_v<decltype(d), Cat>),
                              "handle <=> value has category %s", cat_name<decltype(d)>());
                  MINI_CHECKF(po(d) == po(ww), "handle <=> value gives %s, should be %s",
                              po(d).c_str(), po(ww).c_str());
                }
              }
          }
        }
}
MINI_PART("strong <=> tables") {
  three_tables<Three<std::strong_ordering>, Three<std::strong_ordering>,
               std::strong_ordering, true, std::strong_ordering>("strong");
}
MINI_PART("weak <=> tables") {
  three_tables<Three<std::weak_ordering>, Three<std::weak_ordering>, std::weak_ordering,
               true, std::weak_ordering>("weak");
}
MINI_PART("partial <=> tables") {
  three_tables<Three<PO>, Three<PO>, PO, true, PO>("partial");
}
MINI_PART("<=> without ==") {
  three_tables<ThreeNoEq<std::strong_ordering>, ThreeNoEq<std::strong_ordering>,
               std::strong_ordering, false, std::weak_ordering>("strong, no ==");
}
MINI_PART("different types without a common one") {
  three_tables<HL3<std::strong_ordering>, HR3<std::strong_ordering>, std::strong_ordering,
               true, std::weak_ordering>("HL3/HR3");
  three_tables<HR3<std::strong_ordering>, HL3<std::strong_ordering>, std::strong_ordering,
               true, std::weak_ordering>("HR3/HL3");
}
// consistent six-operator type without <=>
struct Legacy {
  int k;
  friend bool operator==(const Legacy& a, const Legacy& b) { return a.k / 2 == b.k / 2; }
  friend bool operator!=(const Legacy& a, const Legacy& b) { return a.k / 2 != b.k / 2; }
  friend bool operator<(const Legacy& a, const Legacy& b) { return a.k / 2 < b.k / 2; }
  friend bool operator>(const Legacy& a, const Legacy& b) { return a.k / 2 > b.k / 2; }
  friend bool operator<=(const Legacy& a, const Legacy& b) { return a.k / 2 <= b.k / 2; }
  friend bool operator>=(const Legacy& a, const Legacy& b) { return a.k / 2 >= b.k / 2; }
};
MINI_PART("six consistent operators") {
  using P = Pairs<Legacy, Legacy, CA<Legacy, 1>, CA<Legacy, 2>>;
  for (int i = 0; i < 5; ++i)
    for (int j = 0; j < 5; ++j)
      P::one<EQ | NEQ | REL>(Legacy{i}, Legacy{j}, direct<P::Want>(Legacy{i}, Legacy{j}),
                             "Legacy " + std::to_string(i) + " " + std::to_string(j));
}
#endif

// ---- one and the same handle on both sides, after every short history ------
template <class T>
void self_pairs(const char* name, const std::vector<T>& vs) {
  using H = xyz::indirect<T, CA<T, 1>>;
  for (auto& v : vs)
    for (int hist = 0; hist < 5; ++hist) {
      H h(std::allocator_arg, CA<T, 1>(), v);
      bool valueless = false;
      if (hist == 1) {  // valueless
        H g(std::move(h));
        valueless = true;
      } else if (hist == 2) {  // valueless, then assigned
        H g(std::move(h));
        h = v;
      } else if (hist == 3) {  // moved around
        H g(std::move(h));
        h = std::move(g);
      } else if (hist == 4) {
        H g(h);
        h = g;
      }
      at("%s %s history %d, itself", name, show(v).c_str(), hist);
      mini::state();
      mini::step();
      MINI_CHECK((h == h) == (valueless || v == v));
      MINI_CHECK((h != h) == !(valueless || v == v));
      MINI_CHECK((h < h) == (!valueless && v < v));
      MINI_CHECK((h > h) == (!valueless && v > v));
      MINI_CHECK((h <= h) == (valueless || v <= v));
      MINI_CHECK((h >= h) == (valueless || v >= v));
      MINI_CHECK(h.valueless_after_move() == valueless);
      if (!valueless) {  // with its own object
        MINI_CHECK((h == *h) == (v == v));
        MINI_CHECK((h <= *h) == (v <= v));
        MINI_CHECK((*h >= h) == (v >= v));
        MINI_CHECK((*h != h) == (v != v));
      }
    }
}
MINI_PART("itself") {
  using D = std::numeric_limits<double>;
  self_pairs<double>("double", {D::quiet_NaN(), 0.0, -0.0, 1.0, D::infinity()});
  self_pairs<int>("int", {0, 1, -1});
  self_pairs<std::string>("string", {"", "x"});
}

// ---- nested handles --------------------------------------------------------
MINI_PART("nested") {
  using I = xyz::indirect<int>;
  using N = xyz::indirect<I>;
  // k: 0,1 values; 2 inner valueless; 3 outer valueless
  auto mk = [](int k) {
    I i(k & 1);
    if (k == 2) {
      I j(std::move(i));
    }
    N n(std::allocator_arg, N::allocator_type());
    *n = i;
    if (k == 2) *n = std::move(i);
    if (k == 3) {
      N m(std::move(n));
    }
    return n;
  };
  // order: outer valueless < inner valueless < 0 < 1
  auto rank = [](int k) { return k == 3 ? 0 : k == 2 ? 1 : 2 + k; };
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b) {
      mini::state();
      mini::step();
      at("nested %d %d", a, b);
      N x = mk(a), y = mk(b);
      int ra = rank(a), rb = rank(b);
      MINI_CHECK((x == y) == (ra == rb));
      MINI_CHECK((x != y) == (ra != rb));
      MINI_CHECK((x < y) == (ra < rb));
      MINI_CHECK((x > y) == (ra > rb));
      MINI_CHECK((x <= y) == (ra <= rb));
      MINI_CHECK((x >= y) == (ra >= rb));
#ifdef MC_CXX20
      auto c = x <=> y;
      MINI_CHECK((std::is_same_v<decltype(c), std::strong_ordering>));
      MINI_CHECK((c < 0) == (ra < rb) && (c == 0) == (ra == rb));
#endif
    }
}
