// C16: every operation from every reachable state of two handles (and all
// sequences of MC_DEPTH operations from them) carried out by the compiler's
// constant evaluator, each step compared with a model; then again at run time.
//
// -DMC_CFG=n selects the configuration, -DMC_FROM/-DMC_TO the range of cases.
// Without -DMC_RUNTIME, the cases are evaluated at compile time: the program
// does not compile when a case is not a constant expression.
#ifdef H_POLY
#include "polymorphic.h"
#else
#include "indirect.h"
#endif
#include <compare>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#ifndef MC_DEPTH
#define MC_DEPTH 1
#endif

// ---- value types -----------------------------------------------------------
constexpr int MOVED = 77;
constexpr int list_value(std::initializer_list<int> l) {
  int s = 0;
  for (int i : l) s = s * 10 + i;
  return s + 1000;
}
struct Arg {
  int v;
};
// With storage of its own, so that the evaluator sees it leak or die twice.
struct V {
  int* p;
  constexpr int get() const { return *p; }
  constexpr void set(int x) { *p = x; }
  constexpr V() : p(new int(0)) {}
  constexpr explicit V(int x) : p(new int(x)) {}
  constexpr V(int x, int y) : p(new int(x * 10 + y)) {}
  constexpr V(std::initializer_list<int> l) : p(new int(list_value(l))) {}
  constexpr V(std::initializer_list<int> l, int y) : p(new int(list_value(l) + 100 * y)) {}
  constexpr explicit V(const Arg& a) : p(new int(a.v)) {}
  constexpr V(const V& o) : p(new int(*o.p)) {}
  constexpr V(V&& o) : p(new int(*o.p)) { *o.p = MOVED; }
  constexpr V& operator=(const V& o) {
    *p = *o.p;
    return *this;
  }
  constexpr V& operator=(V&& o) {
    int x = *o.p;
    *o.p = MOVED;
    *p = x;
    return *this;
  }
  constexpr V& operator=(const Arg& a) {
    *p = a.v;
    return *this;
  }
  constexpr ~V() { delete p; }
  friend constexpr bool operator==(const V& a, const V& b) { return *a.p == *b.p; }
  friend constexpr auto operator<=>(const V& a, const V& b) { return *a.p <=> *b.p; }
};
// Trivial, without <=>, with the smallest interface of an ordered type.
struct L {
  int x = 0;
  constexpr int get() const { return x; }
  constexpr void set(int y) { x = y; }
  constexpr L() = default;
  constexpr explicit L(int y) : x(y) {}
  constexpr L(int a, int b) : x(a * 10 + b) {}
  constexpr L(std::initializer_list<int> l) : x(list_value(l)) {}
  constexpr L(std::initializer_list<int> l, int y) : x(list_value(l) + 100 * y) {}
  constexpr explicit L(const Arg& a) : x(a.v) {}
  constexpr L(const L&) = default;
  constexpr L(L&& o) : x(o.x) { o.x = MOVED; }
  constexpr L& operator=(const L&) = default;
  constexpr L& operator=(L&& o) {
    int y = o.x;
    o.x = MOVED;
    x = y;
    return *this;
  }
  constexpr L& operator=(const Arg& a) {
    x = a.v;
    return *this;
  }
  friend constexpr bool operator==(const L& a, const L& b) { return a.x == b.x; }
  friend constexpr bool operator<(const L& a, const L& b) { return a.x < b.x; }
};
template <>
struct std::hash<V> {
  constexpr std::size_t operator()(const V& v) const { return std::size_t(v.get()) * 3 + 1; }
};
template <>
struct std::hash<L> {
  constexpr std::size_t operator()(const L& v) const { return std::size_t(v.get()) * 3 + 1; }
};

struct B {
  int* p;
  constexpr int get() const { return *p; }
  constexpr void set(int x) { *p = x; }
  constexpr virtual int kind() const { return 0; }
  constexpr B() : p(new int(0)) {}
  constexpr explicit B(int x) : p(new int(x)) {}
  constexpr B(int x, int y) : p(new int(x * 10 + y)) {}
  constexpr B(std::initializer_list<int> l) : p(new int(list_value(l))) {}
  constexpr B(std::initializer_list<int> l, int y) : p(new int(list_value(l) + 100 * y)) {}
  constexpr B(const B& o) : p(new int(*o.p)) {}
  constexpr B(B&& o) : p(new int(*o.p)) { *o.p = MOVED; }
  constexpr virtual ~B() { delete p; }
};
struct D1 : B {
  int more[5] = {};
  using B::B;
  constexpr D1() {}
  constexpr D1(const D1&) = default;
  constexpr D1(D1&&) = default;
  constexpr int kind() const override { return 1; }
  constexpr ~D1() {}
};
struct Other {
  long filler = 7;
  constexpr virtual long g() const { return filler; }
  constexpr virtual ~Other() {}
};
struct D2 final : Other, B {  // copied when moved
  using B::B;
  constexpr D2() {}
  constexpr D2(const D2& o) : Other(o), B(static_cast<const B&>(o)) {}
  constexpr int kind() const override { return 2; }
  constexpr ~D2() {}
};

// ---- allocators ------------------------------------------------------------
enum : unsigned { F_CCA = 1, F_CMA = 2, F_CS = 4, F_AE = 8, F_SOC = 16, F_CONS = 32, F_NOASSIGN = 64 };
template <class T, unsigned F>
struct CAl {
  int id;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<(F & F_CCA) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(F & F_CMA) != 0>;
  using propagate_on_container_swap = std::bool_constant<(F & F_CS) != 0>;
  using is_always_equal = std::bool_constant<(F & F_AE) != 0>;
  template <class U>
  struct rebind {
    using other = CAl<U, F>;
  };
  constexpr CAl() noexcept : id(0) {}
  constexpr CAl(int i, int) noexcept : id(i) {}
  constexpr CAl(const CAl&) noexcept = default;
  constexpr CAl& operator=(const CAl&) requires(!(F & F_NOASSIGN)) = default;
  template <class U>
  constexpr explicit CAl(const CAl<U, F>& o) noexcept : id(o.id) {}
  constexpr T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U, class... As>
  constexpr void construct(U* p, As&&... as)
    requires((F & F_CONS) != 0)
  {
    std::construct_at(p, std::forward<As>(as)...);
  }
  template <class U>
  constexpr void destroy(U* p)
    requires((F & F_CONS) != 0)
  {
    std::destroy_at(p);
  }
  constexpr CAl select_on_container_copy_construction() const
    requires((F & F_SOC) != 0)
  {
    return CAl(1, 0);
  }
  friend constexpr bool operator==(const CAl& a, const CAl& b) noexcept {
    return (F & F_AE) || a.id == b.id;
  }
};

template <class A>
struct AlInfo;
template <class T, unsigned F>
struct AlInfo<CAl<T, F>> {
  static constexpr unsigned flags = F;
  static constexpr int count = 2;
  static constexpr CAl<T, F> make(int i) { return CAl<T, F>(i, 0); }
  static constexpr int id(const CAl<T, F>& a) { return a.id; }
};
template <class T>
struct AlInfo<std::allocator<T>> {
  static constexpr unsigned flags = F_AE | F_CMA;
  static constexpr int count = 1;
  static constexpr std::allocator<T> make(int) { return {}; }
  static constexpr int id(const std::allocator<T>&) { return 0; }
};

// ---- configuration ---------------------------------------------------------
#ifdef H_POLY
#define HANDLE(A_) xyz::polymorphic<B, A_>
using T = B;
constexpr bool poly = true;
constexpr int kinds = 3;
#else
#define HANDLE(A_) xyz::indirect<T, A_>
#if MC_CFG % 2
using T = L;
#else
using T = V;
#endif
constexpr bool poly = false;
constexpr int kinds = 1;
#endif
#if MC_CFG == 0 || MC_CFG == 1
using A = std::allocator<T>;
#elif MC_CFG == 2 || MC_CFG == 3
using A = CAl<T, 0>;
#elif MC_CFG == 4
using A = CAl<T, F_CCA | F_CMA | F_CS>;
#elif MC_CFG == 5
using A = CAl<T, F_NOASSIGN>;
#elif MC_CFG == 6
using A = CAl<T, F_AE | F_CONS>;
#elif MC_CFG == 7
using A = CAl<T, F_CCA | F_CONS>;
#elif MC_CFG == 8
using A = CAl<T, F_CMA | F_SOC | F_CONS>;
#elif MC_CFG == 9
using A = CAl<T, F_CS | F_SOC | F_AE>;
#endif
using H = HANDLE(A);
using AI = AlInfo<A>;
constexpr bool eq(int a, int b) { return (AI::flags & F_AE) || a == b; }

// ---- model -----------------------------------------------------------------
struct St {
  bool val;
  int v, kind, al;
};
constexpr bool same(const St& a, const St& b) {
  return a.val == b.val && a.al == b.al && (!a.val || (a.v == b.v && a.kind == b.kind));
}
enum Code : int {
  ASG_C, ASG_CC, ASG_M, SWAP, ADLSWAP,    // i, j
  CON_C, CON_CC, CON_M,                   // i from the other
  CON_AC, CON_AM,                         // i from the other, allocator a
  NEW_DEF, NEW_RV, NEW_LV, NEW_IP0, NEW_IP1, NEW_IP2, NEW_IL, NEW_ILX,  // i, kind j, allocator a or -1
  VAL_LV, VAL_CLV, VAL_RV, VAL_ARG, VAL_OWN, VAL_OWNRV,  // i
  SET_STAR, SET_ARROW, TAKE,              // i
};
constexpr const char* code_name[] = {
    "copy assignment", "copy assignment (const)", "move assignment", "swap", "swap(,)",
    "copy construction", "copy construction (const)", "move construction",
    "copy construction with allocator", "move construction with allocator",
    "default construction", "construction from an rvalue", "construction from an lvalue",
    "in-place construction ()", "in-place construction (int)",
    "in-place construction (int, int)", "in-place construction ({...})",
    "in-place construction ({...}, int)", "assignment of an lvalue",
    "assignment of a const lvalue", "assignment of an rvalue", "assignment of another type",
    "assignment of the own value", "assignment of the own value as an rvalue",
    "mutation through *", "mutation through ->", "move out of the object"};
struct Op {
  Code c;
  int i, j, a;
};
struct Ops {
  Op o[400]{};
  int n = 0;
  constexpr void add(Code c, int i, int j, int a) { o[n++] = Op{c, i, j, a}; }
  constexpr Ops() {
    for (int i = 0; i < 2; ++i) {
      for (int j = 0; j < 2; ++j)
        for (Code c : {ASG_C, ASG_CC, ASG_M, SWAP, ADLSWAP}) add(c, i, j, -1);
      for (Code c : {CON_C, CON_CC, CON_M}) add(c, i, 1 - i, -1);
      for (int a = 0; a < AI::count; ++a)
        for (Code c : {CON_AC, CON_AM}) add(c, i, 1 - i, a);
      if (!poly)
        for (Code c : {VAL_LV, VAL_CLV, VAL_RV, VAL_ARG, VAL_OWN, VAL_OWNRV}) add(c, i, 0, -1);
      for (Code c : {SET_STAR, SET_ARROW, TAKE}) add(c, i, 0, -1);
    }
    for (int a = -1; a < AI::count; ++a)
      for (int k = 0; k < kinds; ++k)
        for (Code c : {NEW_DEF, NEW_RV, NEW_LV, NEW_IP0, NEW_IP1, NEW_IP2, NEW_IL, NEW_ILX})
          if (c != NEW_DEF || k == 0) add(c, 0, k, a);
  }
};
constexpr Ops ops;

// Whether the operation is allowed there.
constexpr bool allowed(const Op& o, const St* m) {
  if (o.c == SWAP || o.c == ADLSWAP)
    return (AI::flags & F_CS) || eq(m[o.i].al, m[o.j].al);
  if (o.c >= VAL_OWN) return m[o.i].val;
  return true;
}
constexpr void moved_from(St& s) {
  if (s.kind != 2) s.v = MOVED;
}
// New values: distinct from everything else about.
constexpr int NEWV = 5;
constexpr void model(const Op& o, St* m) {
  St &d = m[o.i], &s = m[poly ? o.j & 1 : o.j & 1];
  St t = d;
  switch (o.c) {
    case ASG_C:
    case ASG_CC:
      if (&d == &s) return;
      d = s;
      d.al = (AI::flags & F_CCA) ? s.al : t.al;
      return;
    case ASG_M:
      if (&d == &s) return;
      d = s;
      d.al = (AI::flags & F_CMA) ? s.al : t.al;
      if (!s.val) return;
      if (eq(t.al, s.al))
        s.val = false;
      else
        moved_from(s);
      return;
    case SWAP:
    case ADLSWAP:
      d = s;
      s = t;
      if (!(AI::flags & F_CS)) std::swap(d.al, s.al);
      return;
    case CON_C:
    case CON_CC:
      d = s;
      if (AI::flags & F_SOC) d.al = 1;
      return;
    case CON_M:
      d = s;
      s.val = false;
      return;
    case CON_AC:
      d = s;
      d.al = o.a;
      return;
    case CON_AM:
      d = s;
      d.al = o.a;
      if (!s.val) return;
      if (eq(o.a, s.al))
        s.val = false;
      else
        moved_from(s);
      return;
    case NEW_DEF:
    case NEW_IP0: d = St{true, 0, o.j, o.a < 0 ? 0 : o.a}; return;
    case NEW_RV:
    case NEW_LV:
    case NEW_IP1: d = St{true, NEWV, o.j, o.a < 0 ? 0 : o.a}; return;
    case NEW_IP2: d = St{true, 56, o.j, o.a < 0 ? 0 : o.a}; return;
    case NEW_IL: d = St{true, 1123, o.j, o.a < 0 ? 0 : o.a}; return;
    case NEW_ILX: d = St{true, 1523, o.j, o.a < 0 ? 0 : o.a}; return;
    case VAL_LV:
    case VAL_CLV:
    case VAL_RV:
    case VAL_ARG: d = St{true, NEWV, 0, t.al}; return;
    case VAL_OWN: return;
    case VAL_OWNRV: return;
    case SET_STAR: d.v = 11; return;
    case SET_ARROW: d.v = 12; return;
    case TAKE: moved_from(d); return;
  }
}

// ---- the code under test ---------------------------------------------------
template <class X>
struct Slot {
  union {
    char none;
    X h;
  };
  constexpr Slot() : none(0) {}
  constexpr ~Slot() {}
};
struct World {
  Slot<H> s[2];
  bool up[2] = {false, false};
  template <class... As>
  constexpr void make(int i, As&&... as) {
    if (up[i]) std::destroy_at(&s[i].h);
    std::construct_at(&s[i].h, std::forward<As>(as)...);
    up[i] = true;
  }
  constexpr ~World() {
    for (int i = 1; i >= 0; --i)
      if (up[i]) std::destroy_at(&s[i].h);
  }
};
template <class U, class... As>
constexpr void make_in_place(World& w, const Op& o, As&&... as) {
#ifdef H_POLY
  if (o.a < 0)
    w.make(o.i, std::in_place_type<U>, std::forward<As>(as)...);
  else
    w.make(o.i, std::allocator_arg, AI::make(o.a), std::in_place_type<U>,
           std::forward<As>(as)...);
#else
  if (o.a < 0)
    w.make(o.i, std::in_place, std::forward<As>(as)...);
  else
    w.make(o.i, std::allocator_arg, AI::make(o.a), std::in_place, std::forward<As>(as)...);
#endif
}
template <class U>
constexpr void construct(World& w, const Op& o) {
  const auto il = {1, 2, 3};
  switch (o.c) {
    case NEW_DEF:
      if (o.a < 0)
        w.make(o.i);
      else
        w.make(o.i, std::allocator_arg, AI::make(o.a));
      break;
    case NEW_RV:
      if (o.a < 0)
        w.make(o.i, U(NEWV));
      else
        w.make(o.i, std::allocator_arg, AI::make(o.a), U(NEWV));
      break;
    case NEW_LV: {
      U u(NEWV);
      if (o.a < 0)
        w.make(o.i, u);
      else
        w.make(o.i, std::allocator_arg, AI::make(o.a), u);
      break;
    }
    case NEW_IP0: make_in_place<U>(w, o); break;
    case NEW_IP1: make_in_place<U>(w, o, NEWV); break;
    case NEW_IP2: make_in_place<U>(w, o, 5, 6); break;
    case NEW_IL: make_in_place<U>(w, o, il); break;
    case NEW_ILX: make_in_place<U>(w, o, il, 4); break;
    default: break;
  }
}
constexpr void apply(const Op& o, World& w) {
  H& d = w.s[o.i].h;
  H& s = w.s[o.j & 1].h;
  const H& cs = s;
  switch (o.c) {
    case ASG_C: d = s; break;
    case ASG_CC: d = cs; break;
    case ASG_M: d = std::move(s); break;
    case SWAP: d.swap(s); break;
    case ADLSWAP: {
      using std::swap;
      swap(d, s);
      break;
    }
    case CON_C: w.make(o.i, s); break;
    case CON_CC: w.make(o.i, cs); break;
    case CON_M: w.make(o.i, std::move(s)); break;
    case CON_AC: w.make(o.i, std::allocator_arg, AI::make(o.a), cs); break;
    case CON_AM: w.make(o.i, std::allocator_arg, AI::make(o.a), std::move(s)); break;
#ifdef H_POLY
    case VAL_LV: case VAL_CLV: case VAL_RV: case VAL_ARG: case VAL_OWN: case VAL_OWNRV: break;
#else
    case VAL_LV: {
      T t(NEWV);
      d = t;
      break;
    }
    case VAL_CLV: {
      const T t(NEWV);
      d = t;
      break;
    }
    case VAL_RV: d = T(NEWV); break;
    case VAL_ARG: d = Arg{NEWV}; break;
    case VAL_OWN: d = *d; break;
    case VAL_OWNRV: d = static_cast<T&&>(T(*std::as_const(d))); break;
#endif
    case SET_STAR: (*d).set(11); break;
    case SET_ARROW: d->set(12); break;
    case TAKE: {
#ifdef H_POLY
      if (d->kind() == 2) {
        B t(*d);
      } else {
        B t(std::move(*d));
      }
#else
      T t(*std::move(d));
#endif
      break;
    }
    default:
#ifdef H_POLY
      if (o.j == 1)
        construct<D1>(w, o);
      else if (o.j == 2)
        construct<D2>(w, o);
      else
        construct<B>(w, o);
#else
      construct<T>(w, o);
#endif
  }
}

// 0: as the model says; otherwise what is wrong.
constexpr int judge(const World& w, const St* m) {
  for (int i = 0; i < 2; ++i) {
    const H& h = w.s[i].h;
    if (h.valueless_after_move() == m[i].val) return 1 + i;
    if (AI::id(h.get_allocator()) != m[i].al) return 3 + i;
    if (!m[i].val) continue;
    if ((*h).get() != m[i].v) return 5 + i;
    if (h->get() != m[i].v) return 7 + i;
    if (&*h != std::to_address(h.operator->())) return 9 + i;
#ifdef H_POLY
    if (h->kind() != m[i].kind) return 11 + i;
#endif
  }
#ifndef H_POLY
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) {
      const H &a = w.s[i].h, &b = w.s[j].h;
      int x = m[i].val ? m[i].v : -1, y = m[j].val ? m[j].v : -1;
      if ((a == b) != (x == y)) return 20;
      if ((a != b) != (x != y)) return 21;
      if ((a < b) != (x < y)) return 22;
      if ((a <= b) != (x <= y)) return 23;
      if ((a > b) != (x > y)) return 24;
      if ((a >= b) != (x >= y)) return 25;
      auto c = a <=> b;
      if ((c < 0) != (x < y) || (c > 0) != (x > y)) return 26;
      if (m[j].val) {
        const T& t = *b;
        if ((a == t) != (x == y)) return 27;
        if ((t == a) != (x == y)) return 28;
        if ((a != t) != (x != y)) return 29;
        auto d = a <=> t;
        if ((d < 0) != (x < y) || (d > 0) != (x > y)) return 30;
        if ((a < t) != (x < y)) return 31;
        if ((t < a) != (y < x)) return 32;
      }
      if (m[i].val && m[j].val && i != j && &*a == &*b) return 33;
    }
  for (int i = 0; i < 2; ++i)
    if (m[i].val) {
      if (std::hash<H>()(w.s[i].h) != std::hash<T>()(*w.s[i].h)) return 34;
      World u;
      u.make(0, w.s[i].h);
      if (&*u.s[0].h == &*w.s[i].h) return 35;
      const H& c = u.s[0].h;
      if ((*std::move(u.s[0].h)).get() != m[i].v || (*std::move(c)).get() != m[i].v) return 36;
    } else if (std::hash<H>()(w.s[i].h) != std::hash<H>()(w.s[i].h)) {
      return 37;
    }
#endif
  return 0;
}
constexpr const char* complaint(int x) {
  if (x >= 20 && x < 34) return "comparison";
  if (x >= 34) return "hash or copy";
  constexpr const char* t[] = {"valueless state", "allocator", "value through *",
                               "value through ->", "address", "dynamic type"};
  return x ? t[(x - 1) / 2] : "";
}

// ---- cases -----------------------------------------------------------------
constexpr int per_slot = (kinds + 1) * AI::count;
constexpr long states = long(per_slot) * per_slot;
constexpr long cases() {
  long n = states;
  for (int d = 0; d < MC_DEPTH; ++d) n *= ops.n;
  return n;
}
struct R {
  long bad = -1;  // first case that fails
  int why = 0;
  unsigned long digest = 0;
  long steps = 0;
};
constexpr int one(long c, R& r) {
  World w;
  St m[2]{};
  long s = c % states;
  c /= states;
  for (int i = 0; i < 2; ++i) {
    int k = int(s % per_slot);
    s /= per_slot;
    int al = k % AI::count, what = k / AI::count;
    Op o{NEW_IP1, i, what == kinds ? 0 : what, al};
    apply(o, w);
    m[i] = St{true, NEWV, o.j, al};
    (*w.s[i].h).set(2 + i);
    m[i].v = 2 + i;
    if (what == kinds) {
      H away(std::move(w.s[i].h));
      m[i].val = false;
    }
  }
  for (int d = 0; d < MC_DEPTH; ++d) {
    const Op& o = ops.o[c % ops.n];
    c /= ops.n;
    if (!allowed(o, m)) return 0;
    model(o, m);
    apply(o, w);
    ++r.steps;
  }
  for (int i = 0; i < 2; ++i) {
    r.digest = r.digest * 1000003 + (m[i].val ? 1 + unsigned((*w.s[i].h).get()) : 0);
    r.digest = r.digest * 31 + unsigned(AI::id(w.s[i].h.get_allocator()));
  }
  return judge(w, m);
}
constexpr R eval(long from, long to) {
  R r;
  for (long c = from; c < to; ++c) {
    int x = one(c, r);
    if (x) {
      r.bad = c;
      r.why = x;
      break;
    }
  }
  return r;
}

#ifndef MC_RUNTIME
#ifndef MC_FROM
#define MC_FROM 0
#define MC_TO cases()
#endif
constexpr R at_compile_time = eval(MC_FROM, MC_TO);
#endif

static void describe(long c) {
  long s = c % states;
  c /= states;
  for (int i = 0; i < 2; ++i) {
    int k = int(s % per_slot);
    s /= per_slot;
    int al = k % AI::count, what = k / AI::count;
    if (what == kinds)
      printf("handle %d valueless, allocator %d; ", i, al);
    else
      printf("handle %d type %d, allocator %d; ", i, what, al);
  }
  for (int d = 0; d < MC_DEPTH; ++d) {
    const Op& o = ops.o[c % ops.n];
    c /= ops.n;
    printf("%s%s handle %d, %d, allocator %d", d ? ", then " : "", code_name[o.c], o.i, o.j, o.a);
  }
  printf("\n");
}
int main(int argc, char** argv) {
  if (argc == 2 && !strcmp(argv[1], "cases")) {
    printf("%ld %ld\n", cases(), states);
    return 0;
  }
  if (argc == 3 && !strcmp(argv[1], "describe")) {
    describe(atol(argv[2]));
    return 0;
  }
#ifdef MC_RUNTIME
  R r = eval(atol(argv[1]), atol(argv[2]));
  printf("%ld %d %lu %ld %s\n", r.bad, r.why, r.digest, r.steps, complaint(r.why));
#else
  const R& r = at_compile_time;
  printf("%ld %d %lu %ld %s\n", r.bad, r.why, r.digest, r.steps, complaint(r.why));
#endif
}
