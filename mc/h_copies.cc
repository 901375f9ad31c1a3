// C01, C03: which operation of the owned type copies and moves of handles use,
// for a type that tells them all apart, from every kind of source expression.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include "mini.hpp"
#include "types.hpp"
using mini::at;
using mini::fail;

enum How { MADE, LV, CLV, RV, CRV, ALV, ACLV, ARV, ACRV };
static const char* const how_name[] = {
    "made", "copy of an lvalue", "copy of a const lvalue", "move", "copy of a const rvalue",
    "assigned from an lvalue", "assigned from a const lvalue", "move-assigned",
    "assigned from a const rvalue"};
// How the object on record was last given its value.
struct Q {
  int v;
  How how = MADE;
  const Q* from = nullptr;
  static int ops;
  explicit Q(int x) : v(x) {}
  Q() : v(0) {}
  Q(Q& o) : v(o.v), how(LV), from(&o) { ++ops; }
  Q(const Q& o) : v(o.v), how(CLV), from(&o) { ++ops; }
  Q(Q&& o) : v(o.v), how(RV), from(&o) { ++ops; }
  Q(const Q&& o) : v(o.v), how(CRV), from(&o) { ++ops; }
  Q& set(int x, How h, const Q* f) {
    v = x, how = h, from = f;
    ++ops;
    return *this;
  }
  Q& operator=(Q& o) { return set(o.v, ALV, &o); }
  Q& operator=(const Q& o) { return set(o.v, ACLV, &o); }
  Q& operator=(Q&& o) { return set(o.v, ARV, &o); }
  Q& operator=(const Q&& o) { return set(o.v, ACRV, &o); }
  virtual ~Q() {}
};
int Q::ops;
struct QD : Other, Q {  // the same, derived
  using Q::Q;
  QD() {}
  QD(QD& o) : Other(o), Q(static_cast<Q&>(o)) {}
  QD(const QD& o) : Other(o), Q(static_cast<const Q&>(o)) {}
  QD(QD&& o) : Other(o), Q(static_cast<Q&&>(o)) {}
  QD(const QD&& o) : Other(o), Q(static_cast<const Q&&>(o)) {}
};

#ifdef H_POLY
template <class A>
using Hd = xyz::polymorphic<Q, A>;
const bool poly = true;
#else
template <class A>
using Hd = xyz::indirect<Q, A>;
const bool poly = false;
#endif

// one copy of src's object, taken as const, with src as before
template <class H>
static void copied(const H& src, int v, const void* p, const H& made, bool may_assign) {
  ++mini::sh->executions;
  if (src.valueless_after_move() || made.valueless_after_move()) {
    fail("valueless");
    return;
  }
  if (src->v != v || std::addressof(*src) != p) fail("the source changed");
  if (made->v != v) fail("the copy has another value");
  if (std::addressof(*made) == p) fail("the object is shared");
  // (a copyable type's copies of lvalues and const lvalues are the same)
  bool good = made->how == CLV || made->how == LV ||
              (may_assign && (made->how == ACLV || made->how == ALV));
  if (!good) fail("%s, should be a copy", how_name[made->how]);
  if (made->from != p) fail("made from another object");
  if (Q::ops != 1) fail("%d operations of the owned type, should be 1", Q::ops);
}
template <class H>
static void stolen(const H& src, const void* p, const H& made, int v, bool transfer) {
  ++mini::sh->executions;
  if (made.valueless_after_move()) {
    fail("valueless");
    return;
  }
  if (made->v != v) fail("another value");
  if (transfer) {
    if (!src.valueless_after_move()) fail("the source keeps a value");
    if (std::addressof(*made) != p) fail("the object is another one");
    if (Q::ops) fail("%d operations of the owned type, should be none", Q::ops);
  } else {
    if (src.valueless_after_move()) fail("the source is valueless");
    if (made->how != RV) fail("%s, should be %s", how_name[made->how], how_name[RV]);
    if (made->from != p) fail("made from another object");
    if (Q::ops != 1) fail("%d operations of the owned type, should be 1", Q::ops);
  }
}

template <class U, unsigned F>
static void run(const char* name) {
  using A = Al<Q, F>;
  using H = Hd<A>;
  const bool ae = F & A_AE;
  auto eq = [&](int a, int b) { return ae || al_class(a) == al_class(b); };
  const char* const cats[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};
  for (int cat = 0; cat < 4; ++cat)
    for (int sa = 0; sa < 3; ++sa) {
      // construction, plain and with each allocator
      for (int da = -1; da < 3; ++da) {
        w::reset();
        mini::state();
        mini::step();
        at("%s: construction from %s, allocators %d %d", name, cats[cat], sa, da);
        H s(std::allocator_arg, A(sa, 0), U(4));
        s->how = MADE, s->from = nullptr;
        const H& cs = s;
        const void* p = std::addressof(*s);
        Q::ops = 0;
        auto judge = [&](const H& h) {
          if (cat == 2)
            stolen<H>(s, p, h, 4, da == -1 || eq(sa, da));
          else
            copied<H>(s, 4, p, h, false);
        };
        if (da == -1) {
          switch (cat) {
            case 0: { H h(s); judge(h); break; }
            case 1: { H h(cs); judge(h); break; }
            case 2: { H h(std::move(s)); judge(h); break; }
            case 3: { H h(std::move(cs)); judge(h); break; }
          }
        } else {
          A a(da, 0);
          switch (cat) {
            case 0: { H h(std::allocator_arg, a, s); judge(h); break; }
            case 1: { H h(std::allocator_arg, a, cs); judge(h); break; }
            case 2: { H h(std::allocator_arg, a, std::move(s)); judge(h); break; }
            case 3: { H h(std::allocator_arg, a, std::move(cs)); judge(h); break; }
          }
        }
      }
      // assignment to a full and to a valueless handle
      for (int da = 0; da < 3; ++da)
        for (int vl = 0; vl < 2; ++vl) {
          w::reset();
          mini::state();
          mini::step();
          at("%s: assignment of %s to a %s handle, allocators %d %d", name, cats[cat],
             vl ? "valueless" : "full", sa, da);
          H s(std::allocator_arg, A(sa, 0), U(4));
          H d(std::allocator_arg, A(da, 0), U(8));
          s->how = MADE, s->from = nullptr;
          if (vl) H away(std::move(d));
          const H& cs = s;
          const void* p = std::addressof(*s);
          Q::ops = 0;
          switch (cat) {
            case 0: d = s; break;
            case 1: d = cs; break;
            case 2: d = std::move(s); break;
            case 3: d = std::move(cs); break;
          }
          if (cat == 2)
            stolen<H>(s, p, d, 4, eq(sa, da));
          else
            copied<H>(s, 4, p, d, !poly && !vl);
        }
    }
  for (auto& e : w::errors) fail("%s", e.text.c_str());
}
#define ALL(U)                                   \
  run<U, 0>(#U);                                 \
  run<U, A_CCA | A_CMA>(#U " propagating");      \
  run<U, A_AE>(#U " always equal");              \
  run<U, A_CONS>(#U " constructing allocator");  \
  run<U, A_CONS | A_CCA>(#U " constructing, propagating allocator");
MINI_PART("operations used") {
  w::init();
  ALL(Q)
#ifdef H_POLY
  ALL(QD)
#endif
}
