// C21: every sequence of operations on two or three exploratory wrappers, with
// every fault point of the last one, against plain values.
#include "exploration/wrapper.h"

#include <new>
#include <set>

#include "mini.hpp"
using mini::at;
using mini::fail;
#ifndef MC_DEPTH
#define MC_DEPTH 4
#endif

// ---- the world -------------------------------------------------------------
static bool counting;      // inside an operation of the code under test
static long blocks;        // live blocks obtained while counting
static int fallible, fault_at;
struct Boom {};
static void may_throw() {
  if (counting && ++fallible == fault_at) throw Boom();
}
struct Rec {
  const void* p;
  int v;
};
static const int MAXOBJ = 32;
static const void* objs[MAXOBJ];
static int nobj;
static bool known(const void* p) {
  for (int i = 0; i < nobj; ++i)
    if (objs[i] == p) return true;
  return false;
}
static void* blk[64];
static int nblk;
static void* get(std::size_t n) {
  if (counting && ++fallible == fault_at) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (counting && nblk < 64) blk[nblk++] = p, ++blocks;
  return p;
}
static void put(void* p) {
  if (!p) return;
  for (int i = 0; i < nblk; ++i)
    if (blk[i] == p) {
      blk[i] = blk[--nblk], --blocks;
      break;
    }
  std::free(p);
}
void* operator new(std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }

static int next_value;
static const void *seen_l, *seen_r;
// value 2 is not equal to itself
struct V {
  int v;
  V() : v((may_throw(), next_value)) { born(); }
  V(const V& o) : v((may_throw(), o.get())) { born(); }
  V& operator=(const V& o) {
    may_throw();
    v = o.get();
    return *this;
  }
  ~V() {
    for (int i = 0; i < nobj; ++i)
      if (objs[i] == this) {
        objs[i] = objs[--nobj];
        v = -99;
        return;
      }
    fail("destruction of what is no object");
  }
  void born() {
    if (nobj < MAXOBJ) objs[nobj++] = this;
  }
  int get() const {
    if (!known(this)) fail("use of what is no object");
    return v;
  }
  friend bool operator==(const V& a, const V& b) {
    seen_l = &a, seen_r = &b;
    return a.get() == b.get() && a.v != 2;
  }
};
// comparable with V, another type
struct W {
  int v;
  W() : v(next_value) {}
  friend bool operator==(const V& a, const W& b) {
    seen_l = &a, seen_r = &b;
    return a.get() == b.v && a.v != 2;
  }
  friend bool operator==(const W& a, const V& b) {
    seen_l = &a, seen_r = &b;
    return a.v == b.get() && a.v != 2;
  }
};

template <class X, int N>
struct Model {
  alignas(X) unsigned char mem[N][sizeof(X)];
  int val[N];          // -1: no wrapper here
  const V* addr[N];    // its object, once seen
  X& w(int i) { return *reinterpret_cast<X*>(mem[i]); }

  struct Op {
    int k, i, j;
  };
  std::vector<Op> ops;
  Model() {
    for (int i = 0; i < N; ++i) {
      for (int v = 0; v < 3; ++v) ops.push_back(Op{0, i, v});
      for (int j = 0; j < N; ++j) {
        if (j != i) ops.push_back(Op{1, i, j});
        ops.push_back(Op{2, i, j});
        ops.push_back(Op{3, i, j});
      }
      ops.push_back(Op{4, i, 0});
      ops.push_back(Op{5, i, 0});
    }
  }
  static const char* name(const Op& o) {
    static char b[8][40];
    static int k;
    char* r = b[k++ & 7];
    const char* f[] = {"new %d value %d", "copy %d from %d", "%d = %d", "%d == %d", "drop %d",
                       "change %d"};
    std::snprintf(r, 40, f[o.k], o.i, o.j);
    return r;
  }
  void start() {
    for (int i = 0; i < N; ++i) val[i] = -1, addr[i] = nullptr;
    nobj = nblk = 0, blocks = 0, fault_at = 0, counting = false;
  }
  bool possible(const Op& o) const {
    switch (o.k) {
      case 0: return val[o.i] < 0;
      case 1: return val[o.i] < 0 && val[o.j] >= 0;
      case 2:
      case 3: return val[o.i] >= 0 && val[o.j] >= 0;
    }
    return val[o.i] >= 0;
  }
  // The address and value of wrapper i's object.
  const V* look(int i) {
    seen_l = nullptr;
    bool r = w(i) == w(i);
    if (r != (val[i] != 2)) fail("wrapper %d == itself gives %d", i, r);
    if (!seen_l || seen_l != seen_r) {
      fail("wrapper %d does not compare its object with itself", i);
      return nullptr;
    }
    return static_cast<const V*>(seen_l);
  }
  void check() {
    int n = 0;
    const V* a[N] = {};
    for (int i = 0; i < N; ++i)
      if (val[i] >= 0) {
        ++n;
        a[i] = look(i);
        if (!a[i]) continue;
        if (a[i]->v != val[i]) fail("wrapper %d is %d, should be %d", i, a[i]->v, val[i]);
        for (int j = 0; j < i; ++j)
          if (a[j] == a[i]) fail("wrappers %d and %d share an object", i, j);
        addr[i] = a[i];
      }
    if (nobj != n) fail("%d objects live, should be %d", nobj, n);
    if (blocks != n) fail("%ld blocks live, should be %d", blocks, n);
    ++mini::sh->executions;
  }
  // true: an exception came out
  bool exec(const Op& o) {
    fallible = 0;
    counting = true;
    bool threw = false;
    try {
      switch (o.k) {
        case 0:
          next_value = o.j;
          ::new (mem[o.i]) X();
          break;
        case 1: ::new (mem[o.i]) X(static_cast<const X&>(w(o.j))); break;
        case 2: w(o.i) = static_cast<const X&>(w(o.j)); break;
        case 3: {
          bool r = static_cast<const X&>(w(o.i)) == static_cast<const X&>(w(o.j));
          bool want = val[o.i] == val[o.j] && val[o.i] != 2;
          if (r != want) fail("gives %d, should be %d", r, want);
          if (fallible) fail("comparison allocates or copies");
          break;
        }
        case 4: w(o.i).~X(); break;
        case 5: const_cast<V*>(addr[o.i])->v = 3; break;
      }
    } catch (const Boom&) {
      threw = true;
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (...) {
      threw = true;
      fail("another exception");
    }
    counting = false;
    if (threw && !fault_at) fail("throws by itself");
    if (!threw) switch (o.k) {
        case 0: val[o.i] = o.j; break;
        case 1:
        case 2: val[o.i] = val[o.j]; break;
        case 4: val[o.i] = -1; break;
        case 5: val[o.i] = 3; break;
      }
    return threw;
  }
  void finish() {
    for (int i = 0; i < N; ++i)
      if (val[i] >= 0) w(i).~X();
    if (nobj || blocks) fail("%d objects and %ld blocks are left at the end", nobj, blocks);
  }
  Op hist[16];
  int depth;
  std::string text(const Op& o, int fault) const {
    std::string s;
    for (int i = 0; i < depth; ++i) s += std::string(name(hist[i])) + "; ";
    s += name(o);
    if (fault) s += ", event " + std::to_string(fault) + " throwing";
    return s;
  }
  bool replay() {
    start();
    for (int i = 0; i < depth; ++i) {
      if (exec(hist[i])) return false;
      for (int k = 0; k < N; ++k)
        if (val[k] >= 0) addr[k] = look(k);
    }
    return true;
  }
  void step_all(int left) {
    for (const Op& o : ops) {
      if (mini::sh->failures > 20) return;
      at("%s", text(o, 0).c_str());
      if (!replay()) return;
      if (!possible(o)) {
        finish();
        continue;
      }
      mini::step();
      const V* before[N];
      for (int k = 0; k < N; ++k) before[k] = val[k] >= 0 ? addr[k] : nullptr;
      exec(o);
      int events = fallible;
      check();
      for (int k = 0; k < N; ++k)  // no other object is touched
        if (val[k] >= 0 && before[k] && k != o.i && addr[k] != before[k])
          fail("the object of wrapper %d changed", k);
      if ((o.k == 3 || o.k == 5) && addr[o.i] != before[o.i])
        fail("the object of wrapper %d changed", o.i);
      finish();
      for (int f = 1; f <= events; ++f) {
        at("%s", text(o, f).c_str());
        if (!replay()) return;
        fault_at = f;
        int want[N];
        for (int k = 0; k < N; ++k) {
          want[k] = val[k];
          before[k] = val[k] >= 0 ? addr[k] : nullptr;
        }
        bool threw = exec(o);
        fault_at = 0;
        if (!threw) fail("the exception does not come out");
        for (int k = 0; k < N; ++k) {
          if (val[k] != want[k]) fail("wrapper %d changed", k);
          if (val[k] >= 0) {
            const V* a = look(k);
            if (a && before[k] && a != before[k]) fail("wrapper %d has another object", k);
          }
        }
        check();
        finish();
      }
      if (left > 1) {
        hist[depth++] = o;
        step_all(left - 1);
        --depth;
      }
    }
    mini::state();
  }
  void run(int d) {
    depth = 0;
    step_all(d);
  }
};

MINI_PART("wrapper") { Model<xyz::wrapper<V>, 3>().run(MC_DEPTH); }
MINI_PART("constrained_wrapper") { Model<xyz::constrained_wrapper<V>, 3>().run(MC_DEPTH); }
MINI_PART("two wrappers, deeper") { Model<xyz::wrapper<V>, 2>().run(MC_DEPTH + 1); }
MINI_PART("two constrained_wrappers, deeper") {
  Model<xyz::constrained_wrapper<V>, 2>().run(MC_DEPTH + 1);
}
MINI_PART("other types") {
  using A = xyz::wrapper<V>;
  using B = xyz::wrapper<W>;
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b) {
      mini::state();
      at("wrappers of different types, values %d %d", a, b);
      next_value = a;
      A x;
      next_value = b;
      B y;
      bool want = a == b && a != 2;
      MINI_CHECK((x == y) == want);
      MINI_CHECK((y == x) == want);
      MINI_CHECK((x != y) == !want);
      MINI_CHECK(&x == &x);
    }
  // const objects; a copy outlives what it was copied from
  at("const, copy outlives");
  next_value = 1;
  A* p = new A();
  const A q(*p);
  delete p;
  next_value = 1;
  const A r;
  MINI_CHECK(q == r);
}

// ---- what constrained_wrapper offers follows from what its value offers ----
// D: default construction, C: copies, E: ==; each of present, absent, and (for
// the first two) not accessible.
template <int D, int C, int E>
class Has {
  int i = 0;

 public:
  Has()
    requires(D == 1)
  = default;
  Has(int) {}
  Has(const Has&)
    requires(C == 1)
  = default;
  Has(const Has&)
    requires(C != 1)
  = delete;
  Has& operator=(const Has&) = delete;
  friend bool operator==(const Has&, const Has&)
    requires(E == 1)
  {
    return true;
  }
  friend bool operator==(const Has&, const Has&)
    requires(E == 2)
  = delete;
};
template <class A, class B>
constexpr bool equal_comparable = requires(const A& a, const B& b) { a == b; };
template <class A, class B>
constexpr bool unequal_comparable = requires(const A& a, const B& b) { a != b; };
template <int D, int C, int E>
static void offers() {
  using T = Has<D, C, E>;
  using H = xyz::constrained_wrapper<T>;
  mini::state();
  at("constrained_wrapper of a value type with default construction %d, copies %d, == %d", D, C, E);
  MINI_CHECK((std::is_default_constructible_v<H> == (D == 1)));
  MINI_CHECK((std::is_copy_constructible_v<H> == (C == 1)));
  MINI_CHECK((equal_comparable<H, H> == (E == 1)));
  MINI_CHECK((unequal_comparable<H, H> == (E == 1)));
  MINI_CHECK((std::is_nothrow_destructible_v<H>));
  MINI_CHECK((!equal_comparable<H, xyz::constrained_wrapper<V>>));
  MINI_CHECK((!std::is_constructible_v<H, T*>));
  MINI_CHECK((!std::is_convertible_v<T, H>));
}
template <int D, int C>
static void offers2() {
  offers<D, C, 0>();
  offers<D, C, 1>();
  offers<D, C, 2>();
}
MINI_PART("what constrained_wrapper offers") {
  offers2<0, 0>();
  offers2<0, 1>();
  offers2<1, 0>();
  offers2<1, 1>();
}
