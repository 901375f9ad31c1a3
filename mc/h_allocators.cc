// C20: every sequence of operations on the allocators of the tests, against
// counters and tags kept by the harness; containers and handles using them
// against the same with a reference allocator.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "tagged_allocator.h"
#include "tracking_allocator.h"
#ifdef MC_CXX20
#include "indirect.h"
#include "polymorphic.h"
#else
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
#endif
#include "mini.hpp"
using mini::at;
using mini::fail;
#ifndef MC_DEPTH
#define MC_DEPTH 4
#endif

struct Wide {  // over-aligned where allocators honour it
#if __cplusplus >= 201703L
  alignas(64)
#endif
      double d[3];
};
using Elem0 = char;
using Elem1 = double;
using Elem2 = Wide;

// ---- sequences --------------------------------------------------------------
// Two groups (counter pairs or tags); up to 4 allocators, each of one of three
// element types; up to 4 blocks.
template <size_t A, size_t B>
struct TagWorld {
  template <class T>
  using Al = xyz::TaggedAllocator<T>;
  size_t tags[2] = {A, B};
  template <class T>
  Al<T> make(int g) {
    return Al<T>(tags[g]);
  }
  void allocated(int) {}
  void deallocated(int) {}
  void check() {}
  template <class T>
  void is(const Al<T>& a, int g) {
    ++mini::sh->executions;
    if (a.tag != tags[g]) fail("the tag is %zu, should be %zu", (size_t)a.tag, tags[g]);
  }
  static const char* name() { return "TaggedAllocator"; }
};
struct TrackWorld {
  template <class T>
  using Al = xyz::TrackingAllocator<T>;
  unsigned a[2] = {0, 254}, d[2] = {65533, 0};  // the harness only reads them
  unsigned ma[2] = {0, 254}, md[2] = {65533, 0};
  template <class T>
  Al<T> make(int g) {
    return Al<T>(&a[g], &d[g]);
  }
  void allocated(int g) { ++ma[g]; }
  void deallocated(int g) { ++md[g]; }
  void check() {
    ++mini::sh->executions;
    for (int g = 0; g < 2; ++g)
      if (a[g] != ma[g] || d[g] != md[g])
        fail("the counters of group %d are %u and %u, should be %u and %u", g, a[g], d[g], ma[g],
             md[g]);
  }
  template <class T>
  void is(const Al<T>&, int) {}
  static const char* name() { return "TrackingAllocator"; }
};
// Sharing one counter of two: not equal.
struct MixWorld {
  template <class T>
  using Al = xyz::TrackingAllocator<T>;
  unsigned c[3] = {0, 0, 0}, m[3] = {0, 0, 0};
  template <class T>
  Al<T> make(int g) {
    return Al<T>(&c[0], &c[1 + g]);
  }
  void allocated(int) { ++m[0]; }
  void deallocated(int g) { ++m[1 + g]; }
  void check() {
    ++mini::sh->executions;
    for (int i = 0; i < 3; ++i)
      if (c[i] != m[i]) fail("counter %d is %u, should be %u", i, c[i], m[i]);
  }
  template <class T>
  void is(const Al<T>&, int) {}
  static const char* name() { return "TrackingAllocators sharing one counter"; }
};
struct Mix2World : MixWorld {
  template <class T>
  Al<T> make(int g) {
    return Al<T>(&c[1 + g], &c[0]);
  }
  void allocated(int g) { ++m[1 + g]; }
  void deallocated(int) { ++m[0]; }
  static const char* name() { return "TrackingAllocators sharing the other counter"; }
};

struct Op {
  int k, i, j, x;
};
template <class W>
struct Run {
  W w;
  static const int NA = 3, NB = 3;
  struct Slot {
    int g = -1, t = 0;
    alignas(8) unsigned char mem[3][64];
  } s[NA];
  struct Blk {
    unsigned char* p = nullptr;
    int g, t;
    std::size_t n;
    unsigned char fill;
  } b[NB];
  unsigned char next_fill = 1;
  template <class T>
  typename W::template Al<T>& al(int i) {
    return *reinterpret_cast<typename W::template Al<T>*>(s[i].mem[0]);
  }
  static std::size_t size_of(int t) {
    return t == 0 ? sizeof(Elem0) : t == 1 ? sizeof(Elem1) : sizeof(Elem2);
  }
  static std::size_t align_of(int t) {
    return t == 0 ? alignof(Elem0) : t == 1 ? alignof(Elem1) : alignof(Elem2);
  }
  template <class T, class U>
  void conv(int i, int j) {  // slot i := Al<T> made from slot j's Al<U>
    ::new (s[i].mem[0]) typename W::template Al<T>(al<U>(j));
  }
  template <class T>
  void conv_from(int i, int j) {
    switch (s[j].t) {
      case 0: conv<T, Elem0>(i, j); break;
      case 1: conv<T, Elem1>(i, j); break;
      case 2: conv<T, Elem2>(i, j); break;
    }
  }
  template <class T>
  void make(int i, int g) {
    ::new (s[i].mem[0]) typename W::template Al<T>(w.template make<T>(g));
  }
  template <class T>
  void* alloc(int i, std::size_t n, bool traits) {
    if (traits) return std::allocator_traits<typename W::template Al<T>>::allocate(al<T>(i), n);
    return al<T>(i).allocate(n);
  }
  template <class T>
  void dealloc(int i, Blk& k) {
    al<T>(i).deallocate(reinterpret_cast<T*>(k.p), k.n);
  }
  template <class T>
  void equality() {
    for (int i = 0; i < NA; ++i)
      for (int j = 0; j < NA; ++j)
        if (s[i].g >= 0 && s[j].g >= 0 && s[i].t == s[j].t) {
          const auto& x = al<T>(i);
          const auto& y = al<T>(j);
          bool want = s[i].g == s[j].g;
          ++mini::sh->executions;
          if ((x == y) != want || (x != y) == want) fail("allocators %d and %d: == wrong", i, j);
        }
  }
  template <class T>
  void each(int t) {
    for (int i = 0; i < NA; ++i)
      if (s[i].g >= 0 && s[i].t == t) w.is(al<T>(i), s[i].g);
    for (int i = 0; i < NA; ++i)
      for (int j = 0; j < NA; ++j)
        if (s[i].g >= 0 && s[j].g >= 0 && s[i].t == t && s[j].t == t) {
          const auto& x = al<T>(i);
          const auto& y = al<T>(j);
          bool want = s[i].g == s[j].g;
          ++mini::sh->executions;
          if ((x == y) != want || (x != y) == want)
            fail("allocators %d and %d: equal should be %d", i, j, want);
        }
  }
  static std::vector<Op>& ops() {
    static std::vector<Op> r;
    if (r.empty()) {
      for (int i = 0; i < NA; ++i) {
        for (int t = 0; t < 3; ++t) {
          for (int g = 0; g < 2; ++g) r.push_back(Op{0, i, g, t});
          for (int j = 0; j < NA; ++j)
            if (i != j) r.push_back(Op{1, i, j, t});
        }
        for (int j = 0; j < NA; ++j) r.push_back(Op{4, i, j, 0});
        for (int n = 1; n <= 3; n += 2) r.push_back(Op{2, i, n, n == 3});
        for (int k = 0; k < NB; ++k) r.push_back(Op{3, i, k, 0});
      }
    }
    return r;
  }
  static std::string text(const Op& o) {
    static const char* const tn[] = {"char", "double", "wide"};
    std::string i = std::to_string(o.i), j = std::to_string(o.j);
    switch (o.k) {
      case 0: return "allocator " + i + " new of group " + j + " for " + tn[o.x];
      case 1: return "allocator " + i + " from " + j + " rebound to " + tn[o.x];
      case 2: return "allocate " + j + " by " + i;
      case 3: return "deallocate block " + j + " by " + i;
      default: return "allocator " + i + " = " + j;
    }
  }
  bool possible(const Op& o) const {
    switch (o.k) {
      case 0: return s[o.i].g < 0;
      case 1: return s[o.i].g < 0 && s[o.j].g >= 0;
      case 2: {
        if (s[o.i].g < 0) return false;
        for (auto& k : b)
          if (!k.p) return true;
        return false;
      }
      case 3:
        return s[o.i].g >= 0 && b[o.j].p && b[o.j].g == s[o.i].g && b[o.j].t == s[o.i].t;
      case 4: return s[o.i].g >= 0 && s[o.j].g >= 0 && s[o.i].t == s[o.j].t;
    }
    return false;
  }
#define BY_TYPE(t, CALL)        \
  switch (t) {                  \
    case 0: {                   \
      using E = Elem0;          \
      CALL;                     \
      break;                    \
    }                           \
    case 1: {                   \
      using E = Elem1;          \
      CALL;                     \
      break;                    \
    }                           \
    case 2: {                   \
      using E = Elem2;          \
      CALL;                     \
      break;                    \
    }                           \
  }
  void exec(const Op& o) {
    switch (o.k) {
      case 0:
        BY_TYPE(o.x, this->template make<E>(o.i, o.j))
        s[o.i].g = o.j, s[o.i].t = o.x;
        break;
      case 1:
        BY_TYPE(o.x, this->template conv_from<E>(o.i, o.j))
        s[o.i].g = s[o.j].g, s[o.i].t = o.x;
        break;
      case 4:
        BY_TYPE(s[o.i].t, this->template al<E>(o.i) = this->template al<E>(o.j))
        s[o.i].g = s[o.j].g;
        break;
      case 2: {
        Blk* k = nullptr;
        for (auto& x : b)
          if (!x.p) {
            k = &x;
            break;
          }
        void* p = nullptr;
        BY_TYPE(s[o.i].t, p = this->template alloc<E>(o.i, o.j, o.x))
        w.allocated(s[o.i].g);
        k->p = static_cast<unsigned char*>(p);
        k->g = s[o.i].g, k->t = s[o.i].t, k->n = o.j;
        k->fill = next_fill++;
        if (!p) {
          fail("allocate gives null");
          return;
        }
        if (reinterpret_cast<std::uintptr_t>(p) % align_of(k->t)) fail("storage is misaligned");
        for (auto& x : b)
          if (&x != k && x.p &&
              !(x.p + x.n * size_of(x.t) <= k->p || k->p + k->n * size_of(k->t) <= x.p))
            fail("two blocks overlap");
        std::memset(k->p, k->fill, k->n * size_of(k->t));
        break;
      }
      case 3: {
        Blk& k = b[o.j];
        BY_TYPE(k.t, this->template dealloc<E>(o.i, k))
        w.deallocated(s[o.i].g);
        k.p = nullptr;
        break;
      }
    }
  }
  void check() {
    w.check();
    each<Elem0>(0), each<Elem1>(1), each<Elem2>(2);
    for (auto& k : b)
      if (k.p)
        for (std::size_t i = 0; i < k.n * size_of(k.t); ++i)
          if (k.p[i] != k.fill) {
            fail("the contents of a block changed");
            break;
          }
  }
  void finish() {
    for (auto& k : b)
      if (k.p) {
        // by a new equal allocator
        auto g = k.g;
        BY_TYPE(k.t, this->w.template make<E>(g).deallocate(reinterpret_cast<E*>(k.p), k.n))
        w.deallocated(k.g);
      }
    w.check();
  }
};
template <class W>
struct Explore {
  Op hist[16];
  int depth = 0;
  void go(int left) {
    for (const Op& o : Run<W>::ops()) {
      if (mini::sh->failures > 20) return;
      Run<W> r;
      for (int i = 0; i < depth; ++i) r.exec(hist[i]);
      if (r.possible(o)) {
        std::string t;
        for (int i = 0; i < depth; ++i) t += Run<W>::text(hist[i]) + "; ";
        at("%s: %s%s", W::name(), t.c_str(), Run<W>::text(o).c_str());
        mini::step();
        r.exec(o);
        r.check();
        r.finish();
        if (left > 1) {
          hist[depth++] = o;
          go(left - 1);
          --depth;
        }
      } else {
        r.finish();
      }
    }
    mini::state();
  }
};
// (allocators 0, 1, 2 are made in this order: states that differ only in the
// order are visited more than once, which does no harm)
MINI_PART("tagged") { Explore<TagWorld<7, 0>>().go(MC_DEPTH); }
MINI_PART("tagged, wide tags") {
  Explore<TagWorld<(size_t(1) << 63) + 1, 1>>().go(MC_DEPTH - 1);
}

// Every pair of tags that differ in any one bit, or by one, or in sign.
MINI_PART("tags") {
  std::vector<size_t> t;
  for (int i = 0; i < 64; ++i) {
    size_t b = size_t(1) << i;
    t.push_back(b);
    t.push_back(b - 1);
    t.push_back(~b);
    t.push_back(b + 1);
  }
  t.push_back(~size_t(0));
  for (size_t x : t) {
    xyz::TaggedAllocator<int> a(x);
    xyz::TaggedAllocator<double> d(a);
    xyz::TaggedAllocator<double> d2(d), d3(0);
    d3 = d2;
    typename std::allocator_traits<xyz::TaggedAllocator<double>>::template rebind_alloc<int> r(d3);
    at("tag %zx", x);
    if (a.tag != x || d.tag != x || d2.tag != x || d3.tag != x || r.tag != x)
      fail("a tag changed by copying or rebinding");
    for (size_t y : t) {
      xyz::TaggedAllocator<int> b(y);
      at("tags %zx and %zx", x, y);
      ++mini::sh->executions;
      mini::step();
      if ((a == b) != (x == y) || (a != b) != (x != y) || (r == b) != (x == y))
        fail("compare as %d, %d", int(a == b), int(a != b));
    }
    mini::state();
  }
}
MINI_PART("tracking") { Explore<TrackWorld>().go(MC_DEPTH); }
MINI_PART("tracking, allocation counter shared") { Explore<MixWorld>().go(MC_DEPTH - 1); }
MINI_PART("tracking, deallocation counter shared") { Explore<Mix2World>().go(MC_DEPTH - 1); }

// ---- traits -------------------------------------------------------------------
template <template <class> class Al>
static void traits() {
  using T = std::allocator_traits<Al<int>>;
  MINI_CHECK((std::is_same<typename T::value_type, int>::value));
  MINI_CHECK((std::is_same<typename T::pointer, int*>::value));
  MINI_CHECK((std::is_same<typename T::template rebind_alloc<char>, Al<char>>::value));
  MINI_CHECK((std::is_same<typename T::template rebind_traits<char>,
                           std::allocator_traits<Al<char>>>::value));
  MINI_CHECK(!T::is_always_equal::value);
  MINI_CHECK(!T::propagate_on_container_copy_assignment::value);
  MINI_CHECK(!T::propagate_on_container_move_assignment::value);
  MINI_CHECK(!T::propagate_on_container_swap::value);
  MINI_CHECK((std::is_convertible<Al<char>, Al<int>>::value));
  MINI_CHECK((noexcept(std::declval<const Al<int>&>() == std::declval<const Al<int>&>())));
}
struct Arg {
  int how;
  Arg() : how(0) {}
  Arg(Arg&) : how(1) {}
  Arg(const Arg&) : how(2) {}
  Arg(Arg&&) : how(3) {}
};
struct Made {
  int h[2];
  template <class A, class B>
  Made(A&& a, B&& b) : h{Arg(std::forward<A>(a)).how, Arg(std::forward<B>(b)).how} {}
  Made() : h{-1, -1} {}
};
template <class A>
static void constructs(A a) {
  using T = std::allocator_traits<A>;
  alignas(Made) unsigned char mem[sizeof(Made)];
  Made* m = reinterpret_cast<Made*>(mem);
  Arg l;
  const Arg c;
  at("construct: arguments");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      std::memset(mem, 77, sizeof mem);
      switch (i * 3 + j) {
        case 0: T::construct(a, m, l, l); break;
        case 1: T::construct(a, m, l, c); break;
        case 2: T::construct(a, m, l, std::move(l)); break;
        case 3: T::construct(a, m, c, l); break;
        case 4: T::construct(a, m, c, c); break;
        case 5: T::construct(a, m, c, std::move(l)); break;
        case 6: T::construct(a, m, std::move(l), l); break;
        case 7: T::construct(a, m, std::move(l), c); break;
        case 8: T::construct(a, m, std::move(l), std::move(l)); break;
      }
      mini::step();
      MINI_CHECKF(m->h[0] == i + 1 && m->h[1] == j + 1, "forwards as %d %d, should be %d %d",
                  m->h[0], m->h[1], i + 1, j + 1);
      T::destroy(a, m);
    }
  T::construct(a, m);
  MINI_CHECK(m->h[0] == -1);
  int x = 9;
  T::construct(a, &x);
  MINI_CHECKF(x == 0, "construct without arguments does not value-initialize");
  T::construct(a, &x, 5);
  MINI_CHECK(x == 5);
}
MINI_PART("traits") {
  at("traits of TaggedAllocator");
  traits<xyz::TaggedAllocator>();
  at("traits of TrackingAllocator");
  traits<xyz::TrackingAllocator>();
  unsigned c = 0, d = 0;
  constructs(xyz::TaggedAllocator<int>(3));
  constructs(xyz::TrackingAllocator<int>(&c, &d));
  MINI_CHECK(c == 0 && d == 0);
}

// ---- containers and handles -----------------------------------------------
template <class T>
struct Ref {  // counts by itself
  using value_type = T;
  unsigned *a, *d;
  Ref(unsigned* x, unsigned* y) : a(x), d(y) {}
  template <class U>
  Ref(const Ref<U>& o) : a(o.a), d(o.d) {}
  T* allocate(std::size_t n) {
    ++*a;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, std::size_t n) {
    ++*d;
    std::allocator<T>().deallocate(p, n);
  }
  friend bool operator==(const Ref& x, const Ref& y) { return x.a == y.a && x.d == y.d; }
  friend bool operator!=(const Ref& x, const Ref& y) { return !(x == y); }
};
struct Base {
  int b = 1;
  Base() {}
  explicit Base(int x) : b(x) {}
  virtual int f() const { return b; }
  virtual ~Base() {}
};
struct Der : Base {
  double more[4] = {1, 2, 3, 4};
  using Base::Base;
  Der() {}
  int f() const override { return -b; }
};
// Containers: a default-less interface over two objects with the given allocators.
template <template <class> class Al>
struct CVector {
  using A = Al<int>;
  std::vector<int, A> c;
  CVector(A a) : c(a) {}
  CVector(const CVector&) = default;
  CVector& operator=(const CVector&) = default;
  CVector(CVector&&) = default;
  CVector& operator=(CVector&&) = default;
  void add(int v) { c.push_back(v); }
  void take() {
    if (!c.empty()) c.pop_back();
  }
  void squeeze() { c.shrink_to_fit(); }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CList {
  using A = Al<Wide>;
  std::list<Wide, A> c;
  CList(A a) : c(a) {}
  void add(int v) { c.push_front(Wide{{double(v), 0, 0}}); }
  void take() {
    if (!c.empty()) c.pop_back();
  }
  void squeeze() { c.clear(); }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CMap {
  using A = Al<std::pair<const int, int>>;
  std::map<int, int, std::less<int>, A> c;
  CMap(A a) : c(std::less<int>(), a) {}
  void add(int v) { ++c[v]; }
  void take() {
    if (!c.empty()) c.erase(c.begin());
  }
  void squeeze() {}
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CHash {
  using A = Al<std::pair<const int, int>>;
  std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, A> c;
  CHash(A a) : c(1, std::hash<int>(), std::equal_to<int>(), a) {}
  void add(int v) { ++c[v]; }
  void take() {
    if (!c.empty()) c.erase(c.begin());
  }
  void squeeze() { c.rehash(32); }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CString {
  using A = Al<char>;
  std::basic_string<char, std::char_traits<char>, A> c;
  CString(A a) : c(a) {}
  void add(int v) { c.append(20, char('a' + v)); }
  void take() { c.clear(); }
  void squeeze() { c.shrink_to_fit(); }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CIndirect {
  using A = Al<int>;
  xyz::indirect<int, A> c;
  CIndirect(A a) : c(std::allocator_arg, a, 0) {}
  void add(int v) { c = v; }
  void take() { auto x = std::move(c); }
  void squeeze() {
    auto x = c;
    swap(x, c);
  }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CPoly {
  using A = Al<Base>;
  using P = xyz::polymorphic<Base, A>;
  P c;
  CPoly(A a) : c(std::allocator_arg, a, Der(1)) {}
  void add(int v) { c = P(std::allocator_arg, c.get_allocator(), Base(v)); }
  void take() { auto x = std::move(c); }
  void squeeze() {
    auto x = c;
    swap(x, c);
  }
  A alloc() const { return c.get_allocator(); }
};
template <template <class> class Al>
struct CNested {
  using A = Al<int>;
  using I = xyz::indirect<int, A>;
  using B = Al<I>;
  std::vector<I, B> c;
  CNested(A a) : c(B(a)) {}
  void add(int v) {
    // (the inner ones take the allocator of the vector, rebound)
    c.emplace_back(std::allocator_arg, A(c.get_allocator()), v);
  }
  void take() {
    if (!c.empty()) c.erase(c.begin());
  }
  void squeeze() { c.shrink_to_fit(); }
  A alloc() const { return A(c.get_allocator()); }
};

// Runs a program over two objects; returns the counters after every step.
template <template <class> class Al, template <template <class> class> class C, class Make>
static std::vector<unsigned> program(const std::vector<int>& p, Make make, unsigned* cnt,
                                     bool one_group) {
  using X = C<Al>;
  std::vector<unsigned> r;
  auto note = [&] {
    for (int i = 0; i < 4; ++i) r.push_back(cnt[i]);
  };
  {
    X x(make(0));
    X y(make(one_group ? 0 : 1));
    note();
    int v = 2;
    for (int o : p) {
      switch (o) {
        case 0: x.add(v++); break;
        case 1: x.take(); break;
        case 2: x.squeeze(); break;
        case 3: y = x; break;
        case 4: y = std::move(x); break;
        case 5: {
          X z(x);
          note();
          break;
        }
        case 6: x = y; break;
        case 7: {
          X z(std::move(y));
          note();
          y = z;
          break;
        }
      }
      note();
    }
  }
  note();
  return r;
}
template <template <template <class> class> class C>
static void containers(const char* name) {
  std::vector<int> p;
  const int D = MC_DEPTH;
  std::function<void(int)> rec = [&](int left) {
    for (int group = 0; group < 2; ++group) {
      std::string t;
      for (int o : p) t += std::to_string(o) + " ";
      at("%s: program %s(%s)", name, t.c_str(), group ? "one group" : "two groups");
      mini::state();
      mini::step();
      unsigned ref[4] = {}, got[4] = {};
      auto want = program<Ref, C>(
          p, [&](int g) { return typename C<Ref>::A(&ref[g], &ref[2 + g]); }, ref, group);
      auto have = program<xyz::TrackingAllocator, C>(
          p,
          [&](int g) {
            return typename C<xyz::TrackingAllocator>::A(&got[g], &got[2 + g]);
          },
          got, group);
      ++mini::sh->executions;
      if (want != have) {
        std::string a, b;
        for (unsigned x : want) a += std::to_string(x) + " ";
        for (unsigned x : have) b += std::to_string(x) + " ";
        fail("counters %s, should be %s", b.c_str(), a.c_str());
      }
      ++mini::sh->executions;
      if (got[0] + got[1] != got[2] + got[3]) fail("allocations and deallocations differ");
      if (!group && (got[0] != got[2] || got[1] != got[3]))
        fail("storage is released through an unequal allocator");
      // the tag survives
      using T = C<xyz::TaggedAllocator>;
      T x(typename T::A(11)), y(typename T::A(group ? 11 : 12));
      unsigned none[4] = {};
      program<xyz::TaggedAllocator, C>(
          p, [&](int g) { return typename T::A(group ? 11 : 11 + g); }, none, group);
      T z(x);
      ++mini::sh->executions;
      if (x.alloc().tag != 11 || z.alloc().tag != 11 || y.alloc().tag != (group ? 11u : 12u))
        fail("a tag changed");
      y = x;
      if (y.alloc().tag != (group ? 11u : 12u)) fail("a tag changed by assignment");
    }
    if (left)
      for (int o = 0; o < 8; ++o) {
        p.push_back(o);
        rec(left - 1);
        p.pop_back();
      }
  };
  rec(D - 1);
}
#define CONT(N) \
  MINI_PART("containers: " #N) { containers<N>(#N); }
CONT(CVector)
CONT(CList)
CONT(CMap)
CONT(CHash)
CONT(CString)
CONT(CIndirect)
CONT(CPoly)
CONT(CNested)
