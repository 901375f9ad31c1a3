// C17: the operations threads perform on shared const handles and on private
// copies of them.  Compiled with -fsanitize=thread, linked with threads.cc.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include <cstddef>
#include <memory>
#if __cplusplus >= 201703L
#include <memory_resource>
#endif
#include <new>
#include <utility>

#include "threads.hpp"

struct Part {  // copied deeply
  int* p;
  explicit Part(int x) : p(new int(x)) {}
  Part(const Part& o) : p(new int(*o.p)) {}
  Part(Part&& o) noexcept : p(o.p) { o.p = nullptr; }
  Part& operator=(const Part& o) {
    if (p && o.p)
      *p = *o.p;
    else
      reset(o.p ? new int(*o.p) : nullptr);
    return *this;
  }
  Part& operator=(Part&& o) noexcept {
    int* t = o.p;
    o.p = nullptr;
    reset(t);
    return *this;
  }
  void reset(int* q) {
    delete p;
    p = q;
  }
  ~Part() { delete p; }
  int get() const { return p ? *p : -7; }
};
struct V {
  int a;
  Part b;
  explicit V(int x) : a(x), b(x + 100) {}
  int get() const { return a * 1000 + b.get(); }
  void set(int x) { a = x, b = Part(x + 100); }
  friend bool operator==(const V& x, const V& y) { return x.get() == y.get(); }
  friend bool operator!=(const V& x, const V& y) { return x.get() != y.get(); }
  friend bool operator<(const V& x, const V& y) { return x.get() < y.get(); }
  friend bool operator>(const V& x, const V& y) { return x.get() > y.get(); }
  friend bool operator<=(const V& x, const V& y) { return x.get() <= y.get(); }
  friend bool operator>=(const V& x, const V& y) { return x.get() >= y.get(); }
};
namespace std {
template <>
struct hash<V> {
  size_t operator()(const V& v) const { return size_t(v.get()); }
};
}  // namespace std
struct B {
  int a;
  Part b;
  explicit B(int x) : a(x), b(x + 100) {}
  virtual int get() const { return a * 1000 + b.get(); }
  void set(int x) { a = x, b = Part(x + 100); }
  virtual ~B() {}
};
struct Other {
  long filler = 3;
  virtual ~Other() {}
};
struct D : Other, B {
  Part c;
  explicit D(int x) : B(x), c(x + 7) {}
  int get() const override { return B::get() * 100 + c.get(); }
};

// Numbered allocators: 0 and 1 are equal, 2 is different.  What threads share
// of them they only read.
enum : unsigned { F_CCA = 1, F_CMA = 2, F_CS = 4, F_CONS = 8 };
template <class T, unsigned F>
struct AlBase {
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
};
struct Nothing {};
template <class T, unsigned F>
struct NAl : std::conditional<(F & F_CONS) != 0, AlBase<T, F>, Nothing>::type {
  int id;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & F_CCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & F_CMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & F_CS) != 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = NAl<U, F>;
  };
  NAl() noexcept : id(0) {}
  explicit NAl(int i, int) noexcept : id(i) {}
  template <class U>
  explicit NAl(const NAl<U, F>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { ::operator delete(p); }
  static int cls(int i) { return i < 2 ? 0 : i; }
  template <class U>
  friend bool operator==(const NAl& a, const NAl<U, F>& b) noexcept {
    return cls(a.id) == cls(b.id);
  }
  template <class U>
  friend bool operator!=(const NAl& a, const NAl<U, F>& b) noexcept {
    return cls(a.id) != cls(b.id);
  }
};
template <class A>
struct Mk {
  static A make(int i) { return A(i, 0); }
  static int id(const A& a) { return a.id; }
};
template <class T>
struct Mk<std::allocator<T>> {
  static std::allocator<T> make(int) { return {}; }
  static int id(const std::allocator<T>&) { return 0; }
};

#if __cplusplus >= 201703L
struct Res : std::pmr::memory_resource {  // two of them: 0 and 1 the same
  void* do_allocate(std::size_t n, std::size_t) override { return ::operator new(n); }
  void do_deallocate(void* p, std::size_t, std::size_t) override { ::operator delete(p); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
    return this == &o;
  }
};
static Res resource[2];
template <class T>
struct Mk<std::pmr::polymorphic_allocator<T>> {
  using A = std::pmr::polymorphic_allocator<T>;
  static A make(int i) { return A(&resource[i == 2]); }
  static int id(const A& a) {
    return a.resource() == &resource[1] ? 2 : a.resource() == &resource[0] ? 0 : 3;
  }
};
#endif

#ifdef H_POLY
using T = B;
template <class A>
using Hd = xyz::polymorphic<T, A>;
const bool poly = true;
#else
using T = V;
template <class A>
using Hd = xyz::indirect<T, A>;
const bool poly = false;
#endif

template <class H>
struct Cell {
  alignas(alignof(H)) unsigned char b[sizeof(H)];
  H& h() { return *reinterpret_cast<H*>(b); }
};

// Cold: the private handles are made by the threads themselves, which may be
// the first to use whatever that takes.
template <class A, bool Cold = false>
struct Prog {
  using H = Hd<A>;
  using M = Mk<A>;
  // shared, const while threads run: a value, a valueless handle
  static H* s;
  static H* none;
  // private to a thread: a copy of s, a moved-to one, a valueless one
  static H* mine[mt::MAXT][3];
  static int threads;

  static H make(int al, int v) {
#ifdef H_POLY
    return H(std::allocator_arg, M::make(al), D(v));
#else
    return H(std::allocator_arg, M::make(al), T(v));
#endif
  }
  static void setup(int n) {
    threads = n;
    s = new H(make(0, 5));
    none = new H(make(0, 6));
    H away(std::move(*none));
    for (int t = 0; t < n; ++t) {
      for (int i = 0; i < 3; ++i) mine[t][i] = nullptr;
      if (!Cold)
        for (int i = 0; i < 3; ++i) get(t, i);
    }
  }
  static H& get(int t, int i) {
    H*& p = mine[t][i];
    if (!p && i == 0) p = new H(static_cast<const H&>(*s));
    if (!p && i == 1) p = new H(make(t == 1 ? 2 : 1, 40 + t));
    if (!p && i == 2) p = new H(std::allocator_arg, M::make(0), static_cast<const H&>(*none));
    return *p;
  }
  static void teardown() {
    for (int t = 0; t < threads; ++t)
      for (auto& p : mine[t]) delete p;
    delete s;
    delete none;
  }
  static long val(const H& h) {
    return h.valueless_after_move() ? -1 : h->get() * 10 + M::id(h.get_allocator());
  }
  enum {
    READ, ASK, COMPARE, HASH, COPY, COPY_NONE, COPY_AL, COPY_UNEQ, COPY_CHANGE, COPY_MOVE,
    ASSIGN_COPY, ASSIGN_OTHER, ASSIGN_VALUELESS, ASSIGN_NONE, CHANGE_COPY, MOVE_COPY,
    SWAP_OWN, DESTROY, REPLACE, COPY_OF_COPY, N
  };
  static const char* name(int c) {
    static const char* const n[] = {
        "read", "ask for the allocator and whether valueless", "compare", "hash", "copy",
        "copy a valueless one", "copy with an equal allocator",
        "copy with an unequal allocator", "copy and change the copy", "copy and move the copy",
        "assign to an own copy", "assign to an own other", "assign to an own valueless one",
        "assign a valueless one to an own", "change an own copy", "move an own copy",
        "swap own copies", "destroy an own copy", "replace an own copy",
        "copy an own copy and destroy it"};
    return n[c];
  }
  static long op(int t, int c) {
    const H& cs = *s;
    const H& cn = *none;
#define own get(t, 0)
#define other get(t, 1)
#define empty get(t, 2)
    switch (c) {
      case READ: return (*cs).get() * 2 + cs->get();
      case ASK:
        return cs.valueless_after_move() * 100 + cn.valueless_after_move() * 10 +
               M::id(cs.get_allocator()) + M::id(cn.get_allocator());
#ifdef H_POLY
      case COMPARE:
      case HASH: return 0;
#else
      case COMPARE: {
        T v(4);
        return (cs == own) + 2 * (cs != cn) + 4 * (cs < other) + 8 * (cs > v) +
               16 * (cs == v) + 32 * (cn < cs) + 64 * (cs >= own) + 128 * (cs <= other);
      }
      case HASH:
        return long(std::hash<H>()(cs)) + (std::hash<H>()(cn) == std::hash<H>()(cn)) +
               long(std::hash<H>()(own)) * 3;
#endif
      case COPY: {
        H h(cs);
        return val(h);
      }
      case COPY_NONE: {
        H h(cn);
        H g(std::allocator_arg, M::make(2), cn);
        return val(h) + val(g);
      }
      case COPY_AL: {
        H h(std::allocator_arg, M::make(1), cs);
        return val(h);
      }
      case COPY_UNEQ: {
        H h(std::allocator_arg, M::make(2), cs);
        return val(h);
      }
      case COPY_CHANGE: {
        H h(cs);
        h->set(8 + t);
        return val(h) * 3 + val(cs);
      }
      case COPY_MOVE: {
        H h(cs);
        H g(std::move(h));
        H f(std::allocator_arg, M::make(2), std::move(g));
        return val(f) * 3 + h.valueless_after_move();
      }
      case ASSIGN_COPY: own = cs; return val(own);
      case ASSIGN_OTHER: other = cs; return val(other);
      case ASSIGN_VALUELESS: empty = cs; return val(empty);
      case ASSIGN_NONE: other = cn; return val(other);
      case CHANGE_COPY: {
        if (own.valueless_after_move()) return -2;
        long b = val(own);
        (*own).set(60 + t);
        return val(own) * 5 + b + val(cs);
      }
      case MOVE_COPY: {
        empty = std::move(own);
        return val(empty) * 3 + val(own);
      }
      case SWAP_OWN: {
        H h(cs);
        if (own.valueless_after_move()) return -2;
        h->set(9);
        if (!(h.get_allocator() == own.get_allocator())) return -3;
        h.swap(own);
        using std::swap;
        long r = val(h) * 3 + val(own);
        swap(h, own);
        return r * 3 + val(own);
      }
      case DESTROY: {
        delete &own;
        mine[t][0] = nullptr;
        mine[t][0] = new H(std::allocator_arg, M::make(0), *none);
        return val(cs);
      }
      case REPLACE: {
#ifdef H_POLY
        other = H(std::allocator_arg, M::make(1), B(70 + t));
#else
        if (other.valueless_after_move())
          other = T(70 + t);
        else
          other = T(71 + t);
#endif
        return val(other) + val(cs);
      }
      case COPY_OF_COPY: {
        long r;
        {
          H h(static_cast<const H&>(own));
          H g(h);
          if (!g.valueless_after_move()) g->set(3 + t);
          r = val(h) * 3 + val(g);
        }
        return r * 3 + val(own);
      }
    }
    return 0;
  }
#undef own
#undef other
#undef empty
};
template <class A, bool C>
typename Prog<A, C>::H* Prog<A, C>::s;
template <class A, bool C>
typename Prog<A, C>::H* Prog<A, C>::none;
template <class A, bool C>
typename Prog<A, C>::H* Prog<A, C>::mine[mt::MAXT][3];
template <class A, bool C>
int Prog<A, C>::threads;

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define COMMA ,
#define PROG(A_, NAME)                                                           \
  static mt::Reg CAT(reg_, __COUNTER__)(                                         \
      mt::Program{NAME, Prog<A_>::N, &Prog<A_>::name, nullptr, &Prog<A_>::setup, \
                  &Prog<A_>::op, &Prog<A_>::teardown});
using A0 = NAl<T, 0>;
using A1 = NAl<T, F_CCA | F_CMA | F_CS>;
using A2 = NAl<T, F_CONS>;
using A3 = NAl<T, F_CCA | F_CONS>;
using A4 = NAl<T, F_CMA>;
PROG(std::allocator<T>, "std::allocator")
PROG(std::allocator<T> COMMA true, "std::allocator, cold")
PROG(A0, "stateful")
PROG(A0 COMMA true, "stateful, cold")
PROG(A1, "propagating")
PROG(A2, "constructing")
PROG(A3, "constructing, propagating on copy")
PROG(A4, "propagating on move")
#if __cplusplus >= 201703L
PROG(std::pmr::polymorphic_allocator<T>, "pmr")
#endif
