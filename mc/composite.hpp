// For h_composite.cc: counted values, a checked allocator and reference handles
// (what indirect and polymorphic are specified to do, as plainly as possible).
// C++14; included after the header under test.
#ifndef MC_COMPOSITE_HPP
#define MC_COMPOSITE_HPP
#include <map>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

#include "mini.hpp"

struct NoTag {};
template <class T>
struct NoTypeTag {};
#ifdef H_POLY
using in_place_t = NoTag;
#ifdef MC_CXX20
template <class T>
using in_place_type = std::in_place_type_t<T>;
#else
template <class T>
using in_place_type = xyz::in_place_type_t<T>;
#endif
#else
template <class T>
using in_place_type = NoTypeTag<T>;
#ifdef MC_CXX20
using std::in_place_t;
#else
using xyz::in_place_t;
#endif
#endif

// ---- memory ---------------------------------------------------------------
// Blocks of operator new in use; changes are compared over a world's life.
extern long new_live;
extern int sa_errors;  // misuse of SA
extern long sa_live;

// ---- values ---------------------------------------------------------------
extern long val_live, val_serial;
extern int val_errors;
enum { MOVED = 7 };
// The fault_at-th construction or assignment of a value, or allocation, throws.
extern long fault_at;
struct Fault {};
inline void fallible() {
  if (fault_at && --fault_at == 0) throw Fault();
}
// Every object has a serial number, kept for as long as it exists.
struct V {
  int v;
  long serial;
  V* self;
  explicit V(int x) : v(x) { born(); }
  V() : v(0) { born(); }
  V(const V& o) : v(o.get()) { born(); }
  V(V&& o) : v(o.get()) {
    born();
    o.v = MOVED;
  }
  V& operator=(const V& o) {
    fallible();
    check(), v = o.get();
    return *this;
  }
  V& operator=(V&& o) {
    fallible();
    check();
    int x = o.get();
    o.v = MOVED;
    v = x;
    return *this;
  }
  V& operator=(int x) {
    fallible();
    check(), v = x;
    return *this;
  }
  ~V() {
    check();
    self = nullptr;
    --val_live;
  }
  void born() {
    fallible();
    self = this;
    serial = ++val_serial;
    ++val_live;
  }
  void check() const {
    if (self != this) ++val_errors;
  }
  int get() const {
    check();
    return v;
  }
  friend bool operator==(const V& a, const V& b) { return a.get() == b.get(); }
  friend bool operator!=(const V& a, const V& b) { return a.get() != b.get(); }
  friend bool operator<(const V& a, const V& b) { return a.get() < b.get(); }
  friend bool operator>(const V& a, const V& b) { return b < a; }
  friend bool operator<=(const V& a, const V& b) { return !(b < a); }
  friend bool operator>=(const V& a, const V& b) { return !(a < b); }
};
struct VHash {
  std::size_t operator()(const V& x) const { return x.get() * 31u + 5; }
};
namespace std {
template <>
struct hash<V> : VHash {};
}  // namespace std

// A hierarchy over it.
struct B {
  V val;
  explicit B(int x) : val(x) {}
  B() {}
  B(const B&) = default;
  B(B&&) = default;
  B& operator=(const B&) = default;
  B& operator=(B&&) = default;
  virtual int kind() const { return 0; }
  virtual ~B() {}
};
struct D1 : B {
  int more = 17;
  using B::B;
  D1() {}
  int kind() const override { return more == 17 ? 1 : -1; }
};
struct Side {
  long pad[3] = {4, 5, 6};
  virtual ~Side() {}
};
struct D2 : Side, B {
  explicit D2(int x) : B(x) {}
  int kind() const override { return pad[2] == 6 ? 2 : -2; }
};

// ---- a stateful allocator ---------------------------------------------------
enum { POCCA = 1, POCMA = 2, POCS = 4, SOC3 = 8 };
template <class D, bool>
struct SaSoc {};
template <class D>
struct SaSoc<D, true> {
  D select_on_container_copy_construction() const { return D(3); }
};
template <class T, unsigned F>
struct SA : SaSoc<SA<T, F>, (F & SOC3) != 0> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & POCS) != 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = SA<U, F>;
  };
  int id;
  explicit SA(int i) : id(i) {}
  SA() : id(0) {}
  template <class U>
  SA(const SA<U, F>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    char* p = static_cast<char*>(::operator new(n * sizeof(T) + 64));
    reinterpret_cast<long*>(p)[0] = id;
    reinterpret_cast<long*>(p)[1] = (long)(n * sizeof(T));
    ++sa_live;
    return reinterpret_cast<T*>(p + 64);
  }
  void deallocate(T* q, std::size_t n) {
    char* p = reinterpret_cast<char*>(q) - 64;
    if (reinterpret_cast<long*>(p)[0] != id ||
        reinterpret_cast<long*>(p)[1] != (long)(n * sizeof(T)))
      ++sa_errors;
    --sa_live;
    ::operator delete(p);
  }
  friend bool operator==(const SA& a, const SA& b) { return a.id == b.id; }
  friend bool operator!=(const SA& a, const SA& b) { return a.id != b.id; }
};

template <class A>
struct AlId {
  static int id(const A&) { return 0; }
  static A make(int) { return A(); }
};
template <class T, unsigned F>
struct AlId<SA<T, F>> {
  static int id(const SA<T, F>& a) { return a.id; }
  static SA<T, F> make(int i) { return SA<T, F>(i); }
};

// ---- reference handles ----------------------------------------------------
// How to copy, move and destroy the object of a handle.
template <class T>
struct Ops {
  T* (*copy)(const T&);
  T* (*move)(T&);
  void (*destroy)(T*);
};
template <class T, class U>
const Ops<T>* ops_of() {
  static const Ops<T> o = {
      [](const T& x) -> T* { return new U(static_cast<const U&>(x)); },
      [](T& x) -> T* { return new U(static_cast<U&&>(x)); },
      [](T* x) { delete static_cast<U*>(x); }};
  return &o;
}
// POLY: copy assignment always copies; else it assigns where it can.
template <class T, class A, bool POLY>
class Ref {
  using Tr = std::allocator_traits<A>;
  A al_;
  T* p_ = nullptr;
  const Ops<T>* ops_ = nullptr;

  void take(Ref& o) {
    p_ = o.p_, ops_ = o.ops_;
    o.p_ = nullptr;
  }
  void copy(const Ref& o) {
    if (o.p_) p_ = o.ops_->copy(*o.p_), ops_ = o.ops_;
  }
  void move(Ref& o) {  // to where allocators may differ
    if (al_ == o.al_)
      take(o);
    else if (o.p_)
      p_ = o.ops_->move(*o.p_), ops_ = o.ops_;
  }
  template <class U, class... As>
  void init(As&&... as) {
    p_ = new U(std::forward<As>(as)...);
    ops_ = ops_of<T, U>();
  }
  static void end(T* p, const Ops<T>* ops) {
    if (p) ops->destroy(p);
  }
  template <class U>
  using Other = std::enable_if_t<!std::is_same<std::decay_t<U>, Ref>::value &&
                                 !std::is_same<std::decay_t<U>, in_place_t>::value>;
  template <class U>
  using Kind = std::conditional_t<POLY, std::decay_t<U>, T>;
  template <bool Y>
  static void assign_value(T& a, const T& b, std::integral_constant<bool, Y>) {
    a = b;
  }
  static void assign_value(T&, const T&, std::true_type) {}

 public:
  using value_type = T;
  using allocator_type = A;
  explicit Ref() { init<T>(); }
  template <class U, class = Other<U>>
  explicit Ref(U&& u) {
    init<Kind<U>>(std::forward<U>(u));
  }
  template <class... Us>
  explicit Ref(in_place_t, Us&&... us) {
    init<T>(std::forward<Us>(us)...);
  }
  template <class U, class... Us>
  explicit Ref(in_place_type<U>, Us&&... us) {
    init<U>(std::forward<Us>(us)...);
  }
  Ref(const Ref& o) : al_(Tr::select_on_container_copy_construction(o.al_)) { copy(o); }
  Ref(Ref&& o) noexcept : al_(o.al_) { take(o); }
  explicit Ref(std::allocator_arg_t, const A& a) : al_(a) { init<T>(); }
  template <class U, class = Other<U>>
  explicit Ref(std::allocator_arg_t, const A& a, U&& u) : al_(a) {
    init<Kind<U>>(std::forward<U>(u));
  }
  template <class... Us>
  explicit Ref(std::allocator_arg_t, const A& a, in_place_t, Us&&... us) : al_(a) {
    init<T>(std::forward<Us>(us)...);
  }
  template <class U, class... Us>
  explicit Ref(std::allocator_arg_t, const A& a, in_place_type<U>, Us&&... us) : al_(a) {
    init<U>(std::forward<Us>(us)...);
  }
  Ref(std::allocator_arg_t, const A& a, const Ref& o) : al_(a) { copy(o); }
  Ref(std::allocator_arg_t, const A& a, Ref&& o) noexcept(Tr::is_always_equal::value) : al_(a) {
    move(o);
  }
  ~Ref() { end(p_, ops_); }
  Ref& operator=(const Ref& o) {
    if (this == &o) return *this;
    if (!POLY && p_ && o.p_ && al_ == o.al_) {
      assign_value(*p_, *o.p_, std::integral_constant<bool, POLY>());
      return propagate(o, typename Tr::propagate_on_container_copy_assignment());
    }
    T* n = o.p_ ? o.ops_->copy(*o.p_) : nullptr;
    const Ops<T>* nops = o.ops_;
    A na = Tr::propagate_on_container_copy_assignment::value ? o.al_ : al_;
    replace(n, nops);
    set_al(na, typename Tr::propagate_on_container_copy_assignment());
    return *this;
  }
  Ref& operator=(Ref&& o) noexcept(Tr::propagate_on_container_move_assignment::value ||
                                   Tr::is_always_equal::value) {
    if (this == &o) return *this;
    T* n;
    const Ops<T>* nops = o.ops_;
    if (al_ == o.al_)
      n = o.p_, o.p_ = nullptr;
    else
      n = o.p_ ? o.ops_->move(*o.p_) : nullptr;
    A na = Tr::propagate_on_container_move_assignment::value ? o.al_ : al_;
    replace(n, nops);
    set_al(na, typename Tr::propagate_on_container_move_assignment());
    return *this;
  }
  template <class U, bool P = POLY, class = std::enable_if_t<!P>, class = Other<U>>
  Ref& operator=(U&& u) {
    if (p_)
      *p_ = std::forward<U>(u);
    else
      init<T>(std::forward<U>(u));
    return *this;
  }
  bool valueless_after_move() const noexcept { return !p_; }
  T& operator*() noexcept { return *p_; }
  const T& operator*() const noexcept { return *p_; }
  T* operator->() noexcept { return p_; }
  const T* operator->() const noexcept { return p_; }
  A get_allocator() const { return al_; }
  void swap(Ref& o) noexcept(Tr::propagate_on_container_swap::value ||
                             Tr::is_always_equal::value) {
    std::swap(p_, o.p_);
    std::swap(ops_, o.ops_);
    swap_al(o, typename Tr::propagate_on_container_swap());
  }
  friend void swap(Ref& a, Ref& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
  // only used where the handle under test has them
  friend bool operator==(const Ref& a, const Ref& b) {
    return a.p_ && b.p_ ? *a.p_ == *b.p_ : !a.p_ && !b.p_;
  }
  friend bool operator==(const Ref& a, const T& b) { return a.p_ && *a.p_ == b; }
  friend bool operator!=(const Ref& a, const Ref& b) { return !(a == b); }
  friend bool operator<(const Ref& a, const Ref& b) {
    return a.p_ && b.p_ ? *a.p_ < *b.p_ : !a.p_ && b.p_;
  }
  friend bool operator>(const Ref& a, const Ref& b) { return b < a; }
  friend bool operator<=(const Ref& a, const Ref& b) { return !(b < a); }
  friend bool operator>=(const Ref& a, const Ref& b) { return !(a < b); }

 private:
  void replace(T* n, const Ops<T>* nops) {
    T* old = p_;
    const Ops<T>* oops = ops_;
    p_ = n, ops_ = nops;
    end(old, oops);
  }
  Ref& propagate(const Ref& o, std::true_type) {
    al_ = o.al_;
    return *this;
  }
  Ref& propagate(const Ref&, std::false_type) { return *this; }
  void set_al(const A& a, std::true_type) { al_ = a; }
  void set_al(const A&, std::false_type) {}
  void swap_al(Ref& o, std::true_type) { std::swap(al_, o.al_); }
  void swap_al(Ref&, std::false_type) {}
};
namespace std {
template <class T, class A, bool P>
struct hash<Ref<T, A, P>> {
  size_t operator()(const Ref<T, A, P>& r) const {
    return r.valueless_after_move() ? 0 : hash<T>()(*r);
  }
};
}  // namespace std

// ---- what a world shows ---------------------------------------------------
struct Dump {
  int n = 0;
  long a[1000];
  bool ident[1000];
  void put(long x, bool id = false) {
    if (n < 1000) a[n] = x, ident[n] = id, ++n;
  }
};
#endif
