// C18: composites of handles.  Every world below (containers, aggregates,
// trees of handles with compiler-generated members) is explored breadth first:
// every operation from every state reached, the state being what the world of
// reference handles shows.  The world of handles under test gets the same
// operations and must show the same, object for object.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <numeric>
#include <scoped_allocator>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#if __cplusplus >= 201703L
#include <memory_resource>
#include <optional>
#include <variant>
#endif
#include "composite.hpp"
using mini::at;
using mini::fail;
#ifndef MC_EXTRA
#define MC_EXTRA 0  // further depth
#endif

long new_live, sa_live, val_live, val_serial, fault_at;
int sa_errors, val_errors;
void* operator new(std::size_t n) {
  if (fault_at) fallible();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++new_live;
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  if (fault_at && --fault_at == 0) return nullptr;
  void* p = std::malloc(n ? n : 1);
  if (p) ++new_live;
  return p;
}
void operator delete(void* p) noexcept {
  if (p) --new_live;
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  if (p) --new_live;
  std::free(p);
}

#ifdef H_POLY
const bool poly = true;
using Val = B;
template <class T, class A>
using Handle = xyz::polymorphic<T, A>;
inline const V& val_of(const B& b) { return b.val; }
inline V& val_of(B& b) { return b.val; }
inline int kind_of(const B& b) { return b.kind(); }
#else
const bool poly = false;
using Val = V;
template <class T, class A>
using Handle = xyz::indirect<T, A>;
inline const V& val_of(const V& b) { return b; }
inline V& val_of(V& b) { return b; }
inline int kind_of(const V&) { return 0; }
#endif

// ---- families: allocators x real/reference handles ------------------------
struct StdAl {
  template <class T>
  using Al = std::allocator<T>;
  template <class T>
  using CA = std::allocator<T>;
  template <class T>
  static std::allocator<T> al(int) {
    return {};
  }
  template <class T>
  static std::allocator<T> ca(int) {
    return {};
  }
};
template <unsigned F>
struct ScAl {
  template <class T>
  using Al = SA<T, F>;
  template <class T>
  using CA = std::scoped_allocator_adaptor<SA<T, F>>;
  template <class T>
  static SA<T, F> al(int i) {
    return SA<T, F>(i);
  }
  template <class T>
  static CA<T> ca(int i) {
    return CA<T>(SA<T, F>(i));
  }
};
#if __cplusplus >= 201703L
struct Res : std::pmr::memory_resource {
  int id;
  explicit Res(int i) : id(i) {}
  void* do_allocate(std::size_t n, std::size_t) override {
    char* p = static_cast<char*>(::operator new(n + 64));
    reinterpret_cast<long*>(p)[0] = id;
    reinterpret_cast<long*>(p)[1] = (long)n;
    ++sa_live;
    return p + 64;
  }
  void do_deallocate(void* q, std::size_t n, std::size_t) override {
    char* p = static_cast<char*>(q) - 64;
    if (reinterpret_cast<long*>(p)[0] != id || reinterpret_cast<long*>(p)[1] != (long)n)
      ++sa_errors;
    --sa_live;
    ::operator delete(p);
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
static Res& res(int i) {
  static Res r[4] = {Res(0), Res(1), Res(2), Res(3)};
  return r[i];
}
static const bool default_set = (std::pmr::set_default_resource(&res(0)), true);
template <class T>
struct AlId<std::pmr::polymorphic_allocator<T>> {
  static int id(const std::pmr::polymorphic_allocator<T>& a) {
    return static_cast<Res*>(a.resource())->id;
  }
};
struct PmrAl {
  template <class T>
  using Al = std::pmr::polymorphic_allocator<T>;
  template <class T>
  using CA = std::pmr::polymorphic_allocator<T>;
  template <class T>
  static Al<T> al(int i) {
    return &res(i);
  }
  template <class T>
  static Al<T> ca(int i) {
    return &res(i);
  }
};
#endif

template <class L>
struct Real : L {
  static const bool real = true;
  template <class T>
  using H = Handle<T, typename L::template Al<T>>;
};
template <class L>
struct Model : L {
  static const bool real = false;
  template <class T>
  using H = Ref<T, typename L::template Al<T>, poly>;
};

// What all worlds share.
template <class F>
struct Base {
  using H = typename F::template H<Val>;
  const char* nm = "";
  static H mk(int v, int id = 1) {
    auto a = F::template al<Val>(id);
#ifdef H_POLY
    if (v % 3 == 0) return H(std::allocator_arg, a, in_place_type<B>(), v);
    if (v % 3 == 1) return H(std::allocator_arg, a, in_place_type<D1>(), v);
    return H(std::allocator_arg, a, D2(v));
#else
    if (v & 1) return H(std::allocator_arg, a, V(v));
    return H(std::allocator_arg, a, in_place_t(), v);
#endif
  }
  static bool ok(const H& h) { return !h.valueless_after_move(); }
  static int get(const H& h) { return ok(h) ? val_of(*h).get() : -1; }
  static void set(H& h, int v) {
    val_of(*h) = v;
  }
  static bool less(const H& a, const H& b) {
#ifdef H_POLY
    return get(a) < get(b);
#else
    return a < b;
#endif
  }
  static bool same(const H& a, const H& b) {
#ifdef H_POLY
    return get(a) == get(b);
#else
    return a == b;
#endif
  }
  template <class T>
  static bool can_swap(const T& a, const T& b) {
    using A = typename T::allocator_type;
    return std::allocator_traits<A>::propagate_on_container_swap::value ||
           a.get_allocator() == b.get_allocator();
  }
  static void show(Dump& d, const H& h) {
    d.put(AlId<typename H::allocator_type>::id(h.get_allocator()));
    if (!ok(h)) {
      d.put(-1);
      return;
    }
    const Val& x = *h;
    if (h.operator->() != std::addressof(x)) d.put(-77);
    d.put(kind_of(x));
    d.put(val_of(x).get());
    d.put(val_of(x).serial, true);
  }
  template <class C>
  static void show_all(Dump& d, const C& c) {
    d.put(-100);
    for (auto& h : c) show(d, h);
    d.put(-101);
  }
};

// 1: done; 0: not from this state; -1: no such operation
#define OPS                \
  int op(const int op_k) { \
    int op_i = 0;
#define OP(cond, ...)         \
  if (op_i++ == op_k) {       \
    this->nm = #__VA_ARGS__;  \
    if (!(cond)) return 0;    \
    __VA_ARGS__;              \
    return 1;                 \
  }
#define END_OPS \
  return -1;    \
  }

// ---- vectors and deques -----------------------------------------------------
template <class T, class A>
static void show_cap(Dump& d, const std::vector<T, A>& c) {
  d.put(c.capacity());
}
template <class C>
static void show_cap(Dump&, const C&) {}
template <class T, class A>
static void reserve(std::vector<T, A>& c) {
  c.reserve(5);
}
template <class C>
static void reserve(C&) {}
template <class C>
static void show_order(Dump& d, const C& a, const C& b) {
#ifndef H_POLY
  d.put(a == b);
  d.put(a < b);
  d.put(b < a);
#endif
  (void)a, (void)b, (void)d;
}
template <class F, template <class...> class Seq>
struct SeqW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::can_swap;
  using Bs::get;
  using Bs::less;
  using Bs::mk;
  using Bs::ok;
  using Bs::same;
  using Bs::set;
  using C = Seq<H, typename F::template CA<H>>;
  C a, b;
  H x;
  SeqW() : a(F::template ca<H>(1)), b(F::template ca<H>(2)), x(mk(4, 3)) {
    a.push_back(mk(2));
    a.push_back(mk(1, 2));
    b.push_back(mk(3));
  }
  bool fits(int n = 1) const { return a.size() + n <= 4; }
  bool has(unsigned n = 1) const { return a.size() >= n; }
  bool perm() const {  // elements may be swapped
    for (auto& h : a)
      if (!can_swap(h, a[0])) return false;
    return has(2);
  }
  OPS
  OP(fits(), a.push_back(mk(1)))
  OP(fits(), a.push_back(mk(2, 2)))
#ifdef H_POLY
  OP(fits(), a.emplace_back(in_place_type<D2>(), 5))
  OP(fits(), a.emplace(a.begin(), D1(5)))
  OP(has(), x = H(std::allocator_arg, x.get_allocator(), D2(6)))
#else
  OP(fits(), a.emplace_back(in_place_t(), 5))
  OP(fits(), a.emplace(a.begin(), V(5)))
  OP(has(), a.front() = V(6))
  OP(true, x = 6)
#endif
  OP(fits(), a.push_back(x))
  OP(fits(), a.push_back(std::move(x)))
  OP(fits() && has(), a.push_back(a.front()))
  OP(fits() && has(), a.push_back(std::move(a.front())))
  OP(fits() && has(), a.insert(a.begin(), a.back()))
  OP(fits() && has(), a.insert(a.begin(), std::move(a.back())))
  OP(fits() && has(), a.insert(a.begin() + 1, x))
  OP(fits(2), a.insert(a.begin(), 2, x))
  OP(fits(2) && has(), a.insert(a.begin() + 1, 2, a.back()))
  OP(fits(b.size()), a.insert(a.end(), b.begin(), b.end()))
  OP(fits(b.size()) && has(),
     a.insert(a.begin() + 1, std::make_move_iterator(b.begin()), std::make_move_iterator(b.end())))
  OP(fits() && has(), a.emplace(a.begin() + 1, a[0]))
  OP(has(), a.erase(a.begin()))
  OP(has(2), a.erase(a.begin() + 1))
  OP(has(2), a.erase(a.begin(), a.begin() + 2))
  OP(has(), a.pop_back())
  OP(has(), a.clear())
  OP(fits(), a.resize(a.size() + 1))
  OP(fits(2), a.resize(a.size() + 2, x))
  OP(has(2), a.resize(1))
  OP(true, a.assign(2, x))
  OP(true, a.assign(b.begin(), b.end()))
  OP(true, b = a)
  OP(true, a = b)
  OP(true, a = std::move(b))
  OP(true, b = std::move(a))
  OP(true, C& r = a; a = r)
  OP(can_swap(a, b), a.swap(b))
  OP(can_swap(a, b), using std::swap; swap(b, a))
  OP(true, C c(a); b = std::move(c))
  OP(true, C c(std::move(a)); a = c; b = c)
  OP(true, C c(a, F::template ca<H>(2)); a = std::move(c))
  OP(true, C c(std::move(a), F::template ca<H>(2)); b = c; a = std::move(c))
  OP(has(2), a[0] = a[1])
  OP(has(2), a[1] = std::move(a[0]))
  OP(has(2), a[0] = std::move(a[1]))
  OP(has(), H& r = a[0]; a[0] = r)
  OP(has(), H& r = a[0]; a[0] = std::move(r))
  OP(has(2) && can_swap(a[0], a[1]), using std::swap; swap(a[0], a[1]))
  OP(has(2) && can_swap(a[0], a.back()), std::iter_swap(a.begin(), a.end() - 1))
  OP(has() && ok(a[0]), set(a[0], get(a[0]) % 3 + 1))
  OP(has() && b.size(), a[0] = b[0])
  OP(has() && b.size(), b[0] = std::move(a[0]))
  OP(has() && b.size() && can_swap(a[0], b[0]), a[0].swap(b[0]))
  OP(has(), x = a.back())
  OP(has(), x = std::move(a.back()))
  OP(has(), a.back() = x)
  OP(has(), a.front() = std::move(x))
  OP(true, x = mk(3, 2))
  OP(perm(), std::reverse(a.begin(), a.end()))
  OP(perm(), std::rotate(a.begin(), a.begin() + 1, a.end()))
  OP(perm(), std::sort(a.begin(), a.end(), Bs::less))
  OP(perm(), std::stable_sort(a.begin(), a.end(), [](const H& p, const H& q) {
       return less(q, p);
     }))
#ifndef H_POLY
  OP(perm(), std::sort(a.begin(), a.end()))
  OP(perm(), std::sort(a.begin(), a.end(), std::greater<H>()))
  OP(perm(), std::make_heap(a.begin(), a.end()); std::pop_heap(a.begin(), a.end()))
  OP(perm(), std::next_permutation(a.begin(), a.end()))
  OP(has(2), a.erase(std::remove(a.begin(), a.end(), x), a.end()))
  OP(has(2), std::replace(a.begin(), a.end(), x, b.empty() ? H(a[0]) : H(b[0])))
  OP(perm(), std::nth_element(a.begin(), a.begin() + 1, a.end()))
#endif
  OP(perm(), std::inplace_merge(a.begin(), a.begin() + 1, a.end(), Bs::less))
  OP(has(), a.erase(std::remove_if(a.begin(), a.end(), [](const H& h) { return get(h) == 1; }),
                    a.end()))
  OP(has(), a.erase(std::remove_if(a.begin(), a.end(), [](const H& h) { return !ok(h); }),
                    a.end()))
  OP(has(2), a.erase(std::unique(a.begin(), a.end(), Bs::same), a.end()))
  OP(perm(), std::partition(a.begin(), a.end(), [](const H& h) { return get(h) < 3; }))
  OP(perm(), std::stable_partition(a.begin(), a.end(), [](const H& h) { return get(h) > 1; }))
  OP(has(), std::copy(a.begin(), a.begin() + std::min(a.size(), b.size()), b.begin()))
  OP(has(), std::move(a.begin(), a.begin() + std::min(a.size(), b.size()), b.begin()))
  OP(has() && b.size(), std::fill(a.begin(), a.end(), b[0]))
  OP(has(2), std::move_backward(a.begin(), a.end() - 1, a.end()))
  OP(true, a.shrink_to_fit())
  OP(true, reserve(a))
  OP(fits(), a = {x, a.empty() ? x : a[0], mk(5)})
  OP(true, SeqW w(*this); *this = w)
  OP(true, SeqW w(std::move(*this)); *this = std::move(w))
  END_OPS
  SeqW(const SeqW&) = default;
  SeqW(SeqW&&) = default;
  SeqW& operator=(const SeqW&) = default;
  SeqW& operator=(SeqW&&) = default;
  void show_world(Dump& d) const {
    Bs::show_all(d, a);
    show_cap(d, a);
    Bs::show_all(d, b);
    show_cap(d, b);
    Bs::show(d, x);
    show_order(d, a, b);
  }
};

// ---- lists --------------------------------------------------------------------
template <class F>
struct ListW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::can_swap;
  using Bs::get;
  using Bs::less;
  using Bs::mk;
  using Bs::ok;
  using Bs::same;
  using Bs::set;
  using C = std::list<H, typename F::template CA<H>>;
  C a, b;
  H x;
  ListW() : a(F::template ca<H>(1)), b(F::template ca<H>(2)), x(mk(4, 3)) {
    a.push_back(mk(2));
    a.push_back(mk(1, 2));
    b.push_back(mk(3));
  }
  bool fits(int n = 1) const { return a.size() + n <= 4; }
  bool has(unsigned n = 1) const { return a.size() >= n; }
  OPS
  OP(fits(), a.push_front(mk(1)))
  OP(fits(), a.push_back(x))
  OP(fits(), a.push_back(std::move(x)))
  OP(fits() && has(), a.insert(a.begin(), a.back()))
  OP(fits() && has(), a.push_front(std::move(a.back())))
  OP(fits(2), a.insert(a.begin(), 2, x))
  OP(has(), a.erase(a.begin()))
  OP(has(), a.pop_back())
  OP(fits(), a.resize(a.size() + 1))
  OP(has(2), a.resize(1))
  OP(true, b = a)
  OP(true, a = b)
  OP(true, a = std::move(b))
  OP(true, a.assign(2, x))
  OP(can_swap(a, b), a.swap(b))
  OP(true, C c(a); b = std::move(c))
  OP(true, C c(std::move(a), F::template ca<H>(2)); a = std::move(c))
  OP(has(2), a.front() = a.back())
  OP(has(2), a.back() = std::move(a.front()))
  OP(has(2) && can_swap(a.front(), a.back()), using std::swap; swap(a.front(), a.back()))
  OP(has() && ok(a.back()), set(a.back(), get(a.back()) % 3 + 1))
  OP(has() && b.size(), a.front() = b.front())
  OP(has() && b.size(), b.front() = std::move(a.back()))
  OP(has(), x = a.front())
  OP(has(), a.back() = std::move(x))
  OP(has(2), a.reverse())
  OP(has(2), a.sort(Bs::less))
  OP(has(2), a.unique(Bs::same))
  OP(has(), a.remove_if([](const H& h) { return get(h) == 2; }))
#ifndef H_POLY
  OP(has(2), a.sort())
  OP(has(), a.remove(x))
#endif
  OP(a.get_allocator() == b.get_allocator() && fits(b.size()), a.splice(a.begin(), b))
  OP(a.get_allocator() == b.get_allocator() && has() && b.size() < 4,
     b.splice(b.end(), a, a.begin()))
  OP(a.get_allocator() == b.get_allocator() && fits(b.size()), a.sort(Bs::less);
     b.sort(Bs::less); a.merge(b, Bs::less))
  OP(true, x = mk(3, 2))
  OP(true, ListW w(*this); *this = w)
  OP(true, ListW w(std::move(*this)); *this = std::move(w))
  END_OPS
  ListW(const ListW&) = default;
  ListW(ListW&&) = default;
  ListW& operator=(const ListW&) = default;
  ListW& operator=(ListW&&) = default;
  void show_world(Dump& d) const {
    Bs::show_all(d, a);
    Bs::show_all(d, b);
    Bs::show(d, x);
    show_order(d, a, b);
  }
};

// ---- maps to handles --------------------------------------------------------
template <class F, class M>
struct MapW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::can_swap;
  using Bs::get;
  using Bs::less;
  using Bs::mk;
  using Bs::ok;
  using Bs::set;
  M a, b;
  H x;
  MapW()
      : a(F::template ca<typename M::value_type>(1)),
        b(F::template ca<typename M::value_type>(2)),
        x(mk(4, 3)) {
    a.emplace(1, mk(2));
    a.emplace(2, mk(1));
    b.emplace(2, mk(3));
  }
  bool in(int k) const { return a.count(k); }
  OPS
  OP(true, a[0])
  OP(true, a[1] = x)
  OP(true, a[2] = std::move(x))
  OP(true, a[3] = mk(3))
  OP(in(1), a[2] = a[1])
  OP(in(1), H h = a[1]; a[0] = h)
  OP(in(1), a[2] = std::move(a[1]))
  OP(true, a.emplace(1, x))
  OP(true, a.emplace(0, std::move(x)))
  OP(true, a.insert({3, x}))
  OP(in(2) && !in(3), a.insert(std::make_pair(3, a[2])))
  OP(true, a.erase(1))
  OP(true, a.erase(2))
  OP(in(1) && in(2) && can_swap(a[1], a[2]), using std::swap; swap(a[1], a[2]))
  OP(true, b = a)
  OP(true, a = b)
  OP(true, a = std::move(b))
  OP(true, b = std::move(a))
  OP(can_swap(a, b), a.swap(b))
  OP(true, M c(a); b = std::move(c))
  OP(true, M c(a, F::template ca<typename M::value_type>(2)); a = std::move(c))
  OP(true, M c(std::move(a), F::template ca<typename M::value_type>(2)); b = c;
     a = std::move(c))
  OP(in(1) && ok(a[1]), set(a[1], get(a[1]) % 3 + 1))
  OP(in(2), x = a.at(2))
  OP(in(1), x = std::move(a.at(1)))
  OP(in(1) && b.count(2), b[2] = a[1])
  OP(in(2) && b.count(2), a[2] = std::move(b[2]))
  OP(true, x = mk(3, 2))
#if __cplusplus >= 201703L
  OP(true, a.try_emplace(1, x))
  OP(true, a.try_emplace(3, std::move(x)))
  OP(true, a.insert_or_assign(1, x))
  OP(true, a.insert_or_assign(0, std::move(x)))
  OP(in(1) && !in(5), auto n = a.extract(1); n.key() = 5; a.insert(std::move(n)))
  OP(in(2) && a.get_allocator() == b.get_allocator(), b.insert(a.extract(2)))
  OP(a.get_allocator() == b.get_allocator(), a.merge(b))
#endif
  OP(true, MapW w(*this); *this = w)
  OP(true, MapW w(std::move(*this)); *this = std::move(w))
  END_OPS
  MapW(const MapW&) = default;
  MapW(MapW&&) = default;
  MapW& operator=(const MapW&) = default;
  MapW& operator=(MapW&&) = default;
  static void show_map(Dump& d, const M& m) {
    d.put(-100);
    for (auto& e : m) {
      d.put(e.first);
      Bs::show(d, e.second);
    }
    d.put(-101);
  }
  void show_world(Dump& d) const {
    show_map(d, a);
    show_map(d, b);
    Bs::show(d, x);
  }
};
template <class F>
using OMap = std::map<int, typename F::template H<Val>, std::less<int>,
                      typename F::template CA<std::pair<const int, typename F::template H<Val>>>>;
template <class F>
using UMap =
    std::unordered_map<int, typename F::template H<Val>, std::hash<int>, std::equal_to<int>,
                       typename F::template CA<std::pair<const int, typename F::template H<Val>>>>;
template <class F>
struct OMapW : MapW<F, OMap<F>> {};
template <class F>
struct UMapW : MapW<F, UMap<F>> {};

// ---- handles as keys ----------------------------------------------------------
#ifndef H_POLY
template <class F, class S, class M>
struct KeyW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::get;
  using Bs::mk;
  using Bs::ok;
  S s, t;
  M m;
  H x;
  KeyW() : x(mk(4)) {
    s.insert(mk(2));
    s.insert(mk(1));
    t.insert(mk(3));
    m.emplace(mk(2), mk(1));
  }
  OPS
  OP(true, s.insert(mk(1)))
  OP(true, s.insert(mk(3)))
  OP(true, s.insert(x))
  OP(true, s.insert(std::move(x)))
  OP(true, s.emplace(in_place_t(), 5))
  OP(true, s.erase(mk(1)))
  OP(true, s.erase(x))
  OP(!s.empty(), s.erase(s.begin()))
  OP(!s.empty(), x = *s.begin())
  OP(!s.empty(), t.insert(*s.begin()))
  OP(true, t = s)
  OP(true, s = std::move(t))
  OP(true, s.swap(t))
  OP(true, S c(s); c.insert(x); t = std::move(c))
  OP(true, m[x] = mk(5))
  OP(true, m[mk(2)] = x)
  OP(true, m[mk(3)] = std::move(x))
  OP(!m.empty(), m[m.begin()->second] = x)
  OP(!m.empty(), x = m.begin()->second)
  OP(!m.empty(), x = std::move(m.begin()->second))
  OP(true, m.erase(x))
  OP(!m.empty(), m.erase(m.begin()))
  OP(true, M c(m); c.erase(x); m = std::move(c))
  OP(true, x = mk(3))
  OP(true, x = mk(1))
#if __cplusplus >= 201703L
  OP(!s.empty(), auto n = s.extract(s.begin()); n.value() = x; s.insert(std::move(n)))
  OP(true, s.merge(t))
#endif
  OP(true, KeyW w(*this); *this = w)
  OP(true, KeyW w(std::move(*this)); *this = std::move(w))
  END_OPS
  KeyW(const KeyW&) = default;
  KeyW(KeyW&&) = default;
  KeyW& operator=(const KeyW&) = default;
  KeyW& operator=(KeyW&&) = default;
  void show_world(Dump& d) const {
    Bs::show_all(d, s);
    Bs::show_all(d, t);
    d.put(-100);
    for (auto& e : m) {
      Bs::show(d, e.first);
      Bs::show(d, e.second);
    }
    d.put(-101);
    Bs::show(d, x);
    d.put(s == t);
    for (int i = 1; i < 5; ++i) d.put(s.count(mk(i)));
    d.put(s.count(x));
    d.put(m.count(x));
  }
};
template <class F>
using Hv = typename F::template H<Val>;
// A hash of the values, so that both worlds have the same buckets.
template <class H>
struct HandleHash {
  std::size_t operator()(const H& h) const { return h.valueless_after_move() ? 3 : VHash()(*h); }
};
template <class F>
struct OKeyW : KeyW<F, std::set<Hv<F>>, std::map<Hv<F>, Hv<F>>> {};
template <class F>
struct UKeyW
    : KeyW<F, std::unordered_set<Hv<F>, HandleHash<Hv<F>>>,
           std::unordered_map<Hv<F>, Hv<F>, HandleHash<Hv<F>>>> {};
#endif

// ---- aggregates ---------------------------------------------------------------
template <class F>
struct Agg {
  typename F::template H<Val> a;
  V n;
  std::pair<typename F::template H<Val>, int> b;
  std::array<typename F::template H<Val>, 2> c;
  std::tuple<typename F::template H<Val>, V> t;
};
template <class F>
struct Derived : Agg<F> {
  typename F::template H<Val> e;
  Derived(Agg<F> g, typename F::template H<Val> h) : Agg<F>(std::move(g)), e(std::move(h)) {}
};
#if defined MC_CXX20 && !defined H_POLY
template <class F>
struct Ordered {
  typename F::template H<Val> a;
  int n;
  typename F::template H<Val> b;
  bool operator==(const Ordered&) const = default;
  std::weak_ordering operator<=>(const Ordered&) const = default;
};
#endif
template <class F>
struct AggW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::get;
  using Bs::mk;
  using Bs::ok;
  using Bs::set;
  using G = Derived<F>;
  static Agg<F> agg(int i) {
    return Agg<F>{mk(i), V(i), {mk(i + 1), i}, {{mk(1), mk(2)}}, std::make_tuple(mk(i), V(3))};
  }
  G p, q;
  AggW() : p(agg(1), mk(3)), q(agg(2), mk(4)) {}
  OPS
  OP(true, p = q)
  OP(true, q = p)
  OP(true, p = std::move(q))
  OP(true, q = std::move(p))
  OP(true, G& r = p; p = r)
  OP(true, G t(p); q = t)
  OP(true, G t(std::move(p)); p = t)
  OP(true, std::swap(p, q))
  OP(true, p.c = q.c)
  OP(true, p.c = std::move(q.c))
  OP(true, p.c.swap(q.c))
  OP(true, p.c[0] = p.c[1])
  OP(true, p.c[1] = std::move(p.a))
  OP(true, p.b = q.b)
  OP(true, q.b = std::move(p.b))
  OP(true, p.b.swap(q.b))
  OP(true, p.t = q.t)
  OP(true, q.t = std::move(p.t))
  OP(true, p.t.swap(q.t))
  OP(true, p.a = q.e)
  OP(true, p.a = std::move(q.b.first))
  OP(true, std::get<0>(p.t) = p.a)
  OP(ok(p.a), set(p.a, get(p.a) % 3 + 1))
  OP(ok(q.c[1]), set(q.c[1], get(q.c[1]) % 3 + 1))
  OP(true, p.c.fill(q.a))
  OP(true, p = G(agg(3), mk(1)))
  OP(true, static_cast<Agg<F>&>(p) = q)
  OP(true, std::swap(p.c[0], p.c[1]))
  OP(true, std::tie(p.a, p.e) = std::make_tuple(q.a, p.a))
  OP(true, AggW w(*this); *this = w)
  OP(true, AggW w(std::move(*this)); *this = std::move(w))
  END_OPS
  AggW(const AggW&) = default;
  AggW(AggW&&) = default;
  AggW& operator=(const AggW&) = default;
  AggW& operator=(AggW&&) = default;
  void show_world(Dump& d) const {
    for (const G* g : {&p, &q}) {
      Bs::show(d, g->a);
      d.put(g->n.get());
      Bs::show(d, g->b.first);
      d.put(g->b.second);
      Bs::show(d, g->c[0]);
      Bs::show(d, g->c[1]);
      Bs::show(d, std::get<0>(g->t));
      d.put(std::get<1>(g->t).get());
      Bs::show(d, g->e);
    }
#ifndef H_POLY
    d.put(p.b == q.b);
    d.put(p.b < q.b);
    d.put(p.c == q.c);
    d.put(p.c < q.c);
    d.put(p.t == q.t);
    d.put(p.t < q.t);
    d.put(p.t >= q.t);
    d.put(std::tie(p.a, p.e) == std::tie(q.a, q.e));
#ifdef MC_CXX20
    Ordered<F> o{p.a, 1, p.e}, r{q.a, 1, q.e};
    d.put(o == r);
    d.put(o < r);
    d.put(o > r);
    d.put(o <= r);
#endif
#endif
  }
};

// ---- optional and variant -------------------------------------------------
#if __cplusplus >= 201703L
template <class F>
struct OptW : Base<F> {
  using Bs = Base<F>;
  using H = typename Bs::H;
  using Bs::get;
  using Bs::mk;
  using Bs::ok;
  using Bs::set;
  using O = std::optional<H>;
  using Vt = std::variant<int, H, std::vector<H>>;
  O o, p;
  Vt v, w;
  H x;
  OptW() : o(mk(1)), v(mk(2)), x(mk(4)) {}
  bool vh() const { return v.index() == 1; }
  bool vv() const { return v.index() == 2 && !std::get<2>(v).empty(); }
  OPS
  OP(true, o = x)
  OP(true, o = std::move(x))
  OP(true, p = o)
  OP(true, o = p)
  OP(true, o = std::move(p))
  OP(true, p = std::move(o))
  OP(true, o.swap(p))
  OP(true, o.reset())
  OP(true, o = std::nullopt)
  OP(true, o.emplace(mk(3)))
#ifdef H_POLY
  OP(true, p.emplace(in_place_type<D2>(), 5))
  OP(true, v.template emplace<1>(in_place_type<D1>(), 5))
#else
  OP(true, p.emplace(in_place_t(), 5))
  OP(true, v.template emplace<1>(V(5)))
#endif
  OP(o.has_value(), o.emplace(*o))
  OP(o.has_value() && ok(*o), set(*o, get(*o) % 3 + 1))
  OP(o.has_value(), x = *o)
  OP(o.has_value(), x = *std::move(o))
  OP(o.has_value() && p.has_value(), *o = *p)
  OP(o.has_value() && p.has_value(), *p = std::move(*o))
  OP(true, x = p.value_or(x))
  OP(true, O t(o); p = t)
  OP(true, O t(std::move(o)); o = t)
  OP(true, v = x)
  OP(true, v = std::move(x))
  OP(true, v = 3)
  OP(true, v = w)
  OP(true, w = v)
  OP(true, v = std::move(w))
  OP(true, w = std::move(v))
  OP(true, v.swap(w))
  OP(true, v = std::vector<H>({x, mk(1)}))
  OP(vh(), x = std::get<1>(v))
  OP(vh(), x = std::move(std::get<1>(v)))
  OP(vh(), v = std::vector<H>(2, std::get<1>(v)))
  OP(vv(), v = H(std::get<2>(v).back()))
  OP(vv(), H h = std::move(std::get<2>(v).front()); v = std::move(h))
  OP(vv(), std::swap(std::get<2>(v).front(), x))
  OP(vh() && ok(std::get<1>(v)), set(std::get<1>(v), get(std::get<1>(v)) % 3 + 1))
  OP(true, Vt t(v); v = 1; v = std::move(t))
  OP(true, Vt t(std::move(v)); v = t)
  OP(vh() && o.has_value(), std::get<1>(v) = *o)
  OP(true, x = mk(3))
  OP(true, OptW t(*this); *this = t)
  OP(true, OptW t(std::move(*this)); *this = std::move(t))
  END_OPS
  OptW(const OptW&) = default;
  OptW(OptW&&) = default;
  OptW& operator=(const OptW&) = default;
  OptW& operator=(OptW&&) = default;
  void show_world(Dump& d) const {
    for (const O* q : {&o, &p}) {
      d.put(q->has_value());
      if (*q) Bs::show(d, **q);
    }
    for (const Vt* q : {&v, &w}) {
      d.put(q->index());
      if (q->index() == 0) d.put(std::get<0>(*q));
      if (q->index() == 1) Bs::show(d, std::get<1>(*q));
      if (q->index() == 2) Bs::show_all(d, std::get<2>(*q));
    }
    Bs::show(d, x);
#ifndef H_POLY
    d.put(o == p);
    d.put(o < p);
    d.put(v == w);
    d.put(v < w);
#ifdef MC_CXX20
    d.put(o == x);
#endif
#endif
  }
};
#endif

// ---- trees ------------------------------------------------------------------
#ifndef H_POLY
template <class F>
struct Node {
  V val;
  std::vector<typename F::template H<Node>> kids;
  Node() {}
  explicit Node(int v) : val(v) {}
  friend bool operator==(const Node& a, const Node& b) {
    if (!(a.val == b.val) || a.kids.size() != b.kids.size()) return false;
    for (std::size_t i = 0; i < a.kids.size(); ++i)
      if (!(a.kids[i] == b.kids[i])) return false;
    return true;
  }
  friend bool operator!=(const Node& a, const Node& b) { return !(a == b); }
  friend bool operator<(const Node& a, const Node& b) {
    if (a.val != b.val) return a.val < b.val;
    for (std::size_t i = 0; i < a.kids.size() && i < b.kids.size(); ++i) {
      if (a.kids[i] < b.kids[i]) return true;
      if (b.kids[i] < a.kids[i]) return false;
    }
    return a.kids.size() < b.kids.size();
  }
  friend bool operator>(const Node& a, const Node& b) { return b < a; }
};
template <class F>
struct TreeW {
  using N = Node<F>;
  using H = typename F::template H<N>;
  const char* nm = "";
  H r, s;
  TreeW() : r(N(1)), s(N(2)) { r->kids.push_back(H(N(3))); }
  static int size(const H& h) {
    if (h.valueless_after_move()) return 1;
    int n = 1;
    for (auto& k : h->kids) n += size(k);
    return n;
  }
  static bool ok(const H& h) { return !h.valueless_after_move(); }
  bool fits(int n = 1) const { return size(r) + n <= 6; }
  bool kids(unsigned n = 1) const { return ok(r) && r->kids.size() >= n; }
  bool live(unsigned n = 1) const { return kids(n) && ok(r->kids[n - 1]); }
  OPS
  OP(ok(r) && fits(), r->kids.push_back(H(N(2))))
  OP(kids() && fits(size(r->kids[0])), r->kids.push_back(r->kids[0]))
  OP(ok(r) && fits(size(r)), H c(r); r->kids.push_back(std::move(c)))
  OP(ok(r) && fits(size(s)), r->kids.push_back(s))
  OP(ok(r) && fits(size(s)), r->kids.push_back(std::move(s)))
  OP(live() && fits(), r->kids[0]->kids.push_back(H(N(1))))
  OP(live() && fits(size(s)), r->kids[0]->kids.insert(r->kids[0]->kids.begin(), s))
  OP(kids(), r->kids.erase(r->kids.begin()))
  OP(kids(2), std::swap(r->kids[0], r->kids[1]))
  OP(kids(2), r->kids[0] = r->kids[1])
  OP(kids(2), r->kids[1] = std::move(r->kids[0]))
  OP(kids(2), std::sort(r->kids.begin(), r->kids.end()))
  OP(true, r = s)
  OP(true, s = r)
  OP(true, r = std::move(s))
  OP(true, s = std::move(r))
  OP(true, r.swap(s))
  OP(ok(r) && ok(s), *r = *s)
  OP(ok(r) && ok(s), *r = std::move(*s))
  OP(ok(r) && ok(s), std::swap(*r, *s))
  OP(kids(), r = H(r->kids[0]))
  OP(kids(), r = std::move(r->kids[0]))
  OP(live(), r = N(*r->kids[0]))
  OP(live(), N t(std::move(*r->kids[0])); r = std::move(t))
  OP(live() && r->kids[0]->kids.size(), r = std::move(r->kids[0]->kids[0]))
  OP(kids(), s = r->kids[0])
  OP(kids(), s = std::move(r->kids[0]))
  OP(kids(), r->kids[0] = s)
  OP(kids(), r->kids[0] = std::move(s))
  OP(kids(), r->kids[0].swap(s))
  OP(kids() && fits(size(r) - size(r->kids[0])), r->kids[0] = H(r))
  OP(true, r = N(3))
  OP(true, H& t = r; r = t)
  OP(true, H t(r); r = t)
  OP(true, H t(std::move(r)); r = t)
  OP(ok(r), r->val = 3 - r->val.get() % 3)
  OP(ok(s) && ok(r), s->kids = r->kids)
  OP(ok(s) && ok(r), s->kids = std::move(r->kids))
  OP(true, TreeW w(*this); *this = w)
  OP(true, TreeW w(std::move(*this)); *this = std::move(w))
  END_OPS
  static void show(Dump& d, const H& h) {
    if (!ok(h)) {
      d.put(-1);
      return;
    }
    d.put(h->val.get());
    d.put(h->val.serial, true);
    d.put(-100);
    for (auto& k : h->kids) show(d, k);
    d.put(-101);
  }
  void show_world(Dump& d) const {
    show(d, r);
    show(d, s);
    d.put(r == s);
    d.put(r < s);
    d.put(r > s);
    d.put(r != s);
    if (ok(s)) d.put(r == *s);
  }
};
#else
template <class F>
struct Expr {
  using H = typename F::template H<Expr>;
  V val;
  explicit Expr(int v) : val(v) {}
  Expr() {}
  Expr(const Expr&) = default;
  Expr(Expr&&) = default;
  Expr& operator=(const Expr&) = default;
  Expr& operator=(Expr&&) = default;
  virtual ~Expr() {}
  virtual void show(Dump& d) const { d.put(-200); }
  virtual int size() const { return 1; }
};
template <class F>
struct Lit : Expr<F> {
  using Expr<F>::Expr;
  void show(Dump& d) const override { d.put(-201); }
};
template <class F>
static void show_expr(Dump& d, const typename F::template H<Expr<F>>& h) {
  if (h.valueless_after_move()) {
    d.put(-1);
    return;
  }
  d.put(h->val.get());
  d.put(h->val.serial, true);
  h->show(d);
}
template <class H>
static int size_expr(const H& h) {
  return h.valueless_after_move() ? 1 : h->size();
}
template <class F>
struct Bin : Side, Expr<F> {
  using H = typename Expr<F>::H;
  H l, r;
  Bin(int v, const H& a, const H& b) : Expr<F>(v), l(a), r(b) {}
  Bin(int v, H&& a, H&& b) : Expr<F>(v), l(std::move(a)), r(std::move(b)) {}
  void show(Dump& d) const override {
    d.put(this->pad[2] == 6 ? -202 : -203);
    show_expr<F>(d, l);
    show_expr<F>(d, r);
    d.put(-101);
  }
  int size() const override { return 1 + size_expr(l) + size_expr(r); }
};
template <class F>
struct Many : Expr<F> {
  using H = typename Expr<F>::H;
  std::vector<H> kids;
  using Expr<F>::Expr;
  void show(Dump& d) const override {
    d.put(-204);
    for (auto& k : kids) show_expr<F>(d, k);
    d.put(-101);
  }
  int size() const override {
    int n = 1;
    for (auto& k : kids) n += size_expr(k);
    return n;
  }
};
template <class F>
struct TreeW {
  using E = Expr<F>;
  using H = typename E::H;
  using Bn = Bin<F>;
  using Mn = Many<F>;
  const char* nm = "";
  H e, f;
  TreeW() : e(Bn(1, H(Lit<F>(2)), H(E(3)))), f(in_place_type<Lit<F>>(), 4) {}
  static bool ok(const H& h) { return !h.valueless_after_move(); }
  Bn* bin() { return ok(e) ? dynamic_cast<Bn*>(&*e) : nullptr; }
  Mn* many() { return ok(e) ? dynamic_cast<Mn*>(&*e) : nullptr; }
  static int size(const H& h) { return size_expr(h); }
  bool fits(int n) const { return size(e) + n <= 7; }
  OPS
  OP(true, e = H(Lit<F>(2)))
  OP(true, f = H(in_place_type<Mn>(), 3))
  OP(fits(1 + size(f)), e = H(Bn(3, e, f)))
  OP(fits(1 + size(e)), e = H(in_place_type<Bn>(), 2, e, e))
  OP(fits(1 + size(f)), e = H(Bn(1, std::move(e), std::move(f))))
  OP(fits(1 + size(f)), H a = e; H b = f; e = H(in_place_type<Bn>(), 1, std::move(b), std::move(a)))
  OP(bin(), e = bin()->l)
  OP(bin(), e = bin()->r)
  OP(bin(), e = std::move(bin()->l))
  OP(bin(), H t = std::move(bin()->r); e = std::move(t))
  OP(bin(), std::swap(bin()->l, bin()->r))
  OP(bin(), bin()->l.swap(bin()->r))
  OP(bin(), bin()->l = bin()->r)
  OP(bin(), bin()->r = std::move(bin()->l))
  OP(bin() && fits(size(e)), bin()->l = e)
  OP(bin(), f = bin()->l)
  OP(bin(), f = std::move(bin()->r))
  OP(bin() && fits(size(f)), bin()->l = f)
  OP(bin() && fits(size(f)), bin()->r = std::move(f))
  OP(bin() && fits(size(f)), std::swap(f, bin()->l))
  OP(bin() && ok(bin()->l), bin()->l->val = 3 - bin()->l->val.get() % 3)
  OP(many() && fits(1), many()->kids.push_back(H(Lit<F>(1))))
  OP(many() && fits(size(f)), many()->kids.push_back(f))
  OP(many() && fits(size(f)), many()->kids.insert(many()->kids.begin(), std::move(f)))
  OP(many() && fits(size(e)), many()->kids.push_back(H(e)))
  OP(many() && many()->kids.size(), e = many()->kids.back())
  OP(many() && many()->kids.size(), e = std::move(many()->kids.front()))
  OP(many() && many()->kids.size() > 1, std::reverse(many()->kids.begin(), many()->kids.end()))
  OP(many() && many()->kids.size(), many()->kids.erase(many()->kids.begin()))
  OP(true, e = f)
  OP(true, f = e)
  OP(true, e = std::move(f))
  OP(true, f = std::move(e))
  OP(true, swap(e, f))
  OP(true, H& t = e; e = t)
  OP(true, H t(e); e = t)
  OP(true, H t(std::move(e)); e = t)
  OP(bin() && ok(f) && dynamic_cast<Bn*>(&*f), *bin() = dynamic_cast<Bn&>(*f))
  OP(bin() && ok(f) && dynamic_cast<Bn*>(&*f), *bin() = std::move(dynamic_cast<Bn&>(*f)))
  OP(ok(e) && ok(f), static_cast<E&>(*e) = *f)
  OP(true, TreeW w(*this); *this = w)
  OP(true, TreeW w(std::move(*this)); *this = std::move(w))
  END_OPS
  void show_world(Dump& d) const {
    show_expr<F>(d, e);
    show_expr<F>(d, f);
  }
};
#endif

// ---- the exploration ----------------------------------------------------------
struct Run {
  int done;  // of the operation
  Dump before, after;
  long objects, leak_objects, leak_blocks;
  int bad_values, bad_blocks;
  const char* name;
};
template <class W>
static void run_world(const std::vector<unsigned char>& path, int op, Run& r, long fault = 0) {
  r.before.n = r.after.n = 0;
  r.done = 0;
  r.name = "";
  val_errors = sa_errors = 0;
  long v0 = val_live, b0 = new_live;
  {
    W w;
    for (unsigned char k : path) w.op(k);
    w.show_world(r.before);
    r.objects = val_live - v0;
    if (op >= 0) {
      fault_at = fault;
      try {
        r.done = w.op(op);
      } catch (Fault&) {
        r.done = 2;
      }
      fault_at = 0;
      r.name = w.nm;
      if (r.done >= 1) {
        w.show_world(r.after);
        r.objects = val_live - v0;
      }
    }
  }
  r.leak_objects = val_live - v0;
  r.leak_blocks = new_live - b0;
  r.bad_values = val_errors;
  r.bad_blocks = sa_errors;
}
static std::string key_of(const Dump& d) {
  std::string k;
  std::vector<long> seen;
  for (int i = 0; i < d.n; ++i) {
    long x = d.a[i];
    if (d.ident[i]) {
      std::size_t j = std::find(seen.begin(), seen.end(), x) - seen.begin();
      if (j == seen.size()) seen.push_back(x);
      x = (long)j;
    }
    k.push_back((char)(x & 0xff));
    k.push_back((char)(x >> 8 & 0xff));
  }
  return k;
}
// The two dumps show the same, with the objects paired off in m.
static bool same_dump(const Dump& a, const Dump& b, std::map<long, long>& m,
                      std::map<long, long>& back) {
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; ++i) {
    if (a.ident[i] != b.ident[i]) return false;
    if (!a.ident[i]) {
      if (a.a[i] != b.a[i]) return false;
      continue;
    }
    auto x = m.emplace(a.a[i], b.a[i]).first;
    auto y = back.emplace(b.a[i], a.a[i]).first;
    if (x->second != b.a[i] || y->second != a.a[i]) return false;
  }
  return true;
}
static std::string text(const Dump& d, int max = 60) {
  std::string s;
  for (int i = 0; i < d.n && i < max; ++i)
    s += (d.ident[i] ? " #" : " ") + std::to_string(d.a[i]);
  return s;
}
template <class WR, class WM>
static void explore(const char* what, int depth, int fault_depth) {
  const unsigned long max_states = 2000000;
  depth += MC_EXTRA;
  static Run r, m;
  struct State {
    std::vector<unsigned char> path;
  };
  std::vector<State> level(1), next;
  std::map<std::string, bool> seen;
  std::vector<std::string> names;
  at("%s: as made", what);
  run_world<WM>({}, -1, m);
  run_world<WR>({}, -1, r);  // (also whatever is allocated once)
  seen[key_of(m.before)] = true;
  mini::state();
  int nops = 0;
  {
    WM w;
    while (w.op(nops) >= 0) {
      names.push_back(w.nm);
      ++nops;
      w.~WM();
      new (&w) WM();
    }
  }
  auto path_text = [&](const std::vector<unsigned char>& p) {
    std::string s;
    for (unsigned char k : p) s += names[k] + "; ";
    return s;
  };
  for (int dep = 0; dep < depth; ++dep) {
    next.clear();
    for (State& s : level) {
      std::string pt = path_text(s.path);
      for (int k = 0; k < nops; ++k) {
        at("%s: %s%s", what, pt.c_str(), names[k].c_str());
        run_world<WM>(s.path, k, m);
        if (m.leak_objects || m.leak_blocks || m.bad_values || m.bad_blocks) {
          std::fprintf(stderr, "the reference is wrong: %s\n", mini::sh->note);
          _exit(3);
        }
        if (m.done != 1) continue;
        run_world<WR>(s.path, k, r);
        mini::step();
        ++mini::sh->executions;
        std::map<long, long> f, g;
        if (r.done != 1)
          fail("the operation is not possible");
        else if (!same_dump(r.before, m.before, f, g))
          fail("behaves differently when repeated");
        else if (!same_dump(r.after, m.after, f, g))
          fail("shows%s, should be%s", text(r.after).c_str(), text(m.after).c_str());
        else if (r.objects != m.objects)
          fail("%ld objects, should be %ld", r.objects, m.objects);
        if (r.leak_objects || r.leak_blocks)
          fail("%ld objects and %ld blocks left over", r.leak_objects, r.leak_blocks);
        if (r.bad_values) fail("an object was used outside its lifetime");
        if (r.bad_blocks) fail("a block was given to the wrong allocator");
        if (mini::sh->failures >= 40) return;
        if (dep < fault_depth)
          for (long fa = 1; fa < 200; ++fa) {
            at("%s: %s%s: event %ld of the last step throws", what, pt.c_str(),
               names[k].c_str(), fa);
            run_world<WR>(s.path, k, r, fa);
            mini::step();
            ++mini::sh->executions;
            if (r.done == 1) break;
            if (r.leak_objects || r.leak_blocks)
              fail("%ld objects and %ld blocks left over", r.leak_objects, r.leak_blocks);
            if (r.bad_values) fail("an object was used outside its lifetime");
            if (r.bad_blocks) fail("a block was given to the wrong allocator");
          }
        std::string key = key_of(m.after);
        if (seen.size() < max_states && seen.emplace(key, true).second) {
          mini::state();
          if (dep + 1 < depth) {
            next.push_back(s);
            next.back().path.push_back((unsigned char)k);
          }
        }
      }
    }
    level.swap(next);
  }
}
#define WORLD(NAME, W, L, DEPTH, FAULTS) \
  MINI_PART(NAME) { explore<W<Real<L>>, W<Model<L>>>(NAME, DEPTH, FAULTS); }

template <class F>
struct VecW : SeqW<F, std::vector> {};
template <class F>
struct DeqW : SeqW<F, std::deque> {};

// (Assignment is noexcept with POCMA, so that no faults are tried there.)
WORLD("vector", VecW, StdAl, 3, 2)
// (libstdc++'s deque copes badly with a throwing move, so none there either.)
WORLD("deque", DeqW, StdAl, 3, 0)
WORLD("list", ListW, StdAl, 3, 2)
WORLD("map", OMapW, StdAl, 3, 2)
WORLD("unordered_map", UMapW, StdAl, 3, 2)
#ifndef H_POLY
WORLD("set and map keys", OKeyW, StdAl, 3, 2)
WORLD("unordered keys", UKeyW, StdAl, 3, 2)
#endif
WORLD("aggregate", AggW, StdAl, 3, 2)
WORLD("tree", TreeW, StdAl, 4, 3)
WORLD("vector, scoped allocator", VecW, ScAl<0>, 3, 1)
WORLD("vector, scoped propagating allocator", VecW, ScAl<POCCA + POCMA + POCS>, 3, 0)
WORLD("vector, scoped selecting allocator", VecW, ScAl<POCMA + SOC3>, 3, 0)
WORLD("vector, scoped copying allocator", VecW, ScAl<POCCA + POCS>, 3, 1)
WORLD("list, scoped allocator", ListW, ScAl<0>, 3, 2)
WORLD("list, scoped propagating allocator", ListW, ScAl<POCCA + POCMA + POCS>, 3, 0)
WORLD("map, scoped allocator", OMapW, ScAl<0>, 3, 2)
WORLD("map, scoped copying allocator", OMapW, ScAl<POCCA + SOC3>, 3, 2)
#if __cplusplus >= 201703L
WORLD("optional and variant", OptW, StdAl, 3, 2)
WORLD("pmr vector", VecW, PmrAl, 3, 1)
WORLD("pmr deque", DeqW, PmrAl, 2, 0)
WORLD("pmr list", ListW, PmrAl, 3, 2)
WORLD("pmr map", OMapW, PmrAl, 3, 2)
#endif
