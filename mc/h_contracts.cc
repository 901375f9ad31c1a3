// C23: every question the language can ask about the templates' interface
// (is this constructible, convertible, assignable, comparable, hashable, what
// type does it give), for every combination of value type, allocator and
// arguments, against the specification (DRAFT.md); and the same questions for
// value types that are not complete yet.
//
// The specification is restated in `spec`, in terms of questions about the
// value type and the allocator alone.  C++20 headers: the answers have to be
// those of the specification.  C++14 headers: see `common`.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 201703L
#include <memory_resource>
#include <optional>
#include <variant>
#endif

#include "mini.hpp"
using mini::at;
using mini::fail;

#ifdef MC_CXX20
using InPlace = std::in_place_t;
template <class U>
using InType = std::in_place_type_t<U>;
#else
#ifdef H_POLY
template <class U>
using InType = xyz::in_place_type_t<U>;
#else
using InPlace = xyz::in_place_t;
#endif
#endif

template <class...>
struct Void {
  using type = void;
};
template <class T>
using Bare = std::remove_cv_t<std::remove_reference_t<T>>;

// ---- allocators -------------------------------------------------------------
template <class T, bool Def>
struct Alloc {
  using value_type = T;
  int id;
  template <class U>
  struct rebind {
    using other = Alloc<U, Def>;
  };
  explicit Alloc(int i) : id(i) {}
  template <bool D = Def, std::enable_if_t<D, int> = 0>
  Alloc() : id(0) {}
  template <class U>
  Alloc(const Alloc<U, Def>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
  friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
};
template <class T>
using Plain = std::allocator<T>;
template <class T>
using Stateful = Alloc<T, true>;
template <class T>
using NoDefault = Alloc<T, false>;

// ---- questions --------------------------------------------------------------
template <class H>
void take(H);
template <class H, class V, class... Args>
struct ImplicitList_ : std::false_type {};
template <class H, class... Args>
struct ImplicitList_<H, typename Void<decltype(take<H>({std::declval<Args>()...}))>::type,
                     Args...> : std::true_type {};
// H h = {args...} is well-formed
template <class H, class... Args>
constexpr bool implicit_list() {
  return ImplicitList_<H, void, Args...>::value;
}
#define QUESTION2(NAME, EXPR)                                                    \
  template <class A, class B, class = void>                                      \
  struct NAME##_ : std::false_type {};                                           \
  template <class A, class B>                                                    \
  struct NAME##_<A, B, typename Void<decltype(EXPR)>::type> : std::true_type {}; \
  template <class A, class B>                                                    \
  constexpr bool NAME() {                                                        \
    return NAME##_<A, B>::value;                                                 \
  }
QUESTION2(has_less, std::declval<A>() < std::declval<B>())
QUESTION2(has_equal, std::declval<A>() == std::declval<B>())
QUESTION2(calls, std::declval<A>()(std::declval<B>()))
#ifdef MC_CXX20
QUESTION2(has_3way, std::declval<A>() <=> std::declval<B>())
#endif

template <class T>
struct Name {
  static const char* of() {
    static std::string s = [] {
      std::string f = __PRETTY_FUNCTION__;
      auto b = f.find("T = ");
      auto e = f.find_last_of("];");
      auto semi = f.find(';', b);
      if (semi != std::string::npos) e = semi;
      return f.substr(b + 4, e - b - 4);
    }();
    return s.c_str();
  }
};

static void answer(const char* what, const char* h, const std::string& args, bool got, bool want) {
  at("%s: %s (%s)", h, what, args.c_str());
  ++mini::sh->executions;
  mini::step();
  if (got != want) fail("the answer is %s, should be %s", got ? "yes" : "no", want ? "yes" : "no");
}
// wanted: 1 yes, 0 no, -1 either
static void answer3(const char* what, const char* h, const std::string& args, bool got, int want) {
  if (want >= 0)
    answer(what, h, args, got, want != 0);
  else
    mini::step();
}
template <class G, class W>
void same(const char* what, const char* h, const std::string& args) {
  at("%s: type of %s (%s)", h, what, args.c_str());
  ++mini::sh->executions;
  mini::step();
  if (!std::is_same<G, W>::value) fail("it is %s, should be %s", Name<G>::of(), Name<W>::of());
}
inline std::string join() { return ""; }
template <class... S>
std::string join(const char* a, S... s) {
  std::string r = a, t = join(s...);
  return t.empty() ? r : r + ", " + t;
}

// ---- value types ------------------------------------------------------------
struct Full {
  int v = 0;
  Full() {}
  explicit Full(int x) : v(x) {}
  Full(int x, int y) : v(x + y) {}
  Full(std::initializer_list<int>) {}
  Full(std::initializer_list<int>, double) {}
  Full& operator=(int x) {
    v = x;
    return *this;
  }
  friend bool operator==(const Full& a, const Full& b) { return a.v == b.v; }
  friend bool operator<(const Full& a, const Full& b) { return a.v < b.v; }
};
struct NoDef {
  explicit NoDef(int) {}
};
struct MoveOnly {
  MoveOnly() {}
  MoveOnly(MoveOnly&&) {}
  MoveOnly& operator=(MoveOnly&&) { return *this; }
};
struct CopyOnly {
  CopyOnly() {}
  CopyOnly(const CopyOnly&) {}
  CopyOnly& operator=(const CopyOnly&) { return *this; }
};
struct Unmovable {
  Unmovable() {}
  Unmovable(const char*) {}
  Unmovable(const Unmovable&) = delete;
};
struct FromInt {  // converts from int, assigns from nothing else but itself
  FromInt(int) {}
  template <class U, std::enable_if_t<!std::is_same<Bare<U>, FromInt>::value, int> = 0>
  FromInt& operator=(U&&) = delete;
  FromInt(const FromInt&) = default;
  FromInt& operator=(const FromInt&) = default;
};
struct AssignOnly {  // assigns from double, is not made from it
  AssignOnly() {}
  AssignOnly& operator=(double) { return *this; }
};
struct ByCategory {  // made from int lvalues only
  explicit ByCategory(int&) {}
  explicit ByCategory(int&&) = delete;
};
struct Converts {  // to int, long, Full
  operator int() const { return 1; }
  explicit operator Full() const { return Full(); }
};
struct ConstVal {  // not assignable
  const int v = 1;
};
struct Final final {
  int v = 0;
};
struct Plain0 {};  // no comparison, no hash
struct Allocd {  // uses-allocator construction
  Allocd(std::allocator_arg_t, std::allocator<char>, int) {}
};

#ifndef H_POLY
// =============================================================================
struct OnlyEq {
  friend bool operator==(const OnlyEq&, const OnlyEq&) { return true; }
};
struct OnlyLess {
  friend bool operator<(const OnlyLess&, const OnlyLess&) { return false; }
};
struct IntLike {  // compares with int too
  int v = 0;
  friend bool operator==(const IntLike& a, const IntLike& b) { return a.v == b.v; }
  friend bool operator==(const IntLike& a, int b) { return a.v == b; }
  friend bool operator==(int a, const IntLike& b) { return a == b.v; }
  friend bool operator<(const IntLike& a, const IntLike& b) { return a.v < b.v; }
  friend bool operator<(const IntLike& a, int b) { return a.v < b; }
  friend bool operator<(int a, const IntLike& b) { return a < b.v; }
};
struct LessL {};  // L < R only
struct LessR {};
inline bool operator<(const LessL&, const LessR&) { return true; }
struct LessV {};  // with a result that is no truth value
inline Plain0 operator<(const LessV&, const LessV&) { return Plain0(); }
struct LessM {};  // not for const
inline bool operator<(LessM&, LessM&) { return false; }
struct Less3L {  // <=> one way (either way, that is)
};
struct Less3R {};
#ifdef MC_CXX20
inline std::partial_ordering operator<=>(const Less3L&, const Less3R&) {
  return std::partial_ordering::unordered;
}
struct Weak {
  int v = 0;
  friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return a.v <=> b.v; }
  friend bool operator==(const Weak& a, const Weak& b) { return a.v == b.v; }
};
#endif
struct Hashed {
  int v = 0;
};
struct HashOff {};  // its hash cannot be made
namespace std {
template <>
struct hash<Hashed> {
  size_t operator()(const Hashed& h) const { return hash<int>()(h.v); }
};
template <>
struct hash<HashOff> {
  hash() = delete;
  hash(const hash&) = delete;
  size_t operator()(const HashOff&) const = delete;
};
}  // namespace std

namespace spec {
template <class T, class A, class U>
constexpr bool value(bool extended) {
  return !std::is_same<Bare<U>, xyz::indirect<T, A>>::value &&
         !std::is_same<Bare<U>, InPlace>::value && std::is_constructible<T, U>::value &&
         (extended || std::is_default_constructible<A>::value);
}
template <class T, class A, class... Us>
constexpr bool in_place(bool extended) {
  return std::is_constructible<T, Us...>::value &&
         (extended || std::is_default_constructible<A>::value);
}
template <class T, class A, class U>
constexpr bool assign() {
  return !std::is_same<Bare<U>, xyz::indirect<T, A>>::value && std::is_constructible<T, U>::value &&
         std::is_assignable<T&, U>::value;
}
}  // namespace spec

template <class T, class A>
struct Ask {
  using H = xyz::indirect<T, A>;
  static const char* hn() { return Name<H>::of(); }

  template <class U>
  static void with_value() {
    std::string u = Name<U>::of();
    const bool self = std::is_same<Bare<U>, H>::value;
#ifdef MC_CXX20
    if (!self) {
      answer("construction", hn(), u, std::is_constructible<H, U>::value,
             spec::value<T, A, U>(false));
      answer("allocator-extended construction", hn(), u,
             std::is_constructible<H, std::allocator_arg_t, const A&, U>::value,
             spec::value<T, A, U>(true));
      answer("implicit conversion", hn(), u, std::is_convertible<U, H>::value, false);
      answer("implicit conversion from a list", hn(), u, implicit_list<H, U>(), false);
      answer("implicit conversion from a list", hn(), "allocator_arg, allocator, " + u,
             (implicit_list<H, std::allocator_arg_t, const A&, U>()), false);
      answer("assignment", hn(), u, std::is_assignable<H&, U>::value, spec::assign<T, A, U>());
    }
#else
    // common to both: values of type T that T's own constructors take
    if (!self) {
      const bool mine = std::is_same<Bare<U>, T>::value && std::is_constructible<T, U>::value;
      answer3("construction", hn(), u, std::is_constructible<H, U>::value,
              mine && std::is_default_constructible<A>::value      ? 1
              : mine || std::is_same<Bare<U>, T>::value            ? -1
                                                                   : -1);
      answer3("allocator-extended construction", hn(), u,
              std::is_constructible<H, std::allocator_arg_t, const A&, U>::value, mine ? 1 : -1);
      answer("implicit conversion", hn(), u, std::is_convertible<U, H>::value, false);
      answer("assignment", hn(), u, std::is_assignable<H&, U>::value, spec::assign<T, A, U>());
    }
#endif
    // a handle or a value where the other is wanted
    answer("conversion to the value type", hn(), u, std::is_convertible<H, T>::value,
           std::is_same<T, bool>::value && false);
  }
  template <class... Us>
  static void in_place() {
    std::string u = join(Name<Us>::of()...);
    answer("construction in place", hn(), u, std::is_constructible<H, InPlace, Us...>::value,
           spec::in_place<T, A, Us...>(false));
    answer("allocator-extended construction in place", hn(), u,
           std::is_constructible<H, std::allocator_arg_t, const A&, InPlace, Us...>::value,
           spec::in_place<T, A, Us...>(true));
#ifdef MC_CXX20
    answer("implicit conversion from a list", hn(), "in_place, " + u,
           implicit_list<H, InPlace, Us...>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator, in_place, " + u,
           implicit_list<H, std::allocator_arg_t, const A&, InPlace, Us...>(), false);
#endif
  }
  template <class I, class... Us>
  static void list() {
    using L = std::initializer_list<I>;
    std::string u = join(Name<L>::of(), Name<Us>::of()...);
    answer("construction in place from a list", hn(), u,
           std::is_constructible<H, InPlace, L, Us...>::value,
           spec::in_place<T, A, L&, Us...>(false) || spec::in_place<T, A, L, Us...>(false));
    answer("allocator-extended construction in place from a list", hn(), u,
           std::is_constructible<H, std::allocator_arg_t, const A&, InPlace, L, Us...>::value,
           spec::in_place<T, A, L&, Us...>(true) || spec::in_place<T, A, L, Us...>(true));
#ifdef MC_CXX20
    answer("implicit conversion from a list", hn(), "in_place, " + u,
           implicit_list<H, InPlace, L, Us...>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator, in_place, " + u,
           implicit_list<H, std::allocator_arg_t, const A&, InPlace, L, Us...>(), false);
#endif
  }

  static void go() {
    const bool def = std::is_default_constructible<A>::value;
    answer("default construction", hn(), "", std::is_default_constructible<H>::value, def);
    answer("construction from an allocator", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&>::value, true);
#ifdef MC_CXX20
    answer("implicit conversion from a list", hn(), "", implicit_list<H>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator",
           (implicit_list<H, std::allocator_arg_t, const A&>()), false);
#endif
    // what is mandated, not constrained, is always promised
    answer("copy construction", hn(), "", std::is_copy_constructible<H>::value, true);
    answer("move construction", hn(), "", std::is_move_constructible<H>::value, true);
    answer("implicit copy", hn(), "", std::is_convertible<const H&, H>::value, true);
    answer("implicit move", hn(), "", std::is_convertible<H, H>::value, true);
    answer("copy assignment", hn(), "", std::is_copy_assignable<H>::value, true);
    answer("move assignment", hn(), "", std::is_move_assignable<H>::value, true);
    answer("allocator-extended copy", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&, const H&>::value, true);
    answer("allocator-extended move", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&, H>::value, true);
    answer("destruction", hn(), "", std::is_destructible<H>::value, true);
    answer("uses an allocator", hn(), "", std::uses_allocator<H, A>::value, true);
    answer("triviality", hn(), "",
           std::is_trivially_copyable<H>::value || std::is_trivially_destructible<H>::value, false);
    answer("conversion to bool", hn(), "", std::is_constructible<bool, H>::value, false);
    same<typename H::value_type, T>("value_type", hn(), "");
    same<typename H::allocator_type, A>("allocator_type", hn(), "");
    same<typename H::pointer, typename std::allocator_traits<A>::pointer>("pointer", hn(), "");
    same<typename H::const_pointer, typename std::allocator_traits<A>::const_pointer>(
        "const_pointer", hn(), "");
    same<decltype(std::declval<H&>() = std::declval<const H&>()), H&>("copy assignment", hn(), "");
    same<decltype(std::declval<H&>() = std::declval<H>()), H&>("move assignment", hn(), "");
    same<decltype(*std::declval<H&>()), T&>("*", hn(), "lvalue");
    same<decltype(*std::declval<const H&>()), const T&>("*", hn(), "const lvalue");
    same<decltype(*std::declval<H>()), T&&>("*", hn(), "rvalue");
    same<decltype(*std::declval<const H>()), const T&&>("*", hn(), "const rvalue");
    same<decltype(std::declval<H&>().operator->()), typename H::pointer>("->", hn(), "lvalue");
    same<decltype(std::declval<H>().operator->()), typename H::pointer>("->", hn(), "rvalue");
    same<decltype(std::declval<const H&>().operator->()), typename H::const_pointer>("->", hn(),
                                                                                     "const");
    same<decltype(std::declval<const H&>().get_allocator()), A>("get_allocator", hn(), "");
    same<decltype(std::declval<const H&>().valueless_after_move()), bool>("valueless_after_move",
                                                                          hn(), "");
    same<decltype(std::declval<H&>().swap(std::declval<H&>())), void>("swap", hn(), "");

    with_value<T>();
    with_value<T&>();
    with_value<const T&>();
    with_value<const T>();
    with_value<int>();
    with_value<int&>();
    with_value<const int&>();
    with_value<double>();
    with_value<const char*>();
    with_value<Converts>();
    with_value<const Converts&>();
    with_value<Plain0>();
    with_value<Full>();
    with_value<xyz::indirect<Plain0>>();
    with_value<xyz::indirect<Full>>();
    with_value<const xyz::indirect<Full>&>();
    with_value<xyz::indirect<T, Alloc<T, false>>&>();
    with_value<A>();
    in_place<>();
    in_place<T>();
    in_place<T&>();
    in_place<const T&>();
    in_place<const T>();
    in_place<int>();
    in_place<int&>();
    in_place<const int&>();
    in_place<double>();
    in_place<const char*>();
    in_place<int, int>();
    in_place<int, double>();
    in_place<Plain0>();
    in_place<Converts>();
    in_place<Plain0, int>();
    in_place<std::allocator_arg_t, std::allocator<char>, int>();
    list<int>();
    list<double>();
    list<int, double>();
    list<int, Plain0>();
    list<Plain0>();
    list<T>();
    mini::state();
  }
};
template <class T>
void ask_all() {
  Ask<T, Plain<T>>::go();
  Ask<T, Stateful<T>>::go();
  Ask<T, NoDefault<T>>::go();
#if __cplusplus >= 201703L
  Ask<T, std::pmr::polymorphic_allocator<T>>::go();
#endif
}
#define ASK(T) \
  MINI_PART("construction, " #T) { ask_all<T>(); }
ASK(Full)
ASK(NoDef)
ASK(MoveOnly)
ASK(CopyOnly)
ASK(Unmovable)
ASK(FromInt)
ASK(AssignOnly)
ASK(ByCategory)
ASK(ConstVal)
ASK(Final)
ASK(Plain0)
ASK(Allocd)
ASK(int)
ASK(double)
ASK(std::string)
ASK(std::vector<int>)
ASK(std::unique_ptr<int>)
ASK(xyz::indirect<int>)
ASK(int*)

// ---- comparison and hash ----------------------------------------------------
#ifdef MC_CXX20
// [expos.only.entity]
template <class X, class Y>
concept Usable = requires(const X& x, const Y& y) {
  { x < y } -> std::convertible_to<bool>;
  { y < x } -> std::convertible_to<bool>;
};
template <class X, class Y>
struct SynthType {
  using type = std::weak_ordering;
};
template <class X, class Y>
  requires std::three_way_comparable_with<X, Y>
struct SynthType<X, Y> {
  using type = decltype(std::declval<const X&>() <=> std::declval<const Y&>());
};
template <class T, class U>
struct Synth : SynthType<T, U> {
  static constexpr bool ok = Usable<T, U>;
};
template <class X, class Y, bool>
struct Result3 {
  static void check(const char*, const char*) {}
};
template <class X, class Y>
struct Result3<X, Y, true> {
  template <class W>
  static void check(const char* h, const char* u) {
    same<decltype(std::declval<const X&>() <=> std::declval<const Y&>()), W>("<=>", h, u);
    same<decltype(std::declval<const Y&>() <=> std::declval<const X&>()), W>("<=>, reversed", h,
                                                                             u);
    same<decltype(std::declval<const X&>() < std::declval<const Y&>()), bool>("<", h, u);
    same<decltype(std::declval<const X&>() >= std::declval<const Y&>()), bool>(">=", h, u);
    same<decltype(std::declval<const Y&>() > std::declval<const X&>()), bool>(">", h, u);
    same<decltype(std::declval<const Y&>() <= std::declval<const X&>()), bool>("<=", h, u);
  }
};
template <class T, class U>
void ask_order() {
  using H = xyz::indirect<T, Stateful<T>>;
  using G = xyz::indirect<U>;
  const char* hn = Name<H>::of();
  const char* gn = Name<G>::of();
  using S = Synth<T, U>;
  answer("<=>", hn, gn, has_3way<const H&, const G&>(), S::ok);
  answer("<=>", gn, hn, has_3way<const G&, const H&>(), Synth<U, T>::ok);
  answer("<", hn, gn, has_less<const H&, const G&>(), S::ok);
  if constexpr (S::ok) Result3<H, G, true>::template check<typename S::type>(hn, gn);
  // (with a value that cannot be ordered the question itself is ill-formed)
  if constexpr (S::ok && !xyz::is_indirect_v<U>) Result3<H, U, true>::template check<typename S::type>(hn, Name<U>::of());
  mini::state();
}
template <class T>
void ask_orders() {
  ask_order<T, T>();
  ask_order<T, int>();
  ask_order<T, double>();
  ask_order<T, IntLike>();
  ask_order<T, Plain0>();
  ask_order<T, OnlyLess>();
  ask_order<T, Weak>();
}
MINI_PART("ordering") {
  ask_orders<int>();
  ask_orders<double>();
  ask_orders<long>();
  ask_orders<std::string>();
  ask_orders<IntLike>();
  ask_orders<OnlyLess>();
  ask_orders<OnlyEq>();
  ask_orders<Weak>();
  ask_orders<Plain0>();
  ask_orders<Full>();
  ask_orders<std::vector<int>>();
  // (whether a handle orders against a value it cannot order against is
  // ill-formed to ask)
  ask_order<LessL, LessR>();
  ask_order<LessR, LessL>();
  ask_order<LessL, LessL>();
  ask_order<LessV, LessV>();
  ask_order<LessM, LessM>();
  ask_order<Less3L, Less3R>();
  ask_order<Less3R, Less3L>();
  ask_order<int*, int*>();
  ask_order<int*, void*>();
  ask_order<int*, long*>();
  ask_order<int, unsigned>();
  ask_order<xyz::indirect<int>, xyz::indirect<int>>();
  ask_order<xyz::indirect<int>, int>();
  ask_order<xyz::indirect<IntLike>, int>();
}
template <class T, class U>
void concepts() {
  using H = xyz::indirect<T>;
  const char* hn = Name<H>::of();
  answer("equality_comparable", hn, "", std::equality_comparable<H>, true);
  answer("totally_ordered", hn, "", std::totally_ordered<H>, Synth<T, T>::ok);
  answer("three_way_comparable", hn, "", std::three_way_comparable<H>, Synth<T, T>::ok);
  answer("swappable", hn, "", std::swappable<H>, true);
  mini::state();
}
MINI_PART("concepts") {
  concepts<int, int>();
  concepts<double, int>();
  concepts<std::string, int>();
  concepts<Weak, int>();
  concepts<IntLike, int>();
  concepts<Full, int>();
  concepts<OnlyEq, int>();
  concepts<xyz::indirect<int>, int>();
}
template <class T, class A>
void ask_hash(bool want) {
  using H = xyz::indirect<T, A>;
  const char* hn = Name<H>::of();
  answer("hash can be made", hn, "", std::is_default_constructible<std::hash<H>>::value, want);
  answer("hash can be called", hn, "", calls<const std::hash<H>&, const H&>(), want);
  mini::state();
}
template <class T>
void ask_hashes(bool want) {
  ask_hash<T, Plain<T>>(want);
  ask_hash<T, NoDefault<T>>(want);
  ask_hash<T, std::pmr::polymorphic_allocator<T>>(want);
}
MINI_PART("hash enabled") {
  ask_hashes<int>(true);
  ask_hashes<double>(true);
  ask_hashes<int*>(true);
  ask_hashes<std::string>(true);
  ask_hashes<Hashed>(true);
  ask_hashes<std::unique_ptr<int>>(true);
  ask_hashes<xyz::indirect<int>>(true);
  ask_hashes<xyz::indirect<Hashed>>(true);
  ask_hashes<HashOff>(false);
  ask_hashes<Plain0>(false);
  ask_hashes<Full>(false);
  ask_hashes<std::vector<int>>(false);
  ask_hashes<xyz::indirect<Full>>(false);
  ask_hashes<xyz::indirect<xyz::indirect<Full>>>(false);
}
#endif
template <class T>
void ask_equal() {
  using H = xyz::indirect<T>;
  using G = xyz::indirect<T, Stateful<T>>;
  const char* hn = Name<H>::of();
  same<decltype(std::declval<const H&>() == std::declval<const G&>()), bool>("==", hn, "");
  same<decltype(std::declval<const H&>() != std::declval<const G&>()), bool>("!=", hn, "");
  same<decltype(std::declval<const H&>() == std::declval<const T&>()), bool>("==", hn, "value");
  same<decltype(std::declval<const T&>() == std::declval<const G&>()), bool>("== reversed", hn,
                                                                             "value");
  same<decltype(std::declval<const T&>() != std::declval<const G&>()), bool>("!= reversed", hn,
                                                                             "value");
  mini::state();
}
// ---- values that are neither copied nor moved, in handles that are moved ----
struct Rooted {
  static int alive;
  Rooted* self;
  int v;
  explicit Rooted(int x) : self(this), v(x) { ++alive; }
  Rooted(const Rooted&) = delete;
  Rooted& operator=(const Rooted&) = delete;
  ~Rooted() { --alive; }
};
int Rooted::alive = 0;
template <class H, class A>
static void moves(const char* name, A a0, A a1) {
  // all sequences of moves between a variable, another and two in a vector
  for (int code = 0; code < 6 * 6 * 6 * 6; ++code) {
    at("%s: moves of handles, sequence %d", name, code);
    ++mini::sh->executions;
    mini::step();
    {
      H x(std::allocator_arg, a0, InPlace{}, 1), y(std::allocator_arg, a1, InPlace{}, 2);
      std::vector<H> v;
      const void* px = &*x;
      for (int c = code, i = 0; i < 4; ++i, c /= 6) {
        if (c % 6 == 0 && a0 == a1) x.swap(y);
        if (c % 6 == 1) v.push_back(std::move(x));
        if (c % 6 == 2) v.push_back(std::move(y));
        if (c % 6 == 3) {
          H t(std::move(x));
          if (!x.valueless_after_move()) fail("not moved from");
          x.~H();
          new (&x) H(std::move(t));
        }
        if (c % 6 == 4 && !v.empty()) v.pop_back();
        if (c % 6 == 5) {
          std::vector<H> w = std::move(v);
          v = std::move(w);
        }
      }
      int sum = 0, n = 0;
      bool rooted = true, found = false;
      auto see = [&](const H& h) {
        if (h.valueless_after_move()) return;
        ++n;
        sum += h->v;
        rooted = rooted && h->self == &*h;
        found = found || (&*h == px && h->v == 1);
      };
      see(x);
      see(y);
      for (auto& h : v) see(h);
      if (!rooted) fail("a value is somewhere else");
      if (n != Rooted::alive) fail("%d values owned, %d alive", n, Rooted::alive);
      if ((sum & 1) && !found) fail("the value has moved");
    }
    if (Rooted::alive != 0) fail("%d values left", Rooted::alive);
  }
  mini::state();
}
MINI_PART("values that stay where they are") {
  moves<xyz::indirect<Rooted>>("std::allocator", std::allocator<Rooted>(),
                               std::allocator<Rooted>());
  moves<xyz::indirect<Rooted, Stateful<Rooted>>>("equal allocators", Stateful<Rooted>(1),
                                                 Stateful<Rooted>(1));
  moves<xyz::indirect<Rooted, NoDefault<Rooted>>>("unequal allocators", NoDefault<Rooted>(1),
                                                  NoDefault<Rooted>(2));
}
MINI_PART("equality") {
  ask_equal<int>();
  ask_equal<double>();
  ask_equal<std::string>();
  ask_equal<OnlyEq>();
  ask_equal<IntLike>();
  ask_equal<Full>();
}
#else
// =============================================================================
// (H_POLY)
struct Base {
  int v = 0;
  Base() {}
  explicit Base(int x) : v(x) {}
  Base(std::initializer_list<int>) {}
  virtual int f() const { return 0; }
  virtual ~Base() {}
};
struct D : Base {
  D() {}
  explicit D(int x) : Base(x) {}
  D(int, Plain0) {}
  D(std::initializer_list<int>, double) {}
  D(std::initializer_list<double>) {}
};
struct DD final : D {
  explicit DD(const char*) {}
};
struct DMoveOnly : Base {
  DMoveOnly() {}
  DMoveOnly(DMoveOnly&&) {}
};
struct DPrivate : private Base {
  DPrivate() {}
};
struct L : Base {};
struct R : Base {};
struct DAmbiguous : L, R {};
struct DVirtual : virtual Base {};
struct DFromBase : Base {
  DFromBase() {}
  explicit DFromBase(const Base&) {}
  DFromBase(const DFromBase&) = default;
};
struct DLvalueCopy : Base {  // copies from const, explicitly not from rvalues
  DLvalueCopy() {}
  DLvalueCopy(const DLvalueCopy&) {}
};
struct Abstract {
  virtual int f() const = 0;
  virtual ~Abstract() {}
};
struct ACon : Abstract {
  int v = 0;
  ACon() {}
  explicit ACon(int x) : v(x) {}
  int f() const override { return v; }
};
struct Protected {  // as DRAFT.md suggests for interfaces
  virtual int f() const = 0;

 protected:
  Protected() {}
  Protected(const Protected&) = default;
  ~Protected() = default;
};
struct PCon final : Protected {
  int f() const override { return 1; }
};
struct NoVirtual {
  int v = 0;
};
struct NVD : NoVirtual {};
struct Unrelated {};

template <class H>
struct IsInType : std::false_type {};
template <class U>
struct IsInType<InType<U>> : std::true_type {};

namespace spec {
template <class T, class U>
constexpr bool derived() {  // std::derived_from
  return std::is_base_of<T, U>::value &&
         std::is_convertible<const volatile U*, const volatile T*>::value;
}
template <class T, class A, class U>
constexpr bool value(bool extended) {
  using UU = Bare<U>;
  return !std::is_same<UU, xyz::polymorphic<T, A>>::value && derived<T, UU>() &&
         std::is_constructible<UU, U>::value && std::is_copy_constructible<UU>::value &&
         !IsInType<UU>::value && (extended || std::is_default_constructible<A>::value);
}
template <class T, class A, class U, class... Ts>
constexpr bool in_place(bool extended) {
  return std::is_same<Bare<U>, U>::value && derived<T, U>() &&
         std::is_constructible<U, Ts...>::value && std::is_copy_constructible<U>::value &&
         (extended || std::is_default_constructible<A>::value);
}
}  // namespace spec

template <class T, class A>
struct Ask {
  using H = xyz::polymorphic<T, A>;
  static const char* hn() { return Name<H>::of(); }

  template <class U>
  static void with_value_1() {
    std::string u = Name<U>::of();
    if (std::is_same<Bare<U>, H>::value) return;
    const bool plain = spec::value<T, A, U>(false), ext = spec::value<T, A, U>(true);
#ifdef MC_CXX20
    answer("construction", hn(), u, std::is_constructible<H, U>::value, plain);
    answer("allocator-extended construction", hn(), u,
           std::is_constructible<H, std::allocator_arg_t, const A&, U>::value, ext);
    answer("implicit conversion from a list", hn(), u, implicit_list<H, U>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator, " + u,
           (implicit_list<H, std::allocator_arg_t, const A&, U>()), false);
#else
    answer3("construction", hn(), u, std::is_constructible<H, U>::value, plain ? 1 : -1);
    answer3("allocator-extended construction", hn(), u,
            std::is_constructible<H, std::allocator_arg_t, const A&, U>::value, ext ? 1 : -1);
    if (!std::is_base_of<T, Bare<U>>::value)
      answer("construction", hn(), u, std::is_constructible<H, U>::value, false);
#endif
    answer("implicit conversion", hn(), u, std::is_convertible<U, H>::value, false);
    answer("assignment", hn(), u, std::is_assignable<H&, U>::value, false);
  }
  template <class U>
  static void with_value() {
    with_value_1<U>();
    with_value_1<U&>();
    with_value_1<const U&>();
    with_value_1<const U>();
  }
  template <class U, class... Us>
  static void in_place() {
    std::string u = join(Name<U>::of(), Name<Us>::of()...);
    const bool plain = spec::in_place<T, A, U, Us...>(false),
               ext = spec::in_place<T, A, U, Us...>(true);
    const bool got = std::is_constructible<H, InType<U>, Us...>::value;
    const bool got_a =
        std::is_constructible<H, std::allocator_arg_t, const A&, InType<U>, Us...>::value;
#ifdef MC_CXX20
    answer("construction in place", hn(), u, got, plain);
    answer("allocator-extended construction in place", hn(), u, got_a, ext);
    answer("implicit conversion from a list", hn(), "in_place, " + u,
           implicit_list<H, InType<U>, Us...>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator, in_place, " + u,
           implicit_list<H, std::allocator_arg_t, const A&, InType<U>, Us...>(), false);
#else
    // (is_base_of is all the C++14 header asks)
    const bool odd = std::is_base_of<T, U>::value != spec::derived<T, U>() ||
                     !std::is_same<Bare<U>, U>::value;
    if (!odd) {
      answer("construction in place", hn(), u, got, plain);
      answer("allocator-extended construction in place", hn(), u, got_a, ext);
    }
#endif
  }
  template <class U>
  static void in_places() {
    in_place<U>();
    in_place<U, int>();
    in_place<U, double&>();
    in_place<U, const char*>();
    in_place<U, U>();
    in_place<U, U&>();
    in_place<U, const U&>();
    in_place<U, const Base&>();
    in_place<U, int, Plain0>();
    in_place<U, Plain0, int>();
    in_place<U, Unrelated>();
    in_place<U, std::initializer_list<int>>();
    in_place<U, std::initializer_list<int>, double>();
    in_place<U, std::initializer_list<int>, Unrelated>();
    in_place<U, std::initializer_list<double>>();
    in_place<U, std::initializer_list<Unrelated>>();
  }

  static void go() {
    const bool def = std::is_default_constructible<A>::value;
#ifdef MC_CXX20
    answer("default construction", hn(), "", std::is_default_constructible<H>::value, def);
    answer("construction from an allocator", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&>::value, true);
    answer("implicit conversion from a list", hn(), "", implicit_list<H>(), false);
    answer("implicit conversion from a list", hn(), "allocator_arg, allocator",
           (implicit_list<H, std::allocator_arg_t, const A&>()), false);
#else
    answer3("default construction", hn(), "", std::is_default_constructible<H>::value,
            !def ? 0 : std::is_default_constructible<T>::value ? 1 : -1);
    answer3("construction from an allocator", hn(), "",
            std::is_constructible<H, std::allocator_arg_t, const A&>::value,
            std::is_default_constructible<T>::value ? 1 : -1);
#endif
    answer("copy construction", hn(), "", std::is_copy_constructible<H>::value, true);
    answer("move construction", hn(), "", std::is_move_constructible<H>::value, true);
    answer("implicit copy", hn(), "", std::is_convertible<const H&, H>::value, true);
    answer("implicit move", hn(), "", std::is_convertible<H, H>::value, true);
    answer("copy assignment", hn(), "", std::is_copy_assignable<H>::value, true);
    answer("move assignment", hn(), "", std::is_move_assignable<H>::value, true);
    answer("allocator-extended copy", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&, const H&>::value, true);
    answer("allocator-extended copy of a lvalue", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&, H&>::value, true);
    answer("allocator-extended move", hn(), "",
           std::is_constructible<H, std::allocator_arg_t, const A&, H>::value, true);
    answer("destruction", hn(), "", std::is_destructible<H>::value, true);
    answer("uses an allocator", hn(), "", std::uses_allocator<H, A>::value, true);
    answer("conversion to bool", hn(), "", std::is_constructible<bool, H>::value, false);
    answer("==", hn(), "", has_equal<const H&, const H&>(), false);
    answer("<", hn(), "", has_less<const H&, const H&>(), false);
    answer("hash", hn(), "", std::is_default_constructible<std::hash<H>>::value, false);
    same<typename H::value_type, T>("value_type", hn(), "");
    same<typename H::allocator_type, A>("allocator_type", hn(), "");
    same<typename H::pointer, typename std::allocator_traits<A>::pointer>("pointer", hn(), "");
    same<typename H::const_pointer, typename std::allocator_traits<A>::const_pointer>(
        "const_pointer", hn(), "");
    same<decltype(std::declval<H&>() = std::declval<const H&>()), H&>("copy assignment", hn(), "");
    same<decltype(std::declval<H&>() = std::declval<H>()), H&>("move assignment", hn(), "");
    same<decltype(*std::declval<H&>()), T&>("*", hn(), "lvalue");
    same<decltype(*std::declval<const H&>()), const T&>("*", hn(), "const lvalue");
    same<decltype(std::declval<H&>().operator->()), typename H::pointer>("->", hn(), "lvalue");
    same<decltype(std::declval<const H&>().operator->()), typename H::const_pointer>("->", hn(),
                                                                                     "const");
    same<decltype(std::declval<const H&>().get_allocator()), A>("get_allocator", hn(), "");
    same<decltype(std::declval<const H&>().valueless_after_move()), bool>("valueless_after_move",
                                                                          hn(), "");
    with_value<Base>();
    with_value<D>();
    with_value<DD>();
    with_value<DMoveOnly>();
    with_value<DPrivate>();
    with_value<DAmbiguous>();
    with_value<DVirtual>();
    with_value<DFromBase>();
    with_value<DLvalueCopy>();
    with_value<ACon>();
    with_value<PCon>();
    with_value<NVD>();
    with_value<NoVirtual>();
    with_value<Unrelated>();
    with_value<int>();
    with_value<A>();
    with_value<D*>();
    with_value<std::nullptr_t>();
    with_value<std::initializer_list<int>>();
    with_value<xyz::polymorphic<D>>();
    with_value<xyz::polymorphic<Base>>();
    with_value<xyz::polymorphic<T, Alloc<T, false>>>();
    in_places<Base>();
    in_places<D>();
    in_places<DD>();
    in_places<DMoveOnly>();
    in_places<DPrivate>();
    in_places<DAmbiguous>();
    in_places<DVirtual>();
    in_places<DFromBase>();
    in_places<DLvalueCopy>();
    in_places<ACon>();
    in_places<PCon>();
    in_places<NVD>();
    in_places<Unrelated>();
    in_places<const D>();
    mini::state();
  }
};
template <class T>
void ask_all() {
  Ask<T, Plain<T>>::go();
  Ask<T, Stateful<T>>::go();
  Ask<T, NoDefault<T>>::go();
#if __cplusplus >= 201703L
  Ask<T, std::pmr::polymorphic_allocator<T>>::go();
#endif
}
#define ASK(T) \
  MINI_PART("construction, " #T) { ask_all<T>(); }
ASK(Base)
ASK(D)
ASK(Abstract)
ASK(Protected)
ASK(NoVirtual)
ASK(DMoveOnly)
#endif
// =============================================================================
// ---- value types that are not complete yet ----------------------------------
#ifdef H_POLY
#define HANDLE xyz::polymorphic
#else
#define HANDLE xyz::indirect
#endif
struct Later;
struct Later2;
struct Pimpl {
  HANDLE<Later> h;
  std::vector<HANDLE<Later>> v;
  HANDLE<Later, Stateful<Later>> s;
#ifdef MC_CXX20
  std::optional<HANDLE<Later>> o;
  std::variant<int, HANDLE<Later>> x;
  std::pmr::vector<HANDLE<Later, std::pmr::polymorphic_allocator<Later>>> p;
#endif
  Pimpl();
  Pimpl(const Pimpl&);
  Pimpl(Pimpl&&);
  Pimpl& operator=(const Pimpl&);
  Pimpl& operator=(Pimpl&&);
  ~Pimpl();
  int value() const;
  void value(int);
};
HANDLE<Later> make_later(int);
int use_later(const HANDLE<Later>&);
void sink_later(HANDLE<Later>&&);
static_assert(sizeof(HANDLE<Later>) >= sizeof(void*), "");

#ifdef MC_CXX20
// (not in a template: the questions are asked here, not at the end)
#define ASK_INCOMPLETE(N, ...)                                                                   \
  using H##N = __VA_ARGS__;                                                                      \
  static_assert(std::is_copy_constructible<H##N>::value, "");                                    \
  static_assert(std::is_copy_assignable<H##N>::value, "");                                       \
  static_assert(std::is_nothrow_destructible<H##N>::value, "");                                  \
  static_assert(std::uses_allocator<H##N, H##N::allocator_type>::value, "");                     \
  static_assert(std::movable<H##N> && std::swappable<H##N>, "");                                   \
  static_assert(std::is_same<decltype(*std::declval<H##N&>()), H##N::value_type&>::value, "");   \
  static_assert(                                                                                 \
      std::is_same<decltype(*std::declval<const H##N&>()), const H##N::value_type&>::value, ""); \
  constexpr bool incomplete_move_##N = std::is_nothrow_move_constructible<H##N>::value,          \
                 incomplete_assign_##N = std::is_nothrow_move_assignable<H##N>::value;
#else
#define ASK_INCOMPLETE(N, ...)                                                            \
  using H##N = __VA_ARGS__;                                                               \
  static_assert(std::uses_allocator<H##N, H##N::allocator_type>::value, "");              \
  constexpr bool incomplete_move_##N = true,                                              \
                 incomplete_assign_##N = std::is_same<H##N::allocator_type,               \
                                                      std::allocator<H##N::value_type>>::value;
#endif
ASK_INCOMPLETE(0, HANDLE<Later>)
ASK_INCOMPLETE(1, HANDLE<Later, Stateful<Later>>)
ASK_INCOMPLETE(2, HANDLE<Later, NoDefault<Later>>)
ASK_INCOMPLETE(3, HANDLE<Later2>)
struct Inline {  // defined in class, with the value type incomplete
  HANDLE<Later>*p, &r;
  void swap(Inline& o) { r.swap(o.r); }
  bool valueless() const { return r.valueless_after_move(); }
  const Later& get() const { return *r; }
  Later& get() { return *r; }
  Later* operator->() { return &*r; }
  std::allocator<Later> alloc() const { return r.get_allocator(); }
};
#ifdef MC_CXX20
inline void swap_later(HANDLE<Later>& a, HANDLE<Later>& b) {
  using std::swap;
  swap(a, b);
}
#else
inline void swap_later(HANDLE<Later>& a, HANDLE<Later>& b) { a.swap(b); }
#endif
static void incomplete_questions() {
#define TELL_INCOMPLETE(N)                                                               \
  answer("no-throw move construction, incomplete", Name<H##N>::of(), "", incomplete_move_##N, \
         true);                                                                          \
  answer("no-throw move assignment, incomplete", Name<H##N>::of(), "",                   \
         incomplete_assign_##N,                                                          \
         std::allocator_traits<H##N::allocator_type>::is_always_equal::value ||          \
             std::allocator_traits<                                                      \
                 H##N::allocator_type>::propagate_on_container_move_assignment::value);
  TELL_INCOMPLETE(0)
  TELL_INCOMPLETE(1)
  TELL_INCOMPLETE(2)
  TELL_INCOMPLETE(3)
  mini::state();
}
// and then they are
struct Later {
  int v = 1;
  Later() {}
  explicit Later(int x) : v(x) {}
  friend bool operator==(const Later& a, const Later& b) { return a.v == b.v; }
};
struct Later2 : Later {
  std::vector<HANDLE<Later2>> kids;
};
#ifdef MC_CXX20
#define MEMBERS(S) S(h) S(v) S(s) S(o) S(x) S(p)
#else
#define MEMBERS(S) S(h) S(v) S(s)
#endif
Pimpl::Pimpl() : s(std::allocator_arg, Stateful<Later>(3)) {}
Pimpl::Pimpl(const Pimpl&) = default;
Pimpl::Pimpl(Pimpl&&) = default;
Pimpl& Pimpl::operator=(const Pimpl&) = default;
Pimpl& Pimpl::operator=(Pimpl&&) = default;
Pimpl::~Pimpl() = default;
void Pimpl::value(int n) {
  h->v = n;
  v.push_back(h);
  s->v = n;
#ifdef MC_CXX20
  o = h;
  x = h;
  p.emplace_back(std::allocator_arg);
  p.back()->v = n;
#endif
}
int Pimpl::value() const {
  int r = h->v;
  for (auto& e : v) r = r * 10 + e->v;
  r = r * 10 + s->v;
#ifdef MC_CXX20
  if (o) r = r * 10 + (*o)->v;
  if (x.index() == 1) r = r * 10 + std::get<1>(x)->v;
  for (auto& e : p) r = r * 10 + e->v;
#endif
  return r;
}
HANDLE<Later> make_later(int n) {
#ifdef MC_CXX20
#ifdef H_POLY
  return HANDLE<Later>(InType<Later>{}, n);
#else
  return HANDLE<Later>(InPlace{}, n);
#endif
#else
  return HANDLE<Later>(Later(n));
#endif
}
int use_later(const HANDLE<Later>& h) { return h->v; }
void sink_later(HANDLE<Later>&& h) { HANDLE<Later> x(std::move(h)); }

MINI_PART("incomplete value types") {
  incomplete_questions();
  for (int n = 1; n < 9; ++n)
    for (int m = 1; m < 9; ++m) {
      at("members of a type completed later, values %d, %d", n, m);
      ++mini::sh->executions;
      mini::step();
      Pimpl a;
      a.value(n);
      Pimpl b = a;
      const int was = a.value();
      b.value(m);
      if (a.value() != was) fail("a copy's change shows");
      Pimpl c;
      c = b;
      Pimpl d = std::move(b);
      if (c.value() != d.value()) fail("a copy and a move differ");
      b = a;
      if (b.value() != was) fail("value lost");
      auto h = make_later(n);
      {
        auto k = make_later(m);
        swap_later(h, k);
        if (use_later(h) != m || use_later(k) != n) fail("wrong values after swap");
        Inline x{&h, h}, y{&k, k};
        x.swap(y);
        if (x.get().v != n || y->v != m || x.valueless()) fail("wrong values after swap");
      }
      if (use_later(h) != n) fail("wrong value");
      sink_later(std::move(h));
      if (!h.valueless_after_move()) fail("not moved from");
      Later2 t;
      t.kids.resize(2);
      t.kids[0]->kids.resize(3);
      Later2 u = t;
      u.kids[0]->kids[1]->v = m + 1;
      if (t.kids[0]->kids[1]->v != 1) fail("a copy's change shows");
    }
}
