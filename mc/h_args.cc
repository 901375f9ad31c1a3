// C14: every constructor form with every combination of argument categories,
// assignment of values of every category, and deduction guides.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "mini.hpp"
#include "types.hpp"
using mini::at;
using mini::fail;

#ifdef MC_CXX20
#define INPLACE std::in_place_t{}
template <class U>
using InType = std::in_place_type_t<U>;
#elif !defined(H_POLY)
#define INPLACE xyz::in_place_t{}
#else
template <class U>
using InType = xyz::in_place_type_t<U>;
#endif

// An argument that knows whether it was copied or moved.
template <int N>
struct AA {
  int v = N;
  static long copies, moves;
  AA() {}
  AA(const AA&) { ++copies; }
  AA(AA&&) { ++moves; }
};
template <int N>
long AA<N>::copies;
template <int N>
long AA<N>::moves;

struct Seen {
  const void* p;
  int cat;  // 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
  int n;    // which argument type
};
template <class X>
struct CatOf;
template <int N>
struct CatOf<AA<N>&> { static constexpr int c = 0, n = N; };
template <int N>
struct CatOf<const AA<N>&> { static constexpr int c = 1, n = N; };
template <int N>
struct CatOf<AA<N>> { static constexpr int c = 2, n = N; };
template <int N>
struct CatOf<const AA<N>> { static constexpr int c = 3, n = N; };

struct Log {
  int ctors = 0, copies = 0, moves = 0, dtors = 0, assigns = 0;
  bool list = false, def = false;
  std::vector<int> ilist;
  std::vector<Seen> args;
  const void* self = nullptr;
};
static Log lg;

template <class X>
struct IsAA : std::false_type {};
template <int N>
struct IsAA<AA<N>> : std::true_type {};
template <class... Xs>
struct AllAA : std::true_type {};
template <class X, class... Xs>
struct AllAA<X, Xs...>
    : std::conditional_t<IsAA<std::remove_cv_t<std::remove_reference_t<X>>>::value,
                         AllAA<Xs...>, std::false_type> {};

template <class... Xs>
void note_args(Xs&&... xs) {
  w::Internal guard;
  std::initializer_list<int> d = {
      0, (lg.args.push_back(Seen{std::addressof(xs), int(CatOf<Xs>::c), int(CatOf<Xs>::n)}), 0)...};
  (void)d;
}

// The owned type: constructible from any AA arguments, optionally after a list.
struct Rec {
  Rec() {
    ++lg.ctors;
    lg.def = true;
    lg.self = this;
  }
  template <class X, class... Xs, class = std::enable_if_t<AllAA<X, Xs...>::value>>
  explicit Rec(X&& x, Xs&&... xs) {
    ++lg.ctors;
    lg.self = this;
    note_args(std::forward<X>(x), std::forward<Xs>(xs)...);
  }
  template <class... Xs, class = std::enable_if_t<AllAA<Xs...>::value>>
  explicit Rec(std::initializer_list<int> l, Xs&&... xs) {
    ++lg.ctors;
    lg.list = true;
    {
      w::Internal guard;
      lg.ilist = l;
    }
    lg.self = this;
    note_args(std::forward<Xs>(xs)...);
  }
  Rec(const Rec&) { ++lg.copies; }
  Rec(Rec&&) { ++lg.moves; }
  Rec& operator=(const Rec&) {
    ++lg.assigns;
    return *this;
  }
  virtual ~Rec() { ++lg.dtors; }
  virtual int who() const { return 1; }
};
struct RecD : Other, Rec {  // derived, same constructors
  using Rec::Rec;
  RecD() {}
  int who() const override { return 2; }
};

using A0 = Al<Rec, A_CONS>;
#ifdef H_POLY
using H = xyz::polymorphic<Rec, A0>;
#define POLY 1
#else
using H = xyz::indirect<Rec, A0>;
#define POLY 0
#endif
static A0 al(int i) { return A0(i, 0); }

static AA<0> a0;
static AA<1> a1;
static AA<2> a2;
template <int N>
struct The;
template <>
struct The<0> { static AA<0>& get() { return a0; } };
template <>
struct The<1> { static AA<1>& get() { return a1; } };
template <>
struct The<2> { static AA<2>& get() { return a2; } };
// argument N passed with category C
template <int N, int C>
struct Pass;
template <int N>
struct Pass<N, 0> { static AA<N>& get() { return The<N>::get(); } };
template <int N>
struct Pass<N, 1> { static const AA<N>& get() { return The<N>::get(); } };
template <int N>
struct Pass<N, 2> { static AA<N>&& get() { return std::move(The<N>::get()); } };
template <int N>
struct Pass<N, 3> {
  static const AA<N>&& get() { return std::move(static_cast<const AA<N>&>(The<N>::get())); }
};

static void begin() {
  w::reset();
  lg = Log();
  AA<0>::copies = AA<0>::moves = AA<1>::copies = AA<1>::moves = AA<2>::copies =
      AA<2>::moves = 0;
  mini::state();
  mini::step();
}
// after one construction of a handle with allocator instance ai
template <class HH>
static void judge(const HH& h, int ai, bool list, const std::vector<int>& il,
                  const std::vector<std::pair<int, int>>& want, int who) {
  ++mini::sh->executions;
  if (lg.ctors != 1)
    fail("%d constructions of the owned type, should be 1", lg.ctors);
  if (lg.copies || lg.moves || lg.assigns || lg.dtors)
    fail("extra operations on the owned type: %d copies, %d moves, %d assignments, %d "
         "destructions",
         lg.copies, lg.moves, lg.assigns, lg.dtors);
  if (lg.list != list) fail(list ? "the list was not passed on" : "a list was passed");
  if (list && lg.ilist != il) fail("the list has other elements");
  if (lg.args.size() != want.size())
    fail("%zu arguments, should be %zu", lg.args.size(), want.size());
  else
    for (std::size_t i = 0; i < want.size(); ++i) {
      static const char* const nm[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};
      const void* p[] = {&a0, &a1, &a2};
      if (lg.args[i].n != want[i].first) fail("argument %zu is another one", i);
      if (lg.args[i].cat != want[i].second)
        fail("argument %zu arrives as %s, was passed as %s", i, nm[lg.args[i].cat],
             nm[want[i].second]);
      if (lg.args[i].p != p[want[i].first]) fail("argument %zu is a copy", i);
    }
  if (AA<0>::copies || AA<0>::moves || AA<1>::copies || AA<1>::moves || AA<2>::copies ||
      AA<2>::moves)
    fail("an argument was copied or moved");
  int allocs = 0, total = 0;
  for (int i = 0; i < w::MAXAL; ++i) {
    total += w::cnt.al_alloc[i] + w::cnt.al_dealloc[i];
    if (i == ai) allocs = w::cnt.al_alloc[i];
  }
  if (allocs != 1 || total != 1)
    fail("%d allocations from the allocator, %d calls in all; should be 1 and 1", allocs, total);
  int nc = 0;
  const void* most = h.valueless_after_move()
                         ? nullptr
                         : dynamic_cast<const void*>(std::addressof(*h));
  for (auto& c : w::al_calls)
    if (c.construct && c.al == ai && c.p == most) ++nc;
  if (POLY && most && reinterpret_cast<std::uintptr_t>(most) % sizeof(void*) == 0 && nc == 2)
    nc = 1;  // the control block may begin with the object
  if (nc != 1) fail("the owned object was constructed %d times by the allocator", nc);
  if (AlMake<typename HH::allocator_type>::id(h.get_allocator()) != ai) fail("wrong allocator");
  if (h.valueless_after_move())
    fail("valueless");
  else {
    if (h->who() != who) fail("another type is owned");
    if (static_cast<const void*>(std::addressof(*h)) != lg.self)
      fail("the handle owns another object than the one constructed");
  }
  for (auto& e : w::errors) fail("%s", e.text.c_str());
}

static const std::initializer_list<int> IL = {3, 1, 4};
static const std::vector<int> ILV = {3, 1, 4};

template <class... Ps>
struct Tuple {};
static const char* const cn[] = {"L", "CL", "R", "CR"};
template <int N, int C>
struct Arg_ {
  static constexpr int n = N, c = C;
  static std::string name() { return std::string(" ") + cn[C]; }
  static decltype(auto) get() { return Pass<N, C>::get(); }
};

template <class... Ps>
void forms() {
  std::string nm;
  std::initializer_list<int> d = {0, (nm += Ps::name(), 0)...};
  (void)d;
  std::vector<std::pair<int, int>> want = {std::pair<int, int>(int(Ps::n), int(Ps::c))...};
#define CASE(NAME, AI, LIST, WHO, ...)                   \
  {                                                      \
    begin();                                             \
    at(NAME "%s", nm.c_str());                           \
    {                                                    \
      w::begin_op();                                     \
      H h(__VA_ARGS__);                                  \
      w::end_op();                                       \
      judge(h, AI, LIST, ILV, want, WHO);                \
    }                                                    \
    if (w::live_blocks()) fail("storage is left");       \
    if (lg.dtors != 1) fail("destroyed %d times", lg.dtors); \
  }
#if POLY
  CASE("in place Rec", 0, false, 1, InType<Rec>{}, Ps::get()...)
  CASE("in place RecD", 0, false, 2, InType<RecD>{}, Ps::get()...)
  CASE("in place RecD, allocator", 2, false, 2, std::allocator_arg, al(2), InType<RecD>{},
       Ps::get()...)
  CASE("in place Rec, list", 0, true, 1, InType<Rec>{}, IL, Ps::get()...)
  CASE("in place RecD, list", 0, true, 2, InType<RecD>{}, IL, Ps::get()...)
  CASE("in place RecD, list, allocator", 2, true, 2, std::allocator_arg, al(2),
       InType<RecD>{}, IL, Ps::get()...)
  CASE("in place RecD, braces, allocator", 2, true, 2, std::allocator_arg, al(2),
       InType<RecD>{}, {3, 1, 4}, Ps::get()...)
  CASE("in place Rec, braces", 0, true, 1, InType<Rec>{}, {3, 1, 4}, Ps::get()...)
#else
  CASE("in place", 0, false, 1, INPLACE, Ps::get()...)
  CASE("in place, allocator", 2, false, 1, std::allocator_arg, al(2), INPLACE, Ps::get()...)
  CASE("in place, list", 0, true, 1, INPLACE, IL, Ps::get()...)
  CASE("in place, list, allocator", 2, true, 1, std::allocator_arg, al(2), INPLACE, IL,
       Ps::get()...)
  CASE("in place, braces", 0, true, 1, INPLACE, {3, 1, 4}, Ps::get()...)
  CASE("in place, braces, allocator", 2, true, 1, std::allocator_arg, al(2), INPLACE,
       {3, 1, 4}, Ps::get()...)
#endif
#undef CASE
}
template <int C0>
void one() { forms<Arg_<0, C0>>(); }
template <int C0, int C1>
void two() { forms<Arg_<0, C0>, Arg_<1, C1>>(); }
template <int C0>
void twos() { two<C0, 0>(); two<C0, 1>(); two<C0, 2>(); two<C0, 3>(); }
template <int C0, int C1>
void threes2() {
  forms<Arg_<0, C0>, Arg_<1, C1>, Arg_<2, 0>>();
  forms<Arg_<0, C0>, Arg_<1, C1>, Arg_<2, 1>>();
  forms<Arg_<0, C0>, Arg_<1, C1>, Arg_<2, 2>>();
  forms<Arg_<0, C0>, Arg_<1, C1>, Arg_<2, 3>>();
}
template <int C0>
void threes() { threes2<C0, 0>(); threes2<C0, 1>(); threes2<C0, 2>(); threes2<C0, 3>(); }
MINI_PART("no argument") {
  w::init();
  forms<>();
}
MINI_PART("one argument") {
  w::init();
  one<0>(), one<1>(), one<2>(), one<3>();
}
MINI_PART("two arguments") {
  w::init();
  twos<0>(), twos<1>(), twos<2>(), twos<3>();
}
MINI_PART("three arguments") {
  w::init();
  threes<0>(), threes<1>(), threes<2>(), threes<3>();
}
MINI_PART("repeated arguments") {  // the same object more than once, other orders
  w::init();
  forms<Arg_<0, 0>, Arg_<0, 1>>();
  forms<Arg_<2, 2>, Arg_<1, 0>, Arg_<0, 3>>();
  forms<Arg_<1, 0>, Arg_<1, 0>, Arg_<1, 1>>();
}

#define DEFCASE(NAME, AI, ...)                                       \
  {                                                                  \
    begin();                                                         \
    at(NAME);                                                        \
    w::begin_op();                                                   \
    __VA_ARGS__;                                                     \
    w::end_op();                                                     \
    judge(h, AI, false, {}, {}, 1);                                  \
    if (!lg.def) fail("not default constructed");                    \
  }
MINI_PART("default construction") {
  w::init();
  DEFCASE("default", 0, H h)
  DEFCASE("default, allocator", 2, H h(std::allocator_arg, al(2)))
}

// ---- construction from a value ----------------------------------------------
// One constructor call of the owned type: copy for (const) lvalues and const
// rvalues, move for rvalues.
static void judge_value(const H& h, int ai, bool move, int who) {
  ++mini::sh->executions;
  if (lg.copies != !move || lg.moves != move || lg.ctors || lg.assigns)
    fail("%d copies, %d moves, %d other constructions, %d assignments; should be one %s",
         lg.copies, lg.moves, lg.ctors, lg.assigns, move ? "move" : "copy");
  if (lg.dtors) fail("%d destructions", lg.dtors);
  int allocs = 0, total = 0;
  for (int i = 0; i < w::MAXAL; ++i) {
    total += w::cnt.al_alloc[i] + w::cnt.al_dealloc[i];
    if (i == ai) allocs = w::cnt.al_alloc[i];
  }
  if (allocs != 1 || total != 1) fail("%d allocations, %d calls", allocs, total);
  if (AlMake<A0>::id(h.get_allocator()) != ai) fail("wrong allocator");
  if (h.valueless_after_move() || h->who() != who) fail("the value has another type");
  for (auto& e : w::errors) fail("%s", e.text.c_str());
}
template <class U>
void from_values(const char* nm, int who) {
  U u;
  const U& c = u;
#define VCASE(NAME, AI, MOVE, ...)        \
  {                                       \
    begin();                              \
    at("%s " NAME, nm);                   \
    w::begin_op();                        \
    H h(__VA_ARGS__);                     \
    w::end_op();                          \
    judge_value(h, AI, MOVE, who);        \
  }
  VCASE("lvalue", 0, false, u)
  VCASE("const lvalue", 0, false, c)
  VCASE("rvalue", 0, true, std::move(u))
  VCASE("const rvalue", 0, false, std::move(c))
  VCASE("lvalue, allocator", 2, false, std::allocator_arg, al(2), u)
  VCASE("const lvalue, allocator", 2, false, std::allocator_arg, al(2), c)
  VCASE("rvalue, allocator", 2, true, std::allocator_arg, al(2), std::move(u))
  VCASE("const rvalue, allocator", 2, false, std::allocator_arg, al(2), std::move(c))
#if POLY
  VCASE("in place lvalue", 0, false, InType<U>{}, u)
  VCASE("in place const lvalue", 0, false, InType<U>{}, c)
  VCASE("in place rvalue", 0, true, InType<U>{}, std::move(u))
  VCASE("in place rvalue, allocator", 2, true, std::allocator_arg, al(2), InType<U>{},
        std::move(u))
#else
  VCASE("in place lvalue", 0, false, INPLACE, u)
  VCASE("in place const lvalue", 0, false, INPLACE, c)
  VCASE("in place rvalue", 0, true, INPLACE, std::move(u))
  VCASE("in place const rvalue", 0, false, INPLACE, std::move(c))
  VCASE("in place lvalue, allocator", 2, false, std::allocator_arg, al(2), INPLACE, u)
  VCASE("in place const lvalue, allocator", 2, false, std::allocator_arg, al(2), INPLACE, c)
  VCASE("in place rvalue, allocator", 2, true, std::allocator_arg, al(2), INPLACE,
        std::move(u))
#endif
#undef VCASE
}
MINI_PART("values") {
  w::init();
  from_values<Rec>("Rec", 1);
#if POLY
  from_values<RecD>("RecD", 2);
#endif
}

// ---- a type constructible from anything -------------------------------------
struct Greedy {
  std::string how;
  Greedy() : how("default") {}
  template <class... Xs>
  explicit Greedy(const char* s, Xs&&...) : how(s) {}
  template <class X, class = std::enable_if_t<!std::is_same<std::decay_t<X>, Greedy>::value>>
  explicit Greedy(X&&) : how("anything") {}
  Greedy(const Greedy& o) : how(o.how + " copied") {}
  Greedy(Greedy&& o) : how(o.how + " moved") {}
  Greedy& operator=(const Greedy&) = default;
};
MINI_PART("greedy value type") {
  w::init();
  mini::state();
#if POLY
  using G = xyz::polymorphic<Greedy>;
#define GIN InType<Greedy>{}
#else
  using G = xyz::indirect<Greedy>;
#define GIN INPLACE
#endif
  at("greedy");
  Greedy v("v");
  const Greedy& cv = v;
  G a;
  MINI_CHECK(a->how == "default");
  G b(v);
  MINI_CHECK(b->how == "v copied");
  G c(std::move(v));
  MINI_CHECK(c->how == "v moved");
  G d(GIN, "x");
  MINI_CHECK(d->how == "x");
  G e(GIN, "x", 1, 2.0);
  MINI_CHECK(e->how == "x");
  G f(GIN, 7);
  MINI_CHECK(f->how == "anything");
  G g(GIN);
  MINI_CHECK(g->how == "default");
  at("greedy: copies of handles are copies, not values");
  G h(d);
  MINI_CHECK(h->how == "x copied");
  G& dr = d;
  G i(dr);
  MINI_CHECK(i->how == "x copied");
  const G& dc = d;
  G j(dc);
  MINI_CHECK(j->how == "x copied");
  G k(std::allocator_arg, d.get_allocator(), dr);
  MINI_CHECK(k->how == "x copied");
  G l(std::allocator_arg, d.get_allocator(), cv);
  MINI_CHECK(l->how == "v copied");
  G m(std::move(d));
  MINI_CHECK(m->how == "x" && d.valueless_after_move());
  G n(std::allocator_arg, m.get_allocator(), std::move(m));
  MINI_CHECK(n->how == "x" && m.valueless_after_move());
  G o(std::allocator_arg, n.get_allocator());
  MINI_CHECK(o->how == "default");
  G p(std::allocator_arg, n.get_allocator(), GIN, "y");
  MINI_CHECK(p->how == "y");
}

#if !POLY
// ---- values of other types --------------------------------------------------
#ifdef MC_CXX20
MINI_PART("converting construction") {  // C++20 header only
  w::init();
  using C = xyz::indirect<Rec, A0>;
#define XCASE(NAME, AI, CAT, ...)                                   \
  {                                                                 \
    begin();                                                        \
    at(NAME " %s", cn[CAT]);                                        \
    w::begin_op();                                                  \
    C h(__VA_ARGS__);                                               \
    w::end_op();                                                    \
    judge(h, AI, false, {}, {{0, CAT}}, 1);                         \
  }
  XCASE("from another type", 0, 0, a0)
  XCASE("from another type", 0, 1, static_cast<const AA<0>&>(a0))
  XCASE("from another type", 0, 2, std::move(a0))
  XCASE("from another type", 0, 3, std::move(static_cast<const AA<0>&>(a0)))
  XCASE("from another type, allocator", 2, 0, std::allocator_arg, al(2), a0)
  XCASE("from another type, allocator", 2, 1, std::allocator_arg, al(2),
        static_cast<const AA<0>&>(a0))
  XCASE("from another type, allocator", 2, 2, std::allocator_arg, al(2), std::move(a0))
  XCASE("from another type, allocator", 2, 3, std::allocator_arg, al(2),
        std::move(static_cast<const AA<0>&>(a0)))
#undef XCASE
}
#endif

// ---- assignment of values ---------------------------------------------------
struct Tgt {
  int how = -1;  // how it came to its value: 10 + cat constructed, 20 + cat assigned
  const void* from = nullptr;
  static int ctors, asgs, dtors, copies;
  Tgt() {}
  template <class X, class = std::enable_if_t<IsAA<std::decay_t<X>>::value>>
  Tgt(X&& x) : how(10 + CatOf<X>::c), from(std::addressof(x)) {
    ++ctors;
  }
  template <class X, class = std::enable_if_t<IsAA<std::decay_t<X>>::value>>
  Tgt& operator=(X&& x) {
    how = 20 + CatOf<X>::c;
    from = std::addressof(x);
    ++asgs;
    return *this;
  }
  Tgt(const Tgt& o) : how(30), from(&o) { ++copies; }
  Tgt(Tgt&& o) : how(32), from(&o) { ++copies; }
  Tgt& operator=(const Tgt& o) {
    how = 40;
    from = &o;
    ++asgs;
    return *this;
  }
  Tgt& operator=(Tgt&& o) {
    how = 42;
    from = &o;
    ++asgs;
    return *this;
  }
  ~Tgt() { ++dtors; }
};
int Tgt::ctors, Tgt::asgs, Tgt::dtors, Tgt::copies;

template <class X>
void assign_value(const char* nm, X&& x, int built, int assigned) {
  using A = Al<Tgt, A_CONS | A_CCA | A_CMA>;
  using TH = xyz::indirect<Tgt, A>;
  for (int valueless = 0; valueless < 2; ++valueless)
    for (int hist = 0; hist < 3; ++hist) {
      begin();
      at("assigning %s to a %s handle, history %d", nm, valueless ? "valueless" : "full", hist);
      {
        TH h(std::allocator_arg, A(2, 0));
        if (hist == 1) {  // swapped in
          TH g(std::allocator_arg, A(2, 0));
          swap(h, g);
        }
        if (hist == 2) {  // allocator replaced by assignment
          TH g(std::allocator_arg, A(1, 0));
          h = g;
        }
        int ai = hist == 2 ? 1 : 2;
        if (valueless) {
          TH g(std::move(h));
        }
        const void* p = valueless ? nullptr : static_cast<const void*>(h.operator->());
        Tgt::ctors = Tgt::asgs = Tgt::dtors = Tgt::copies = 0;
        AA<0>::copies = AA<0>::moves = 0;
        w::begin_op();
        TH& r = (h = std::forward<X>(x));
        w::end_op();
        ++mini::sh->executions;
        if (&r != &h) fail("does not return *this");
        if (h.valueless_after_move()) {
          fail("valueless afterwards");
          continue;
        }
        int total = 0;
        for (int i = 0; i < w::MAXAL; ++i) total += w::cnt.al_alloc[i] + w::cnt.al_dealloc[i];
        if (valueless) {
          if (h->how != built) fail("built with %d, should be %d", h->how, built);
          if (Tgt::ctors + Tgt::copies != 1 || Tgt::asgs || Tgt::dtors)
            fail("more than one construction");
          if (total != 1 || w::cnt.al_alloc[ai] != 1) fail("%d allocator calls", total);
          int nc = 0;
          for (auto& c : w::al_calls)
            if (c.construct && c.al == ai) ++nc;
          if (nc != 1) fail("not constructed by the allocator");
        } else {
          if (h->how != assigned) fail("assigned with %d, should be %d", h->how, assigned);
          if (Tgt::ctors || Tgt::copies || Tgt::dtors || Tgt::asgs != 1)
            fail("%d constructions, %d copies, %d destructions, %d assignments; should be one "
                 "assignment",
                 Tgt::ctors, Tgt::copies, Tgt::dtors, Tgt::asgs);
          if (total) fail("%d allocator calls", total);
          if (static_cast<const void*>(h.operator->()) != p) fail("the address changed");
        }
        if (h->from != std::addressof(x)) fail("the source is another object");
        if (AA<0>::copies || AA<0>::moves) fail("the argument was copied or moved");
        if (AlMake<A>::id(h.get_allocator()) != ai) fail("the allocator changed");
      }
      for (auto& e : w::errors) fail("%s", e.text.c_str());
      if (w::live_blocks()) fail("storage is left");
    }
}
MINI_PART("assignment of values") {
  w::init();
  const AA<0>& c0 = a0;
  assign_value("an lvalue", a0, 10, 20);
  assign_value("a const lvalue", c0, 11, 21);
  assign_value("an rvalue", std::move(a0), 12, 22);
  assign_value("a const rvalue", std::move(c0), 13, 23);
  Tgt t;
  const Tgt& ct = t;
  assign_value("an lvalue T", t, 30, 40);
  assign_value("a const lvalue T", ct, 30, 40);
  assign_value("an rvalue T", std::move(t), 32, 42);
  assign_value("a const rvalue T", std::move(ct), 30, 40);
}
// value types whose assignment is unusual
struct OddAsg {
  int v = 0;
  OddAsg() {}
  OddAsg(const OddAsg&) = default;
  explicit OddAsg(const Arg& a) : v(a.v) {}
  void operator=(const Arg& a) { v = a.v + 100; }
  int operator=(long x) { return v = int(x); }
  explicit OddAsg(long x) : v(int(x) + 1000) {}
};
MINI_PART("assignments with other result types") {
  w::init();
  mini::state();
  at("odd assignment");
  xyz::indirect<OddAsg> h(OddAsg{});
  h = Arg{4};
  MINI_CHECK(h->v == 104);
  h = 5l;
  MINI_CHECK(h->v == 5);
  xyz::indirect<OddAsg> g(std::move(h));
  h = 6l;
  MINI_CHECK(h->v == 1006);
  xyz::indirect<OddAsg> k(std::move(h));
  h = Arg{7};
  MINI_CHECK(h->v == 7);
  xyz::indirect<std::string> s(std::string("x"));
  const char* b = s->data();
  (void)b;
  s = "literal";
  MINI_CHECK(*s == "literal");
  xyz::indirect<std::vector<int>> v(std::vector<int>{1});
  v = std::vector<int>{1, 2, 3};
  MINI_CHECK(v->size() == 3);
  xyz::indirect<std::unique_ptr<int>> u(std::unique_ptr<int>(new int(3)));
  u = std::unique_ptr<int>(new int(4));
  MINI_CHECK(**u == 4);
  u = nullptr;
  MINI_CHECK(*u == nullptr);
  xyz::indirect<std::function<int()>> fn(std::function<int()>([] { return 1; }));
  fn = [] { return 2; };
  MINI_CHECK((*fn)() == 2);
}
// an indirect is no value of a type constructible from anything
struct Any {
  int how = 0;
  Any() {}
  Any(const Any& o) : how(o.how) {}
  Any(Any&& o) : how(o.how + 1) {}
  Any& operator=(const Any&) = default;
  Any& operator=(Any&&) = default;
  template <class X, class = std::enable_if_t<!std::is_base_of<Any, std::decay_t<X>>::value>>
  Any(X&&) : how(100) {}
  template <class X, class = std::enable_if_t<!std::is_base_of<Any, std::decay_t<X>>::value>>
  Any& operator=(X&&) {
    how = 200;
    return *this;
  }
};
MINI_PART("handles assigned to handles of a greedy type") {
  w::init();
  mini::state();
  using HA = xyz::indirect<Any, Al<Any, 0>>;
  for (int c = 0; c < 4; ++c)
    for (int vl = 0; vl < 2; ++vl) {
      w::reset();
      at("category %d, target valueless %d", c, vl);
      mini::step();
      HA s(std::allocator_arg, Al<Any, 0>(0, 0)), t(std::allocator_arg, Al<Any, 0>(0, 0));
      s->how = 5;
      if (vl) HA g(std::move(t));
      const HA& cs = s;
      switch (c) {
        case 0: t = s; break;
        case 1: t = cs; break;
        case 2: t = std::move(s); break;
        case 3: t = std::move(cs); break;
      }
      MINI_CHECKF(t->how == 5, "the value is %d", t->how);
      MINI_CHECK(s.valueless_after_move() == (c == 2));
    }
}

// ---- deduction --------------------------------------------------------------
#if __cplusplus >= 201703L
template <class T>
struct Imp : std::allocator<T> {  // stateful, converts implicitly
  template <class U>
  struct rebind {
    using other = Imp<U>;
  };
  int id = 0;
  Imp() = default;
  explicit Imp(int i) : id(i) {}
  template <class U>
  Imp(const Imp<U>& o) : id(o.id) {}
};
template <class T, class X>
bool same() { return std::is_same<T, X>::value; }
MINI_PART("deduction") {
  w::init();
  mini::state();
  at("deduction");
  int i = 3;
  const int ci = 4;
  const char* s = "x";
  xyz::indirect a(i);
  MINI_CHECK((same<decltype(a), xyz::indirect<int>>()) && *a == 3);
  xyz::indirect b(ci);
  MINI_CHECK((same<decltype(b), xyz::indirect<int>>()) && *b == 4);
  xyz::indirect c(5);
  MINI_CHECK((same<decltype(c), xyz::indirect<int>>()));
  xyz::indirect d(std::string("q"));
  MINI_CHECK((same<decltype(d), xyz::indirect<std::string>>()));
#ifdef MC_CXX20
  xyz::indirect e("lit");
  MINI_CHECK((same<decltype(e), xyz::indirect<const char*>>()));
#endif
  xyz::indirect f(s);
  MINI_CHECK((same<decltype(f), xyz::indirect<const char*>>()));
  xyz::indirect g(std::allocator_arg, std::allocator<int>(), i);
  MINI_CHECK((same<decltype(g), xyz::indirect<int, std::allocator<int>>>()));
  xyz::indirect h(std::allocator_arg, std::allocator<char>(), std::string("q"));
  MINI_CHECK((same<decltype(h), xyz::indirect<std::string, std::allocator<std::string>>>()));
  xyz::indirect j(std::allocator_arg, Imp<char>(2), ci);
  MINI_CHECK((same<decltype(j), xyz::indirect<int, Imp<int>>>()));
  MINI_CHECK(j.get_allocator().id == 2 && *j == 4);
  // copies of handles stay handles of the same type
  xyz::indirect k(a);
  MINI_CHECK((same<decltype(k), xyz::indirect<int>>()));
  xyz::indirect l(std::move(a));
  MINI_CHECK((same<decltype(l), xyz::indirect<int>>()));
  const auto& cj = j;
  xyz::indirect m(cj);
  MINI_CHECK((same<decltype(m), xyz::indirect<int, Imp<int>>>()));
}
#endif
#endif
