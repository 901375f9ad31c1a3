// C13: every accessor through every kind of handle expression, and address
// stability over every short sequence of operations.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include <string>
#include <vector>

#include "mini.hpp"
#include "types.hpp"
using mini::at;
using mini::fail;

// What an expression is.
enum Cat { LV = 0, CLV = 1, RV = 2, CRV = 3 };
const char* const cat_name[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};

struct Probe {  // tells how it is accessed
  int v = 0;
  long copies = 0;
  static long made;
  Probe() { ++made; }
  explicit Probe(int x) : v(x) { ++made; }
  Probe(const Probe& o) : v(o.v) { ++made; }
  Probe(Probe&& o) : v(o.v) {
    o.v = -1;
    ++made;
  }
  Probe& operator=(const Probe&) = default;
  Cat cat() & { return LV; }
  Cat cat() const& { return CLV; }
  Cat cat() && { return RV; }
  Cat cat() const&& { return CRV; }
  Cat ccat() { return LV; }
  Cat ccat() const { return CLV; }
  virtual int id() const { return 1; }
  virtual ~Probe() = default;
};
long Probe::made;
struct ProbeD : Other, Probe {  // base at an offset
  ProbeD() {}
  explicit ProbeD(int x) : Probe(x) {}
  int id() const override { return 2; }
};

template <class T, class X>
struct Is : std::is_same<T, X> {};

#ifdef H_POLY
template <class T, class A>
using Hd = xyz::polymorphic<T, A>;
const bool poly = true;
#else
template <class T, class A>
using Hd = xyz::indirect<T, A>;
const bool poly = false;
#endif

template <class T, class A>
void accessors(const char* name, Hd<T, A>& h) {
  using H = Hd<T, A>;
  const H& c = h;
  using P = typename std::allocator_traits<A>::pointer;
  using CP = typename std::allocator_traits<A>::const_pointer;
  at("%s types", name);
  mini::state();
  mini::step();
  MINI_CHECK((Is<decltype(*std::declval<H&>()), T&>::value));
  MINI_CHECK((Is<decltype(*std::declval<const H&>()), const T&>::value));
  if (!poly) {
    MINI_CHECK((Is<decltype(*std::declval<H>()), T&&>::value));
    MINI_CHECK((Is<decltype(*std::declval<const H>()), const T&&>::value));
  } else {
    MINI_CHECK((Is<decltype(*std::declval<H>()), T&>::value));
    MINI_CHECK((Is<decltype(*std::declval<const H>()), const T&>::value));
  }
  MINI_CHECK((Is<decltype(std::declval<H&>().operator->()), P>::value));
  MINI_CHECK((Is<decltype(std::declval<const H&>().operator->()), CP>::value));
  MINI_CHECK((Is<decltype(std::declval<H>().operator->()), P>::value));
  MINI_CHECK((Is<decltype(std::declval<const H>().operator->()), CP>::value));
  MINI_CHECK((Is<typename H::pointer, P>::value));
  MINI_CHECK((Is<typename H::const_pointer, CP>::value));
  MINI_CHECK((Is<typename H::value_type, T>::value));
  MINI_CHECK((Is<typename H::allocator_type, A>::value));
  MINI_CHECK((Is<decltype(c.get_allocator()), A>::value));
  MINI_CHECK((Is<decltype(c.valueless_after_move()), bool>::value));
  mini::step();
  at("%s addresses", name);
  const void* p = std::addressof(*h);
  MINI_CHECK(p == std::addressof(*c));
  MINI_CHECK(p == static_cast<const void*>(std::addressof(*h.operator->())));
  MINI_CHECK(p == static_cast<const void*>(std::addressof(*c.operator->())));
  auto&& rv = *std::move(h);
  MINI_CHECK(p == std::addressof(rv));
  auto&& crv = *std::move(c);
  MINI_CHECK(p == std::addressof(crv));
  MINI_CHECK(!h.valueless_after_move());
}
template <class T, class A>
void overloads(const char* name, Hd<T, A>& h) {
  using H = Hd<T, A>;
  const H& c = h;
  long made = Probe::made;
  int v = (*h).v;
  mini::state();
  mini::step();
  at("%s overloads", name);
#define SAYS(E, WANT)                                                             \
  do {                                                                            \
    ++mini::sh->executions;                                                       \
    Cat got = (E), want = (WANT);                                                 \
    if (got != want) fail(#E " is used as %s, should be %s", cat_name[got], cat_name[want]); \
  } while (0)
  SAYS((*h).cat(), LV);
  SAYS((*c).cat(), CLV);
  SAYS((*std::move(h)).cat(), poly ? LV : RV);
  SAYS((*std::move(c)).cat(), poly ? CLV : CRV);
  SAYS(h->cat(), LV);
  SAYS(c->cat(), CLV);
  SAYS(std::move(h)->cat(), LV);
  SAYS(std::move(c)->cat(), CLV);
  SAYS(h->ccat(), LV);
  SAYS(c->ccat(), CLV);
  MINI_CHECKF(Probe::made == made, "accessing made an object");
  MINI_CHECKF((*h).v == v, "accessing changed the value");
  MINI_CHECK(!c.valueless_after_move());
  // written through one, read through the others
  (*h).v = 31;
  MINI_CHECK(c->v == 31 && (*c).v == 31 && h->v == 31);
  h->v = 32;
  MINI_CHECK(c->v == 32 && (*c).v == 32 && (*h).v == 32);
  MINI_CHECKF(Probe::made == made, "accessing made an object");
  MINI_CHECK(w::errors.empty());
}


template <class T, class U, unsigned F>
void combo(const char* name) {
  w::reset();
  using A = Al<T, F>;
  {
    Hd<T, A> h(std::allocator_arg, A(2, 0), U(5));
    accessors<T, A>(name, h);
    overloads<T, A>(name, h);
    Hd<T, A> k(h), m(std::move(h));  // after copy and move
    overloads<T, A>(name, k);
    overloads<T, A>(name, m);
    h = k;
    overloads<T, A>(name, h);
  }
  for (auto& e : w::errors) fail("%s", e.text.c_str());
  MINI_CHECK(w::live_blocks() == 0);
}
MINI_PART("accessors") {
  w::init();
  combo<Probe, Probe, 0>("Probe");
  combo<Probe, Probe, A_CCA | A_CMA | A_CS | A_CONS>("Probe/propagating");
  combo<Probe, Probe, A_FINAL>("Probe/final allocator");
  combo<Probe, Probe, A_EMPTY | A_AE>("Probe/empty allocator");
#ifdef H_POLY
  combo<Probe, ProbeD, 0>("Probe<-ProbeD");
  combo<Probe, ProbeD, A_EMPTY | A_AE>("Probe<-ProbeD/empty allocator");
#elif defined(MC_CXX20)
  combo<Probe, Probe, A_FANCY>("Probe/class pointer");
  combo<Probe, Probe, A_FANCY | A_CMA>("Probe/class pointer, propagating");
#endif
}
#ifndef H_POLY
template <class T>
void scalar(const char* n, T v) {
  using A = std::allocator<T>;
  Hd<T, A> h(v);
  accessors<T, A>(n, h);
}
MINI_PART("other value types") {
  scalar<int>("int", 1);
  scalar<const char*>("pointer", "x");
  scalar<std::string>("string", "x");
  scalar<std::vector<int>>("vector", {1});
  scalar<void (*)()>("function pointer", nullptr);
}
MINI_PART("rvalue access moves the value out") {
  xyz::indirect<std::string> h(std::string(100, 'x'));
  mini::state();
  at("*std::move(h)");
  const char* d = h->data();
  std::string s = *std::move(h);
  MINI_CHECK(s.data() == d);
  MINI_CHECK(!h.valueless_after_move() && h->empty());
  const xyz::indirect<std::string> c(std::string(100, 'y'));
  std::string t = *std::move(c);
  MINI_CHECK(c->size() == 100 && t == *c);
}
#else
MINI_PART("rvalue access does not move the value out") {
  struct S {
    std::string s{std::string(100, 'x')};
  };
  xyz::polymorphic<S> h;
  mini::state();
  at("*std::move(h)");
  S s = *std::move(h);
  MINI_CHECK(h->s.size() == 100);
}
#endif

// ---- address stability ----------------------------------------------------
// Operations that may not move the owned object of handle 0, in every order,
// with a handle 1 next to it; then every operation that may.
template <class T, class U, unsigned F>
void stable(const char* name, int depth) {
  using A = Al<T, F>;
  using H = Hd<T, A>;
  const int NOPS = 12;
  std::vector<int> seq(depth, 0);
  bool more = true;
  while (more) {
    w::reset();
    std::string nm;
    for (int s : seq) nm += std::to_string(s) + " ";
    mini::state();
    {
      A a(0, 0), b(1, 0);  // equal
      H h(std::allocator_arg, a, U(4)), o(std::allocator_arg, b, U(6));
      H* own = &h;  // the handle that owns the watched object
      H* oth = &o;
      T* p = std::addressof(**own);
      H spare(std::allocator_arg, a, U(8));
      for (int s : seq) {
        at("%s: sequence %s, at %d", name, nm.c_str(), s);
        mini::step();
        switch (s) {
          case 0: (void)**own; break;
          case 1: (void)(*own)->v; break;
          case 2: (*own)->v = 9; break;
          case 3: { H c(*own); (void)c; break; }
          case 4: { H c(std::allocator_arg, A(2, 0), *own); (void)c; break; }
          case 5: *oth = *own; break;
          case 6: { H& r = *own; *own = r; break; }
          case 7: { using std::swap; swap(*own, *oth); std::swap(own, oth); break; }
          case 8: {  // move construction out of and back into a handle
            H c(std::move(*own));
            ++mini::sh->executions;
            if (std::addressof(*c) != p) fail("move construction moved the object");
            *own = std::move(c);
            break;
          }
          case 9: *oth = std::move(*own); std::swap(own, oth); break;
          case 10: { H c(std::allocator_arg, b, std::move(*own)); own->swap(c); break; }
          case 11: (void)own->get_allocator(); (void)own->valueless_after_move(); break;
        }
        ++mini::sh->executions;
        if (own->valueless_after_move())
          fail("the handle is valueless");
        else {
          if (std::addressof(**own) != p) fail("the owned object's address changed (*)");
          if (own->operator->() != p) fail("the owned object's address changed (->)");
          const H& c = *own;
          if (std::addressof(*c) != p || c.operator->() != p) fail("const access differs");
        }
        if (oth->valueless_after_move()) *oth = spare;
      }
    }
    for (auto& e : w::errors) fail("%s", e.text.c_str());
    int i = depth - 1;
    while (i >= 0 && ++seq[i] == NOPS) seq[i--] = 0;
    more = i >= 0;
  }
}
#ifdef MC_DEPTH
const int depth = MC_DEPTH;
#else
const int depth = 4;
#endif
MINI_PART("stability 1") {
  w::init();
  stable<Probe, Probe, 0>("Probe", depth);
}
MINI_PART("stability 2") {
  w::init();
  stable<Probe, Probe, A_CCA | A_CMA | A_CS>("Probe/propagating", depth);
}
MINI_PART("stability 3") {
  w::init();
  stable<Probe, Probe, A_EMPTY | A_AE | A_CONS>("Probe/empty allocator", depth);
}
#ifdef H_POLY
MINI_PART("stability 4") {
  w::init();
  stable<Probe, ProbeD, 0>("Probe<-ProbeD", depth);
}
#endif
