// C09: assigning a handle from a handle, or from an object, that lives inside
// the value the target owns: chains of nodes holding handles, every depth of
// the source, every allocator at every level, every fault point.
#ifdef H_POLY
#ifdef MC_CXX20
#include "polymorphic.h"
#else
#include "polymorphic_cxx14.h"
#endif
#else
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#endif
#include "mini.hpp"
#include "types.hpp"
#ifdef MC_CXX20
#define XYZ_IN std
#else
#define XYZ_IN xyz
#endif
using mini::at;
using mini::fail;

#ifndef MC_LEN
#define MC_LEN 3
#endif

template <class A>
struct NodeBase;
#ifdef H_POLY
template <class A>
using Hd = xyz::polymorphic<NodeBase<A>, A>;
const bool poly = true;
#else
template <class A>
using Hd = xyz::indirect<NodeBase<A>, A>;
const bool poly = false;
#endif

// None or one handle, in place.
template <class H>
struct Opt {
  bool full;
  alignas(alignof(H)) unsigned char buf[sizeof(H)];
  H& h() { return *reinterpret_cast<H*>(buf); }
  const H& h() const { return *reinterpret_cast<const H*>(buf); }
  Opt() : full(false) {}
  explicit Opt(H&& o) : full(true) { ::new (static_cast<void*>(buf)) H(std::move(o)); }
  Opt(const Opt& o) : full(false) {
    if (o.full) {
      ::new (static_cast<void*>(buf)) H(o.h());
      full = true;
    }
  }
  Opt(Opt&& o) : full(false) {
    if (o.full) {
      ::new (static_cast<void*>(buf)) H(std::move(o.h()));
      full = true;
    }
  }
  template <class O>
  static H&& move_as(H& h) {
    return std::move(h);
  }
  template <class O>
  static const H& move_as(const H& h) {
    return h;
  }
  template <class O>
  void assign(O&& o) {  // o may be gone afterwards
    if (o.full) {
      if (full) {
        h() = move_as<O>(o.h());
      } else {
        ::new (static_cast<void*>(buf)) H(move_as<O>(o.h()));
        full = true;
      }
    } else if (full) {
      full = false;
      h().~H();
    }
  }
  Opt& operator=(const Opt& o) {
    assign(o);
    return *this;
  }
  Opt& operator=(Opt&& o) {
    assign(std::move(o));
    return *this;
  }
  ~Opt() {
    if (full) h().~H();
  }
};

static int pre(w::Ev e) {
  w::fallible(e);
  return 0;
}

// Type ids: 1 base, 2 and 3 derived.
template <class A>
struct NodeBase {
  using H = Hd<A>;
  int v;
  const NodeBase* self;
  Opt<H> next;
  void init(w::Ev e) {
    self = this;
    w::born(this, 1, sizeof(NodeBase), alignof(NodeBase), e);
  }
  void chk() const {
    w::use(this, 1);
    if (self != this) w::error(w::P(2), "node was relocated bitwise");
  }
  explicit NodeBase(int x) : v((pre(w::E_VAL), x)) { init(w::E_VAL); }
  NodeBase(int x, H&& n) : v((pre(w::E_VAL), x)), next(std::move(n)) { init(w::E_VAL); }
  NodeBase(const NodeBase& o) : v((o.chk(), pre(w::E_COPY), o.v)), next(o.next) {
    init(w::E_COPY);
  }
  NodeBase(NodeBase&& o) : v((o.chk(), pre(w::E_MOVE), o.v)), next(std::move(o.next)) {
    init(w::E_MOVE);
  }
  NodeBase& operator=(const NodeBase& o) {
    chk();
    o.chk();
    pre(w::E_ASGC);
    w::event(w::E_ASGC, 1);
    v = o.v;
    next = o.next;
    return *this;
  }
  NodeBase& operator=(NodeBase&& o) {
    chk();
    o.chk();
    pre(w::E_ASGM);
    w::event(w::E_ASGM, 1);
    v = o.v;
    next = std::move(o.next);
    return *this;
  }
#ifdef H_POLY
  virtual int kind() const { return 1; }
  virtual ~NodeBase() {
#else
  int kind() const { return 1; }
  ~NodeBase() {
#endif
    chk();
    w::dead(this, 1);
    v = -77;
    self = nullptr;
  }
};
#ifdef H_POLY
template <class A>
struct NodeD : NodeBase<A> {
  char extra[40];
  using NodeBase<A>::NodeBase;
  int kind() const override { return 2; }
};
template <class A>
struct NodeE : Other, NodeBase<A> {
  using NodeBase<A>::NodeBase;
  NodeE(const NodeE&) = default;
  NodeE(NodeE&&) = default;
  int kind() const override { return 3; }
};
#endif

struct Chain {  // what can be seen of a handle
  int n = 0;
  int v[8], kind[8];
  const void* p[8];
  int end = 0;  // 0: the last node has no handle, 1: a valueless one
  bool operator==(const Chain& o) const {
    if (n != o.n || end != o.end) return false;
    for (int i = 0; i < n; ++i)
      if (v[i] != o.v[i] || kind[i] != o.kind[i]) return false;
    return true;
  }
  bool same_objects(const Chain& o) const {
    for (int i = 0; i < n; ++i)
      if (p[i] != o.p[i]) return false;
    return n == o.n;
  }
  Chain from(int k) const {
    Chain c;
    c.end = end;
    for (int i = k; i < n; ++i) {
      c.v[c.n] = v[i], c.kind[c.n] = kind[i], c.p[c.n] = p[i];
      ++c.n;
    }
    return c;
  }
};
template <class H>
static Chain look(const H& h) {
  Chain c;
  const H* q = &h;
  for (;;) {
    if (q->valueless_after_move()) {
      c.end = 1;
      return c;
    }
    if (c.n == 8) {
      fail("the chain does not end");
      return c;
    }
    c.v[c.n] = (*q)->v;
    c.kind[c.n] = (*q)->kind();
    c.p[c.n] = std::addressof(**q);
    (*q)->chk();
    ++c.n;
    if (!(*q)->next.full) return c;
    q = &(*q)->next.h();
  }
}
static std::string text(const Chain& c) {
  std::string s = "[";
  for (int i = 0; i < c.n; ++i)
    s += (i ? " " : "") + std::to_string(c.v[i]) + "/" + std::to_string(c.kind[i]);
  return s + (c.end ? " valueless]" : "]");
}

// An allocator whose value type is a node holding handles with it.
template <unsigned F, class T = void>
struct Rec : AlBody<Rec<F, T>, T, F> {
  template <class U>
  struct rebind {
    using other = Rec<F, U>;
  };
  Rec() noexcept { this->set(0); }
  Rec(int id, int) noexcept { this->set(id); }
  template <class U>
  explicit Rec(const Rec<F, U>& o) noexcept {
    this->set(o.id());
  }
  template <class U>
  friend bool operator==(const Rec& a, const Rec<F, U>& b) noexcept {
    return Rec::cls(a.id()) == Rec::cls(b.id());
  }
  template <class U>
  friend bool operator!=(const Rec& a, const Rec<F, U>& b) noexcept {
    return Rec::cls(a.id()) != Rec::cls(b.id());
  }
};
template <unsigned F>
struct Rec<F, void> : AlBody<Rec<F, void>, NodeBase<Rec<F, void>>, F> {
  template <class U>
  struct rebind {
    using other = std::conditional_t<std::is_same<U, NodeBase<Rec>>::value, Rec, Rec<F, U>>;
  };
  Rec() noexcept { this->set(0); }
  Rec(int id, int) noexcept { this->set(id); }
  template <class U>
  explicit Rec(const Rec<F, U>& o) noexcept {
    this->set(o.id());
  }
  template <class U>
  friend bool operator==(const Rec& a, const Rec<F, U>& b) noexcept {
    return Rec::cls(a.id()) == Rec::cls(b.id());
  }
  template <class U>
  friend bool operator!=(const Rec& a, const Rec<F, U>& b) noexcept {
    return Rec::cls(a.id()) != Rec::cls(b.id());
  }
};

enum Form { COPY, CCOPY, MOVE, VAL, CVAL, RVAL };
static const char* const form_name[] = {"handle", "const handle", "moved handle",
                                        "value", "const value", "moved value"};

template <unsigned F>
static void run(const char* name) {
  using A = Rec<F>;
  using H = Hd<A>;
  using N = NodeBase<A>;
  const bool cca = F & A_CCA, cma = F & A_CMA, ae = F & A_AE;
  struct B {
    static H make(int al, int kind, int v) {
#ifdef H_POLY
      if (kind == 2)
        return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<NodeD<A>>{}, v);
      if (kind == 3)
        return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<NodeE<A>>{}, v);
      return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<N>{}, v);
#else
      (void)kind;
      return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_t{}, v);
#endif
    }
    static H make(int al, int kind, int v, H&& n) {
#ifdef H_POLY
      if (kind == 2)
        return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<NodeD<A>>{}, v,
                 std::move(n));
      if (kind == 3)
        return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<NodeE<A>>{}, v,
                 std::move(n));
      return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_type_t<N>{}, v, std::move(n));
#else
      (void)kind;
      return H(std::allocator_arg, A(al, 0), XYZ_IN::in_place_t{}, v, std::move(n));
#endif
    }
    // handles h_i..h_len, allocators in base 3 and kinds in base `kinds`
    static H chain(int i, int len, int end, int als, int kinds) {
      int al = (F & A_EMPTY) ? 0 : als % 3, kind = poly ? kinds % 3 + 1 : 1;
      if (i + 1 < len) return make(al, kind, 10 + i, chain(i + 1, len, end, als / 3, kinds / 3));
      if (!end) return make(al, kind, 10 + i);
      H gone = make(als / 3 % 3, 1, 99);
      H away(std::move(gone));
      return make(al, kind, 10 + i, std::move(gone));
    }
    static H* nth(H& h, int k) {
      H* q = &h;
      while (k--) q = &(*q)->next.h();
      return q;
    }
  };
  auto eq = [&](int a, int b) { return ae || al_class(a) == al_class(b); };
  auto p3 = [](int n) {
    int r = 1;
    while (n--) r *= 3;
    return r;
  };
  for (int len = 1; len <= MC_LEN; ++len)
    for (int end = 0; end < 2; ++end)
      for (int als = 0; als < ((F & A_EMPTY) ? 1 : p3(len + end)); ++als)
        for (int kinds = 0; kinds < (poly ? p3(len) : 1); ++kinds) {
          if (poly && kinds && kinds % 4 != als % 4) continue;  // a Latin selection
          for (int form = 0; form < (poly ? 3 : 6); ++form)
            for (int k = 0; k < len + (form < VAL ? end : 0); ++k) {
              mini::state();
              int total = 0;
              for (int fault = 0; fault <= total; ++fault) {
                w::reset();
                mini::step();
                ++mini::sh->executions;
                at("%s: %s at depth %d of %d%s, allocators %d, types %d, fault %d", name,
                   form_name[form], k, len, end ? " and a valueless one" : "", als, kinds,
                   fault);
                w::fault_at = 0;
                {
                  H h = B::chain(0, len, end, als, kinds);
                  H* s = B::nth(h, k);
                  int hal = als % 3;
                  int sal = s->get_allocator().id();
                  Chain before = look(h);
                  Chain want = before.from(k);
                  bool through = false;  // the owned object's own assignment is used
                  if (form >= VAL) through = true;
                  if (!poly && form <= CCOPY && k < len && eq(hal, sal)) through = true;
                  if (k == 0 && form <= MOVE) through = false;
                  bool threw = false;
                  w::fault_at = fault;
                  w::begin_op();
                  try {
                    switch (form) {
                      case COPY: h = *s; break;
                      case CCOPY: h = static_cast<const H&>(*s); break;
                      case MOVE: h = std::move(*s); break;
#ifndef H_POLY
                      case VAL: h = **s; break;
                      case CVAL: h = *static_cast<const H&>(*s); break;
                      case RVAL: h = std::move(**s); break;
#endif
                    }
                  } catch (const w::Fault&) {
                    threw = true;
                  }
                  w::end_op();
                  w::fault_at = 0;
                  if (!fault) total = w::cnt.fallible;
                  Chain after = look(h);
                  if (threw != (fault != 0)) fail(threw ? "threw" : "did not throw");
                  if (!threw) {
                    if (!(after == want))
                      fail("%s became %s, should be %s", text(before).c_str(),
                           text(after).c_str(), text(want).c_str());
                    if (k == 0 && form <= MOVE && !after.same_objects(before))
                      fail("self-assignment changed the object");
                    if (form == MOVE && k < len && eq(hal, sal) && !after.same_objects(want))
                      fail("move assignment did not hand over the object");
                    if (through && !eq(1, 2) && after.n && after.p[0] != before.p[0])
                      fail("not assigned through");
                    int wal = hal;
                    if (k && ((form <= CCOPY && cca) || (form == MOVE && cma))) wal = sal;
                    if (h.get_allocator().id() != wal)
                      fail("allocator %d, should be %d", h.get_allocator().id(), wal);
                  } else if (!through) {
                    if (!(after == before) || !after.same_objects(before))
                      fail("%s became %s although an exception was thrown",
                           text(before).c_str(), text(after).c_str());
                    if (h.get_allocator().id() != hal) fail("allocator changed");
                  }
                }
                if (w::live_blocks()) fail("%d blocks leaked", w::live_blocks());
                if (w::live_objects()) fail("%d objects leaked", w::live_objects());
                for (auto& e : w::errors) fail("%s", e.text.c_str());
                // a fault under a noexcept move assignment ends the program: a
                // known finding of C08
                if ((form == MOVE || form == RVAL) && cma) break;
              }
            }
        }
}
#define NEST(F)                 \
  MINI_PART("nested " #F) {     \
    w::init();                  \
    run<F>(#F);                 \
  }
NEST(0)
NEST(A_CCA)
NEST(A_CMA)
NEST(A_CCA | A_CMA | A_CS)
NEST(A_AE)
NEST(A_AE | A_CCA | A_CMA)
NEST(A_CONS)
NEST(A_CONS | A_CCA)
NEST(A_SOC3)
NEST(A_SOCEQ | A_CMA)
NEST(A_EMPTY | A_AE)
