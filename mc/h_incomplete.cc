// C21: the composites of exploration/incomplete_types.h: every sequence of
// operations on two or three of them, with every failing allocation of the last
// one, against plain values.  The type that is incomplete to their users is
// complete here.
#include "exploration/incomplete_types.cc"

#include <new>
#include <type_traits>

#include "mini.hpp"
using mini::at;
using mini::fail;
#ifndef MC_DEPTH
#define MC_DEPTH 4
#endif
using namespace xyz::testing;

static bool counting;
static long blocks;
static int fallible, fault_at;
static const int MAXB = 256;
static void* blk[MAXB];
static int nblk;
static void* get(std::size_t n) {
  if (counting && ++fallible == fault_at) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (counting && nblk < MAXB) blk[nblk++] = p, ++blocks;
  return p;
}
static void put(void* p) {
  if (!p) return;
  for (int i = 0; i < nblk; ++i)
    if (blk[i] == p) {
      blk[i] = blk[--nblk], --blocks;
      break;
    }
  std::free(p);
}
void* operator new(std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }

// What each composite is as a value: a kind and a number.  owns: the number of
// blocks it holds (-1: not fixed).
struct Value {
  int kind, n;
  bool operator==(const Value& o) const { return kind == o.kind && n == o.n; }
};
template <class M>
struct Plain {  // one object, always equal, no way to change it
  static const int changes = 0;
  static void change(M&, int, Value&) {}
  static long owns(const M&, Value) { return 1; }
  static bool is(const M&, Value) { return true; }
  static const void* where(const M&, Value) { return nullptr; }
};
template <class M>
struct Traits : Plain<M> {};
template <>
struct Traits<UniquePtrMember> : Plain<UniquePtrMember> {
  static bool is(const UniquePtrMember& m, Value) { return m.x != nullptr; }
  static const void* where(const UniquePtrMember& m, Value) { return m.x.get(); }
};
static void resize(std::vector<Incomplete>& v, int c, Value& to) {
  if (c == 0)
    v.emplace_back(), ++to.n;
  else
    v.clear(), to.n = 0;
}
template <>
struct Traits<VectorMember> {
  static const int changes = 2;
  static void change(VectorMember& m, int c, Value& v) { resize(m.xs, c, v); }
  static long owns(const VectorMember& m, Value) { return m.xs.capacity() ? 1 : 0; }
  static bool is(const VectorMember& m, Value v) { return (int)m.xs.size() == v.n; }
  static const void* where(const VectorMember& m, Value v) { return v.n ? m.xs.data() : nullptr; }
};
template <>
struct Traits<VariantVectorMember> {
  static const int changes = 4;
  static void change(VariantVectorMember& m, int c, Value& v) {
    if (c < 2) {
      if (v.kind) m.x.emplace<0>(), v = Value{0, 0};
      resize(std::get<0>(m.x), c, v);
    } else {
      m.x.emplace<1>(c), v = Value{1, c};
    }
  }
  static long owns(const VariantVectorMember& m, Value v) {
    return v.kind ? 0 : std::get<0>(m.x).capacity() ? 1 : 0;
  }
  static bool is(const VariantVectorMember& m, Value v) {
    if ((int)m.x.index() != v.kind) return false;
    return v.kind ? std::get<1>(m.x) == v.n : (int)std::get<0>(m.x).size() == v.n;
  }
  static const void* where(const VariantVectorMember& m, Value v) {
    return v.kind == 0 && v.n ? std::get<0>(m.x).data() : nullptr;
  }
};
template <>
struct Traits<VariantWrapperMember> {
  static const int changes = 3;
  static void change(VariantWrapperMember& m, int c, Value& v) {
    if (c == 0)
      m.x.emplace<0>(), v = Value{0, 0};
    else
      m.x.emplace<1>(c), v = Value{1, c};
  }
  static long owns(const VariantWrapperMember&, Value v) { return v.kind ? 0 : 1; }
  static bool is(const VariantWrapperMember& m, Value v) {
    return (int)m.x.index() == v.kind && (!v.kind || std::get<1>(m.x) == v.n);
  }
  static const void* where(const VariantWrapperMember&, Value) { return nullptr; }
};

template <class M>
static void assign_to(M& a, const M& b, std::true_type) {
  a = b;
}
template <class M>
static void assign_to(M&, const M&, std::false_type) {}

template <class M, int N>
struct Explore {
  typedef Traits<M> T;
  struct Op {
    int k, i, j;
  };
  alignas(M) unsigned char mem[N][sizeof(M)];
  bool here[N];
  Value val[N];
  std::vector<Op> ops;
  M& m(int i) { return *reinterpret_cast<M*>(mem[i]); }
  Explore() {
    for (int i = 0; i < N; ++i) {
      ops.push_back(Op{0, i, 0});
      for (int j = 0; j < N; ++j) {
        if (j != i) ops.push_back(Op{1, i, j});
        if (std::is_copy_assignable<M>::value) ops.push_back(Op{2, i, j});
      }
      ops.push_back(Op{3, i, 0});
      for (int c = 0; c < T::changes; ++c) ops.push_back(Op{4, i, c});
    }
  }
  bool possible(const Op& o) const {
    switch (o.k) {
      case 0: return !here[o.i];
      case 1: return !here[o.i] && here[o.j];
      case 2: return here[o.i] && here[o.j];
    }
    return here[o.i];
  }
  void apply(const Op& o) {
    counting = true;
    switch (o.k) {
      case 0:
        new (mem[o.i]) M();
        val[o.i] = Value{0, 0}, here[o.i] = true;
        break;
      case 1:
        new (mem[o.i]) M(static_cast<const M&>(m(o.j)));
        val[o.i] = val[o.j], here[o.i] = true;
        break;
      case 2:
        assign_to(m(o.i), m(o.j),
                  std::integral_constant<bool, std::is_copy_assignable<M>::value>());
        val[o.i] = val[o.j];
        break;
      case 3:
        here[o.i] = false;
        m(o.i).~M();
        break;
      case 4: T::change(m(o.i), o.j, val[o.i]); break;
    }
    counting = false;
  }
  void look(int skip) {
    long want = 0;
    bool all = true;
    for (int i = 0; i < N; ++i) {
      if (!here[i]) continue;
      if (i == skip) {
        all = false;
        continue;
      }
      MINI_CHECKF(T::is(m(i), val[i]), "slot %d is not %d:%d", i, val[i].kind, val[i].n);
      want += T::owns(m(i), val[i]);
      for (int j = 0; j < N; ++j) {
        if (!here[j] || j == skip) continue;
        counting = true;
        int f = fault_at;
        fault_at = 0;
        bool eq = static_cast<const M&>(m(i)) == static_cast<const M&>(m(j));
        bool ne = static_cast<const M&>(m(i)) != static_cast<const M&>(m(j));
        fault_at = f;
        counting = false;
        MINI_CHECKF(eq == (val[i] == val[j]) && ne == !eq, "slots %d and %d: == says %d, != %d", i,
                    j, eq, ne);
        const void *a = T::where(m(i), val[i]), *b = T::where(m(j), val[j]);
        MINI_CHECKF(i == j || !a || a != b, "slots %d and %d share an object", i, j);
      }
    }
    if (all) MINI_CHECKF(want == blocks, "%ld blocks are held, expected %ld", blocks, want);
  }
  void start() {
    for (int i = 0; i < N; ++i) here[i] = false;
    nblk = 0, blocks = 0, fault_at = 0, fallible = 0;
  }
  void finish() {
    for (int i = 0; i < N; ++i)
      if (here[i]) {
        here[i] = false;
        counting = true;
        m(i).~M();
        counting = false;
      }
    MINI_CHECKF(blocks == 0, "%ld blocks are leaked", blocks);
  }
  std::vector<Op> seq;
  std::string text() const {
    std::string s;
    const char* f[] = {"new %d; ", "copy %d from %d; ", "%d = %d; ", "drop %d; ",
                       "change %d by %d; "};
    for (const Op& o : seq) {
      char b[60];
      std::snprintf(b, sizeof b, f[o.k], o.i, o.j);
      s += b;
    }
    return s;
  }
  bool replay(size_t n) {
    start();
    for (size_t i = 0; i < n; ++i) {
      if (!possible(seq[i])) return false;
      apply(seq[i]);
    }
    return possible(seq[n]);
  }
  void last() {
    const Op o = seq.back();
    std::string t = text();
    at("%s", t.c_str());
    if (!replay(seq.size() - 1)) return;
    mini::step();
    fallible = 0;
    apply(o);
    int events = fallible;
    look(-1);
    finish();
    // libstdc++ believes that a variant of a vector and an int is never valueless
    // and does not survive a throwing copy of the vector
    if (std::is_same<M, VariantVectorMember>::value && o.k == 1) events = 0;
    for (int f = 1; f <= events; ++f) {
      at("%sallocation %d of the last one failing", t.c_str(), f);
      replay(seq.size() - 1);
      fallible = 0, fault_at = f;
      bool was = here[o.i];
      Value old = val[o.i];
      bool threw = false;
      try {
        apply(o);
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      counting = false, fault_at = 0;
      MINI_CHECKF(threw, "the exception does not arrive");
      if (threw) here[o.i] = was, val[o.i] = old;
      // a slot whose change or assignment failed need not have its value
      look(o.k == 2 || o.k == 4 ? o.i : -1);
      finish();
    }
  }
  void dfs(int depth) {
    mini::state();
    for (const Op& o : ops) {
      seq.push_back(o);
      bool ok = replay(seq.size() - 1);
      finish();
      if (ok) {
        last();
        if (depth > 1) dfs(depth - 1);
      }
      seq.pop_back();
    }
  }
  void go(int depth) {
    start();
    dfs(depth);
  }
};

#define COMPOSITE(M)                                              \
  MINI_PART(#M ", two") { Explore<M, 2>().go(MC_DEPTH + 1); }     \
  MINI_PART(#M ", three") { Explore<M, 3>().go(MC_DEPTH - 1); }
COMPOSITE(VectorMember)
COMPOSITE(UniquePtrMember)
COMPOSITE(WrapperMember)
COMPOSITE(ConstrainedWrapperMember)
COMPOSITE(VariantWrapperMember)
COMPOSITE(VariantVectorMember)
