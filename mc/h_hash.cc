// C12: hashes of handles after every short history, and unordered containers
// keyed by handles against containers keyed by the values.
#ifdef MC_CXX20
#include "indirect.h"
#else
#include "indirect_cxx14.h"
#endif
#include <limits>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "mini.hpp"
using mini::at;
using mini::fail;

namespace {
long allocs;
template <class T, int Tag = 0>
struct CA {
  using value_type = T;
  template <class U>
  struct rebind {
    using other = CA<U, Tag>;
  };
  int id = Tag;
  CA() = default;
  explicit CA(int i) : id(i) {}
  template <class U>
  CA(const CA<U, Tag>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    ++allocs;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, std::size_t n) {
    ++allocs;
    std::allocator<T>().deallocate(p, n);
  }
  friend bool operator==(const CA& a, const CA& b) { return a.id == b.id; }
  friend bool operator!=(const CA& a, const CA& b) { return a.id != b.id; }
};
// a value type whose hash is whatever a table says
struct V {
  int k;
  friend bool operator==(const V& a, const V& b) { return a.k == b.k; }
};
std::size_t hash_tab[4];
const V* hashed;
int hash_calls;
std::string show(int x) { return std::to_string(x); }
std::string show(unsigned long x) { return std::to_string(x); }
std::string show(double x) { return std::to_string(x); }
std::string show(bool x) { return x ? "true" : "false"; }
std::string show(const std::string& x) { return "\"" + x + "\""; }
std::string show(const V& x) { return "V" + std::to_string(x.k); }
std::string show(const void* x) { return x ? "p" : "null"; }
}  // namespace
namespace std {
template <>
struct hash<V> {
  size_t operator()(const V& v) const {
    hashed = &v;
    ++hash_calls;
    return hash_tab[v.k];
  }
};
}  // namespace std

// Ways to come to hold a value.
const int NHIST = 10;
template <class H, class T>
H* build(int hist, const T& v, const T& other) {
  using A = typename H::allocator_type;
  switch (hist) {
    case 0: return new H(v);
    case 1: return new H(std::allocator_arg, A(5), v);
    case 2: {
      H a(v);
      return new H(a);
    }
    case 3: {
      H a(v);
      return new H(std::move(a));
    }
    case 4: {
      H a(std::allocator_arg, A(6), v);
      return new H(std::allocator_arg, A(7), std::move(a));
    }
    case 5: {  // assigned over another value
      H* h = new H(other);
      *h = v;
      return h;
    }
    case 6: {  // valueless, then assigned a value
      H* h = new H(other);
      H a(std::move(*h));
      *h = v;
      return h;
    }
    case 7: {  // copy-assigned from another allocator
      H* h = new H(other);
      H a(std::allocator_arg, A(6), v);
      *h = a;
      return h;
    }
    case 8: {
      H* h = new H(other);
      H a(v);
      using std::swap;
      swap(*h, a);
      return h;
    }
    default: {  // mutated through the handle
      H* h = new H(other);
      **h = v;
      return h;
    }
  }
}
template <class H, class T>
H* build_valueless(int hist, const T& v, const T& other) {
  H* h = build<H>(hist, v, other);
  H a(std::move(*h));
  if (hist % 3 == 1) {  // handed on
    H* g = new H(*h);
    delete h;
    return g;
  }
  if (hist % 3 == 2) {
    H* g = new H(other);
    *g = std::move(*h);
    delete h;
    return g;
  }
  return h;
}
template <class T>
struct SA : std::allocator<T> {
  template <class U>
  struct rebind {
    using other = SA<U>;
  };
  SA() = default;
  explicit SA(int) {}
  template <class U>
  SA(const SA<U>&) {}
};

template <class T, class A>
void hashes(const char* name, const std::vector<T>& vs) {
  using H = xyz::indirect<T, A>;
  bool have_empty = false;
  std::size_t empty = 0;
  for (auto& v : vs)
    for (auto& o : vs)
      for (int hist = 0; hist < NHIST; ++hist) {
        mini::state();
        mini::step();
        at("%s %s (other %s) history %d", name, show(v).c_str(), show(o).c_str(), hist);
        std::unique_ptr<H> h(build<H>(hist, v, o));
        const H& ch = *h;
        auto* p = h->operator->();
        long before = allocs;
        hash_calls = 0;
        std::size_t got = std::hash<H>{}(ch);
        std::size_t want = std::hash<T>{}(*p);
        std::size_t want2 = std::hash<T>{}(v);
        MINI_CHECKF(got == want && got == want2, "hash is %zu, the value's is %zu", got, want2);
        MINI_CHECKF(got == std::hash<H>{}(ch), "hashing twice differs");
        MINI_CHECKF(allocs == before, "hashing allocated");
        MINI_CHECKF(!h->valueless_after_move() && h->operator->() == p, "hashing changed");
        const std::hash<H> fn{};
        MINI_CHECK(fn(*h) == got);
        std::unique_ptr<H> e(build_valueless<H>(hist, v, o));
        at("%s %s (other %s) valueless after history %d", name, show(v).c_str(),
           show(o).c_str(), hist);
        MINI_CHECK(e->valueless_after_move());
        before = allocs;
        hash_calls = 0;
        std::size_t he = std::hash<H>{}(*e);
        MINI_CHECKF(hash_calls == 0, "hashing a valueless handle hashes a value");
        MINI_CHECKF(allocs == before, "hashing allocated");
        if (!have_empty) empty = he, have_empty = true;
        MINI_CHECKF(he == empty, "valueless hashes differ: %zu and %zu", he, empty);
      }
}
MINI_PART("int") {
  using L = std::numeric_limits<int>;
  hashes<int, SA<int>>("int", {L::min(), -1, 0, 1, L::max()});
  hashes<int, CA<int>>("int", {L::min(), -1, 0, 1, L::max()});
}
MINI_PART("unsigned long") {
  hashes<unsigned long, CA<unsigned long>>("ulong", {0ul, 1ul, ~0ul, ~0ul - 1, 1ul << 63});
}
MINI_PART("double") {
  hashes<double, CA<double>>("double", {-0.0, 0.0, 1.5, std::numeric_limits<double>::infinity()});
}
MINI_PART("string") { hashes<std::string, CA<std::string>>("string", {"", "a", "b"}); }
MINI_PART("pointer") {
  static int x;
  hashes<const void*, CA<const void*>>("pointer", {nullptr, &x});
}
MINI_PART("table") {
  const std::size_t vals[] = {0, 1, std::size_t(-1), 42};
  for (std::size_t a : vals)
    for (std::size_t b : vals) {
      hash_tab[0] = a;
      hash_tab[1] = b;
      hashes<V, CA<V>>("V", {V{0}, V{1}});
      hashes<V, SA<V>>("V", {V{0}, V{1}});
    }
}
MINI_PART("nested") {
  using I = xyz::indirect<int>;
  using N = xyz::indirect<I>;
  for (int v = -1; v < 3; ++v) {
    mini::state();
    mini::step();
    at("nested %d", v);
    I i(v);
    N n(std::allocator_arg, N::allocator_type(), i);
    MINI_CHECK(std::hash<N>{}(n) == std::hash<int>{}(v));
    I j(std::move(*n));  // the inner one is valueless
    MINI_CHECK(std::hash<N>{}(n) == std::hash<I>{}(i = std::move(*n)));
    N m(std::move(n));
    MINI_CHECK(std::hash<N>{}(n) == std::hash<N>{}(n));
  }
}

// ---- containers -----------------------------------------------------------
// Every sequence of operations up to a length, on containers keyed by handles
// and by values.
using H = xyz::indirect<V, CA<V>>;
// reference: keys 0,1,2 and 3 = the valueless key
struct RV {
  int k;
  bool operator==(const RV& o) const { return k == o.k; }
};
struct RHash {
  std::size_t operator()(const RV& v) const {
    return v.k == 3 ? std::size_t(-1) : hash_tab[v.k];
  }
};
static H key(int k, int al) {
  H h(std::allocator_arg, CA<V>(al), V{k % 3});
  if (k == 3) {
    H g(std::move(h));
  }
  return h;
}
template <class C, class RC>
struct Sets {
  static void ops(int depth) {
    const int NOPS = 15;
    std::vector<int> seq(depth, 0);
    while (true) {
      run(seq, NOPS);
      int i = depth - 1;
      while (i >= 0 && ++seq[i] == NOPS) seq[i--] = 0;
      if (i < 0) break;
    }
  }
  static void run(const std::vector<int>& seq, int) {
    C c;
    RC r;
    mini::state();
    std::string nm;
    for (int s : seq) nm += std::to_string(s) + " ";
    for (int s : seq) {
      mini::step();
      at("sequence %s, at %d", nm.c_str(), s);
      if (s < 4) {
        c.insert(key(s, 1));
        r.insert(RV{s});
      } else if (s < 8) {
        std::size_t a = c.erase(key(s - 4, 2)), b = r.erase(RV{s - 4});
        if (a != b) fail("erase removed %zu, should be %zu", a, b);
      } else if (s < 12) {
        H k = key(s - 8, 0);
        c.insert(k);
        r.insert(RV{s - 8});
      } else if (s == 12) {
        c.rehash(c.bucket_count() * 2 + 1);
      } else if (s == 13) {
        C d(c);
        c = std::move(d);
      } else {
        c.clear();
        r.clear();
      }
      if (c.size() != r.size()) fail("size is %zu, should be %zu", c.size(), r.size());
      for (int k = 0; k < 4; ++k) {
        std::size_t a = c.count(key(k, 3)), b = r.count(RV{k});
        ++mini::sh->executions;
        if (a != b) fail("count of key %d is %zu, should be %zu", k, a, b);
        auto it = c.find(key(k, 4));
        if ((it != c.end()) != (b != 0)) fail("find of key %d", k);
        if (it != c.end() && (k == 3 ? !it->valueless_after_move()
                                     : it->valueless_after_move() || (**it).k != k))
          fail("find of key %d found another", k);
      }
    }
  }
};
#ifdef MC_DEPTH
const int depth = MC_DEPTH;
#else
const int depth = 3;
#endif
static void tables(void (*f)(int)) {
  const std::size_t t[][3] = {{0, 1, 2}, {5, 5, 5}, {std::size_t(-1), 0, 0},
                              {std::size_t(-1), std::size_t(-1), 7}};
  for (auto& x : t) {
    for (int i = 0; i < 3; ++i) hash_tab[i] = x[i];
    f(depth);
  }
}
MINI_PART("unordered_set") {
  tables(Sets<std::unordered_set<H>, std::unordered_set<RV, RHash>>::ops);
}
MINI_PART("unordered_multiset") {
  tables(Sets<std::unordered_multiset<H>, std::unordered_multiset<RV, RHash>>::ops);
}
MINI_PART("unordered_map") {
  const std::size_t t[][3] = {{0, 1, 2}, {5, 5, 5}, {std::size_t(-1), 0, 0}};
  for (auto& x : t) {
    for (int i = 0; i < 3; ++i) hash_tab[i] = x[i];
    // every sequence of 5 assignments key -> serial, keys 0..3
    for (int code = 0; code < 1024; ++code) {
      std::unordered_map<H, int> m;
      int want[4] = {-1, -1, -1, -1};
      at("map, keys %d", code);
      mini::state();
      for (int i = 0; i < 5; ++i) {
        int k = code >> (2 * i) & 3;
        m[key(k, i)] = i;
        want[k] = i;
        mini::step();
        for (int j = 0; j < 4; ++j) {
          auto it = m.find(key(j, 0));
          ++mini::sh->executions;
          if ((it == m.end() ? -1 : it->second) != want[j]) fail("key %d", j);
        }
      }
    }
  }
}
