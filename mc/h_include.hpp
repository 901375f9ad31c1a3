// Included after the headers under test (whatever they are and in whatever
// order): a program in the interface common to all of them.  Defines
// int FN(char* out), which writes what it observed.  C++14.
#ifdef USE_INDIRECT
#include <functional>
#endif
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <new>
#include <utility>

namespace {
int live, total;  // per translation unit
// Exactly what an allocator must have.
template <class T>
struct Min {
  using value_type = T;
  int id;
  explicit Min(int i) : id(i) {}
  template <class U>
  Min(const Min<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    ++live, ++total;
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) {
    --live;
    ::operator delete(p);
  }
  friend bool operator==(const Min& a, const Min& b) { return a.id == b.id; }
  friend bool operator!=(const Min& a, const Min& b) { return a.id != b.id; }
};
struct Shape {
  int n;
  explicit Shape(int x = 1) : n(x) {}
  virtual int area() const { return n; }
  virtual ~Shape() {}
};
struct Square : Shape {
  explicit Square(int x = 2) : Shape(x) {}
  int area() const override { return n * n; }
};
#ifdef USE_INDIRECT
struct Rec;
struct Holder {  // an incomplete value type
  xyz::indirect<Rec>* p = nullptr;
};
struct Rec {
  int v = 4;
};
#endif
}  // namespace

int FN(char* out, int room);
int FN(char* out, int room) {
  char* end = out + room;
#define OBS(...) out += std::snprintf(out, end - out, __VA_ARGS__)
#ifdef USE_INDIRECT
  {
    xyz::indirect<int> a(3), b(a);
    *b = 4;
    OBS("I %d %d %d%d%d;", *a, *b, a == b, a < b, a != b);
    a = std::move(b);
    OBS("%d%d %d;", a.valueless_after_move(), b.valueless_after_move(), *a);
    OBS("%d%d%d;", b < a, b == b, a > b);
    OBS("%d%d%d;", a == 4, a < 5, 4 == a);
    OBS("%d;", std::hash<xyz::indirect<int>>()(a) == std::hash<int>()(4));
    b = a;
    swap(a, b);
    a = 9;
    OBS("%d %d;", *a, *b);
    using I = xyz::indirect<Shape, Min<Shape>>;
    I c(std::allocator_arg, Min<Shape>(1), Shape(5));
    I d(std::allocator_arg, Min<Shape>(2), c);
    I e(std::allocator_arg, Min<Shape>(2), std::move(c));
    c = d;
    d = std::move(e);
    OBS("%d %d %d%d%d %d %d;", c->n, d->n, c.valueless_after_move(), d.valueless_after_move(),
        e.valueless_after_move(), c.get_allocator().id, total);
    Holder h;
    h.p = new xyz::indirect<Rec>();
    OBS("%d;", (*h.p)->v);
    delete h.p;
    OBS("%d%d%d;", noexcept(*a), noexcept(a.swap(b)), noexcept(c.swap(d)));
  }
  OBS("%d;", live);
#endif
#ifdef USE_POLY
  total = 0;
  {
    xyz::polymorphic<Shape> a(Square(3)), b(a);
    b->n = 5;
    OBS("P %d %d;", a->area(), b->area());
    a = std::move(b);
    OBS("%d%d %d;", a.valueless_after_move(), b.valueless_after_move(), a->area());
    b = a;
    b->n = 1;
    swap(a, b);
    OBS("%d %d;", a->area(), b->area());
    a = xyz::polymorphic<Shape>();
    OBS("%d;", a->area());
    using P = xyz::polymorphic<Shape, Min<Shape>>;
    P c(std::allocator_arg, Min<Shape>(1), Square(5));
    P d(std::allocator_arg, Min<Shape>(2), c);
    P e(std::allocator_arg, Min<Shape>(2), std::move(c));
    c = d;
    d = std::move(e);
    OBS("%d %d %d%d%d %d %d;", c->area(), d->area(), c.valueless_after_move(),
        d.valueless_after_move(), e.valueless_after_move(), c.get_allocator().id, total);
    OBS("%d%d%d;", noexcept(*a), noexcept(a.swap(b)), noexcept(c.swap(d)));
  }
  OBS("%d;", live);
#endif
#undef OBS
  return 0;
}
