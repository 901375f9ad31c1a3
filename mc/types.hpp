// Instrumented value types, class hierarchies and allocators.  C++14.
#ifndef MC_TYPES_HPP
#define MC_TYPES_HPP

#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

#include "world.hpp"

// ---------------------------------------------------------------------------
// Argument type: a value type is constructible and assignable from it.
struct Arg {
  int v;
};

// How an instrumented operation of class type TYPE records itself.  Order:
// may throw first (no effect yet), then read the source, then come to life.
inline int from_list(std::initializer_list<int> l) {
  int s = 0;
  for (int i : l) s = s * 10 + i;
  return s;
}

// The members every instrumented class has.  TYPE is its id, BYTES padding.
#define MC_BODY(Name, TYPE)                                                    \
  static constexpr int type = TYPE;                                            \
  int v;                                                                       \
  const Name* self;                                                            \
  static int pre(w::Ev e) {                                                    \
    w::fallible(e);                                                            \
    return 0;                                                                  \
  }                                                                            \
  void init(w::Ev e, int x) {                                                  \
    v = x;                                                                     \
    self = this;                                                               \
    w::born(this, TYPE, sizeof(Name), alignof(Name), e);                       \
  }                                                                            \
  void chk() const {                                                           \
    w::use(this, TYPE);                                                        \
    if (self != this)                                                          \
      w::error(w::P(2), "object of type %d was relocated bitwise", TYPE);      \
  }                                                                            \
  explicit Name(int x) {                                                       \
    pre(w::E_VAL);                                                             \
    init(w::E_VAL, x);                                                         \
  }                                                                            \
  Name(int x, int y) {                                                         \
    pre(w::E_VAL);                                                             \
    init(w::E_VAL, x * 10 + y);                                                \
  }                                                                            \
  explicit Name(const Arg& a) {                                                \
    pre(w::E_VAL);                                                             \
    init(w::E_VAL, a.v);                                                       \
  }                                                                            \
  Name(std::initializer_list<int> l) {                                         \
    pre(w::E_VAL);                                                             \
    init(w::E_VAL, from_list(l) + 100);                                        \
  }                                                                            \
  Name(std::initializer_list<int> l, const Arg& a) {                           \
    pre(w::E_VAL);                                                             \
    init(w::E_VAL, from_list(l) * 10 + a.v + 100);                             \
  }                                                                            \
  Name& operator=(const Arg& a) {                                              \
    chk();                                                                     \
    pre(w::E_ASGV);                                                            \
    w::event(w::E_ASGV, TYPE);                                                 \
    v = a.v;                                                                   \
    return *this;                                                              \
  }                                                                            \
  ~Name() {                                                                    \
    chk();                                                                     \
    w::dead(this, TYPE);                                                       \
    v = -77;                                                                   \
  }

#define MC_DEFAULT(Name) \
  Name() {               \
    pre(w::E_DEF);       \
    init(w::E_DEF, 0);   \
  }
#define MC_COPYCTOR(Name)  \
  Name(const Name& o) {    \
    o.chk();               \
    pre(w::E_COPY);        \
    init(w::E_COPY, o.v);  \
  }
#define MC_COPYASG(Name)             \
  Name& operator=(const Name& o) {   \
    chk();                           \
    o.chk();                         \
    pre(w::E_ASGC);                  \
    w::event(w::E_ASGC, type);       \
    v = o.v;                         \
    return *this;                    \
  }
#define MC_MOVECTOR(Name, NOEXC)         \
  Name(Name&& o) noexcept(NOEXC) {       \
    o.chk();                             \
    if (!(NOEXC)) pre(w::E_MOVE);        \
    init(w::E_MOVE, o.v);                \
    o.v = w::MOVED;                      \
  }
#define MC_MOVEASG(Name, NOEXC)                   \
  Name& operator=(Name&& o) noexcept(NOEXC) {     \
    chk();                                        \
    o.chk();                                      \
    if (!(NOEXC)) pre(w::E_ASGM);                 \
    w::event(w::E_ASGM, type);                    \
    if (this != std::addressof(o)) {              \
      v = o.v;                                    \
      o.v = w::MOVED;                             \
    }                                             \
    return *this;                                 \
  }
#define MC_COMPARE(Name)                                       \
  friend bool operator==(const Name& a, const Name& b) {       \
    a.chk();                                                   \
    b.chk();                                                   \
    w::fallible(w::E_CMP);                                     \
    w::event(w::E_CMP, Name::type);                            \
    return a.v == b.v;                                         \
  }                                                            \
  friend bool operator!=(const Name& a, const Name& b) { return !(a == b); } \
  friend bool operator<(const Name& a, const Name& b) {        \
    a.chk();                                                   \
    b.chk();                                                   \
    w::fallible(w::E_CMP);                                     \
    w::event(w::E_CMP, Name::type);                            \
    return a.v < b.v;                                          \
  }                                                            \
  friend bool operator>(const Name& a, const Name& b) { return b < a; }      \
  friend bool operator<=(const Name& a, const Name& b) { return !(b < a); }  \
  friend bool operator>=(const Name& a, const Name& b) { return !(a < b); }

// everything, everything may throw
struct TFull {
  MC_BODY(TFull, 1)
  MC_DEFAULT(TFull)
  MC_COPYCTOR(TFull)
  MC_COPYASG(TFull)
  MC_MOVECTOR(TFull, false)
  MC_MOVEASG(TFull, false)
  MC_COMPARE(TFull)
};
// moves do not throw
struct TNoexcept {
  MC_BODY(TNoexcept, 1)
  MC_DEFAULT(TNoexcept)
  MC_COPYCTOR(TNoexcept)
  MC_COPYASG(TNoexcept)
  MC_MOVECTOR(TNoexcept, true)
  MC_MOVEASG(TNoexcept, true)
  MC_COMPARE(TNoexcept)
};
// no move operations: rvalues are copied
struct TCopyOnly {
  MC_BODY(TCopyOnly, 1)
  MC_DEFAULT(TCopyOnly)
  MC_COPYCTOR(TCopyOnly)
  MC_COPYASG(TCopyOnly)
  MC_COMPARE(TCopyOnly)
};
struct TMoveOnly {
  MC_BODY(TMoveOnly, 1)
  MC_DEFAULT(TMoveOnly)
  TMoveOnly(const TMoveOnly&) = delete;
  TMoveOnly& operator=(const TMoveOnly&) = delete;
  MC_MOVECTOR(TMoveOnly, false)
  MC_MOVEASG(TMoveOnly, false)
  MC_COMPARE(TMoveOnly)
};
// large, over-aligned, final, not default constructible, no & or new
struct alignas(128) TBig final {
  MC_BODY(TBig, 1)
  MC_COPYCTOR(TBig)
  MC_COPYASG(TBig)
  MC_MOVECTOR(TBig, false)
  MC_MOVEASG(TBig, true)
  MC_COMPARE(TBig)
  char pad[4096];
  TBig* operator&() = delete;
  const TBig* operator&() const = delete;
  static void* operator new(std::size_t) = delete;
  static void* operator new(std::size_t, void*) = delete;
  static void operator delete(void*) = delete;
};

// nothing throws
struct TNothrow {
  MC_BODY(TNothrow, 1)
  MC_DEFAULT(TNothrow)
  TNothrow(const TNothrow& o) noexcept {
    o.chk();
    init(w::E_COPY, o.v);
  }
  TNothrow& operator=(const TNothrow& o) noexcept {
    chk();
    o.chk();
    w::event(w::E_ASGC, type);
    v = o.v;
    return *this;
  }
  MC_MOVECTOR(TNothrow, true)
  MC_MOVEASG(TNothrow, true)
  MC_COMPARE(TNothrow)
};
// large and trivial: nothing of it can be seen but its value and its storage
struct TPlain {
  int v;
  char pad[1000];
  TPlain() noexcept : v(0), pad() {}
  explicit TPlain(int x) noexcept : v(x), pad() {}
  friend bool operator==(const TPlain& a, const TPlain& b) { return a.v == b.v; }
  friend bool operator!=(const TPlain& a, const TPlain& b) { return a.v != b.v; }
  friend bool operator<(const TPlain& a, const TPlain& b) { return a.v < b.v; }
  friend bool operator>(const TPlain& a, const TPlain& b) { return a.v > b.v; }
  friend bool operator<=(const TPlain& a, const TPlain& b) { return a.v <= b.v; }
  friend bool operator>=(const TPlain& a, const TPlain& b) { return a.v >= b.v; }
};

// The members of a class without data: its value, its type and its most
// derived object are kept beside it, by address.
struct Side {
  const void* a;
  int v;
  int tid;
  const void* selfd;
};
inline Side& side(const void* a, bool make = false) {
  static Side t[64];
  static Side none;
  static unsigned epoch;
  Side* gap = &none;
  if (epoch != w::epoch) {
    epoch = w::epoch;
    for (Side& s : t) s.a = nullptr;
  }
  for (Side& s : t) {
    if (s.a == a) return s;
    if (!s.a && gap == &none) gap = &s;
  }
  if (make && gap == &none) w::error(~w::Mask(0), "harness: too many empty objects");
  if (make) *gap = Side{a, 0, 0, nullptr};
  return make ? *gap : none;
}
// empty; everything may throw
struct TEmpty {
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  int& v() const { return side(this).v; }
  void init(w::Ev e, int x) {
    side(this, true).v = x;
    w::born(this, 1, sizeof(TEmpty), alignof(TEmpty), e);
  }
  void chk() const { w::use(this, 1); }
  TEmpty() { pre(w::E_DEF), init(w::E_DEF, 0); }
  explicit TEmpty(int x) { pre(w::E_VAL), init(w::E_VAL, x); }
  TEmpty(int x, int y) { pre(w::E_VAL), init(w::E_VAL, x * 10 + y); }
  explicit TEmpty(const Arg& a) { pre(w::E_VAL), init(w::E_VAL, a.v); }
  TEmpty(std::initializer_list<int> l) { pre(w::E_VAL), init(w::E_VAL, from_list(l) + 100); }
  TEmpty(std::initializer_list<int> l, const Arg& a) {
    pre(w::E_VAL), init(w::E_VAL, from_list(l) * 10 + a.v + 100);
  }
  TEmpty(const TEmpty& o) { o.chk(), pre(w::E_COPY), init(w::E_COPY, o.v()); }
  TEmpty(TEmpty&& o) {
    o.chk(), pre(w::E_MOVE), init(w::E_MOVE, o.v());
    o.v() = w::MOVED;
  }
  TEmpty& operator=(const Arg& a) {
    chk(), pre(w::E_ASGV), w::event(w::E_ASGV, 1);
    v() = a.v;
    return *this;
  }
  TEmpty& operator=(const TEmpty& o) {
    chk(), o.chk(), pre(w::E_ASGC), w::event(w::E_ASGC, 1);
    v() = o.v();
    return *this;
  }
  TEmpty& operator=(TEmpty&& o) {
    chk(), o.chk(), pre(w::E_ASGM), w::event(w::E_ASGM, 1);
    if (this != &o) {
      v() = o.v();
      o.v() = w::MOVED;
    }
    return *this;
  }
  ~TEmpty() {
    chk();
    w::dead(this, 1);
    side(this).a = nullptr;
  }
  static int cmp(const TEmpty& a, const TEmpty& b) {
    a.chk(), b.chk(), w::fallible(w::E_CMP), w::event(w::E_CMP, 1);
    return a.v() - b.v();
  }
  friend bool operator==(const TEmpty& a, const TEmpty& b) { return cmp(a, b) == 0; }
  friend bool operator!=(const TEmpty& a, const TEmpty& b) { return cmp(a, b) != 0; }
  friend bool operator<(const TEmpty& a, const TEmpty& b) { return cmp(a, b) < 0; }
  friend bool operator>(const TEmpty& a, const TEmpty& b) { return cmp(a, b) > 0; }
  friend bool operator<=(const TEmpty& a, const TEmpty& b) { return cmp(a, b) <= 0; }
  friend bool operator>=(const TEmpty& a, const TEmpty& b) { return cmp(a, b) >= 0; }
};
static_assert(std::is_empty<TEmpty>::value, "");

namespace std {
#define MC_HASH(Name)                            \
  template <>                                    \
  struct hash<Name> {                            \
    size_t operator()(const Name& x) const {     \
      x.chk();                                   \
      w::fallible(w::E_HASH);                    \
      w::event(w::E_HASH, Name::type);           \
      return size_t(x.v) * 31 + 7;               \
    }                                            \
  };
MC_HASH(TFull)
MC_HASH(TNoexcept)
MC_HASH(TCopyOnly)
MC_HASH(TMoveOnly)
MC_HASH(TBig)
MC_HASH(TNothrow)
template <>
struct hash<TEmpty> {
  size_t operator()(const TEmpty& x) const {
    x.chk();
    w::fallible(w::E_HASH);
    w::event(w::E_HASH, 1);
    return size_t(x.v()) * 31 + 7;
  }
};
template <>
struct hash<TPlain> {
  size_t operator()(const TPlain& x) const { return hash<int>()(x.v); }
};
}  // namespace std

// ---------------------------------------------------------------------------
// Hierarchies.  Every class logs its own construction and destruction, so the
// base subobjects show as events of the base's type.
//   base type id 1; derived 2..6
#define MC_PCOMMON(Name, TYPE)                                             \
  static constexpr int type = TYPE;                                        \
  void initp(w::Ev e) {                                                    \
    selfd = this;                                                          \
    tid = TYPE;                                                            \
    w::born(static_cast<Name*>(this), TYPE, sizeof(Name), alignof(Name), e); \
  }                                                                        \
  void deadp() {                                                           \
    w::use(this, TYPE);                                                    \
    if (selfd && selfd != this)                                            \
      w::error(w::P(2), "object of type %d was relocated bitwise", TYPE);  \
    w::dead(this, TYPE);                                                   \
    selfd = nullptr;                                                       \
  }

// Root: polymorphic class, destructor NOT virtual.
struct PB {
  int v;
  int tid;
  const PB* self;
  const void* selfd;
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  void init(w::Ev e) {
    self = this;
    selfd = this;
    tid = 1;
    w::born(this, 1, sizeof(PB), alignof(PB), e);
  }
  void chk() const {
    w::use(this, 1);
    if (self != this)
      w::error(w::P(2) | w::P(10), "base subobject was relocated or mis-addressed");
  }
  PB() : v((pre(w::E_DEF), 0)) { init(w::E_DEF); }
  explicit PB(int x) : v((pre(w::E_VAL), x)) { init(w::E_VAL); }
  PB(int x, int y) : v((pre(w::E_VAL), x * 10 + y)) { init(w::E_VAL); }
  PB(std::initializer_list<int> l) : v((pre(w::E_VAL), from_list(l) + 100)) {
    init(w::E_VAL);
  }
  PB(std::initializer_list<int> l, const Arg& a)
      : v((pre(w::E_VAL), from_list(l) * 10 + a.v + 100)) {
    init(w::E_VAL);
  }
  PB(const PB& o) : v((o.chk(), pre(w::E_COPY), o.v)) { init(w::E_COPY); }
  PB(PB&& o) : v((o.chk(), pre(w::E_MOVE), o.v)) {
    o.v = w::MOVED;
    init(w::E_MOVE);
  }
  PB& operator=(const PB& o) {
    chk();
    w::event(w::E_ASGC, 1);
    v = o.v;
    return *this;
  }
  ~PB() {
    chk();
    w::dead(this, 1);
    self = nullptr;
  }
  virtual int vid() const { return 1; }
  virtual const void* most() const { return this; }
};
// Constructors shared by the derived classes (their own events come second,
// after the base's)
#define MC_PCTORS(Name, TYPE, BASE)                                         \
  MC_PCOMMON(Name, TYPE)                                                    \
  Name() : BASE() { initp(w::E_DEF); }                                      \
  explicit Name(int x) : BASE(x) { initp(w::E_VAL); }                       \
  Name(int x, int y) : BASE(x, y) { initp(w::E_VAL); }                      \
  Name(std::initializer_list<int> l) : BASE(l) { initp(w::E_VAL); }         \
  Name(std::initializer_list<int> l, const Arg& a) : BASE(l, a) {           \
    initp(w::E_VAL);                                                        \
  }                                                                         \
  ~Name() { deadp(); }
#define MC_PCOPY(Name, BASE)                                                \
  Name(const Name& o) : BASE(static_cast<const BASE&>(o)) {                 \
    w::use(std::addressof(o), type);                                        \
    initp(w::E_COPY);                                                       \
  }
#define MC_PMOVE(Name, BASE)                                                \
  Name(Name&& o) : BASE(static_cast<BASE&&>(o)) {                           \
    w::use(std::addressof(o), type);                                        \
    initp(w::E_MOVE);                                                       \
  }
#define MC_PVIRT(TYPE)                            \
  int vid() const override { return TYPE; }       \
  const void* most() const override { return this; }

struct PD1 : PB {  // larger than the base
  char extra[40];
  MC_PCTORS(PD1, 2, PB)
  MC_PCOPY(PD1, PB)
  MC_PMOVE(PD1, PB)
  MC_PVIRT(2)
};
struct Other {
  long filler = 0x5151;
  virtual void g() {}
};
struct PD2 : Other, PB {  // base not at offset zero; copy only
  MC_PCTORS(PD2, 3, PB)
  MC_PCOPY(PD2, PB)
  MC_PVIRT(3)
};
struct PD3 : virtual PB {  // virtual base
  int more = 9;
  MC_PCTORS(PD3, 4, PB)
  MC_PCOPY(PD3, PB)
  MC_PMOVE(PD3, PB)
  MC_PVIRT(4)
};
struct alignas(128) PD4 final : PB {  // final, large, over-aligned, no & or new
  char extra[1500];
  PD4* operator&() = delete;
  const PD4* operator&() const = delete;
  static void* operator new(std::size_t) = delete;
  static void* operator new(std::size_t, void*) = delete;
  static void operator delete(void*) = delete;
  MC_PCTORS(PD4, 5, PB)
  MC_PCOPY(PD4, PB)
  MC_PMOVE(PD4, PB)
  MC_PVIRT(5)
};
struct PD5 : PD1 {  // grandchild, no members of its own
  MC_PCTORS(PD5, 6, PD1)
  MC_PCOPY(PD5, PD1)
  MC_PMOVE(PD5, PD1)
  MC_PVIRT(6)
};
struct PD6 : PB {  // the base's layout
  MC_PCTORS(PD6, 7, PB)
  MC_PCOPY(PD6, PB)
  MC_PMOVE(PD6, PB)
  MC_PVIRT(7)
};
static_assert(sizeof(PD6) == sizeof(PB), "");

// Abstract base with a virtual destructor.
struct QB {
  int v;
  int tid;
  const QB* self;
  const void* selfd;
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  void init(w::Ev e) {
    self = this;
    selfd = this;
    tid = 1;
    w::born(this, 1, sizeof(QB), alignof(QB), e);
  }
  void chk() const {
    w::use(this, 1);
    if (self != this)
      w::error(w::P(2) | w::P(10), "base subobject was relocated or mis-addressed");
  }
  QB() : v((pre(w::E_DEF), 0)) { init(w::E_DEF); }
  explicit QB(int x) : v((pre(w::E_VAL), x)) { init(w::E_VAL); }
  QB(int x, int y) : v((pre(w::E_VAL), x * 10 + y)) { init(w::E_VAL); }
  QB(std::initializer_list<int> l) : v((pre(w::E_VAL), from_list(l) + 100)) {
    init(w::E_VAL);
  }
  QB(std::initializer_list<int> l, const Arg& a)
      : v((pre(w::E_VAL), from_list(l) * 10 + a.v + 100)) {
    init(w::E_VAL);
  }
  QB(const QB& o) : v((o.chk(), pre(w::E_COPY), o.v)) { init(w::E_COPY); }
  QB(QB&& o) noexcept : v((o.chk(), o.v)) {
    o.v = w::MOVED;
    init(w::E_MOVE);
  }
  virtual ~QB() {
    chk();
    w::dead(this, 1);
    self = nullptr;
  }
  virtual int vid() const = 0;
  virtual const void* most() const = 0;
};
struct QD1 : QB {
  char extra[24];
  MC_PCTORS(QD1, 2, QB)
  MC_PCOPY(QD1, QB)
  QD1(QD1&& o) noexcept : QB(static_cast<QB&&>(o)) {
    w::use(std::addressof(o), type);
    initp(w::E_MOVE);
  }
  MC_PVIRT(2)
};
struct QD2 : Other, QB {
  MC_PCTORS(QD2, 3, QB)
  MC_PCOPY(QD2, QB)
  MC_PMOVE(QD2, QB)
  MC_PVIRT(3)
};

// Abstract base that can only be used as one: nothing of it is public but its
// functions, and its destructor is not virtual.
struct IB {
  int v;
  int tid;
  const IB* self;
  const void* selfd;
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  void init(w::Ev e) {
    self = this;
    selfd = this;
    tid = 1;
    w::born(this, 1, sizeof(IB), alignof(IB), e);
  }
  void chk() const {
    w::use(this, 1);
    if (self != this)
      w::error(w::P(2) | w::P(10), "base subobject was relocated or mis-addressed");
  }
  virtual int vid() const = 0;
  virtual const void* most() const = 0;

 protected:
  IB() : v((pre(w::E_DEF), 0)) { init(w::E_DEF); }
  explicit IB(int x) : v((pre(w::E_VAL), x)) { init(w::E_VAL); }
  IB(int x, int y) : v((pre(w::E_VAL), x * 10 + y)) { init(w::E_VAL); }
  IB(std::initializer_list<int> l) : v((pre(w::E_VAL), from_list(l) + 100)) {
    init(w::E_VAL);
  }
  IB(std::initializer_list<int> l, const Arg& a)
      : v((pre(w::E_VAL), from_list(l) * 10 + a.v + 100)) {
    init(w::E_VAL);
  }
  IB(const IB& o) : v((o.chk(), pre(w::E_COPY), o.v)) { init(w::E_COPY); }
  IB(IB&& o) noexcept : v((o.chk(), o.v)) {
    o.v = w::MOVED;
    init(w::E_MOVE);
  }
  ~IB() {
    chk();
    w::dead(this, 1);
    self = nullptr;
  }
};
struct ID1 : IB {
  char extra[24];
  MC_PCTORS(ID1, 2, IB)
  MC_PCOPY(ID1, IB)
  ID1(ID1&& o) noexcept : IB(static_cast<IB&&>(o)) {
    w::use(std::addressof(o), type);
    initp(w::E_MOVE);
  }
  MC_PVIRT(2)
};
struct ID2 : Other, IB {
  MC_PCTORS(ID2, 3, IB)
  MC_PCOPY(ID2, IB)
  MC_PMOVE(ID2, IB)
  MC_PVIRT(3)
};

// No virtual function anywhere.
struct NB {
  int v;
  int tid;
  const NB* self;
  const void* selfd;
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  void init(w::Ev e) {
    self = this;
    selfd = this;
    tid = 1;
    w::born(this, 1, sizeof(NB), alignof(NB), e);
  }
  void chk() const {
    w::use(this, 1);
    if (self != this)
      w::error(w::P(2) | w::P(10), "base subobject was relocated or mis-addressed");
  }
  NB() : v((pre(w::E_DEF), 0)) { init(w::E_DEF); }
  explicit NB(int x) : v((pre(w::E_VAL), x)) { init(w::E_VAL); }
  NB(int x, int y) : v((pre(w::E_VAL), x * 10 + y)) { init(w::E_VAL); }
  NB(std::initializer_list<int> l) : v((pre(w::E_VAL), from_list(l) + 100)) {
    init(w::E_VAL);
  }
  NB(std::initializer_list<int> l, const Arg& a)
      : v((pre(w::E_VAL), from_list(l) * 10 + a.v + 100)) {
    init(w::E_VAL);
  }
  NB(const NB& o) : v((o.chk(), pre(w::E_COPY), o.v)) { init(w::E_COPY); }
  NB(NB&& o) : v((o.chk(), pre(w::E_MOVE), o.v)) {
    o.v = w::MOVED;
    init(w::E_MOVE);
  }
  ~NB() {
    chk();
    w::dead(this, 1);
    self = nullptr;
  }
};
struct ND1 : NB {
  char extra[24];
  MC_PCTORS(ND1, 2, NB)
  MC_PCOPY(ND1, NB)
  MC_PMOVE(ND1, NB)
};
struct ND2 : Other, NB {
  MC_PCTORS(ND2, 3, NB)
  MC_PCOPY(ND2, NB)
  MC_PMOVE(ND2, NB)
};
struct ND3 : NB {  // the base's layout
  MC_PCTORS(ND3, 4, NB)
  MC_PCOPY(ND3, NB)
  MC_PMOVE(ND3, NB)
};
static_assert(sizeof(ND3) == sizeof(NB), "");

// No data anywhere (see Side).
struct EB {
  static constexpr int type = 1;
  static int pre(w::Ev e) {
    w::fallible(e);
    return 0;
  }
  int& v() const { return side(this).v; }
  void init(w::Ev e, int x) {
    Side& s = side(this, true);
    s.v = x;
    s.tid = 1;
    s.selfd = this;
    w::born(this, 1, sizeof(EB), alignof(EB), e);
  }
  void initd(w::Ev, int t, const void* self) {
    side(this).tid = t;
    side(this).selfd = self;
  }
  void chk() const { w::use(this, 1); }
  EB() { pre(w::E_DEF), init(w::E_DEF, 0); }
  explicit EB(int x) { pre(w::E_VAL), init(w::E_VAL, x); }
  EB(int x, int y) { pre(w::E_VAL), init(w::E_VAL, x * 10 + y); }
  EB(std::initializer_list<int> l) { pre(w::E_VAL), init(w::E_VAL, from_list(l) + 100); }
  EB(std::initializer_list<int> l, const Arg& a) {
    pre(w::E_VAL), init(w::E_VAL, from_list(l) * 10 + a.v + 100);
  }
  EB(const EB& o) { o.chk(), pre(w::E_COPY), init(w::E_COPY, o.v()); }
  EB(EB&& o) {
    o.chk(), pre(w::E_MOVE), init(w::E_MOVE, o.v());
    o.v() = w::MOVED;
  }
  ~EB() {
    chk();
    w::dead(this, 1);
    side(this).a = nullptr;
  }
};
#define MC_ECLASS(Name, TYPE)                                                 \
  static constexpr int type = TYPE;                                           \
  void initp(w::Ev e) {                                                       \
    initd(e, TYPE, this);                                                     \
    w::born(this, TYPE, sizeof(Name), alignof(Name), e);                      \
  }                                                                           \
  Name() { initp(w::E_DEF); }                                                 \
  explicit Name(int x) : EB(x) { initp(w::E_VAL); }                           \
  Name(int x, int y) : EB(x, y) { initp(w::E_VAL); }                          \
  Name(std::initializer_list<int> l) : EB(l) { initp(w::E_VAL); }             \
  Name(std::initializer_list<int> l, const Arg& a) : EB(l, a) {               \
    initp(w::E_VAL);                                                          \
  }                                                                           \
  Name(const Name& o) : EB(static_cast<const EB&>(o)) {                       \
    w::use(&o, TYPE);                                                         \
    initp(w::E_COPY);                                                         \
  }                                                                           \
  Name(Name&& o) : EB(static_cast<EB&&>(o)) {                                 \
    w::use(&o, TYPE);                                                         \
    initp(w::E_MOVE);                                                         \
  }                                                                           \
  ~Name() {                                                                   \
    w::use(this, TYPE);                                                       \
    w::dead(this, TYPE);                                                      \
  }
struct ED1 : EB {  // empty too
  MC_ECLASS(ED1, 2)
};
struct ED2 : Other, EB {  // not empty, base not at offset zero
  MC_ECLASS(ED2, 3)
};
static_assert(std::is_empty<EB>::value && std::is_empty<ED1>::value, "");

// Trivial classes: only values, dynamic types and storage can be seen.
struct SB {
  int v;
  int tid;
  static constexpr int type = 1;
  SB() noexcept : v(0), tid(1) {}
  explicit SB(int x) noexcept : v(x), tid(1) {}
  SB(int x, int y) noexcept : v(x * 10 + y), tid(1) {}
  SB(std::initializer_list<int> l) noexcept : v(from_list(l) + 100), tid(1) {}
  SB(std::initializer_list<int> l, const Arg& a) noexcept
      : v(from_list(l) * 10 + a.v + 100), tid(1) {}
  void chk() const {}
};
#define MC_SCTORS(Name, TYPE)                                                \
  static constexpr int type = TYPE;                                          \
  Name() noexcept { tid = TYPE; }                                            \
  explicit Name(int x) noexcept : SB(x) { tid = TYPE; }                      \
  Name(int x, int y) noexcept : SB(x, y) { tid = TYPE; }                     \
  Name(std::initializer_list<int> l) noexcept : SB(l) { tid = TYPE; }        \
  Name(std::initializer_list<int> l, const Arg& a) noexcept : SB(l, a) {     \
    tid = TYPE;                                                              \
  }
struct SD1 : SB {  // large
  char extra[1000] = {};
  MC_SCTORS(SD1, 2)
};
struct SFiller {
  long filler[2] = {0x5151, 0x5252};
};
struct SD2 : SFiller, SB {  // base not at offset zero
  MC_SCTORS(SD2, 3)
};
static_assert(std::is_trivially_copyable<SD2>::value &&
                  std::is_trivially_destructible<SD1>::value,
              "");
// The value, dynamic type and most derived object, wherever they are kept.
template <class T>
std::enable_if_t<!std::is_base_of<EB, T>::value, int&> val_of(T& t) {
  return t.v;
}
inline int& val_of(const EB& t) { return t.v(); }
template <class T>
std::enable_if_t<!std::is_base_of<EB, T>::value, const int&> cval_of(const T& t) {
  return t.v;
}
inline const int& cval_of(const EB& t) { return t.v(); }
template <class T>
int tid_of(const T& t) {
  return t.tid;
}
inline int tid_of(const EB& t) { return side(&t).tid; }
template <class T>
const void* most_self(const T& t) {
  return t.selfd;
}
inline const void* most_self(const EB& t) { return side(&t).selfd; }
inline const void* most_self(const SB& t) {
  return t.tid == 3 ? static_cast<const void*>(static_cast<const SD2*>(&t)) : &t;
}

template <class T>
int virt_id(const T& t, decltype(t.vid())*) {
  return t.vid();
}
template <class T>
int virt_id(const T& t, ...) {
  return tid_of(t);
}
template <class T>
const void* most_derived(const T& t, decltype(t.most())*) {
  return t.most();
}
template <class T>
const void* most_derived(const T& t, ...) {
  return most_self(t);
}

// ---------------------------------------------------------------------------
// Allocators.  Instances are numbered; 0 and 1 compare equal, 2 and 3 are
// different.  3 is what select_on_container_copy_construction gives.
enum : unsigned {
  A_CCA = 1,       // propagate on copy assignment
  A_CMA = 2,       // propagate on move assignment
  A_CS = 4,        // propagate on swap
  A_AE = 8,        // always equal
  A_SOC3 = 16,     // select_on_... returns instance 3
  A_SOCEQ = 32,    // select_on_... returns the equal other instance
  A_CONS = 64,     // has construct() and destroy()
  A_NODEF = 128,   // not default constructible
  A_EMPTY = 256,   // stateless (one instance, number 0)
  A_FINAL = 512,   // final class
  A_NOASSIGN = 1024,  // cannot be assigned
  A_ADLSWAP = 2048,   // swappable through ADL only
  A_FANCY = 4096      // pointer is a class type
};
inline int al_class(int id) { return id <= 1 ? 0 : id; }

template <unsigned F, bool Empty>
struct AlState {
  int id_;
  int id() const { return id_; }
  void set(int i) { id_ = i; }
};
template <unsigned F>
struct AlState<F, true> {
  int id() const { return 0; }
  void set(int) {}
};

// Fancy pointer: a plain pointer in a class.
template <class T>
struct Fancy;
template <class T>
struct Fancy {
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = Fancy;
  using reference = std::add_lvalue_reference_t<T>;
  using iterator_category = std::random_access_iterator_tag;
  T* p;
  constexpr Fancy() noexcept : p(nullptr) {}
  constexpr Fancy(std::nullptr_t) noexcept : p(nullptr) {}
  explicit constexpr Fancy(T* q) noexcept : p(q) {}
  template <class U, class = std::enable_if_t<std::is_convertible<U*, T*>::value>>
  constexpr Fancy(const Fancy<U>& o) noexcept : p(o.p) {}
  reference operator*() const { return *p; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p != nullptr; }
  template <class U>
  static Fancy pointer_to(U& r) {
    return Fancy(std::addressof(r));
  }
  Fancy& operator++() { ++p; return *this; }
  Fancy operator++(int) { Fancy t(*this); ++p; return t; }
  Fancy& operator--() { --p; return *this; }
  Fancy operator+(difference_type n) const { return Fancy(p + n); }
  Fancy operator-(difference_type n) const { return Fancy(p - n); }
  difference_type operator-(const Fancy& o) const { return p - o.p; }
  Fancy& operator+=(difference_type n) { p += n; return *this; }
  Fancy& operator-=(difference_type n) { p -= n; return *this; }
  reference operator[](difference_type n) const { return p[n]; }
  friend bool operator==(const Fancy& a, const Fancy& b) { return a.p == b.p; }
  friend bool operator!=(const Fancy& a, const Fancy& b) { return a.p != b.p; }
  friend bool operator<(const Fancy& a, const Fancy& b) { return a.p < b.p; }
  friend bool operator>(const Fancy& a, const Fancy& b) { return a.p > b.p; }
  friend bool operator<=(const Fancy& a, const Fancy& b) { return a.p <= b.p; }
  friend bool operator>=(const Fancy& a, const Fancy& b) { return a.p >= b.p; }
};
template <class T, bool F>
struct PtrOf {
  using type = T*;
  static T* raw(T* p) { return p; }
};
template <class T>
struct PtrOf<T, true> {
  using type = Fancy<T>;
  static T* raw(const Fancy<T>& p) { return p.p; }
};

template <class Derived, class T, unsigned F>
struct AlCons {};  // without construct()/destroy()
template <class Derived, class T, unsigned F>
struct AlConsYes {
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    w::al_call(true, static_cast<Derived*>(this)->id(), p);
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
  template <class U>
  void destroy(U* p) {
    w::al_call(false, static_cast<Derived*>(this)->id(), p);
    p->~U();
  }
};

// select_on_container_copy_construction present only when asked for
template <class D, unsigned Mode>
struct AlSoc {};
template <class D>
struct AlSoc<D, A_SOC3> {
  D select_on_container_copy_construction() const { return D(3, 0); }
};
template <class D>
struct AlSoc<D, A_SOCEQ> {
  D select_on_container_copy_construction() const {
    int i = static_cast<const D*>(this)->id();
    return D(i <= 1 ? 1 - i : i, 0);
  }
};
template <class Self, class T, unsigned F>
struct AlBody : AlState<F, (F & A_EMPTY) != 0>,
                std::conditional_t<(F & A_CONS) != 0, AlConsYes<Self, T, F>,
                                   AlCons<Self, T, F>>,
                AlSoc<Self, F & (A_SOC3 | A_SOCEQ)> {
  using value_type = T;
  using propagate_on_container_copy_assignment =
      std::integral_constant<bool, (F & A_CCA) != 0>;
  using propagate_on_container_move_assignment =
      std::integral_constant<bool, (F & A_CMA) != 0>;
  using propagate_on_container_swap =
      std::integral_constant<bool, (F & A_CS) != 0>;
  using is_always_equal = std::integral_constant<bool, (F & A_AE) != 0>;
  using pointer = typename PtrOf<T, (F & A_FANCY) != 0>::type;
  static int cls(int id) { return (F & A_AE) ? 0 : al_class(id); }
  pointer allocate(std::size_t n) {
    return pointer(static_cast<T*>(w::arena_alloc(this->id(), cls(this->id()), n,
                                                  n * sizeof(T), alignof(T),
                                                  &w::tag_of<T>::c)));
  }
  void deallocate(pointer p, std::size_t n) noexcept {
    w::arena_dealloc(this->id(), cls(this->id()),
                     PtrOf<T, (F & A_FANCY) != 0>::raw(p), n, n * sizeof(T),
                     &w::tag_of<T>::c);
  }
};

template <class T, unsigned F, class = void>
struct Al : AlBody<Al<T, F>, T, F> {
  template <class U>
  struct rebind {
    using other = Al<U, F>;
  };
  template <bool D = (F & A_NODEF) == 0, class = std::enable_if_t<D>>
  Al() noexcept {
    this->set(0);
  }
  Al(int id, int) noexcept { this->set(id); }  // harness only
  template <class U>
  explicit Al(const Al<U, F>& o) noexcept {
    this->set(o.id());
  }
  template <class U>
  friend bool operator==(const Al& a, const Al<U, F>& b) noexcept {
    return Al::cls(a.id()) == Al::cls(b.id());
  }
  template <class U>
  friend bool operator!=(const Al& a, const Al<U, F>& b) noexcept {
    return !(Al::cls(a.id()) == Al::cls(b.id()));
  }
};
template <class T, unsigned F>
struct Al<T, F, std::enable_if_t<(F & A_FINAL) != 0>> final
    : AlBody<Al<T, F>, T, F> {
  template <class U>
  struct rebind {
    using other = Al<U, F>;
  };
  template <bool D = (F & A_NODEF) == 0, class = std::enable_if_t<D>>
  Al() noexcept {
    this->set(0);
  }
  Al(int id, int) noexcept { this->set(id); }
  template <class U>
  explicit Al(const Al<U, F>& o) noexcept {
    this->set(o.id());
  }
  template <class U>
  friend bool operator==(const Al& a, const Al<U, F>& b) noexcept {
    return Al::cls(a.id()) == Al::cls(b.id());
  }
  template <class U>
  friend bool operator!=(const Al& a, const Al<U, F>& b) noexcept {
    return !(Al::cls(a.id()) == Al::cls(b.id()));
  }
};
template <class T, unsigned F>
struct Al<T, F, std::enable_if_t<(F & (A_NOASSIGN | A_ADLSWAP)) != 0>>
    : AlBody<Al<T, F>, T, F> {
  template <class U>
  struct rebind {
    using other = Al<U, F>;
  };
  template <bool D = (F & A_NODEF) == 0, class = std::enable_if_t<D>>
  Al() noexcept {
    this->set(0);
  }
  Al(int id, int) noexcept { this->set(id); }
  Al(const Al&) noexcept = default;
  Al& operator=(const Al&) = delete;
  template <class U>
  explicit Al(const Al<U, F>& o) noexcept {
    this->set(o.id());
  }
  template <class U>
  friend bool operator==(const Al& a, const Al<U, F>& b) noexcept {
    return Al::cls(a.id()) == Al::cls(b.id());
  }
  template <class U>
  friend bool operator!=(const Al& a, const Al<U, F>& b) noexcept {
    return !(Al::cls(a.id()) == Al::cls(b.id()));
  }
  template <bool S = (F & A_ADLSWAP) != 0, class = std::enable_if_t<S>>
  friend void swap(Al& a, Al& b) noexcept {
    int t = a.id();
    a.set(b.id());
    b.set(t);
  }
};

template <class A>
struct AlMake {  // generic: our numbered allocators
  static A make(int id) { return A(id, 0); }
  static int id(const A& a) { return a.id(); }
};
template <class T>
struct AlMake<std::allocator<T>> {
  static std::allocator<T> make(int) { return {}; }
  static int id(const std::allocator<T>&) { return 0; }
};

#endif
