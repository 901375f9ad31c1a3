// Binds the explorer to the library: one adapter per configuration.  The
// including file has included the header under test and defined MC_CXX20.
#ifndef MC_ADAPT_HPP
#define MC_ADAPT_HPP
#include <new>

#include "engine.hpp"
#include "types.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#endif

template <class T>
struct TInfo {  // instrumented types
  static constexpr bool tracked = true;
  static constexpr bool listable = true;
  static int get(const T& t) { return t.v; }
  static void set(T& t, int v) { t.v = v; }
  static int type(const T&) { return 1; }
  static T make(int v) { return T(v); }
};
template <>
struct TInfo<int> {
  static constexpr bool tracked = false;
  static constexpr bool listable = false;
  static int get(const int& t) { return t; }
  static void set(int& t, int v) { t = v; }
  static int type(const int&) { return 1; }
  static int make(int v) { return v; }
};
template <>
struct TInfo<TEmpty> {
  static constexpr bool tracked = true;
  static constexpr bool listable = true;
  static int get(const TEmpty& t) { return t.v(); }
  static void set(TEmpty& t, int v) { t.v() = v; }
  static int type(const TEmpty&) { return 1; }
  static TEmpty make(int v) { return TEmpty(v); }
};
template <>
struct TInfo<SB> {
  static constexpr bool tracked = false;
};
template <>
struct TInfo<TPlain> {
  static constexpr bool tracked = false;
  static constexpr bool listable = false;
  static int get(const TPlain& t) { return t.v; }
  static void set(TPlain& t, int v) { t.v = v; }
  static int type(const TPlain&) { return 1; }
  static TPlain make(int v) { return TPlain(v); }
};

template <class H>
struct Slots {
  alignas(alignof(H)) unsigned char buf[MAXSLOT][sizeof(H)];
  bool up[MAXSLOT];
  Slots() {
    for (int i = 0; i < MAXSLOT; ++i) up[i] = false;
  }
  void* raw(int i) {
#ifdef MC_ASAN
    __asan_unpoison_memory_region(buf[i], sizeof(H));
#endif
    memset(buf[i], 0xA5, sizeof(H));
    return buf[i];
  }
  H& h(int i) { return *reinterpret_cast<H*>(buf[i]); }
};

// run f only if Cond; the body is a generic lambda and is not instantiated
// otherwise
template <class F, class... A>
void run_if(std::true_type, F&& f, A&&... a) {
  f(std::forward<A>(a)...);
}
template <class F, class... A>
void run_if(std::false_type, F&&, A&&...) {
  w::error(~w::Mask(0), "harness: unavailable operation executed");
}
template <bool B>
using B_ = std::integral_constant<bool, B>;

// One window around the call; the operation's own exceptions pass through.
#define MC_DO(...)     \
  do {                 \
    w::Window win_;    \
    __VA_ARGS__;       \
  } while (0)

template <class H>
struct HandleAd : Adapter {
  using T = typename H::value_type;
  using A = typename H::allocator_type;
  using AM = AlMake<A>;
  Slots<H> sl;
  static constexpr bool has_def_al = std::is_default_constructible<A>::value;

  H& h(int i) { return sl.h(i); }
  const H& ch(int i) { return sl.h(i); }

  const unsigned char* bytes(int i, std::size_t& n) override {
    n = sizeof(H);
    return sl.buf[i];
  }

  void base_cfg() {
    using AT = std::allocator_traits<A>;
    c.cca = AT::propagate_on_container_copy_assignment::value;
    c.cma = AT::propagate_on_container_move_assignment::value;
    c.cs = AT::propagate_on_container_swap::value;
    c.ae = AT::is_always_equal::value;
  }

  template <class F>
  void make(int d, F f) {
    void* p = sl.raw(d);
    try {
      f(p);
      sl.up[d] = true;
    } catch (...) {
      gone(d);
      throw;
    }
  }
  void gone(int d) {
    sl.up[d] = false;
    memset(sl.buf[d], 0x5A, sizeof(H));
#ifdef MC_ASAN
    __asan_poison_memory_region(sl.buf[d], sizeof(H));
#endif
  }

  // copyability of the handle is only asked when the value type allows it
  template <bool Copy>
  bool common(const Op& o) {
    r.noexc = -1;
    r.argv = -1;
    r.ret_ok = true;
    r.bits = 0;
    switch (o.code) {
      case C_COPY:
        run_if(B_<Copy>{}, [&](auto& s) {
          using HH = std::decay_t<decltype(s)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH(static_cast<const HH&>(s))); });
        }, this->h(o.s));
        return true;
      case C_COPY_NC:
        run_if(B_<Copy>{}, [&](auto& s) {
          using HH = std::decay_t<decltype(s)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH(s)); });
        }, this->h(o.s));
        return true;
      case C_CMOVE:
        run_if(B_<Copy>{}, [&](auto& s) {
          using HH = std::decay_t<decltype(s)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH(static_cast<const HH&&>(s))); });
        }, this->h(o.s));
        return true;
      case C_COPY_A:
        run_if(B_<Copy>{}, [&](auto& s) {
          using HH = std::decay_t<decltype(s)>;
          A a = AM::make(o.a);
          this->make(o.d, [&](void* p) {
            MC_DO(::new (p) HH(std::allocator_arg, a, static_cast<const HH&>(s)));
          });
        }, this->h(o.s));
        return true;
      case C_CMOVE_A:
        run_if(B_<Copy>{}, [&](auto& s) {
          using HH = std::decay_t<decltype(s)>;
          A a = AM::make(o.a);
          this->make(o.d, [&](void* p) {
            MC_DO(::new (p) HH(std::allocator_arg, a, static_cast<const HH&&>(s)));
          });
        }, this->h(o.s));
        return true;
      case C_MOVE:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::move(this->h(o.s)))); });
        return true;
      case C_MOVE_A: {
        A a = AM::make(o.a);
        this->make(o.d, [&](void* p) {
          MC_DO(::new (p) H(std::allocator_arg, a, std::move(this->h(o.s))));
        });
        return true;
      }
      case C_DTOR:
        MC_DO(this->h(o.d).~H());
        gone(o.d);
        return true;
      case C_ASG_C:
        run_if(B_<Copy>{}, [&](auto& d) {
          MC_DO(this->r.ret_ok = std::addressof(d = this->ch(o.s)) == std::addressof(d));
        }, this->h(o.d));
        return true;
      case C_ASG_NC:
        run_if(B_<Copy>{}, [&](auto& d) {
          MC_DO(this->r.ret_ok = std::addressof(d = this->h(o.s)) == std::addressof(d));
        }, this->h(o.d));
        return true;
      case C_ASG_CM:
        run_if(B_<Copy>{}, [&](auto& d) {
          MC_DO(this->r.ret_ok = std::addressof(d = std::move(this->ch(o.s))) == std::addressof(d));
        }, this->h(o.d));
        return true;
      case C_ASG_M: {
        H& d = this->h(o.d);
        MC_DO(this->r.ret_ok = std::addressof(d = std::move(this->h(o.s))) == std::addressof(d));
        return true;
      }
      case C_SWAP_M:
        MC_DO(this->h(o.d).swap(this->h(o.s)));
        return true;
      case C_SWAP_F: {
        using std::swap;
        MC_DO(swap(this->h(o.d), this->h(o.s)));
        return true;
      }
      case C_DEF_A:
        return false;
    }
    return false;
  }

  int noexc(int item) const override {
    switch (item) {
      case N_DEREF_CL: return noexcept(*std::declval<const H&>());
      case N_DEREF_L: return noexcept(*std::declval<H&>());
      case N_DEREF_CR: return noexcept(*std::declval<const H&&>());
      case N_DEREF_R: return noexcept(*std::declval<H&&>());
      case N_ARROW_C: return noexcept(std::declval<const H&>().operator->());
      case N_ARROW: return noexcept(std::declval<H&>().operator->());
      case N_VALUELESS: return noexcept(std::declval<const H&>().valueless_after_move());
      case N_GETAL: return noexcept(std::declval<const H&>().get_allocator());
      case N_DTOR: return noexcept(std::declval<H&>().~H());
      case N_MOVECTOR: return std::is_nothrow_move_constructible<H>::value;
      case N_MOVECTOR_A:
        return std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, H&&>::value;
      case N_ASG_M: return std::is_nothrow_move_assignable<H>::value;
      case N_SWAP_M: return noexcept(std::declval<H&>().swap(std::declval<H&>()));
      case N_SWAP_F: {
        using std::swap;
        return noexcept(swap(std::declval<H&>(), std::declval<H&>()));
      }
    }
    return -1;
  }
};

// The address of what a handle gives, by every accessor; all must agree.
template <class T>
const void* same_addr(const void* a, const T& t, const char* how) {
  const void* b = std::addressof(t);
  if (a && a != b) w::error(w::P(13), "%s gives another object than *", how);
  return b;
}

template <class H, class T>
const void* accessors(H& h) {
  const H& c = h;
  const void* a = same_addr<T>(nullptr, *h, "*");
  same_addr<T>(a, *c, "const *");
  same_addr<T>(a, *h.operator->(), "->");
  same_addr<T>(a, *c.operator->(), "const ->");
  same_addr<T>(a, *std::move(h), "rvalue *");
  same_addr<T>(a, *std::move(c), "const rvalue *");
  return a;
}

#endif
