#ifndef MC_ADAPT_INDIRECT_HPP
#define MC_ADAPT_INDIRECT_HPP
#include "adapt.hpp"

#ifdef MC_CXX20
using InPlace = std::in_place_t;
#else
using InPlace = xyz::in_place_t;
#endif

template <class T, class A>
struct IndirectAd final : HandleAd<xyz::indirect<T, A>> {
  using H = xyz::indirect<T, A>;
  using Base = HandleAd<H>;
  using TI = TInfo<T>;
  using Base::c;
  using Base::ch;
  using Base::h;
  using Base::make;
  using Base::r;
  using AM = AlMake<A>;
  static constexpr bool Copy = std::is_copy_constructible<T>::value &&
                               std::is_copy_assignable<T>::value;
  static constexpr bool Def = std::is_default_constructible<T>::value;
  static constexpr bool DefA = std::is_default_constructible<A>::value;

  IndirectAd(const char* name, const char* cname, int nal, bool construct) {
    this->base_cfg();
    c.name = name;
    c.cname = cname;
    c.nal = nal;
    c.construct = construct;
    c.poly = false;
#ifdef MC_CXX20
    c.cxx20 = true;
#endif
    c.def_al = DefA ? 0 : -1;
    c.tracked = TI::tracked;
    c.has_default = Def;
    c.copyable = Copy;
    c.has_move = TI::tracked && !std::is_same<T, TCopyOnly>::value;
    c.tmove[1] = c.has_move;
    c.nt_move = std::is_nothrow_move_constructible<T>::value;
  }
  IndirectAd* soc(int s) {
    c.soc = s;
    return this;
  }
  IndirectAd* def(int d) {
    c.def_al = d;
    return this;
  }

  bool can(int code, int t) const override {
    if (t != 1) return false;
    switch (code) {
      case C_DEF: return Def && DefA;
      case C_DEF_A: return Def;
      case C_VAL_L: case C_VAL_CL: return Copy && DefA;
      case C_VAL_R: return DefA;
      case C_VAL_L_A: case C_VAL_CL_A: return Copy;
      case C_VAL_R_A: return true;
      case C_INP: return DefA;
      case C_INP_A: return true;
      case C_INPT: return DefA;
      case C_INPT_A: return true;
      case C_INP2: case C_LIST: case C_LIST2: return TI::listable && DefA;
      case C_INP2_A: case C_LIST_A: case C_LIST2_A: return TI::listable;
      case C_COPY: case C_COPY_NC: case C_CMOVE: case C_COPY_A: case C_CMOVE_A:
      case C_ASG_C: case C_ASG_NC: case C_ASG_CM: return Copy;
      case C_ASG_VL: case C_ASG_VCL: case C_OWN_L: case C_OWN_CL: return Copy;
      case C_ASG_ARG: return TI::tracked;
    }
    return true;
  }

  void exec(const Op& o) override {
    if (this->template common<Copy>(o)) return;
    A a = AM::make(o.code == C_ASG_VL ? 0 : o.a);
    switch (o.code) {
      case C_DEF:
        run_if(B_<Def && DefA>{}, [&](auto* hp) {
          using HH = std::remove_pointer_t<decltype(hp)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH()); });
        }, static_cast<H*>(nullptr));
        break;
      case C_DEF_A:
        run_if(B_<Def>{}, [&](auto* hp) {
          using HH = std::remove_pointer_t<decltype(hp)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH(std::allocator_arg, a)); });
        }, static_cast<H*>(nullptr));
        break;
      case C_VAL_L: case C_VAL_L_A: case C_VAL_CL: case C_VAL_CL_A:
        run_if(B_<Copy>{}, [&](auto* hp) {
          using HH = std::remove_pointer_t<decltype(hp)>;
          T arg = TI::make(o.v);
          const T& carg = arg;
          R rec{this, std::addressof(arg)};
          this->make(o.d, [&](void* p) {
            switch (o.code) {
              case C_VAL_L:
                run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) HH(x)); }, arg);
                break;
              case C_VAL_CL:
                run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) HH(x)); }, carg);
                break;
              case C_VAL_L_A: MC_DO(::new (p) HH(std::allocator_arg, a, arg)); break;
              case C_VAL_CL_A: MC_DO(::new (p) HH(std::allocator_arg, a, carg)); break;
            }
          });
        }, static_cast<H*>(nullptr));
        break;
      case C_VAL_R: case C_VAL_R_A: {
        T arg = TI::make(o.v);
        R rec{this, std::addressof(arg)};
        this->make(o.d, [&](void* p) {
          if (o.code == C_VAL_R)
            run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(std::move(x))); }, arg);
          else
            MC_DO(::new (p) H(std::allocator_arg, a, std::move(arg)));
        });
        break;
      }
      case C_INP: {
        int v = o.v;
        this->make(o.d, [&](void* p) {
          run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(InPlace{}, x)); }, v);
        });
        break;
      }
      case C_INP_A: {
        int v = o.v;
        this->make(o.d, [&](void* p) {
          MC_DO(::new (p) H(std::allocator_arg, a, InPlace{}, v));
        });
        break;
      }
      case C_INPT: case C_INPT_A: {  // in place from a T rvalue
        T arg = TI::make(o.v);
        R rec{this, std::addressof(arg)};
        this->make(o.d, [&](void* p) {
          if (o.code == C_INPT)
            run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(InPlace{}, std::move(x))); },
                   arg);
          else
            MC_DO(::new (p) H(std::allocator_arg, a, InPlace{}, std::move(arg)));
        });
        break;
      }
      case C_INP2: case C_INP2_A: case C_LIST: case C_LIST_A: case C_LIST2: case C_LIST2_A:
        lists(B_<TI::listable>{}, o, a);
        break;
      case C_ASG_VL: case C_ASG_VCL:
        run_if(B_<Copy>{}, [&](auto& d) {
          T arg = TI::make(o.v);
          R rec{this, std::addressof(arg)};
          const T& carg = arg;
          if (o.code == C_ASG_VL)
            MC_DO(this->r.ret_ok = std::addressof(d = arg) == std::addressof(d));
          else
            MC_DO(this->r.ret_ok = std::addressof(d = carg) == std::addressof(d));
        }, this->h(o.d));
        break;
      case C_ASG_VR: {
        T arg = TI::make(o.v);
        R rec{this, std::addressof(arg)};
        H& d = this->h(o.d);
        MC_DO(this->r.ret_ok = std::addressof(d = std::move(arg)) == std::addressof(d));
        break;
      }
      case C_ASG_ARG:
        run_if(B_<TI::tracked>{}, [&](auto& d) {
          Arg arg{o.v};
          MC_DO(this->r.ret_ok = std::addressof(d = arg) == std::addressof(d));
        }, this->h(o.d));
        break;
      case C_OWN_L:
        run_if(B_<Copy>{}, [&](auto& d) {
          MC_DO(this->r.ret_ok = std::addressof(d = *d) == std::addressof(d));
        }, this->h(o.d));
        break;
      case C_OWN_CL:
        run_if(B_<Copy>{}, [&](auto& d) {
          MC_DO(this->r.ret_ok = std::addressof(d = *this->ch(o.d)) == std::addressof(d));
        }, this->h(o.d));
        break;
      case C_OWN_R: {
        H& d = this->h(o.d);
        MC_DO(this->r.ret_ok = std::addressof(d = std::move(*d)) == std::addressof(d));
        break;
      }
      case C_OWN_RR: {
        H& d = this->h(o.d);
        MC_DO(this->r.ret_ok = std::addressof(d = *std::move(d)) == std::addressof(d));
        break;
      }
      case C_MUT: {
        T* q;
        MC_DO(q = std::addressof(*this->h(o.d)));
        TI::set(*q, o.v);
        break;
      }
      case C_MUTP: {
        T* q;
        MC_DO(q = std::addressof(*(this->h(o.d).operator->())));
        TI::set(*q, o.v);
        break;
      }
      case C_CMP: {
        const H& x = this->ch(o.d);
        const H& y = this->ch(o.s);
        MC_DO(this->r.bits = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 |
                       (x > y) << 4 | (x >= y) << 5);
        break;
      }
      case C_CMPV: {
        const H& x = this->ch(o.d);
        T y = TI::make(o.v);
        MC_DO(this->r.bits = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 |
                       (x > y) << 4 | (x >= y) << 5 | (y == x) << 6 | (y != x) << 7 |
                       (y < x) << 8 | (y <= x) << 9 | (y > x) << 10 | (y >= x) << 11);
        break;
      }
      case C_HASH:
        MC_DO(this->r.hash = std::hash<H>{}(this->ch(o.d)));
        break;
    }
  }

  // records the argument's value when it goes out of scope, thrown or not
  struct R {
    Adapter* ad;
    T* t;
    ~R() { ad->r.argv = TI::get(*t); }
  };

  void lists(std::false_type, const Op&, const A&) {}
  void lists(std::true_type, const Op& o, const A& a) {
    int v = o.v;
    Arg arg{o.v};
    this->make(o.d, [&](void* p) {
      switch (o.code) {
        case C_INP2:
          run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(InPlace{}, x, 2)); }, v);
          break;
        case C_INP2_A:
          MC_DO(::new (p) H(std::allocator_arg, a, InPlace{}, v, 2));
          break;
        case C_LIST:
          run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(InPlace{}, {x, 2, 3})); }, v);
          break;
        case C_LIST_A:
          MC_DO(::new (p) H(std::allocator_arg, a, InPlace{}, {v, 2, 3}));
          break;
        case C_LIST2:
          run_if(B_<DefA>{}, [&](auto& x) { MC_DO(::new (p) H(InPlace{}, {1, 2}, x)); },
                 arg);
          break;
        case C_LIST2_A:
          MC_DO(::new (p) H(std::allocator_arg, a, InPlace{}, {1, 2}, arg));
          break;
      }
    });
  }

  Obs obs(int i) override {
    Obs o;
    H& x = h(i);
    o.vl = ch(i).valueless_after_move();
    o.al = AM::id(ch(i).get_allocator());
    o.ty = 0;
    o.v = 0;
    o.addr = o.most = nullptr;
    if (!o.vl) {
      o.addr = o.most = accessors<H, T>(x);
      check(*ch(i), B_<TI::tracked>{});
      o.v = TI::get(*ch(i));
      o.ty = 1;
    }
    return o;
  }
  void check(const T& t, std::true_type) { t.chk(); }
  void check(const T&, std::false_type) {}
};
#endif
