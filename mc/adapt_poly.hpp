#ifndef MC_ADAPT_POLY_HPP
#define MC_ADAPT_POLY_HPP
#include "adapt.hpp"

#ifdef MC_CXX20
template <class U>
using InPlaceT = std::in_place_type_t<U>;
#else
template <class U>
using InPlaceT = xyz::in_place_type_t<U>;
#endif

template <class U>
struct Tag {
  using type = U;
};
template <class... Us>
struct TypeList {
  template <class F>
  static void with(int, F&&) {
    w::error(~w::Mask(0), "harness: no such dynamic type");
  }
  static bool has(int) { return false; }
};
template <class U, class... Us>
struct TypeList<U, Us...> {
  template <class F>
  static void with(int t, F&& f) {
    if (U::type == t)
      f(Tag<U>{});
    else
      TypeList<Us...>::with(t, f);
  }
  static bool has(int t) { return U::type == t || TypeList<Us...>::has(t); }
};

template <class BaseT, class A, class... Us>
struct PolyAd final : HandleAd<xyz::polymorphic<BaseT, A>> {
  using T = BaseT;
  using H = xyz::polymorphic<T, A>;
  using Base = HandleAd<H>;
  using TL = TypeList<Us...>;
  using Base::c;
  using Base::ch;
  using Base::h;
  using Base::make;
  using Base::r;
  using AM = AlMake<A>;
  static constexpr bool Def = std::is_default_constructible<T>::value;
  static constexpr bool DefA = std::is_default_constructible<A>::value;

  PolyAd(const char* name, const char* cname, int nal, bool construct) {
    this->base_cfg();
    c.name = name;
    c.cname = cname;
    c.nal = nal;
    c.construct = construct;
    c.poly = true;
    c.tracked = TInfo<T>::tracked;
#ifdef MC_CXX20
    c.cxx20 = true;
#endif
    c.def_al = DefA ? 0 : -1;
    c.has_default = Def;
    c.compares = c.hashes = false;
    for (int t = 1; t <= MAXT; ++t) c.concrete[t] = TL::has(t);
    c.ntypes = MAXT;
    for (int t = 2; t <= MAXT; ++t) c.parent[t] = 1;
    int x[] = {(note(Tag<Us>{}), 0)...};
    (void)x;
    c.parent[6] = 2;
  }
  // whether U has a move constructor is told by its class: PD2 is copy only
  template <class U>
  void note(Tag<U>) {
    c.tmove[U::type] = !std::is_same<U, PD2>::value;
  }
  PolyAd* soc(int s) {
    c.soc = s;
    return this;
  }
  PolyAd* def(int d) {
    c.def_al = d;
    return this;
  }

  bool can(int code, int t) const override {
    if (!c.concrete[t]) return false;
    switch (code) {
      case C_DEF: return Def && DefA && t == 1;
      case C_DEF_A: return Def && t == 1;
      case C_VAL_L: case C_VAL_CL: case C_VAL_R: return DefA;
      case C_INP: case C_INP2: case C_INPT: case C_LIST: case C_LIST2: return DefA;
      case C_ASG_VL: case C_ASG_VCL: case C_ASG_VR: case C_ASG_ARG:
      case C_OWN_L: case C_OWN_CL: case C_OWN_R: case C_OWN_RR:
      case C_CMP: case C_CMPV: case C_HASH: return false;
    }
    return true;
  }

  struct Val {  // argument and the record of its later value
    Adapter* ad;
    const int* v;
    ~Val() { ad->r.argv = *v; }
  };

  void exec(const Op& o) override {
    if (this->template common<true>(o)) return;
    A a = AM::make(o.a);
    switch (o.code) {
      case C_DEF:
        run_if(B_<Def && DefA>{}, [&](auto* hp) {
          using HH = std::remove_pointer_t<decltype(hp)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH()); });
        }, static_cast<H*>(nullptr));
        return;
      case C_DEF_A:
        run_if(B_<Def>{}, [&](auto* hp) {
          using HH = std::remove_pointer_t<decltype(hp)>;
          this->make(o.d, [&](void* p) { MC_DO(::new (p) HH(std::allocator_arg, a)); });
        }, static_cast<H*>(nullptr));
        return;
      case C_MUT: {
        T* q;
        MC_DO(q = std::addressof(*this->h(o.d)));
        val_of(*q) = o.v;
        return;
      }
      case C_MUTP: {
        T* q;
        MC_DO(q = std::addressof(*(this->h(o.d).operator->())));
        val_of(*q) = o.v;
        return;
      }
    }
    TL::with(o.t, [&](auto tag) {
      using U = typename decltype(tag)::type;
      this->construct(tag, static_cast<U*>(nullptr), o, a, B_<DefA>{});
    });
  }

  template <class U>
  void construct(Tag<U>, U*, const Op& o, const A& a, std::true_type) {
    int v = o.v;
    Arg arg{o.v};
    switch (o.code) {
      case C_VAL_L: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(x)); });
        break;
      }
      case C_VAL_CL: {
        const U x(v);
        Val rec{this, &cval_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(x)); });
        break;
      }
      case C_VAL_R: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::move(x))); });
        break;
      }
      case C_INP:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(InPlaceT<U>{}, v)); });
        break;
      case C_INP2:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(InPlaceT<U>{}, v, 2)); });
        break;
      case C_INPT: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(InPlaceT<U>{}, std::move(x))); });
        break;
      }
      case C_LIST:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(InPlaceT<U>{}, {v, 2, 3})); });
        break;
      case C_LIST2:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(InPlaceT<U>{}, {1, 2}, arg)); });
        break;
      default:
        construct(Tag<U>{}, static_cast<U*>(nullptr), o, a, std::false_type{});
    }
  }
  template <class U>
  void construct(Tag<U>, U*, const Op& o, const A& a, std::false_type) {
    int v = o.v;
    Arg arg{o.v};
    switch (o.code) {
      case C_VAL_L_A: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::allocator_arg, a, x)); });
        break;
      }
      case C_VAL_CL_A: {
        const U x(v);
        Val rec{this, &cval_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::allocator_arg, a, x)); });
        break;
      }
      case C_VAL_R_A: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::allocator_arg, a, std::move(x))); });
        break;
      }
      case C_INP_A:
        this->make(o.d, [&](void* p) { MC_DO(::new (p) H(std::allocator_arg, a, InPlaceT<U>{}, v)); });
        break;
      case C_INP2_A:
        this->make(o.d,
             [&](void* p) { MC_DO(::new (p) H(std::allocator_arg, a, InPlaceT<U>{}, v, 2)); });
        break;
      case C_INPT_A: {
        U x(v);
        Val rec{this, &val_of(x)};
        this->make(o.d, [&](void* p) {
          MC_DO(::new (p) H(std::allocator_arg, a, InPlaceT<U>{}, std::move(x)));
        });
        break;
      }
      case C_LIST_A:
        this->make(o.d, [&](void* p) {
          MC_DO(::new (p) H(std::allocator_arg, a, InPlaceT<U>{}, {v, 2, 3}));
        });
        break;
      case C_LIST2_A:
        this->make(o.d, [&](void* p) {
          MC_DO(::new (p) H(std::allocator_arg, a, InPlaceT<U>{}, {1, 2}, arg));
        });
        break;
    }
  }

  Obs obs(int i) override {
    Obs o;
    H& x = h(i);
    o.vl = ch(i).valueless_after_move();
    o.al = AM::id(ch(i).get_allocator());
    o.ty = 0;
    o.v = 0;
    o.addr = o.most = nullptr;
    if (!o.vl) {
      o.addr = accessors<H, T>(x);
      const T& t = *ch(i);
      t.chk();
      o.v = cval_of(t);
      o.ty = tid_of(t);
      o.most = most_self(t);
      if (virt_id(t, 0) != o.ty)
        w::error(w::P(10), "virtual function of type %d runs on an object of type %d",
                 virt_id(t, 0), o.ty);
      if (most_derived(t, 0) != o.most)
        w::error(w::P(10), "base subobject does not belong to the most derived object");
      if (c.tracked) w::use(o.most, o.ty);
    }
    return o;
  }
};
#endif
