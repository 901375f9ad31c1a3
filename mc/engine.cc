// Explorer: breadth-first closure of the abstract state space, every
// transition executed on the library, every fault point of every transition.
#include "engine.hpp"

#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using w::P;

const char* const code_name[C_NCODE] = {
    "DEF", "DEF_A", "VAL_L", "VAL_CL", "VAL_R", "VAL_L_A", "VAL_CL_A", "VAL_R_A",
    "INP", "INP_A", "INP2", "INP2_A", "INPT", "INPT_A", "LIST", "LIST_A", "LIST2",
    "LIST2_A", "COPY", "COPY_NC", "MOVE", "CMOVE", "COPY_A", "MOVE_A", "CMOVE_A", "DTOR",
    "ASG_C", "ASG_NC", "ASG_M", "ASG_CM", "ASG_VL", "ASG_VCL", "ASG_VR", "ASG_ARG",
    "OWN_L", "OWN_CL", "OWN_R", "OWN_RR", "SWAP_M", "SWAP_F", "MUT", "MUTP", "CMP",
    "CMPV", "HASH"};
const char* const noexc_name[N_NITEM] = {
    "const* &", "* &", "const* &&", "* &&", "const ->", "->", "valueless_after_move",
    "get_allocator", "destructor", "move constructor",
    "allocator-extended move constructor", "move assignment", "member swap",
    "non-member swap"};

std::vector<Adapter*>& registry() {
  static std::vector<Adapter*> r;
  return r;
}

// ---- model ----------------------------------------------------------------
struct HS {
  bool present = false, vl = false;
  unsigned char al = 0, ty = 0;
  short v = 0;
  bool operator==(const HS& o) const {
    if (present != o.present) return false;
    if (!present) return true;
    if (vl != o.vl || al != o.al) return false;
    return vl || (ty == o.ty && v == o.v);
  }
};
struct State {
  HS h[MAXSLOT];
  bool operator==(const State& o) const {
    for (int i = 0; i < MAXSLOT; ++i)
      if (!(h[i] == o.h[i])) return false;
    return true;
  }
};
static std::string key(const State& s) {
  std::string k;
  for (int i = 0; i < MAXSLOT; ++i) {
    const HS& h = s.h[i];
    char b[32];
    if (!h.present)
      snprintf(b, sizeof b, "-/");
    else if (h.vl)
      snprintf(b, sizeof b, "x%d/", h.al);
    else
      snprintf(b, sizeof b, "%d.%d.%d/", h.al, h.ty, h.v);
    k += b;
  }
  return k;
}

enum { R_NONE = -2, R_FRESH = -1 };
struct Expect {
  State post;
  int rel[MAXSLOT];
  int alloc[w::MAXAL];
  int ev[w::E_N][w::MAXTYPE];
  int released[MAXSLOT];  // pre slots whose object is destroyed
  int nreleased = 0;
  int argv = -1;
  unsigned bits = 0;
  bool hash_eq = false;
  w::Mask mask = 0;
};

struct Model {
  const Cfg& c;
  explicit Model(const Cfg& cc) : c(cc) {}
  bool eq(int a, int b) const {
    if (c.ae) return true;
    return (a <= 1 ? 0 : a) == (b <= 1 ? 0 : b);
  }
  int soc(int a) const {
    if (c.soc == 3) return 3;
    if (c.soc == 1) return a <= 1 ? 1 - a : a;
    return a;
  }
  void count(Expect& e, w::Ev ev, int ty) const {
    if (!c.tracked) return;
    for (int t = ty; t > 0; t = c.parent[t]) ++e.ev[ev][t];
  }
  w::Ev mv(int ty) const { return c.tmove[ty] && c.tracked ? w::E_MOVE : w::E_COPY; }
  w::Ev asgm(int ty) const { return c.tmove[ty] && c.tracked ? w::E_ASGM : w::E_ASGC; }
  short after_move(short v, int ty) const {
    return c.tmove[ty] && c.tracked ? (short)w::MOVED : v;
  }

  bool applicable(const State& s, const Op& o) const {
    const HS& d = s.h[o.d];
    if (o.code < C_DTOR) {
      if (d.present) return false;
      if (o.code >= C_COPY) {
        if (o.d == o.s || !s.h[o.s].present) return false;
      }
      return true;
    }
    if (!d.present) return false;
    switch (o.code) {
      case C_ASG_C: case C_ASG_NC: case C_ASG_M: case C_ASG_CM: case C_CMP:
        return s.h[o.s].present;
      case C_SWAP_M: case C_SWAP_F:
        return s.h[o.s].present && (c.cs || eq(d.al, s.h[o.s].al));
      case C_OWN_L: case C_OWN_CL: case C_OWN_R: case C_OWN_RR: case C_MUT: case C_MUTP:
        return !d.vl;
    }
    return true;
  }

  static unsigned cmpbits(int x) {  // x: -1 0 1
    return (x == 0) | (x != 0) << 1 | (x < 0) << 2 | (x <= 0) << 3 | (x > 0) << 4 |
           (x >= 0) << 5;
  }

  Expect apply(const State& s, const Op& o) const {
    Expect e;
    e.post = s;
    memset(e.alloc, 0, sizeof e.alloc);
    memset(e.ev, 0, sizeof e.ev);
    for (int i = 0; i < MAXSLOT; ++i)
      e.rel[i] = s.h[i].present && !s.h[i].vl ? i : R_NONE;
    HS& d = e.post.h[o.d];
    const HS& pd = s.h[o.d];
    const HS& ps = s.h[o.s];
    HS& src = e.post.h[o.s];
    w::Mask m = c.poly ? P(10) : 0;

    auto fresh = [&](int al, int ty, int v, w::Ev how) {
      d.present = true;
      d.vl = false;
      d.al = (unsigned char)al;
      d.ty = (unsigned char)ty;
      d.v = (short)v;
      e.rel[o.d] = R_FRESH;
      ++e.alloc[al];
      count(e, how, ty);
    };
    auto release = [&] {  // the target's previous object
      if (pd.present && !pd.vl) {
        e.released[e.nreleased++] = o.d;
        count(e, w::E_DTOR, pd.ty);
      }
    };
    auto empty = [&](int al) {
      d.present = true;
      d.vl = true;
      d.al = (unsigned char)al;
      e.rel[o.d] = R_NONE;
    };
    auto take = [&](int al) {  // hand the object over
      d = ps;
      d.al = (unsigned char)al;
      e.rel[o.d] = o.s;
      src.vl = true;
      e.rel[o.s] = R_NONE;
    };

    int al = o.a;
    switch (o.code) {
      case C_DEF: case C_VAL_L: case C_VAL_CL: case C_VAL_R: case C_INP: case C_INP2:
      case C_INPT: case C_LIST: case C_LIST2:
        al = c.def_al;
        break;
      default:
        if (o.code < C_COPY) m |= P(6);
    }
    if (o.code < C_COPY) m |= P(14);
    switch (o.code) {
      case C_DEF: case C_DEF_A: fresh(al, 1, 0, w::E_DEF); break;
      case C_VAL_L: case C_VAL_CL: case C_VAL_L_A: case C_VAL_CL_A:
        fresh(al, o.t, o.v, w::E_COPY);
        e.argv = o.v;
        break;
      case C_VAL_R: case C_VAL_R_A: case C_INPT: case C_INPT_A:
        fresh(al, o.t, o.v, mv(o.t));
        e.argv = after_move(o.v, o.t);
        break;
      case C_INP: case C_INP_A: fresh(al, o.t, o.v, w::E_VAL); break;
      case C_INP2: case C_INP2_A: fresh(al, o.t, o.v * 10 + 2, w::E_VAL); break;
      case C_LIST: case C_LIST_A: fresh(al, o.t, o.v * 100 + 23 + 100, w::E_VAL); break;
      case C_LIST2: case C_LIST2_A: fresh(al, o.t, 120 + o.v + 100, w::E_VAL); break;

      case C_COPY: case C_COPY_NC: case C_CMOVE: case C_COPY_A: case C_CMOVE_A: {
        m |= P(1);
        bool ext = o.code == C_COPY_A || o.code == C_CMOVE_A;
        al = ext ? o.a : soc(ps.al);
        if (ps.vl) {
          m |= P(4);
          empty(al);
        } else {
          fresh(al, ps.ty, ps.v, w::E_COPY);
        }
        break;
      }
      case C_MOVE: case C_MOVE_A:
        m |= P(3);
        al = o.code == C_MOVE_A ? o.a : ps.al;
        if (ps.vl) {
          m |= P(4);
          empty(al);
        } else if (eq(al, ps.al)) {
          take(al);
        } else {
          fresh(al, ps.ty, ps.v, mv(ps.ty));
          src.v = after_move(ps.v, ps.ty);
        }
        break;

      case C_DTOR:
        m |= P(2);
        release();
        d = HS();
        e.rel[o.d] = R_NONE;
        break;

      case C_ASG_C: case C_ASG_NC: case C_ASG_CM: {
        m |= P(1);
        if (o.d == o.s) {
          m |= P(9);
          if (pd.vl) m |= P(4);
          break;
        }
        int nal = c.cca ? ps.al : pd.al;
        if (ps.vl || pd.vl) m |= P(4);
        if (ps.vl) {
          release();
          empty(nal);
        } else if (!c.poly && !pd.vl && eq(pd.al, ps.al)) {
          count(e, w::E_ASGC, 1);
          d.v = ps.v;
          d.al = (unsigned char)nal;
        } else {
          release();
          fresh(nal, ps.ty, ps.v, w::E_COPY);
        }
        break;
      }
      case C_ASG_M: {
        m |= P(3);
        if (o.d == o.s) {
          m |= P(9);
          if (pd.vl) m |= P(4);
          break;
        }
        int nal = c.cma ? ps.al : pd.al;
        if (ps.vl || pd.vl) m |= P(4);
        release();
        if (ps.vl) {
          empty(nal);
        } else if (eq(pd.al, ps.al)) {
          take(nal);
        } else {
          fresh(nal, ps.ty, ps.v, mv(ps.ty));
          src.v = after_move(ps.v, ps.ty);
        }
        break;
      }
      case C_ASG_VL: case C_ASG_VCL: case C_ASG_VR: case C_ASG_ARG:
        m |= P(14);
        if (o.code != C_ASG_ARG)
          e.argv = o.code == C_ASG_VR ? after_move(o.v, 1) : o.v;
        if (pd.vl) {
          m |= P(4);
          fresh(pd.al, 1, o.v,
                o.code == C_ASG_ARG ? w::E_VAL : o.code == C_ASG_VR ? mv(1) : w::E_COPY);
        } else {
          count(e,
                o.code == C_ASG_ARG ? w::E_ASGV
                                    : o.code == C_ASG_VR ? asgm(1) : w::E_ASGC,
                1);
          d.v = o.v;
        }
        break;
      case C_OWN_L: case C_OWN_CL:
        m |= P(9) | P(14);
        count(e, w::E_ASGC, 1);
        break;
      case C_OWN_R: case C_OWN_RR:
        m |= P(9) | P(14);
        count(e, asgm(1), 1);
        break;
      case C_SWAP_M: case C_SWAP_F: {
        m |= P(5);
        if (o.d == o.s) {
          m |= P(9);
          break;
        }
        if (pd.vl || ps.vl) m |= P(4);
        d = ps;
        src = pd;
        e.rel[o.d] = ps.vl ? (int)R_NONE : (int)o.s;
        e.rel[o.s] = pd.vl ? (int)R_NONE : (int)o.d;
        if (!c.cs) {
          d.al = pd.al;
          src.al = ps.al;
        }
        break;
      }
      case C_MUT: case C_MUTP:
        m |= P(13) | P(1);
        d.v = o.v;
        break;
      case C_CMP:
        m |= P(11);
        if (pd.vl || ps.vl) m |= P(4);
        if (pd.vl || ps.vl)
          e.bits = cmpbits(pd.vl && ps.vl ? 0 : pd.vl ? -1 : 1);
        else
          e.bits = cmpbits(pd.v < ps.v ? -1 : pd.v > ps.v);
        break;
      case C_CMPV: {
        m |= P(11);
        if (pd.vl) m |= P(4);
        int x = pd.vl ? -1 : pd.v < o.v ? -1 : pd.v > o.v;
        e.bits = cmpbits(x) | cmpbits(-x) << 6;
        break;
      }
      case C_HASH:
        m |= P(12);
        if (pd.vl) m |= P(4);
        break;
    }
    e.mask = m;
    return e;
  }
};

// ---- executions -----------------------------------------------------------
static std::string ser(const Op& o) {
  char b[48];
  int n = snprintf(b, sizeof b, "%s:%d:%d:%d:%d:%d", code_name[o.code], o.d, o.s, o.a, o.v, o.t);
  if (o.fault) snprintf(b + n, sizeof b - n, ":%d:%d", o.fault, o.kind);
  return b;
}
static std::string ser(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) {
    if (!s.empty()) s += ',';
    s += ser(o);
  }
  return s;
}
static bool parse(const std::string& t, Op& o) {
  char n[16];
  int d, s, a, v, ty, fa = 0, fk = 0;
  if (sscanf(t.c_str(), "%15[A-Z0-9_]:%d:%d:%d:%d:%d:%d:%d", n, &d, &s, &a, &v, &ty, &fa, &fk) < 6)
    return false;
  for (int i = 0; i < C_NCODE; ++i)
    if (!strcmp(n, code_name[i])) {
      o.code = (unsigned char)i;
      o.d = (unsigned char)d;
      o.s = (unsigned char)s;
      o.a = (unsigned char)a;
      o.v = (unsigned char)v;
      o.t = (unsigned char)ty;
      o.fault = (unsigned char)fa;
      o.kind = (unsigned char)fk;
      return true;
    }
  return false;
}

struct Shared {  // survives a crash of the child
  volatile unsigned long executions;
  char note[4096];
  char earlier[256];  // what was wrong before it crashed
  unsigned opmask;
};
static Shared* shared;
static const w::Mask EVERYTHING = ~w::Mask(0);

struct Stats {
  unsigned long states = 0, nodes = 0, transitions = 0, executions = 0, faults = 0,
                replays = 0, mismatches = 0, variants = 0;
  std::map<std::string, int> seen_codes;
};

struct Runner {
  Adapter& ad;
  Model m;
  Stats st;
  int slots = 2;
  bool thorough = false;
  bool with_faults = true;
  std::size_t max_shapes = 12;
  int history_codes = 1;  // how many last op codes distinguish nodes
  FILE* out = stdout;
  FILE* dump = nullptr;
  int reported = 0;
  std::set<std::string> known_seen;

  explicit Runner(Adapter& a) : ad(a), m(a.c) {}

  struct Snap {
    bool present[MAXSLOT];
    Obs o[MAXSLOT];
  };
  Snap snap() {
    Snap s;
    memset(&s, 0, sizeof s);
    return s;
  }
  Snap observe(const State& st) {
    Snap s = snap();
    for (int i = 0; i < slots; ++i) {
      s.present[i] = st.h[i].present;
      if (s.present[i]) s.o[i] = ad.obs(i);
    }
    return s;
  }

  // compare an observation with the model; errors carry op_mask
  void compare(const State& want, const Snap& got, const Snap& before, const int* rel,
               const Op& o, bool framed_only) {
    for (int i = 0; i < slots; ++i) {
      const HS& h = want.h[i];
      if (!h.present) continue;
      const Obs& g = got.o[i];
      bool involved = i == o.d || ((o.code >= C_COPY) && i == o.s);
      w::Mask fm = involved ? 0 : (P(1) | P(13));
      if (g.vl != h.vl) {
        w::error(P(4) | fm, "handle %d is %s, should %sbe", i,
                 g.vl ? "valueless" : "not valueless", g.vl ? "not " : "");
        continue;
      }
      if (g.al != h.al)
        w::error(P(6) | fm, "handle %d has allocator %d, should have %d", i, g.al, h.al);
      if (h.vl) continue;
      if (g.ty != h.ty)
        w::error(P(10) | fm, "handle %d owns an object of type %d, should be %d", i, g.ty,
                 h.ty);
      if (g.v != h.v)
        w::error(fm, "handle %d has value %d, should have %d", i, g.v, h.v);
      if (!w::in_arena(g.addr))
        w::error(P(2) | P(6), "handle %d owns an object outside allocated storage", i);
      else {
        w::Block* b = w::block_of(g.most);
        if (!b)
          w::error(P(2), "handle %d owns an object in released storage", i);
        else if (!m.eq(b->al, g.al))
          w::error(P(2) | P(6), "handle %d holds storage of an unequal allocator", i);
        if (rel[i] == R_FRESH) {
          if (b && !b->in_window)
            w::error(P(1), "handle %d should own a new object but holds older storage", i);
          if (b && b->al != h.al)
            w::error(P(6), "storage of handle %d comes from allocator %d, not %d", i, b->al,
                     h.al);
        } else if (rel[i] >= 0) {
          if (g.addr != before.o[rel[i]].addr)
            w::error(P(13) | fm, "handle %d owns an object at another address than expected",
                     i);
        }
      }
    }
    for (int i = 0; i < slots; ++i)
      for (int j = 0; j < i; ++j)
        if (want.h[i].present && want.h[j].present && !got.o[i].vl && !got.o[j].vl &&
            got.o[i].addr == got.o[j].addr)
          w::error(P(1) | P(2), "handles %d and %d own the same object", i, j);
    (void)framed_only;
  }

  // Executes history then op; returns true if no error.  Fills outcome.
  struct Out {
    bool threw;
    std::string shape;  // of the memory, apart from addresses and tracked objects
    int fallible;
    unsigned fallible_mask;
    State post;
    bool ok;
    int noexc;
    w::Counters cnt;
    Snap before, after;
    unsigned bits;
    std::size_t hash;
  };
  std::vector<Op> cur_hist;
  const void* noted = nullptr;
  std::string noted_ser;

  int declared_noexcept(const Op& o) const {
    switch (o.code) {
      case C_MOVE: return ad.noexc(N_MOVECTOR);
      case C_MOVE_A: return ad.noexc(N_MOVECTOR_A);
      case C_ASG_M: return ad.noexc(N_ASG_M);
      case C_SWAP_M: return ad.noexc(N_SWAP_M);
      case C_SWAP_F: return ad.noexc(N_SWAP_F);
      case C_DTOR: return ad.noexc(N_DTOR);
      case C_MUT: return ad.noexc(N_DEREF_L);
      case C_MUTP: return ad.noexc(N_ARROW);
    }
    return 0;
  }

  State replay(const std::vector<Op>& hist) {
    State s;
    for (auto& h : hist) {
      ++st.replays;
      if (h.fault) {  // this operation threw
        w::fault_at = h.fault;
        w::fault_kind = h.kind;
        try {
          ad.exec(h);
        } catch (...) {
        }
        w::fault_at = 0;
        w::in_op = false;
        continue;
      }
      ad.exec(h);
      s = m.apply(s, h).post;
    }
    return s;
  }

  Out run(const std::vector<Op>& hist, const Op& o, int fault_at, int fault_kind) {
    ++st.executions;
    shared->executions = shared->executions + 1;
    if (&hist != noted) {
      noted = &hist;
      noted_ser = ad.c.name + "|" + ser(hist) + "|";
    }
    snprintf(shared->note, sizeof shared->note, "%s%s|%d|%d", noted_ser.c_str(),
             ser(o).c_str(), fault_at, fault_kind);
    shared->opmask = EVERYTHING;
    shared->earlier[0] = 0;
    w::reset();
    State pre = replay(hist);
    if (!w::errors.empty()) {
      // the prefix was clean when it was explored: divergence
      w::error(EVERYTHING, "replaying the history diverged");
    }
    Expect e = m.apply(pre, o);
    w::op_mask = e.mask | (fault_at ? P(7) | P(2) : 0);
    shared->opmask = e.mask | P(2) | (fault_at ? P(7) | P(8) : 0);
    Snap before = observe(pre);
    w::op_mask = EVERYTHING;
    {
      int none[MAXSLOT] = {R_NONE, R_NONE, R_NONE};
      Op nop = o;
      compare(pre, before, before, none, nop, false);
    }
    w::op_mask = e.mask | (fault_at ? P(7) | P(2) : 0);
    int blocks0 = w::live_blocks(), objs0 = w::live_objects();
    Out out;
    out.threw = false;
    w::fault_at = fault_at;
    w::fault_kind = fault_kind;
    int serial = 0, kind = -1;
    try {
      ad.exec(o);
    } catch (w::Fault& f) {
      out.threw = true, serial = f.serial, kind = 0;
    } catch (w::FaultBA& f) {
      out.threw = true, serial = f.serial, kind = 1;
    } catch (w::FaultRE& f) {
      out.threw = true, serial = f.serial, kind = 2;
    } catch (...) {
      out.threw = true;
      w::error(P(7), "an exception other than the injected one reached the caller");
      kind = -2;
    }
    int fs = w::fault_serial;
    w::fault_at = 0;
    w::in_op = false;
    out.cnt = w::cnt;
    out.fallible = w::cnt.fallible;
    out.fallible_mask = w::cnt.fallible_mask;
    if (out.threw) {
      if (!fault_at) w::error(0, "the operation threw though nothing failed");
      if (kind >= 0 && (kind != fault_kind || serial != fs))
        w::error(P(7), "the exception that reached the caller is not the one thrown");
    } else if (fault_at && fs) {
      w::error(P(7), "an exception thrown during the operation was swallowed");
    }
    const State& want = out.threw ? pre : e.post;
    int rel[MAXSLOT];
    for (int i = 0; i < MAXSLOT; ++i)
      rel[i] = out.threw ? (pre.h[i].present && !pre.h[i].vl ? i : (int)R_NONE) : e.rel[i];
    auto calls = w::al_calls;
    Snap after = observe(want);
    out.before = before;
    out.after = after;
    out.bits = ad.r.bits;
    out.hash = ad.r.hash;
    compare(want, after, before, rel, o, false);
    out.post = want;

    if (out.threw) {
      if (w::live_blocks() != blocks0)
        w::error(P(2) | P(7), "%d block(s) leaked or lost by an operation that threw",
                 w::live_blocks() - blocks0);
      if (w::live_objects() != objs0)
        w::error(P(2) | P(7), "%d object(s) leaked or lost by an operation that threw",
                 w::live_objects() - objs0);
      if (e.argv >= 0 && ad.r.argv != o.v)
        w::error(P(7), "the argument was changed by an operation that threw");
    } else {
      if (!ad.r.ret_ok) w::error(0, "assignment did not return *this");
      if (e.argv >= 0 && ad.r.argv != e.argv)
        w::error(P(14), "the argument has value %d afterwards, should have %d", ad.r.argv,
                 e.argv);
      int nalloc = 0;
      for (int a = 0; a < w::MAXAL; ++a) {
        nalloc += e.alloc[a];
        if (w::cnt.al_alloc[a] != e.alloc[a])
          w::error(P(6) | (o.code <= C_LIST2_A ? P(14) : 0),
                   "%d allocation(s) from allocator %d, should be %d", w::cnt.al_alloc[a],
                   a, e.alloc[a]);
      }
      if (w::cnt.ev[w::E_ALLOC][0] != nalloc)
        w::error(P(6), "%d allocation(s), should be %d", w::cnt.ev[w::E_ALLOC][0], nalloc);
      if (w::cnt.ev[w::E_DEALLOC][0] != e.nreleased)
        w::error(P(2) | P(6), "%d deallocation(s), should be %d",
                 w::cnt.ev[w::E_DEALLOC][0], e.nreleased);
      if (ad.c.tracked) {
        for (int ev = w::E_DEF; ev <= w::E_SWAP; ++ev) {
          if (ev == w::E_CMP || ev == w::E_HASH) continue;
          for (int t = 0; t < w::MAXTYPE; ++t)
            if (w::cnt.ev[ev][t] != e.ev[ev][t])
              w::error(ev == w::E_DTOR ? P(2) : 0,
                       "%d %s of objects of type %d, should be %d", w::cnt.ev[ev][t],
                       w::ev_name[ev], t, e.ev[ev][t]);
        }
        if ((o.code == C_CMP || o.code == C_CMPV || o.code == C_HASH) &&
            (pre.h[o.d].vl || (o.code == C_CMP && pre.h[o.s].vl)) &&
            w::cnt.ev[w::E_CMP][1] + w::cnt.ev[w::E_HASH][1])
          w::error(P(4), "the value type was consulted for a valueless object");
      }
      if (ad.c.construct) through(e, pre, before, after, calls);
      if (o.code == C_CMP || o.code == C_CMPV)
        if (ad.r.bits != e.bits)
          w::error(P(11), "comparison results %03x, should be %03x", ad.r.bits, e.bits);
      if (o.code == C_HASH) {
        std::size_t want_hash =
            pre.h[o.d].vl ? vl_hash()
                          : ad.c.tracked ? std::size_t(pre.h[o.d].v) * 31 + 7
                                         : std::hash<int>{}(pre.h[o.d].v);
        if (ad.r.hash != want_hash)
          w::error(P(12), "hash is %zu, should be %zu", ad.r.hash, want_hash);
      }
      if (declared_noexcept(o) == 1 && out.fallible) noexcept_broken(o, pre, out);
    }
    out.noexc = declared_noexcept(o);
    if (w::errors.empty()) {
      w::Internal g;
      w::Shape sh;
      for (int i = 0; i < slots; ++i)
        if (want.h[i].present) {
          std::size_t n;
          const unsigned char* b = ad.bytes(i, n);
          sh.add(b, n);
          sh.k += '/';
        }
      sh.rest();
      out.shape = std::move(sh.k);
    }

    // tear down; after something else went wrong, only for what it releases
    {
      w::op_mask = P(2) | (w::errors.empty() ? e.mask : 0) | (out.threw ? P(7) : 0);
      for (auto& r : w::errors) shared->opmask = shared->opmask | r.mask;  // should it crash
      if (!w::errors.empty())
        snprintf(shared->earlier, sizeof shared->earlier, "%s; then ",
                 w::errors[0].text.c_str());
      for (int i = 0; i < slots; ++i)
        if (want.h[i].present) {
          Op dd = {C_DTOR, (unsigned char)i, 0, 0, 0, 1, 0, 0};
          ad.exec(dd);
        }
      if (w::live_blocks())
        w::error(P(2), "%d block(s) never released", w::live_blocks());
      if (w::live_objects())
        w::error(P(2), "%d object(s) never destroyed", w::live_objects());
    }
    out.ok = w::errors.empty();
    return out;
  }

  std::size_t vlh = 0;
  bool have_vlh = false;
  std::size_t vl_hash() {
    if (!have_vlh) {
      have_vlh = true;
      vlh = ad.r.hash;
    }
    return vlh;
  }

  void through(const Expect& e, const State& pre, const Snap& before, const Snap& after,
               const std::vector<w::AlCall>& calls) {
    (void)pre;
    int nfresh = 0;
    for (int i = 0; i < slots; ++i) {
      if (e.rel[i] != R_FRESH) continue;
      ++nfresh;
      int n = 0, wrong = 0;
      for (auto& k : calls)
        if (k.construct && k.p == after.o[i].most) {
          ++n;
          if (k.al != e.post.h[i].al) ++wrong;
        }
      if (n != 1)
        w::error(P(6), "owned object constructed by %d calls of the allocator's construct",
                 n);
      if (wrong) w::error(P(6), "owned object constructed through another allocator");
    }
    for (int k = 0; k < e.nreleased; ++k) {
      int i = e.released[k], n = 0, wrong = 0;
      for (auto& q : calls)
        if (!q.construct && q.p == before.o[i].most) {
          ++n;
          if (!m.eq(q.al, before.o[i].al)) ++wrong;
        }
      if (n != 1)
        w::error(P(6), "owned object destroyed by %d calls of the allocator's destroy", n);
      if (wrong) w::error(P(6), "owned object destroyed through an unequal allocator");
    }
    if (!ad.c.poly) {
      int nc = 0, nd = 0;
      for (auto& q : calls) (q.construct ? nc : nd)++;
      if (nc != nfresh || nd != e.nreleased)
        w::error(P(6), "%d construct / %d destroy calls on the allocator, should be %d / %d",
                 nc, nd, nfresh, e.nreleased);
    }
  }

  void noexcept_broken(const Op& o, const State& pre, const Out& out) {
    char k[256];
    const HS &d = pre.h[o.d], &s = pre.h[o.s];
    std::string kinds;
    for (int ev = 0; ev < w::E_N; ++ev)
      if (out.fallible_mask >> ev & 1) {
        if (!kinds.empty()) kinds += '+';
        kinds += w::ev_name[ev];
      }
    bool two = o.code == C_ASG_M || o.code == C_SWAP_M || o.code == C_SWAP_F;
    snprintf(k, sizeof k,
             "noexcept %s may throw from %s: pocma=%d always_equal=%d allocators=%s "
             "source=%s",
             code_name[o.code], kinds.c_str(), ad.c.cma, ad.c.ae,
             !two ? "-" : m.eq(d.al, s.al) ? "equal" : "unequal",
             o.code == C_MOVE || o.code == C_MOVE_A || two ? (s.vl ? "valueless" : "valued")
                                                           : "-");
    // reported apart from the other errors: the state is as modelled and the
    // exploration goes on
    if (known_seen.insert(k).second) {
      fprintf(out_file(), "N\t%u\t%s\t%s\t%s\t%d\t%d\t%s\n", (unsigned)P(8),
              ad.c.name.c_str(), ser(cur_hist).c_str(), ser(o).c_str(), 0, 0, k);
    }
  }
  FILE* out_file() { return out; }

  void report(const std::vector<Op>& hist, const Op& o, int fa, int fk) {
    ++reported;
    ++st.mismatches;
    w::Mask all = 0;
    std::string txt;
    for (auto& e : w::errors) {
      all |= e.mask;
      if (!txt.empty()) txt += "; ";
      if (txt.size() < 600) txt += e.text;
    }
    fprintf(out, "V\t%u\t%s\t%s\t%s\t%d\t%d\t%s\n", (unsigned)all, ad.c.name.c_str(),
            ser(hist).c_str(), ser(o).c_str(), fa, fk, txt.c_str());
    fflush(out);
  }

  // ---- alphabet ------------------------------------------------------------
  std::vector<Op> ops(const State& s) {
    std::vector<Op> r;
    const Cfg& c = ad.c;
    auto add = [&](int code, int d, int src, int a, int v, int t) {
      Op o = {(unsigned char)code, (unsigned char)d, (unsigned char)src,
              (unsigned char)a,    (unsigned char)v, (unsigned char)t, 0, 0};
      if (m.applicable(s, o) && ad.can(code, t)) r.push_back(o);
    };
    int lowest = 0;
    while (lowest < slots && s.h[lowest].present) ++lowest;
    for (int d = 0; d < slots; ++d) {
      if (!s.h[d].present) {
        if (d != lowest) continue;
        add(C_DEF, d, 0, 0, 0, 1);
        for (int a = 0; a < c.nal; ++a) add(C_DEF_A, d, 0, a, 0, 1);
        for (int t = 1; t <= c.ntypes; ++t) {
          if (!c.concrete[t]) continue;
          int vmax = thorough ? 2 : 1;
          for (int k = 0; k < vmax; ++k) {
            int v = 1 + (d + k) % 2;
            for (int code : {C_VAL_L, C_VAL_CL, C_VAL_R, C_INP, C_INP2, C_INPT, C_LIST,
                             C_LIST2})
              add(code, d, 0, 0, v, t);
            for (int code : {C_VAL_L_A, C_VAL_CL_A, C_VAL_R_A, C_INP_A, C_INP2_A, C_INPT_A,
                             C_LIST_A, C_LIST2_A})
              for (int a = 0; a < c.nal; ++a) add(code, d, 0, a, v, t);
          }
        }
        for (int src = 0; src < slots; ++src) {
          for (int code : {C_COPY, C_COPY_NC, C_MOVE, C_CMOVE}) add(code, d, src, 0, 0, 1);
          for (int a = 0; a < c.nal; ++a)
            for (int code : {C_COPY_A, C_MOVE_A, C_CMOVE_A}) add(code, d, src, a, 0, 1);
        }
      } else {
        int vt = 1;
        if (c.poly) {  // any concrete type, for can()
          while (vt < c.ntypes && !c.concrete[vt]) ++vt;
        }
        add(C_DTOR, d, 0, 0, 0, vt);
        for (int src = 0; src < slots; ++src)
          for (int code :
               {C_ASG_C, C_ASG_NC, C_ASG_M, C_ASG_CM, C_SWAP_M, C_SWAP_F, C_CMP})
            add(code, d, src, 0, 0, vt);
        for (int code : {C_ASG_VL, C_ASG_VCL, C_ASG_VR, C_ASG_ARG, C_MUT, C_MUTP})
          add(code, d, 0, 0, 3, vt);
        for (int code : {C_OWN_L, C_OWN_CL, C_OWN_R, C_OWN_RR, C_HASH})
          add(code, d, 0, 0, 0, vt);
        for (int v = 1; v <= 2; ++v) add(C_CMPV, d, 0, 0, v, vt);
      }
    }
    // copies need a concrete type for can() in abstract families
    if (c.poly && !c.concrete[1]) {
      int vt = 2;
      State t = s;
      (void)t;
      for (int d = 0; d < slots; ++d)
        if (!s.h[d].present && d == lowest)
          for (int src = 0; src < slots; ++src) {
            for (int code : {C_COPY, C_COPY_NC, C_MOVE, C_CMOVE}) add(code, d, src, 0, 0, vt);
            for (int a = 0; a < c.nal; ++a)
              for (int code : {C_COPY_A, C_MOVE_A, C_CMOVE_A}) add(code, d, src, a, 0, vt);
          }
    }
    return r;
  }
  static bool observes(int code) { return code == C_CMP || code == C_CMPV || code == C_HASH; }
  static bool leaf(int code) {  // value outside the alphabet: checked, not expanded
    return code == C_INP2 || code == C_INP2_A || code == C_LIST || code == C_LIST_A ||
           code == C_LIST2 || code == C_LIST2_A;
  }

  void noexcept_table() {
    const Cfg& c = ad.c;
    for (int i = 0; i < N_NITEM; ++i) {
      int want = 1;
      if (i == N_MOVECTOR_A) want = c.ae;
      if (i == N_ASG_M) want = c.cma || c.ae;
      if (i == N_SWAP_M || i == N_SWAP_F) want = c.cs || c.ae;
      int got = ad.noexc(i);
      ++st.transitions;
      if (got != want) {
        ++reported;
        fprintf(out, "V\t%u\t%s\t\tNOEXCEPT:%d:0:0:0:0\t0\t0\t%s is %snoexcept, should %sbe\n",
                (unsigned)P(8), c.name.c_str(), i, noexc_name[i], got ? "" : "not ",
                want ? "" : "not ");
      }
    }
  }

  // One line per executed transition: what was observed, nothing that depends
  // on the model or on how the header is written.
  void write_dump(const State& pre, const Op& o, int fault, const Out& r) {
    if (!dump) return;
    fprintf(dump, "%s|%s %s f%d -> t%d", ad.c.cname.c_str(), key(pre).c_str(),
            ser(o).c_str(), fault, r.threw);
    for (int i = 0; i < slots; ++i)
      if (r.after.present[i]) {
        const Obs& g = r.after.o[i];
        int rel = -1;
        for (int j = 0; j < slots; ++j)
          if (r.before.present[j] && !r.before.o[j].vl && r.before.o[j].addr == g.addr) rel = j;
        if (g.vl)
          fprintf(dump, " %d:x.%d", i, g.al);
        else
          fprintf(dump, " %d:%d.%d.%d@%d", i, g.al, g.ty, g.v, rel);
      }
    if (o.code == C_CMP || o.code == C_CMPV) fprintf(dump, " b%x", r.bits);
    if (o.code == C_HASH) fprintf(dump, " h%zu", r.hash);
    if (!r.threw)
      for (int e = w::E_DEF; e <= w::E_DTOR; ++e)
        for (int t = 0; t < w::MAXTYPE; ++t)
          if (r.cnt.ev[e][t]) fprintf(dump, " e%d.%d.%d", e, t, r.cnt.ev[e][t]);
    for (int a = 0; a < w::MAXAL; ++a)
      if (r.cnt.al_alloc[a] || r.cnt.al_dealloc[a])
        fprintf(dump, " a%d.%d.%d", a, r.cnt.al_alloc[a], r.cnt.al_dealloc[a]);
    fprintf(dump, "\n");
  }

  void explore() {
    noexcept_table();
    struct Node {
      State s;
      std::vector<Op> hist;
      std::string shape;
    };
    std::deque<Node> q;
    std::unordered_set<std::string> states, faulted;
    // for each abstract state and recent history, the shapes met; a few are
    // enough, and there is one as long as nothing is hidden
    std::unordered_map<std::string, std::set<std::string>> seen;
    q.push_back(Node{});
    seen[key(State())].insert("");
    states.insert(key(State()));
    auto visit = [&](Node&& nn) {
      states.insert(key(nn.s));
      std::string k = key(nn.s);
      int hc = (int)nn.hist.size();
      for (int i = 0; i < history_codes && i < hc; ++i)
        k += "," + std::to_string((int)nn.hist[hc - 1 - i].code);
      auto& shapes = seen[k];
      if (shapes.size() < max_shapes && shapes.insert(nn.shape).second) {
        if (shapes.size() > 1) ++st.variants;
        q.push_back(std::move(nn));
      }
    };
    while (!q.empty() && reported < 12) {
      Node n = std::move(q.front());
      q.pop_front();
      ++st.nodes;
      cur_hist = n.hist;
      noted = nullptr;
      bool first = faulted.insert(key(n.s)).second;
      for (const Op& o : ops(n.s)) {
        ++st.transitions;
        ++st.seen_codes[code_name[o.code]];
        Out r = run(n.hist, o, 0, 0);
        if (first) write_dump(n.s, o, 0, r);
        if (!r.ok) {
          report(n.hist, o, 0, 0);
          if (reported >= 12) break;
          continue;
        }
        if (with_faults && (first || thorough) && r.fallible && r.noexc != 1 &&
            !observes(o.code)) {
          int points = r.fallible;
          for (int k = 1; k <= points; ++k) {
            int kinds = first ? 3 : 1;
            for (int fk = 0; fk < kinds; ++fk) {
              if (fk && !thorough && fk != 1 + (k + o.code) % 2) continue;
              Out f = run(n.hist, o, k, fk);
              ++st.faults;
              if (first && fk == 0) write_dump(n.s, o, k, f);
              if (!f.ok) {
                report(n.hist, o, k, fk);
                break;
              }
              if (f.threw && f.shape != n.shape) {
                Node nn{f.post, n.hist, f.shape};
                nn.hist.push_back(o);
                nn.hist.back().fault = (unsigned char)k;
                nn.hist.back().kind = (unsigned char)fk;
                visit(std::move(nn));
              }
            }
            if (reported >= 12) break;
          }
        }
        if (leaf(o.code)) continue;
        if (observes(o.code) && r.shape == n.shape) continue;
        Node nn{r.post, n.hist, r.shape};
        nn.hist.push_back(o);
        visit(std::move(nn));
      }
    }
    st.states = states.size();
  }
};

// ---- main -----------------------------------------------------------------
static void usage() {
  fprintf(stderr,
          "usage: mc [--thorough] [--slots N] [--hist N] [--nofaults] [--cfg NAME] "
          "[--dump FILE]\n       mc --replay 'cfg|history|op|fault|kind'\n       mc --list\n");
  exit(2);
}

static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string t;
  for (char x : s)
    if (x == c)
      r.push_back(t), t.clear();
    else
      t += x;
  r.push_back(t);
  return r;
}

// cfg|history|op|fault|kind; a configuration's name may contain '|'
static std::vector<std::string> split_spec(const std::string& s) {
  auto r = split(s, '|');
  while (r.size() > 5) {
    r[0] += '|' + r[1];
    r.erase(r.begin() + 1);
  }
  return r;
}

struct Options {
  bool thorough = false, faults = true;
  int slots = 2, hist = 1;
  std::string cfg, dump;
};

static int do_replay(const std::string& spec) {
  auto f = split_spec(spec);
  if (f.size() != 5) usage();
  for (Adapter* a : registry()) {
    if (a->c.name != f[0]) continue;
    Runner r(*a);
    r.slots = MAXSLOT;
    std::vector<Op> h;
    if (!f[1].empty())
      for (auto& t : split(f[1], ',')) {
        Op o;
        if (!parse(t, o)) return 2;
        h.push_back(o);
      }
    Op o;
    if (f[2].compare(0, 8, "NOEXCEPT") == 0) {
      r.noexcept_table();
      return r.reported ? 1 : 0;
    }
    if (!parse(f[2], o)) return 2;
    r.cur_hist = h;
    r.run(h, o, atoi(f[3].c_str()), atoi(f[4].c_str()));
    for (auto& e : w::errors) printf("error mask=%08x %s\n", (unsigned)e.mask, e.text.c_str());
    if (!r.known_seen.empty()) return 4;
    return w::errors.empty() ? 0 : 1;
  }
  fprintf(stderr, "no such configuration: %s\n", f[0].c_str());
  return 2;
}

static void child(Adapter* a, const Options& opt, int fd) {
  FILE* out = fdopen(fd, "w");
  Runner r(*a);
  r.slots = opt.slots;
  r.thorough = opt.thorough;
  r.with_faults = opt.faults;
  r.history_codes = opt.hist;
  r.out = out;
  if (!opt.dump.empty()) r.dump = fopen(opt.dump.c_str(), "a");
  r.explore();
  fprintf(out, "S\t%s\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\n", a->c.name.c_str(), r.st.states,
          r.st.nodes, r.st.transitions, r.st.executions, r.st.faults, r.st.replays,
          r.st.variants);
  for (auto& c : r.st.seen_codes)
    fprintf(out, "O\t%s\t%s\t%d\n", a->c.name.c_str(), c.first.c_str(), c.second);
  fprintf(out, "D\t%s\n", a->c.name.c_str());
  if (r.dump) fclose(r.dump);
  fclose(out);
  _exit(0);
}

// Runs f in a child; returns wait status, or -1 if it made no progress.
template <class F>
static int guarded(F f, unsigned stall_s) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) f();
  int st = 0;
  unsigned long last = shared->executions;
  time_t t0 = time(nullptr);
  for (unsigned spins = 0;; ++spins) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) return st;
    usleep(spins < 100 ? 500 : 5000);
    if (shared->executions != last) {
      last = shared->executions;
      t0 = time(nullptr);
    } else if (time(nullptr) - t0 > (time_t)stall_s) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return -1;
    }
  }
}

int main(int argc, char** argv) {
  Options opt;
  std::string replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string {
      if (++i >= argc) usage();
      return argv[i];
    };
    if (a == "--thorough") opt.thorough = true;
    else if (a == "--nofaults") opt.faults = false;
    else if (a == "--slots") opt.slots = atoi(next().c_str());
    else if (a == "--hist") opt.hist = atoi(next().c_str());
    else if (a == "--cfg") opt.cfg = next();
    else if (a == "--dump") opt.dump = next();
    else if (a == "--replay") replay = next();
    else if (a == "--list") {
      for (Adapter* x : registry()) printf("%s\n", x->c.name.c_str());
      return 0;
    } else usage();
  }
  struct rlimit rl = {8u << 20, 8u << 20};
  (void)rl;
  w::init();
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (!replay.empty()) return do_replay(replay);
  int bad = 0;
  for (Adapter* a : registry()) {
    if (!opt.cfg.empty() && a->c.name != opt.cfg) continue;
    int pfd[2];
    if (pipe(pfd)) return 2;
    // the child's report goes through a temporary file so that nothing blocks
    char tmpl[] = "/tmp/mcoutXXXXXX";
    int fd = mkstemp(tmpl);
    unlink(tmpl);
    close(pfd[0]);
    close(pfd[1]);
    int st = guarded([&] { child(a, opt, fd); }, 60);
    lseek(fd, 0, SEEK_SET);
    FILE* f = fdopen(fd, "r");
    char buf[8192];
    bool done = false;
    while (fgets(buf, sizeof buf, f)) {
      if (buf[0] == 'D') {
        done = true;
        continue;
      }
      if (buf[0] == 'V') bad = 1;
      fputs(buf, stdout);
    }
    fclose(f);
    if (!done) {  // crashed or hung
      std::string note = shared->note, earlier = shared->earlier;
      unsigned mask = shared->opmask;
      auto part = split_spec(note);
      int st2 = guarded(
          [&] {
            shared->executions = shared->executions + 1;
            _exit(do_replay(note));
          },
          120);
      bool again = st2 == -1 || !WIFEXITED(st2) || WEXITSTATUS(st2) > 4 ||
                   WEXITSTATUS(st2) == 1;
      const char* how = st == -1 ? "does not terminate" : "crashes";
      if (again && part.size() == 5) {
        printf("V\t%u\t%s\t%s\t%s\t%s\t%s\t%s%s (status %d, again %d)\n", mask,
               part[0].c_str(), part[1].c_str(), part[2].c_str(), part[3].c_str(),
               part[4].c_str(), earlier.c_str(), how, st, st2);
        bad = 1;
      } else {
        printf("E\t%s\tthe explorer died (status %d) but the execution does not when "
               "repeated (%d): %s\n",
               a->c.name.c_str(), st, st2, note.c_str());
        bad |= 2;
      }
    }
    fflush(stdout);
  }
  return bad & 2 ? 2 : bad;
}
