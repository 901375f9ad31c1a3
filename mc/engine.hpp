// Explicit-state explorer for handles (indirect / polymorphic): operations,
// reference model, adapter interface.  Knows nothing of the library.
#ifndef MC_ENGINE_HPP
#define MC_ENGINE_HPP
#include <cstring>
#include <string>
#include <vector>

#include "world.hpp"

const int MAXSLOT = 3;
const int MAXT = 7;  // dynamic types per family (1-based ids)

enum Code : unsigned char {
  // construction of slot d (which is absent); *_A: allocator-extended
  C_DEF, C_DEF_A,
  C_VAL_L, C_VAL_CL, C_VAL_R, C_VAL_L_A, C_VAL_CL_A, C_VAL_R_A,
  C_INP, C_INP_A, C_INP2, C_INP2_A, C_INPT, C_INPT_A,
  C_LIST, C_LIST_A, C_LIST2, C_LIST2_A,
  C_COPY, C_COPY_NC, C_MOVE, C_CMOVE, C_COPY_A, C_MOVE_A, C_CMOVE_A,
  // destruction
  C_DTOR,
  // assignment
  C_ASG_C, C_ASG_NC, C_ASG_M, C_ASG_CM,
  C_ASG_VL, C_ASG_VCL, C_ASG_VR, C_ASG_ARG,
  C_OWN_L, C_OWN_CL, C_OWN_R, C_OWN_RR,
  // swap
  C_SWAP_M, C_SWAP_F,
  // mutation through the handle
  C_MUT, C_MUTP,
  // observation
  C_CMP, C_CMPV, C_HASH,
  C_NCODE
};
extern const char* const code_name[C_NCODE];

struct Op {
  unsigned char code, d, s, a, v, t;
  unsigned char fault = 0, kind = 0;  // in a history: the event that threw
};

struct Cfg {
  std::string name;    // unique over the whole build
  std::string cname;   // name shared by the dialects of the same configuration
  bool poly = false;
  bool cxx20 = false;
  bool cca = false, cma = false, cs = false, ae = false;
  int soc = 0;         // 0 same instance, 3 instance 3, 1 the equal other one
  int def_al = 0;      // instance of a default-constructed allocator; -1 none
  int nal = 1;         // instances 0..nal-1 are used
  bool construct = false;  // allocator has construct()/destroy()
  bool tracked = true;
  bool has_default = true, copyable = true, copyasg = true, moveasg = true,
       has_move = true, nt_move = false, compares = true, hashes = true;
  int ntypes = 1;            // polymorphic: dynamic types 1..ntypes (some may be
  bool concrete[MAXT + 1];   //   abstract)
  bool tmove[MAXT + 1];      // rvalue construction moves (else copies)
  int parent[MAXT + 1];      // base class whose constructor also runs; 0 none
  Cfg() {
    for (int i = 0; i <= MAXT; ++i) concrete[i] = tmove[i] = true, parent[i] = 0;
  }
};

struct Obs {
  bool vl;
  int al, ty, v;
  const void* addr;  // of the T the handle gives
  const void* most;  // of the most derived object
};
struct Res {
  int noexc;       // declared noexcept? -1 not asked
  int argv;        // value of the argument afterwards, -1 if none
  bool ret_ok;     // assignment returned *this
  unsigned bits;   // comparison results
  std::size_t hash;
};

struct Adapter {
  Cfg c;
  Res r;
  virtual ~Adapter() {}
  virtual bool can(int code, int t) const = 0;
  virtual void exec(const Op& o) = 0;   // throws what the operation throws
  virtual Obs obs(int slot) = 0;        // reports inconsistencies itself
  virtual int noexc(int code) const = 0;
  // the bytes of a handle, for telling apart states that look alike
  virtual const unsigned char* bytes(int slot, std::size_t& n) = 0;
};
std::vector<Adapter*>& registry();
struct Reg {
  explicit Reg(Adapter* a) { registry().push_back(a); }
};

// noexcept table entries beyond operations
enum NoexcItem {
  N_DEREF_CL, N_DEREF_L, N_DEREF_CR, N_DEREF_R, N_ARROW_C, N_ARROW,
  N_VALUELESS, N_GETAL, N_DTOR, N_MOVECTOR, N_MOVECTOR_A, N_ASG_M, N_SWAP_M,
  N_SWAP_F, N_NITEM
};
extern const char* const noexc_name[N_NITEM];

#endif
