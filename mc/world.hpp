// The "world": everything the library under test can touch, owned by the
// harness.  Storage comes from an arena that never reuses an address within
// one execution; every block and every instrumented object is in a ledger;
// every potentially throwing event can be made to throw.  C++14, no library
// header under test is included here.
#ifndef MC_WORLD_HPP
#define MC_WORLD_HPP

#include <cstddef>
#include <cstdint>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace w {

// ---- events ---------------------------------------------------------------
enum Ev : int {
  E_ALLOC,    // allocator allocate
  E_DEALLOC,  // allocator deallocate
  E_DEF,      // default construction of an instrumented object
  E_VAL,      // construction from arguments
  E_COPY,     // copy construction
  E_MOVE,     // move construction
  E_ASGC,     // copy assignment
  E_ASGM,     // move assignment
  E_ASGV,     // assignment from another type
  E_DTOR,
  E_CMP,
  E_HASH,
  E_SWAP,     // swap of instrumented values
  E_N
};
extern const char* const ev_name[E_N];

const int MAXTYPE = 16;
const int MAXAL = 8;
const int MOVED = 7;    // value of a moved-from object
const int EXT_ID = -1;  // "allocator" of objects outside the arena

struct Counters {
  int ev[E_N][MAXTYPE];
  int al_alloc[MAXAL];
  int al_dealloc[MAXAL];
  int fallible;           // potentially throwing events seen
  unsigned fallible_mask; // which kinds
};
extern Counters cnt;  // counts inside the current window

// ---- errors ---------------------------------------------------------------
// Properties an error speaks about, as a bit set (bit n = property Cnn).
typedef std::uint32_t Mask;
constexpr Mask P(int n) { return Mask(1) << n; }
struct Error {
  Mask mask;
  std::string text;
};
extern std::vector<Error> errors;
void error(Mask m, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern Mask op_mask;  // properties the operation under way is about

// ---- faults ---------------------------------------------------------------
struct Fault {  // deliberately not derived from std::exception
  int serial;
};
struct FaultBA : std::bad_alloc {
  int serial;
};
struct FaultRE : std::runtime_error {
  int serial;
  FaultRE() : std::runtime_error("fault"), serial(0) {}
};
extern int fault_at;      // 0: none; k: the k-th fallible event throws
extern int fault_kind;    // 0 Fault, 1 FaultBA, 2 FaultRE
extern int fault_serial;  // of the exception thrown last; 0 if none
void fallible(Ev kind);   // may throw

// ---- windows --------------------------------------------------------------
extern bool in_op;
extern int internal;  // inside the harness: global new is not the library's
struct Internal {
  Internal() { ++internal; }
  ~Internal() { --internal; }
};
void begin_op();  // zero the counters, arm the fault
void end_op();
struct Window {
  Window() { begin_op(); }
  ~Window() { end_op(); }
};

// ---- storage --------------------------------------------------------------
struct Block {
  std::uintptr_t b;
  std::size_t bytes;
  std::size_t n;
  const void* tag;  // identity of the element type; null: unknown
  int al;           // allocator instance it came from
  int cls;          // equality class of that allocator
  bool live;
  bool in_window;   // allocated in the current window
};
extern std::vector<Block> blocks;
void* arena_alloc(int al, int cls, std::size_t n, std::size_t bytes,
                  std::size_t align, const void* tag);
void arena_dealloc(int al, int cls, void* p, std::size_t n, std::size_t bytes,
                   const void* tag);
bool in_arena(const void* p);
Block* block_of(const void* p);  // live block containing p, or null
int live_blocks();
int live_objects();

// ---- objects --------------------------------------------------------------
struct Live {
  std::uintptr_t a;
  std::size_t size;
  int type;
};
void born(const void* p, int type, std::size_t size, std::size_t align, Ev how);
void dead(const void* p, int type);
bool is_live(const void* p, int type);
void use(const void* p, int type);  // reading/writing an object
void event(Ev e, int type);
// Appends n bytes at p to k, in a form that does not depend on addresses:
// pointers into the arena are numbered as they are met, tracked objects are
// left out.
struct Shape {
  std::string k;
  std::vector<const Block*> met;
  void add(const void* p, std::size_t n);
  void rest();  // everything in live blocks, those met first
};

// calls of an allocator's construct()/destroy() in the current window
struct AlCall {
  bool construct;
  int al;
  const void* p;
};
extern std::vector<AlCall> al_calls;
void al_call(bool construct, int al, const void* p);

void reset();  // start a new execution
extern unsigned epoch;  // number of it
void init();

template <class T>
struct tag_of {
  static char c;
};
template <class T>
char tag_of<T>::c;

}  // namespace w

#endif
