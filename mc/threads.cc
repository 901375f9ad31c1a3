// C17: a scheduler, race detector and allocator for programs compiled with
// -fsanitize=thread (which calls the __tsan_ functions defined here at every
// memory access) into a shared object, whose variables are put back before
// every run.  Real threads run one at a time; before every access to
// memory that is not the thread's own stack the scheduler may let another
// thread go on.  All schedules with at most --bound preemptions are run.
// Every run is checked for data races (vector clocks), for other state the
// threads share and change, for accesses to released memory, and for results
// different from those of the same operations run alone.
#include "threads.hpp"

#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mt {
static std::vector<Program>& programs() {
  static std::vector<Program> p;
  return p;
}
void add(const Program& p) { programs().push_back(p); }

// ---- state -----------------------------------------------------------------
const int NT = MAXT + 1;  // the last one is the main thread
const int MAIN = MAXT;
static thread_local int me = -1;      // number of this thread
static thread_local int inside = 0;   // in the harness, not the program
static thread_local uintptr_t stack_lo, stack_hi;
struct In {
  In() { ++inside; }
  ~In() { --inside; }
};

static int nthreads;
static bool private_points;  // accesses to the thread's own blocks are points too
static bool cross;           // a thread touched a block of another in some run
enum State { IDLE, READY, BLOCKED, DONE };
static State state[NT];
static const void* waits_for[NT];
static sem_t sem[NT];
static int turn;
static int cur_op[NT];
static int cur_code[NT];
static std::vector<int> script[NT];
static std::vector<long> result[NT];
static const Program* prog;

struct Step {
  int chosen;
  unsigned enabled;
  bool preempt;
};
static std::vector<int> prefix;
static std::vector<Step> trace;
static int bound = 2;
static std::vector<std::string> complaints;
static bool overrun;

static std::string op_text(int t) {
  if (t == MAIN) return "setting up";
  char b[160];
  snprintf(b, sizeof b, "thread %d in \"%s\"", t, prog->op_name(cur_code[t]));
  return b;
}
static void complain(const char* fmt, ...) {
  char b[500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (complaints.size() < 20) complaints.push_back(b);
}

// ---- vector clocks ---------------------------------------------------------
struct VC {
  unsigned c[NT];
};
static VC clk[NT];
static void join(VC& a, const VC& b) {
  for (int i = 0; i < NT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
struct Cell {
  signed char wt;  // last writer, -1: none
  bool watomic;
  unsigned wc;
  unsigned rc[NT];  // last reads
  unsigned ac[NT];  // last atomic accesses
  int wop;
  int rop[NT];
};
// One cell per byte touched.
struct Shadow {
  static const size_t N = 1 << 18;
  uintptr_t key[N];
  Cell cell[N];
  std::vector<unsigned> used;
  Cell& at(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 46;
    for (;;) {
      if (key[i] == a) return cell[i];
      if (!key[i]) break;
      i = (i + 1) & (N - 1);
    }
    key[i] = a;
    used.push_back(unsigned(i));
    Cell& c = cell[i];
    memset(&c, 0, sizeof c);
    c.wt = -1;
    if (used.size() > N / 2) overrun = true;
    return c;
  }
  void clear() {
    for (unsigned i : used) key[i] = 0;
    used.clear();
  }
};
static Shadow* shadow;
static std::unordered_map<uintptr_t, VC>* sync_;  // clocks of atomics and locks

// ---- storage ---------------------------------------------------------------
const size_t ARENA = 1 << 20;
static char* arena[NT];
static size_t top[NT];
static unsigned char* freed[NT];  // per 16 bytes: 0 never, 1 allocated, 2 released
struct Head {
  size_t n;
  size_t magic;
};
static int arena_of(uintptr_t a) {
  for (int i = 0; i < NT; ++i)
    if (a - uintptr_t(arena[i]) < ARENA) return i;
  return -1;
}
static void* get(size_t n, size_t al) {
  size_t p = (top[me] + sizeof(Head) + al - 1) & ~(al - 1);
  size_t e = (p + (n ? n : 1) + 15) & ~size_t(15);
  if (e > ARENA) {
    fprintf(stderr, "arena exhausted\n");
    _exit(3);
  }
  Head* h = reinterpret_cast<Head*>(arena[me] + p - sizeof(Head));
  h->n = n;
  h->magic = 0xA110C8ED;
  memset(arena[me] + p, 0xA5, n);
  for (size_t i = p / 16; i < e / 16; ++i) freed[me][i] = 1;
  top[me] = e;
  return arena[me] + p;
}
static long leaked;  // bytes, by the last run
static void put(void* p) {
  int ar = arena_of(uintptr_t(p));
  Head* h = static_cast<Head*>(p) - 1;
  if (h->magic != 0xA110C8ED) {
    complain("%s releases storage twice or storage that was never allocated",
             op_text(me).c_str());
    return;
  }
  h->magic = 0xDEAD;
  size_t b = size_t(static_cast<char*>(p) - arena[ar]);
  for (size_t i = b / 16; i * 16 < b + (h->n ? h->n : 1); ++i) freed[ar][i] = 2;
}

// ---- scheduling ------------------------------------------------------------
static unsigned enabled_mask() {
  unsigned m = 0;
  for (int i = 0; i < nthreads; ++i)
    if (state[i] == READY) m |= 1u << i;
  return m;
}
static void wait_turn() {
  while (sem_wait(&sem[me]) && errno == EINTR) {
  }
}
static void hand(int t) {
  turn = t;
  sem_post(&sem[t]);
}
// A choice; the current thread may or may not be able to go on.
static void choose() {
  unsigned en = enabled_mask();
  if (!en) {  // everybody is done, or nobody can go on
    for (int i = 0; i < nthreads; ++i)
      if (state[i] == BLOCKED) {
        complain("deadlock: %s waits for ever", op_text(i).c_str());
        fprintf(stderr, "deadlock\n");
        _exit(4);
      }
    hand(MAIN);
    return;
  }
  int next = -1;
  bool mine = me < nthreads && ((en >> me) & 1);
  size_t k = trace.size();
  if (k < prefix.size())
    next = prefix[k];
  else if (mine)
    next = me;
  else
    for (int i = 0; i < nthreads && next < 0; ++i)
      if ((en >> i) & 1) next = i;
  if (!((en >> next) & 1)) {
    fprintf(stderr, "the program does not repeat itself\n");
    _exit(5);
  }
  trace.push_back(Step{next, en, mine && next != me});
  if (trace.size() > 200000) {
    fprintf(stderr, "endless\n");
    _exit(6);
  }
  if (next == me) return;
  bool over = state[me] == DONE || me == MAIN;  // (the next run may start at once)
  hand(next);
  if (!over) wait_turn();
}
static void point() {
  if (nthreads > 1) choose();
}

// ---- accesses --------------------------------------------------------------
static bool ordered(int t, unsigned c) { return c <= clk[me].c[t]; }
static void race(const char* a, const char* b, int t, int op) {
  if (t == MAIN) return;
  char x[160];
  snprintf(x, sizeof x, "thread %d in \"%s\"", t, prog->op_name(op));
  complain("data race: %s of %s, %s of %s", a, op_text(me).c_str(), b, x);
}
static void access(uintptr_t a, size_t n, bool write, bool atomic) {
  if (me < 0 || inside || !n) return;
  if (a - stack_lo < stack_hi - stack_lo) return;
  In in;
  int ar = arena_of(a);
  if (me != MAIN) {
    if (ar >= 0 && ar != me && ar != MAIN) {
      if (!cross) cross = true;
    }
    if (private_points || ar != me || cross) point();
  }
  if (ar >= 0)
    for (size_t i = 0; i < n; ++i)
      if (freed[ar][(a + i - uintptr_t(arena[ar])) / 16] == 2) {
        complain("%s uses storage after its release", op_text(me).c_str());
        break;
      }
  if (me == MAIN) return;  // ordered before or after everything
  VC& my = clk[me];
  for (size_t i = 0; i < n; ++i) {
    Cell& c = shadow->at(a + i);
    bool bad = false;
    if (c.wt >= 0 && c.wt != me && !(atomic && c.watomic) && !ordered(c.wt, c.wc)) {
      race(write ? "write" : "read", "write", c.wt, c.wop);
      bad = true;
    }
    for (int t = 0; t < MAIN && !bad; ++t) {
      if (t == me) continue;
      if (write && c.rc[t] && !ordered(t, c.rc[t])) {
        race("write", "read", t, c.rop[t]);
        bad = true;
      }
      if (!atomic && write && c.ac[t] && !ordered(t, c.ac[t])) {
        race("write", "atomic access", t, c.rop[t]);
        bad = true;
      }
    }
    if (atomic && !bad) {  // no race, but state they should not share
      int t = c.wt >= 0 && c.wt != me && c.watomic ? c.wt : -1;
      for (int i = 0; i < MAIN && write; ++i)
        if (i != me && c.ac[i]) t = i;
      if (t >= 0) {
        char x[160];
        snprintf(x, sizeof x, "thread %d in \"%s\"", t, prog->op_name(c.rop[t]));
        complain("hidden shared state: atomic %s of %s, atomic access of %s",
                 write ? "write" : "read", op_text(me).c_str(), x);
        bad = true;
      }
    }
    int op = cur_code[me];
    if (atomic) c.ac[me] = my.c[me];
    if (write) {
      c.wt = static_cast<signed char>(me);
      c.wc = my.c[me];
      c.watomic = atomic;
      c.wop = op;
    } else if (!atomic) {
      c.rc[me] = my.c[me];
    }
    c.rop[me] = op;
    if (bad) break;
  }
}
static VC& clock_of(const volatile void* p) {
  auto it = sync_->find(uintptr_t(p));
  if (it != sync_->end()) return it->second;
  VC& v = (*sync_)[uintptr_t(p)];
  v = VC();
  return v;
}
static void acquire(const volatile void* p) { join(clk[me], clock_of(p)); }
static void release(const volatile void* p) {
  join(clock_of(p), clk[me]);
  ++clk[me].c[me];
}
// memory orders of the __tsan_ interface: relaxed 0, consume 1, acquire 2,
// release 3, acq_rel 4, seq_cst 5
static void atomic_access(const volatile void* p, size_t n, bool read, bool write, int mo) {
  access(uintptr_t(p), n, write, true);
  if (me < 0 || inside || me == MAIN) return;
  In in;
  if (read && mo != 0 && mo != 3) acquire(p);
  if (write && mo >= 3) release(p);
}

// ---- threads ---------------------------------------------------------------
static void stack_bounds() {
  pthread_attr_t a;
  void* lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &lo, &n);
  pthread_attr_destroy(&a);
  stack_lo = uintptr_t(lo);
  stack_hi = stack_lo + n;
}
static void fresh_thread();
static void body(int t) {
  me = t;
  inside = 1;
  stack_bounds();
  for (;;) {
    wait_turn();
    fresh_thread();
    for (size_t i = 0; i < script[t].size(); ++i) {
      cur_op[t] = int(i);
      cur_code[t] = script[t][i];
      inside = 0;
      long r = prog->op(t, script[t][i]);
      inside = 1;
      result[t].push_back(r);
    }
    state[t] = DONE;
    choose();
  }
}
// The variables of the program: its writable segments, and its thread-local ones.
struct Image {
  char* at;
  size_t n;
  char* copy;
};
static std::vector<Image> images;
static std::string so_path;
static const void* tls_image;
static size_t tls_init, tls_size, tls_mod;
static int find_images(dl_phdr_info* i, size_t, void*) {
  if (so_path != i->dlpi_name) return 0;
  uintptr_t relro_lo = 0, relro_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr)& h = i->dlpi_phdr[k];
    if (h.p_type == PT_GNU_RELRO) {
      relro_lo = i->dlpi_addr + h.p_vaddr;
      relro_hi = (relro_lo + h.p_memsz + 4095) & ~uintptr_t(4095);
    }
    if (h.p_type == PT_TLS) {
      tls_image = reinterpret_cast<void*>(i->dlpi_addr + h.p_vaddr);
      tls_init = h.p_filesz;
      tls_size = h.p_memsz;
    }
  }
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr)& h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
    if (lo < relro_hi && hi > relro_lo) lo = relro_hi;
    if (lo >= hi) continue;
    images.push_back(Image{reinterpret_cast<char*>(lo), hi - lo, nullptr});
  }
  return 1;
}
static int reset_tls(dl_phdr_info* i, size_t, void*) {
  if (so_path != i->dlpi_name) return 0;
  if (i->dlpi_tls_data) {
    char* p = static_cast<char*>(i->dlpi_tls_data);
    memcpy(p, tls_image, tls_init);
    memset(p + tls_init, 0, tls_size - tls_init);
  }
  return 1;
}
static void fresh_variables() {
  for (auto& i : images) memcpy(i.at, i.copy, i.n);
}
static void fresh_thread() {
  if (tls_size) dl_iterate_phdr(reset_tls, nullptr);
}

// One run with the present prefix.
static void run_once() {
  fresh_variables();
  fresh_thread();
  shadow->clear();
  sync_->clear();
  trace.clear();
  for (int i = 0; i < NT; ++i) {
    memset(&clk[i], 0, sizeof clk[i]);
    clk[i].c[i] = 1;
    if (top[i]) memset(freed[i], 0, top[i] / 16 + 1);
    top[i] = 0;
    result[i].clear();
    state[i] = i < nthreads && !script[i].empty() ? READY : DONE;
  }
  inside = 0;
  prog->setup(nthreads);
  inside = 1;
  unsigned en = enabled_mask();
  if (en) {
    choose();
    wait_turn();
  }
  inside = 0;
  prog->teardown();
  inside = 1;
  leaked = 0;
  for (int i = 0; i < NT; ++i)
    for (size_t b = 0; b < top[i] / 16; ++b)
      if (freed[i][b] == 1) leaked += 16;
}

static unsigned long n_schedules, n_steps, n_programs;
static std::string script_text() {
  std::string s;
  for (int t = 0; t < nthreads; ++t) {
    if (t) s += " || ";
    for (size_t i = 0; i < script[t].size(); ++i)
      s += (i ? "; " : "") + std::string(prog->op_name(script[t][i]));
  }
  return s;
}
static std::string schedule_text() {
  std::string s;
  for (size_t i = 0; i < trace.size();) {
    size_t j = i;
    while (j < trace.size() && trace[j].chosen == trace[i].chosen) ++j;
    s += (i ? "," : "") + std::to_string(trace[i].chosen) + "x" + std::to_string(j - i);
    i = j;
  }
  return s;
}
static int failures;
static void report() {
  static std::string last;
  for (auto& c : complaints) {
    if (c == last || failures >= 12) continue;
    last = c;
    ++failures;
    printf("V\t%s\t%s [%s, schedule %s]\n", prog->config, c.c_str(), script_text().c_str(),
           schedule_text().c_str());
    fflush(stdout);
  }
  complaints.clear();
}
static std::vector<long> alone[NT];
static long alone_leaked[NT];
static void explore() {
  ++n_programs;
  // each thread alone
  std::vector<int> all[NT];
  for (int i = 0; i < NT; ++i) all[i] = script[i];
  int n = nthreads;
  for (int t = 0; t < n; ++t) {
    for (int i = 0; i < NT; ++i) script[i] = i == t ? all[i] : std::vector<int>();
    prefix.clear();
    run_once();
    alone[t] = result[t];
    alone_leaked[t] = leaked;
    if (!complaints.empty()) {
      report();
    }
  }
  for (int i = 0; i < NT; ++i) script[i] = all[i];
  long base = 0;
  for (int i = 0; i < NT; ++i) script[i].clear();
  run_once();
  base = leaked;
  for (int i = 0; i < NT; ++i) script[i] = all[i];
  long may_leak = base;
  for (int t = 0; t < n; ++t) may_leak += alone_leaked[t] - base;
  cross = false;
again:
  bool was = cross;
  std::vector<std::vector<int>> work(1);
  while (!work.empty()) {
    prefix = work.back();
    work.pop_back();
    run_once();
    ++n_schedules;
    n_steps += trace.size();
    for (int t = 0; t < n; ++t)
      if (result[t] != alone[t])
        for (size_t i = 0; i < script[t].size(); ++i)
          if (result[t][i] != alone[t][i])
            complain("thread %d: \"%s\" gives %ld, alone it gives %ld", t,
                     prog->op_name(script[t][i]), result[t][i], alone[t][i]);
    if (leaked > may_leak) complain("storage is not released");
    if (!complaints.empty()) {
      report();
      return;
    }
    if (overrun) {
      fprintf(stderr, "shadow memory exhausted\n");
      _exit(7);
    }
    if (cross && !was) goto again;  // blocks are shared: all accesses are points
    int cost = 0;
    std::vector<int> pre;
    for (size_t i = 0; i < trace.size(); ++i) {
      if (i >= prefix.size()) {
        bool can = i > 0 && ((trace[i].enabled >> trace[i - 1].chosen) & 1);
        for (int t = 0; t < n; ++t) {
          if (!((trace[i].enabled >> t) & 1) || t == trace[i].chosen) continue;
          int c = cost + (can && t != trace[i - 1].chosen ? 1 : 0);
          if (c > bound) continue;
          std::vector<int> w = pre;
          w.push_back(t);
          work.push_back(w);
        }
      }
      cost += trace[i].preempt;
      pre.push_back(trace[i].chosen);
    }
  }
}
static int main_(int argc, char** argv) {
  int len0 = 1, len1 = 1, threads = 2;
  std::string only;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    if (a == "--program") so_path = argv[++i];
    if (a == "--config") only = argv[++i];
    if (a == "--bound") bound = atoi(argv[++i]);
    if (a == "--len") len0 = atoi(argv[++i]), len1 = atoi(argv[++i]);
    if (a == "--threads") threads = atoi(argv[++i]);
    if (a == "--private") private_points = true;
  }
  if (!dlopen(so_path.c_str(), RTLD_NOW | RTLD_LOCAL)) {
    fprintf(stderr, "%s\n", dlerror());
    return 2;
  }
  if (list) {
    for (auto& p : programs()) printf("%s\n", p.config);
    return 0;
  }
  me = MAIN;
  inside = 1;
  stack_bounds();
  shadow = static_cast<Shadow*>(mmap(nullptr, sizeof(Shadow), PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  new (&shadow->used) std::vector<unsigned>();
  sync_ = new std::unordered_map<uintptr_t, VC>();
  for (int i = 0; i < NT; ++i) {
    sem_init(&sem[i], 0, 0);
    arena[i] = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    freed[i] = static_cast<unsigned char*>(calloc(ARENA / 16 + 16, 1));
  }
  dl_iterate_phdr(find_images, nullptr);
  for (auto& i : images) {
    i.copy = static_cast<char*>(malloc(i.n));
    memcpy(i.copy, i.at, i.n);
  }
  for (int i = 0; i < MAXT; ++i) std::thread(body, i).detach();
  for (auto& p : programs()) {
    if (!only.empty() && only != p.config) continue;
    prog = &p;
    n_schedules = n_steps = n_programs = 0;
    nthreads = threads;
    int lens[3] = {len0, len1, 1};
    // all operation sequences; of symmetric ones only one
    long count[3] = {1, 1, 1};
    for (int t = 0; t < threads; ++t)
      for (int i = 0; i < lens[t]; ++i) count[t] *= p.nops;
    for (long a = 0; a < count[0] && failures < 12; ++a)
      for (long b = (len0 == len1 ? a : 0); b < count[1] && failures < 12; ++b)
        for (long c = (threads == 3 ? b : 0); c < count[2] && failures < 12; ++c) {
          long x[3] = {a, b, c};
          for (int t = 0; t < NT; ++t) script[t].clear();
          for (int t = 0; t < threads; ++t)
            for (int i = 0; i < lens[t]; ++i) {
              script[t].push_back(int(x[t] % p.nops));
              x[t] /= p.nops;
            }
          explore();
        }
    printf("S\t%s\t%lu\t%lu\t%lu\n", p.config, n_programs, n_steps, n_schedules);
    fflush(stdout);
  }
  _exit(failures ? 1 : 0);
}
}  // namespace mt

int main(int argc, char** argv) { return mt::main_(argc, argv); }

// ---- storage the program asks for -------------------------------------------
static void* new_(size_t n, size_t al) {
  if (mt::me >= 0 && !mt::inside) {
    mt::In in;
    return mt::get(n, al < 16 ? 16 : al);
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void delete_(void* p) {
  if (!p) return;
  if (mt::arena[0] && mt::arena_of(uintptr_t(p)) >= 0) {
    // (a write: no access may be concurrent with the release)
    size_t n = (static_cast<mt::Head*>(p) - 1)->n;
    mt::access(uintptr_t(p), n, true, false);
    mt::In in;
    mt::put(p);
    return;
  }
  free(p);
}
void* operator new(size_t n) { return new_(n, 16); }
void* operator new[](size_t n) { return new_(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return new_(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return new_(n, size_t(a)); }
void operator delete(void* p) noexcept { delete_(p); }
void operator delete[](void* p) noexcept { delete_(p); }
void operator delete(void* p, size_t) noexcept { delete_(p); }
void operator delete[](void* p, size_t) noexcept { delete_(p); }
void operator delete(void* p, std::align_val_t) noexcept { delete_(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_(p); }

extern "C" {  // linked with --wrap
void* __wrap_malloc(size_t n) { return new_(n, 16); }
void* __wrap_calloc(size_t n, size_t m) { return memset(new_(n * m, 16), 0, n * m); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return new_(n, a); }
void __wrap_free(void* p) { delete_(p); }
}

// ---- locks and guards -------------------------------------------------------
static bool ours() { return mt::me >= 0 && !mt::inside; }
static std::unordered_map<uintptr_t, int>& owners() {
  static auto* m = new std::unordered_map<uintptr_t, int>();
  return *m;
}
static void lock_(const void* p) {
  mt::In in;
  if (mt::me != mt::MAIN) mt::point();
  auto& o = owners();
  while (o.count(uintptr_t(p)) && o[uintptr_t(p)] != mt::me) {
    mt::state[mt::me] = mt::BLOCKED;
    mt::waits_for[mt::me] = p;
    mt::choose();
  }
  o[uintptr_t(p)] = mt::me;
  mt::acquire(p);
}
static void unlock_(const void* p) {
  mt::In in;
  mt::release(p);
  owners().erase(uintptr_t(p));
  for (int i = 0; i < mt::nthreads; ++i)
    if (mt::state[i] == mt::BLOCKED && mt::waits_for[i] == p) mt::state[i] = mt::READY;
}
extern "C" {
int __pthread_mutex_lock(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (ours()) {
    lock_(m);
    return 0;
  }
  (void)real;
  // harness use: a plain spin on the word
  while (__atomic_exchange_n(reinterpret_cast<int*>(m), 1, __ATOMIC_ACQUIRE)) usleep(10);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (ours()) {
    if (owners().count(uintptr_t(m))) return EBUSY;
    lock_(m);
    return 0;
  }
  return __atomic_exchange_n(reinterpret_cast<int*>(m), 1, __ATOMIC_ACQUIRE) ? EBUSY : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (ours()) {
    unlock_(m);
    return 0;
  }
  __atomic_store_n(reinterpret_cast<int*>(m), 0, __ATOMIC_RELEASE);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!ours()) {
    return !*done;
  }
  lock_(g);
  if (*done) {
    unlock_(g);
    return 0;
  }
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  if (ours()) unlock_(g);
}
void __cxa_guard_abort(uint64_t* g) {
  if (ours()) unlock_(g);
}

// ---- the instrumentation's interface ---------------------------------------
using mt::access;
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                          \
  void __tsan_read##N(void* p) { access(uintptr_t(p), N, false, false); }              \
  void __tsan_write##N(void* p) { access(uintptr_t(p), N, true, false); }              \
  void __tsan_unaligned_read##N(void* p) { access(uintptr_t(p), N, false, false); }    \
  void __tsan_unaligned_write##N(void* p) { access(uintptr_t(p), N, true, false); }    \
  void __tsan_volatile_read##N(void* p) { access(uintptr_t(p), N, false, false); }     \
  void __tsan_volatile_write##N(void* p) { access(uintptr_t(p), N, true, false); }     \
  void __tsan_unaligned_volatile_read##N(void* p) { access(uintptr_t(p), N, false, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(uintptr_t(p), N, true, false); } \
  void __tsan_read_write##N(void* p) { access(uintptr_t(p), N, true, false); }         \
  void __tsan_unaligned_read_write##N(void* p) { access(uintptr_t(p), N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { access(uintptr_t(p), size_t(n), false, false); }
void __tsan_write_range(void* p, long n) { access(uintptr_t(p), size_t(n), true, false); }
void __tsan_vptr_read(void** p) { access(uintptr_t(p), 8, false, false); }
void __tsan_vptr_update(void** p, void* v) { access(uintptr_t(p), 8, *p != v, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access(uintptr_t(s), n, false, false);
  access(uintptr_t(d), n, true, false);
  return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) {
  access(uintptr_t(d), n, true, false);
  return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(BITS, T)                                                                     \
  T __tsan_atomic##BITS##_load(const volatile T* p, int mo) {                           \
    mt::atomic_access(p, sizeof(T), true, false, mo);                                   \
    return *p;                                                                          \
  }                                                                                     \
  void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) {                        \
    mt::atomic_access(p, sizeof(T), false, true, mo);                                   \
    *p = v;                                                                             \
  }                                                                                     \
  T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) {                        \
    mt::atomic_access(p, sizeof(T), true, true, mo);                                    \
    T o = *p;                                                                           \
    *p = v;                                                                             \
    return o;                                                                           \
  }                                                                                     \
  AOP(BITS, T, add, o + v) AOP(BITS, T, sub, o - v) AOP(BITS, T, and, o & v)             \
  AOP(BITS, T, or, o | v) AOP(BITS, T, xor, o ^ v) AOP(BITS, T, nand, ~(o & v))          \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo,   \
                                                    int fmo) {                          \
    bool ok = *p == *e;                                                                 \
    mt::atomic_access(p, sizeof(T), true, true, mo > fmo ? mo : fmo);                   \
    ok = *p == *e;                                                                      \
    if (ok)                                                                             \
      *p = v;                                                                           \
    else                                                                                \
      *e = *p;                                                                          \
    return ok;                                                                          \
  }                                                                                     \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo,     \
                                                  int fmo) {                            \
    return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo);             \
  }                                                                                     \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
    __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo);                   \
    return e;                                                                           \
  }
#define AOP(BITS, T, NAME, EXPR)                                                        \
  T __tsan_atomic##BITS##_fetch_##NAME(volatile T* p, T v, int mo) {                    \
    mt::atomic_access(p, sizeof(T), true, true, mo);                                    \
    T o = *p;                                                                           \
    *p = static_cast<T>(EXPR);                                                          \
    return o;                                                                           \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
AT(128, unsigned __int128)
}
