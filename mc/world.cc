#include "world.hpp"

#include <sys/mman.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

namespace w {

const char* const ev_name[E_N] = {
    "alloc",  "dealloc", "default-ctor", "value-ctor", "copy-ctor",
    "move-ctor", "copy-assign", "move-assign", "value-assign", "dtor",
    "compare", "hash", "swap"};

Counters cnt;
std::vector<Error> errors;
Mask op_mask;
int fault_at, fault_kind, fault_serial;
bool in_op;
int internal;
std::vector<Block> blocks;
std::vector<AlCall> al_calls;

static std::vector<Live> live;
static int fallible_seen, serial_counter;

static const std::size_t ARENA = std::size_t(64) << 20;
static char* arena;
static std::size_t used;

void init() {
  if (arena) return;
  arena = static_cast<char*>(mmap(reinterpret_cast<void*>(0x510000000000), ARENA,
                                  PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (arena == MAP_FAILED) {
    perror("mmap");
    _Exit(99);
  }
  POISON(arena, ARENA);
  blocks.reserve(64);
  live.reserve(64);
}

unsigned epoch = 0;

void reset() {
  ++epoch;
  if (used) {
    UNPOISON(arena, used);
    memset(arena, 0xDD, used);
    POISON(arena, used);
  }
  used = 0;
  blocks.clear();
  live.clear();
  errors.clear();
  fault_at = 0;
  fault_serial = 0;
  in_op = false;
  op_mask = 0;
  al_calls.clear();
  memset(&cnt, 0, sizeof cnt);
}

void error(Mask m, const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  Internal g;
  if (errors.size() < 32) errors.push_back(Error{m | op_mask, b});
}

void begin_op() {
  memset(&cnt, 0, sizeof cnt);
  fallible_seen = 0;
  fault_serial = 0;
  for (auto& b : blocks) b.in_window = false;
  al_calls.clear();
  in_op = true;
}
void end_op() { in_op = false; }

void fallible(Ev kind) {
  if (!in_op) return;
  ++cnt.fallible;
  cnt.fallible_mask |= 1u << kind;
  if (++fallible_seen == fault_at) {
    int s = fault_serial = ++serial_counter;
    switch (fault_kind) {
      case 0: {
        Fault f;
        f.serial = s;
        throw f;
      }
      case 1: {
        FaultBA f;
        f.serial = s;
        throw f;
      }
      default: {
        ++internal;
        FaultRE f;
        --internal;
        f.serial = s;
        throw f;
      }
    }
  }
}

void event(Ev e, int type) {
  if (in_op) ++cnt.ev[e][type];
}

void* arena_alloc(int al, int cls, std::size_t n, std::size_t bytes,
                  std::size_t align, const void* tag) {
  fallible(E_ALLOC);
  if (in_op) {
    ++cnt.ev[E_ALLOC][0];
    if (al >= 0 && al < MAXAL) ++cnt.al_alloc[al];
  }
  if (align < 16) align = 16;
  std::size_t at = used + 64;  // red zone
  // keep the address only as aligned as asked for, so that an under-aligned
  // request shows
  at = (at + align - 1) / align * align;
  if (((std::uintptr_t)(arena + at) & (2 * align - 1)) == 0) at += align;
  if (at + bytes + 64 > ARENA) {
    fprintf(stderr, "arena exhausted\n");
    _Exit(99);
  }
  used = at + bytes;
  char* p = arena + at;
  UNPOISON(p, bytes);
  memset(p, 0xAA, bytes);
  Block b;
  b.b = (std::uintptr_t)p;
  b.bytes = bytes;
  b.n = n;
  b.tag = tag;
  b.al = al;
  b.cls = cls;
  b.live = true;
  b.in_window = in_op;
  Internal g;
  blocks.push_back(b);
  return p;
}

void arena_dealloc(int al, int cls, void* p, std::size_t n, std::size_t bytes,
                   const void* tag) {
  if (in_op) {
    ++cnt.ev[E_DEALLOC][0];
    if (al >= 0 && al < MAXAL) ++cnt.al_dealloc[al];
  }
  for (auto it = blocks.rbegin(); it != blocks.rend(); ++it) {
    Block& b = *it;
    if (b.b != (std::uintptr_t)p) continue;
    if (!b.live) {
      error(P(2), "block deallocated twice");
      return;
    }
    if (b.cls != cls)
      error(P(2) | P(6),
            "block obtained from allocator %d returned to unequal allocator %d",
            b.al, al);
    if (b.n != n && n != std::size_t(-1))
      error(P(2), "block allocated with n=%zu deallocated with n=%zu", b.n, n);
    if (b.bytes != bytes && bytes != std::size_t(-1))
      error(P(2), "block allocated with %zu bytes deallocated with %zu", b.bytes,
            bytes);
    if (b.tag && tag && b.tag != tag)
      error(P(2), "block deallocated as another type than it was allocated as");
    for (auto& l : live)
      if (l.a >= b.b && l.a < b.b + b.bytes)
        error(P(2), "storage deallocated while an object of type %d in it is live",
              l.type);
    b.live = false;
    memset(p, 0xDD, b.bytes);
    POISON(p, b.bytes);
    return;
  }
  error(P(2), "deallocate called with a pointer that was never allocated");
}

void al_call(bool construct, int al, const void* p) {
  Internal g;
  if (in_op) al_calls.push_back(AlCall{construct, al, p});
}

bool in_arena(const void* p) {
  return (std::uintptr_t)p - (std::uintptr_t)arena < ARENA && arena;
}

Block* block_of(const void* p) {
  auto a = (std::uintptr_t)p;
  for (auto& b : blocks)
    if (b.live && a >= b.b && a < b.b + b.bytes) return &b;
  return nullptr;
}
int live_blocks() {
  int n = 0;
  for (auto& b : blocks) n += b.live;
  return n;
}
int live_objects() { return (int)live.size(); }

void born(const void* p, int type, std::size_t size, std::size_t align, Ev how) {
  auto a = (std::uintptr_t)p;
  event(how, type);
  if (in_arena(p)) {
    Block* b = block_of(p);
    if (!b)
      error(P(2), "object of type %d constructed outside any live block", type);
    else if (a + size > b->b + b->bytes && size > 1)
      error(P(2), "object of type %d constructed beyond the end of its block", type);
  }
  if (a % align)
    error(P(2) | P(10), "object of type %d constructed at a misaligned address", type);
  for (auto& l : live)
    if (l.a == a && l.type == type)
      error(P(2), "object of type %d constructed over a live one", type);
  Internal g;
  live.push_back(Live{a, size, type});
}

void dead(const void* p, int type) {
  event(E_DTOR, type);
  for (std::size_t i = live.size(); i-- > 0;)
    if (live[i].a == (std::uintptr_t)p && live[i].type == type) {
      live.erase(live.begin() + i);
      return;
    }
  error(P(2), "destructor run on an object of type %d that is not live", type);
}

bool is_live(const void* p, int type) {
  for (auto& l : live)
    if (l.a == (std::uintptr_t)p && l.type == type) return true;
  return false;
}

void use(const void* p, int type) {
  if (!is_live(p, type))
    error(P(2), "object of type %d used outside its lifetime", type);
}

void Shape::add(const void* p, std::size_t n) {
  auto a = (std::uintptr_t)p, e = a + n;
  while (a < e) {
    bool masked = false;
    if (in_arena((const void*)a))
      for (auto& l : live)
        if (a >= l.a && a < l.a + l.size) {
          a = l.a + l.size;
          masked = true;
          break;
        }
    if (masked) continue;
    std::uintptr_t word;
    if (a % sizeof word || a + sizeof word > e) {
      k += *(const char*)a;
      ++a;
      continue;
    }
    memcpy(&word, (const void*)a, sizeof word);
    if (in_arena((const void*)word)) {
      const Block* b = block_of((const void*)word);
      if (!b) {
        k += "<gone>";
      } else {
        std::size_t i = 0;
        while (i < met.size() && met[i] != b) ++i;
        if (i == met.size()) met.push_back(b);
        k += "<" + std::to_string(i) + "+" + std::to_string(word - b->b) + ">";
      }
    } else {
      k.append((const char*)&word, sizeof word);
    }
    a += sizeof word;
  }
}
void Shape::rest() {
  std::size_t i = 0;
  for (;;) {
    for (; i < met.size(); ++i) {
      k += "|";
      add((const void*)met[i]->b, met[i]->bytes);
    }
    for (auto& b : blocks) {
      if (!b.live) continue;
      bool there = false;
      for (auto m : met) there |= m == &b;
      if (!there) {
        met.push_back(&b);
        break;
      }
    }
    if (i == met.size()) return;
  }
}

}  // namespace w

// ---- global new/delete: the library's when inside an operation --------------
namespace {
void* raw_new(std::size_t n, std::size_t al) {
  if (w::in_op && !w::internal)
    return w::arena_alloc(0, 0, 1, n, al, nullptr);
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) _Exit(99);
  return p;
}
void raw_delete(void* p, std::size_t n) noexcept {
  if (!p) return;
  if (w::in_arena(p))
    w::arena_dealloc(0, 0, p, 1, n, nullptr);
  else
    free(p);
}
}  // namespace
void* operator new(std::size_t n) { return raw_new(n, 16); }
void* operator new[](std::size_t n) { return raw_new(n, 16); }
void operator delete(void* p) noexcept { raw_delete(p, std::size_t(-1)); }
void operator delete[](void* p) noexcept { raw_delete(p, std::size_t(-1)); }
void operator delete(void* p, std::size_t n) noexcept { raw_delete(p, n); }
void operator delete[](void* p, std::size_t n) noexcept { raw_delete(p, n); }
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return raw_new(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return raw_new(n, std::size_t(a)); }
void operator delete(void* p, std::align_val_t) noexcept { raw_delete(p, std::size_t(-1)); }
void operator delete[](void* p, std::align_val_t) noexcept { raw_delete(p, std::size_t(-1)); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { raw_delete(p, n); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { raw_delete(p, n); }
#endif

#ifdef MC_ASAN
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
#endif
