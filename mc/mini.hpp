// A small exhaustive harness: enumerates its cases, names each before running
// it, compares with what is expected, and survives crashes of the code under
// test (each part runs in a child process; a crash is a failure of the case
// under way).  C++14.
#ifndef MC_MINI_HPP
#define MC_MINI_HPP
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mini {

struct Shared {
  unsigned long states, transitions, executions;
  int failures;
  char note[600];
  char fail[40][700];
};
extern Shared* sh;

// Names the case about to run.
void at(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// The case does not behave as it should.
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MINI_CHECK(cond)                                   \
  do {                                                     \
    ++mini::sh->executions;                                \
    if (!(cond)) mini::fail("expected %s", #cond);         \
  } while (0)
#define MINI_CHECKF(cond, ...)                             \
  do {                                                     \
    ++mini::sh->executions;                                \
    if (!(cond)) mini::fail(__VA_ARGS__);                  \
  } while (0)
inline void state() { ++sh->states; }
inline void step() { ++sh->transitions; }

struct Part {
  const char* name;
  void (*f)();
};
std::vector<Part>& parts();
struct Reg {
  Reg(const char* n, void (*f)()) { parts().push_back(Part{n, f}); }
};
#define MINI_CAT_(a, b) a##b
#define MINI_CAT(a, b) MINI_CAT_(a, b)
#define MINI_PART(NAME) MINI_PART_(NAME, MINI_CAT(mini_part_, __COUNTER__))
#define MINI_PART_(NAME, FN)                               \
  static void FN();                                        \
  static mini::Reg MINI_CAT(FN, _r)(NAME, FN);             \
  static void FN()

int main_(int argc, char** argv);
}  // namespace mini
#endif
