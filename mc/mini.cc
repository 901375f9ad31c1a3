#include "mini.hpp"

extern "C" __attribute__((weak)) const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=0:print_legend=0";
}

namespace mini {
Shared* sh;
std::vector<Part>& parts() {
  static std::vector<Part> p;
  return p;
}
void at(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->note, sizeof sh->note, fmt, ap);
  va_end(ap);
}
void fail(const char* fmt, ...) {
  int n = sh->failures++;
  if (n >= 40) return;
  int k = snprintf(sh->fail[n], sizeof sh->fail[n], "%s: ", sh->note);
  if (k < 0 || k > (int)sizeof sh->fail[n] - 2) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->fail[n] + k, sizeof sh->fail[n] - k, fmt, ap);
  va_end(ap);
}

static int child(const Part& p, unsigned limit_s) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    p.f();
    _exit(0);
  }
  time_t t0 = time(nullptr);
  for (unsigned spins = 0;; ++spins) {
    int st = 0;
    if (waitpid(pid, &st, WNOHANG) == pid) return st;
    usleep(spins < 200 ? 300 : 5000);
    if (time(nullptr) - t0 > (time_t)limit_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return -1;
    }
  }
}
static std::string one_line(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\t') c = ' ';
  return s;
}
int main_(int argc, char** argv) {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string only;
  unsigned limit = 300;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--list")) {
      for (auto& p : parts()) printf("%s\n", p.name);
      return 0;
    }
    if (!strcmp(argv[i], "--part") && i + 1 < argc) only = argv[++i];
    if (!strcmp(argv[i], "--limit") && i + 1 < argc) limit = atoi(argv[++i]);
  }
  int rc = 0;
  for (auto& p : parts()) {
    if (!only.empty() && only != p.name) continue;
    memset(sh, 0, sizeof *sh);
    int st = child(p, limit);
    unsigned long s = sh->states, t = sh->transitions, e = sh->executions;
    for (int i = 0; i < sh->failures && i < 40; ++i) {
      printf("V\t%s\t%s\n", p.name, one_line(sh->fail[i]).c_str());
      rc = 1;
    }
    if (sh->failures > 40) printf("I\t%s\t%d failures in all\n", p.name, sh->failures);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || st == -1) {
      std::string note = sh->note;
      memset(sh, 0, sizeof *sh);
      int st2 = child(p, limit);  // the same again?
      bool again = st2 == -1 || !WIFEXITED(st2) || WEXITSTATUS(st2) != 0;
      if (again && note == sh->note) {
        printf("V\t%s\t%s: %s (status %d)\n", p.name, one_line(note).c_str(),
               st2 == -1 ? "does not terminate" : "crashes", st2);
        rc |= 1;
      } else {
        printf("E\t%s\tstatus %d, then %d: %s / %s\n", p.name, st, st2,
               one_line(note).c_str(), one_line(sh->note).c_str());
        rc |= 2;
      }
    }
    printf("S\t%s\t%lu\t%lu\t%lu\n", p.name, s, t, e);
    fflush(stdout);
  }
  return rc & 2 ? 2 : rc;
}
}  // namespace mini
int main(int argc, char** argv) { return mini::main_(argc, argv); }
