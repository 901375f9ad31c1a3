// C17: what a program under the controlled scheduler consists of.  C++14.
#ifndef MC_THREADS_HPP
#define MC_THREADS_HPP
namespace mt {
const int MAXT = 3;
struct Program {
  const char* config;
  int nops;
  const char* (*op_name)(int);
  bool (*needs_value)(int);  // unused by the scheduler; for listing
  void (*setup)(int threads);   // by the main thread: shared and private handles
  long (*op)(int thread, int code);
  void (*teardown)();
};
void add(const Program&);
struct Reg {
  Reg(const Program& p) { add(p); }
};
}  // namespace mt
#endif
