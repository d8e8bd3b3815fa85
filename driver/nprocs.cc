// Number of processors that std::thread::hardware_concurrency() reports;
// to be linked into the program under test.
#include <sched.h>

#include <cstdlib>

extern "C" int get_nprocs() noexcept {
  if (const char *n = getenv("FAKE_NPROCS")) return atoi(n);
  cpu_set_t set;
  CPU_ZERO(&set);
  return sched_getaffinity(0, sizeof(set), &set) == 0 ? CPU_COUNT(&set) : 1;
}
