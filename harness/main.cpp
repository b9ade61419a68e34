// harness -DPROP=<n>: main <seed> <size> <case file>.  Exit 0: nothing found, 3: FAIL line on stdout.
#include "h.hpp"
#if PROP == 22
inline int it_(int a) { return a % 7 == 0 ? 0 : 16; }
#endif
#if PROP <= 11
#include "poly.inc"
#elif PROP <= 18
template <class P> bool eqp(const P& a, const P& b) { for (int k = 0; k < NC<P>(); k++) if (comp(a, k) != comp(b, k)) return false; return true; }
#include "rat.inc"
#else
#include "util.inc"
#endif
struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
int main(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; int size = argc > 2 ? atoi(argv[2]) : 1;
  if (argc > 3) g_fd = open(argv[3], O_CREAT | O_RDWR, 0600);
  signal(SIGALRM, onalarm); static Null* nb = new Null; std::cout.rdbuf(nb); Rng r{seed * 1000003 + PROP};
  try { prop(r, size); } catch (const std::exception& e) { fail(string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); }
  printf("OK %ld cases\n", g_cases); fflush(stdout); _exit(0);
}
