/* Shared by the replay drivers: reporting, crash and hang capture, random numbers. */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
static char rp_input[4096]; 
static int rp_fd = 1;
static void rp_out (const char *kind)
{
  char b[4600]; int n = snprintf (b, sizeof b, "\nFAIL: %s; input: %s\n", kind, rp_input);
  if (write (rp_fd, b, n) < 0) {}
  _exit (1);
}
static void rp_sig (int s)
{
  rp_out (s == SIGALRM ? "the call does not return" : s == SIGSEGV ? "memory fault (SIGSEGV)" : s == SIGBUS ? "memory fault (SIGBUS)" : s == SIGFPE ? "arithmetic fault" : "abort");
}
static void rp_init (void)
{
  /* library chatter on stdout/stderr must not hide the report */
  rp_fd = dup (1);
  if (!freopen ("/dev/null", "w", stdout)) {}
  static char stk[65536]; stack_t ss; memset (&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack (&ss, 0);
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_handler = rp_sig; sa.sa_flags = SA_ONSTACK;
  int l[] = {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM, SIGILL};
  for (unsigned i = 0; i < sizeof l / sizeof *l; i++) sigaction (l[i], &sa, 0);
}
/* describe the input about to be tried and arm the hang detector */
static void rp_try (const char *f, ...)
{
  va_list ap; va_start (ap, f); vsnprintf (rp_input, sizeof rp_input, f, ap); va_end (ap); alarm (5);
}
static void rp_fail (const char *f, ...)
{
  static char b[2048]; va_list ap; va_start (ap, f); vsnprintf (b, sizeof b, f, ap); va_end (ap); rp_out (b);
}
#define CHECK(c, ...) do { if (!(c)) rp_fail (__VA_ARGS__); } while (0)
static uint64_t rp_s = 88172645463325252ull;
static uint64_t rnd (void) { rp_s ^= rp_s << 13; rp_s ^= rp_s >> 7; rp_s ^= rp_s << 17; return rp_s; }
static uint64_t rnd (uint64_t n) { return rnd () % n; }
static void rp_seed (void) { const char *s = getenv ("VERIF_SEED"); rp_s ^= (s ? strtoull (s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull; if (!rp_s) rp_s = 1; }
/* memory at a chosen alignment, poisoned */
static void *rp_mem (size_t size, size_t align, void *hint = 0)
{
  size_t tot = size + align + 4096;
  char *p = (char *) mmap (hint, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit (3);
  return (void *) (((uintptr_t) p + align - 1) & ~(align - 1));
}
