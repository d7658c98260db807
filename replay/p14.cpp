#include "rp.h"
#include <pthread.h>
#include "sasalloc.h"
#include "saslock.h"
#include <iostream>
#define private public
#include "sasmlock.h"
#undef private
#include "sassim.h"
/* threads lock and unlock a few addresses of the lock table; shared counters witness who is inside */
#define NA 6
static char *addr[NA]; static volatile int wr[NA], rd[NA]; static volatile int bad = -1, stop; static long ops; static int nad;
static void *work (void *a)
{
  unsigned s = (unsigned) (long) a * 2654435761u + 12345; int d[NA] = {0}, w[NA] = {0};
  for (long k = 0; k < ops && bad < 0; k++)
    {
      s = s * 1103515245 + 12345; int i = (s >> 16) % nad, write = ((s >> 24) & 3) == 0;
      SASLock (addr[i], write ? SasUserLock__WRITE : SasUserLock__READ);
      if (write) { int o = __sync_fetch_and_add (&wr[i], 1); if (o || rd[i]) bad = i; } else { __sync_fetch_and_add (&rd[i], 1); if (wr[i]) bad = i; }
      if ((s >> 28) == 3) { SASLock (addr[i], write ? SasUserLock__WRITE : SasUserLock__READ); if (write ? rd[i] || wr[i] != 1 : wr[i]) bad = i; SASUnlock (addr[i]); }
      for (volatile int z = 0; z < (int) (s & 255); z++);
      if (write ? rd[i] || wr[i] != 1 : wr[i]) bad = i;
      if (write) __sync_fetch_and_sub (&wr[i], 1); else __sync_fetch_and_sub (&rd[i], 1);
      SASUnlock (addr[i]);
    }
  return 0;
}
static void quit (int) { _exit (0); }                                  /* progress under contention is not claimed */
int main ()
{
  rp_init (); rp_seed (); if (SASJoinRegion ()) return 0;
  char *base = (char *) SASBlockAlloc (1 << 20); if (!base) return 0;
  signal (SIGALRM, quit); int pid = fork (); if (pid == 0) { for (int f = 0; f < 64; f++) close (f); sleep (60); kill (getppid (), SIGALRM); _exit (0); }
  /* single thread: nesting and all orders of addresses (colliding or not) */
  rp_try ("nested locks of one thread"); alarm (90);
  for (int it = 0; it < 4000; it++) { std::vector<char *> h; for (int k = 0; k < 12; k++) { char *a = base + rnd (4096) * 16; SASLock (a, SasUserLock__WRITE); h.push_back (a); if (rnd (2)) { SASLock (a, SasUserLock__READ); h.push_back (a); } } while (!h.empty ()) { size_t i = rnd (h.size ()); SASUnlock (h[i]); h.erase (h.begin () + i); } }
  ops = 4000;
  for (int round = 0; round < 40 && bad < 0; round++)
    {
      /* in most rounds all addresses fall into one slot of the lock table */
      std::set<char *> used; int slot = -1, na = 1 + rnd (NA); nad = na;
      for (int i = 0; i < NA; i++) { if (i >= na) { addr[i] = addr[i % na]; continue; }
        for (;;) { char *a = base + rnd (65536) * 16; void *k = a; int h = round % 4 ? ((SasMasterLock *) base)->hash (&k) & 255 : 0; if (slot < 0) slot = h; if (h == slot && used.insert (a).second) { addr[i] = a; break; } } }
      memset ((void *) wr, 0, sizeof wr); memset ((void *) rd, 0, sizeof rd);
      rp_try ("8 threads locking %d addresses of one slot (%p %p...) for reading and writing", na, addr[0], addr[1]); alarm (90);
      pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create (&t[i], 0, work, (void *) (i + 9 * round)); for (int i = 0; i < 8; i++) pthread_join (t[i], 0);
      CHECK (bad < 0, "two holders inside the lock of %p", addr[bad]);
    }
  kill (pid, 9); SASRemove (); return 0;
}
