#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sphlflogger.h"
#include "sphlogportal.h"
#include "sphlflogentry.h"
#include <pthread.h>
static SPHLogPortal_t P; static std::vector<void *> got[4];
static void *work (void *a) { long id = (long) a; void *p; while ((p = SPHLogPortalAllocRaw (P, 48))) got[id].push_back (p); return 0; }
int main ()
{
  rp_init (); rp_seed (); if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 60; it++)
    {
      size_t sz = 512 << rnd (4), cap = (sz - 256) / 16; char *b = (char *) rp_mem (sz, sz); memset (b, it % 2 ? 0x5a : 0, sz); rp_try ("portal of %zu bytes", sz); SPHLogPortal_t p = SPHLogPortalInit (b, sz);
      CHECK (p == (SPHLogPortal_t) b && SPHLogPortalEmpty (p) && SPHLogPortalEntries (p) == 0 && SPHLogPortalCapacity (p) == (int) cap && SPHLogPortalGetCurrentIndex (p) == -1 && !SPHLogPortalGetCurrentLogger (p) && !SPHLogPortalAllocRaw (p, 16), "new portal not empty"); SPHLFPortalIterator_t I; CHECK (!SPHLFPortalCreateIterator (p, &I), "iterator over an empty portal");
      int n = rnd (4) ? rnd (8) + 1 : (int) cap + 3; size_t ls = 1024; std::vector<SPHLFLogger_t> L; std::vector<char *> seen;
      for (int i = 0; i < n; i++)
        {
          SPHLFLogger_t l = SPHLFLoggerInit (rp_mem (ls, ls), ls); rp_try ("portal of %zu bytes, logger %d", sz, i); bool room = L.size () < cap; CHECK (SPHLogPortalAddLogger (p, l) == (room ? l : 0), room ? "logger refused" : "logger added to a full portal");
          if (room) { if (L.size ()) CHECK (((SASBlockHeader *) L.back ())->nextBlock == (SASBlockHeader *) l, "link of the previous logger"); CHECK (((SASBlockHeader *) l)->baseBlock == (SASBlockHeader *) p, "base block"); L.push_back (l); }
          CHECK (SPHLogPortalEntries (p) == (int) L.size (), "entries %d instead of %zu", SPHLogPortalEntries (p), L.size ()); for (size_t k = 0; k < L.size () + 3; k++) CHECK (SPHLogPortalGetLoggerByIndex (p, k) == (k < L.size () ? L[k] : 0), "logger of index %zu of %zu", k, L.size ());
        }
      size_t cur = 0, count = 0; SPHLFLoggerHandle_t h;
      for (;;)
        {
          size_t a = 16 + 16 * rnd (6); rp_try ("portal of %zu loggers, entry %zu of %zu bytes", L.size (), count, a); SPHLFLoggerHandle_t *r = SPHLogPortalAllocTimeStamped (p, 1, 2, a, &h); if (!r) { CHECK (SPHLogPortalGetCurrentIndex (p) == (int) L.size () - 1, "gives up at logger %d of %zu", SPHLogPortalGetCurrentIndex (p), L.size ()); break; }
          SPHLFLogEntryComplete (r); count++; size_t c = SPHLogPortalGetCurrentIndex (p); CHECK (c >= cur && c <= cur + 1, "current logger jumps from %zu to %zu", cur, c); CHECK (SPHLogPortalGetCurrentLogger (p) == L[c], "current logger"); char *e = (char *) h.entry; CHECK (e >= (char *) L[c] && e < (char *) L[c] + ls, "entry outside the current logger"); cur = c; seen.push_back (e); if (count > 3000) break;
        }
      if (cap < 60 || L.size () < 10) { rp_try ("iterate over %zu loggers", L.size ()); CHECK (SPHLFPortalCreateIterator (p, &I) == &I, "no iterator"); size_t k = 0; while (SPHLFPortalIteratorNext (&I, &h)) { CHECK (k < seen.size () && (char *) h.entry == seen[k], "entry %zu is not the next one", k); k++; } CHECK (k == seen.size (), "iterator stops after %zu of %zu entries", k, seen.size ()); CHECK (!SPHLFPortalIteratorNext (&I, &h), "entry behind the end"); }
      ((SASBlockHeader *) b)->blockSig1 ^= 1; CHECK (!SPHLogPortalAllocRaw (p, 16) && !SPHLogPortalGetCurrentLogger (p) && SPHLogPortalDestroy (p), "accepts a block that is no portal"); munmap (b, sz); for (auto l : L) munmap (l, ls);
    }
  for (int it = 0; it < 5; it++)
    {
      P = SPHLogPortalCreate (4096); CHECK (P, "create"); std::vector<SPHLFLogger_t> L; for (int i = 0; i < 40; i++) { L.push_back (SPHLFLoggerInit (rp_mem (4096, 4096), 4096)); SPHLogPortalAddLogger (P, L.back ()); } rp_try ("four threads allocating through a portal"); pthread_t t[4]; for (long i = 0; i < 4; i++) { got[i].clear (); pthread_create (&t[i], 0, work, (void *) i); } for (int i = 0; i < 4; i++) pthread_join (t[i], 0);
      std::set<void *> all; size_t n = 0; for (int i = 0; i < 4; i++) for (void *x : got[i]) { all.insert (x); n++; } CHECK (all.size () == n, "an entry was handed out twice"); CHECK (SPHLogPortalGetCurrentIndex (P) == 39, "stopped at logger %d", SPHLogPortalGetCurrentIndex (P)); for (auto l : L) CHECK (SPHLFLoggerFull (l), "a logger with room was passed over"); CHECK (!SPHLogPortalDestroy (P), "destroy"); for (auto l : L) munmap (l, 4096);
    }
  SASRemove ();
  return 0;
}
