#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "freenode.h"
#include "sassimpleheap.h"
static size_t need (size_t n) { return n ? (n + 15) & ~(size_t) 15 : 16; }
static void run (char *b, size_t sz, bool locked, int rounds)
{
  std::string hist; std::map<uintptr_t, std::pair<size_t, unsigned char>> live; size_t used = 0;
  rp_try ("simple heap of %zu bytes", sz);
  SASSimpleHeap_t h = SASSimpleHeapInit (b, SAS_RUNTIME_SIMPLEHEAP, sz); CHECK (h == (SASSimpleHeap_t) b, "init");
  SASBlockHeader *H = (SASBlockHeader *) b;
  for (int k = 0; k < rounds; k++)
    {
      int op = rnd (8); size_t n = rnd (6) ? rnd (rnd (2) ? 64 : 400) : rnd (2) ? 0 : rnd (3) ? rnd (sz) : ~(size_t) 0 - rnd (20); char d[80];
      if (op < 4)
        {
          snprintf (d, sizeof d, " a%zu", n); hist += d; rp_try ("heap %zu%s:%s", sz, locked ? " locked" : "", hist.c_str ());
          /* what is free, from the oracle */
          size_t best = 0; uintptr_t at = (uintptr_t) b + heap_offset; for (auto &e : live) { best = std::max (best, (size_t) (e.first - at)); at = e.first + need (e.second.first); } best = std::max (best, (size_t) ((uintptr_t) b + sz - at));
          int api = rnd (4); char *p;
          if (api == 3 && locked) api = 0;
          if (api == 3) p = (char *) SASSOMHeapAlloc (H, n); else p = (char *) (locked ? SASSimpleHeapAlloc (h, n) : SASSimpleHeapAllocNoLock (h, n));
          bool ok = n < ((size_t) 1 << 62) && need (n) <= best && (api == 3 || n < sz - heap_offset);
          CHECK (!p == !ok, ok ? "allocation refused although %zu bytes are free in one piece" : "allocation succeeds although only %zu bytes are free in one piece", best);
          if (!p) continue;
          uintptr_t a = (uintptr_t) p; CHECK (!(a & 15) && a >= (uintptr_t) b + heap_offset && a + need (n) <= (uintptr_t) b + sz, "space %#lx outside the heap or unaligned", a - (uintptr_t) b);
          for (auto &e : live) CHECK (a + need (n) <= e.first || e.first + need (e.second.first) <= a, "space at %#lx overlaps space at %#lx", a - (uintptr_t) b, e.first - (uintptr_t) b);
          live[a] = {n, (unsigned char) k}; memset (p, k, need (n)); used += need (n);
        }
      else if (op < 7 && live.size ())
        {
          auto it = live.begin (); std::advance (it, rnd (live.size ()));
          for (size_t i = 0; i < need (it->second.first); i++) CHECK (((unsigned char *) it->first)[i] == it->second.second, "allocated space was overwritten");
          snprintf (d, sizeof d, " f%#lx,%zu", it->first - (uintptr_t) b, it->second.first); hist += d; rp_try ("heap %zu%s:%s", sz, locked ? " locked" : "", hist.c_str ());
          if (it->second.first < sz - heap_offset && rnd (3)) { int rc = locked ? SASSimpleHeapFree (h, (void *) it->first, it->second.first) : SASSimpleHeapFreeNoLock (h, (void *) it->first, it->second.first); CHECK (!rc, "free of an allocated block returns %d", rc); }
          else SASSOMHeapDealloc (H, (void *) it->first, it->second.first);
          used -= need (it->second.first); live.erase (it);
        }
      else
        {
          char *x = (char *) rp_mem (8192, 4096); memset (x, 0x3c, 8192); int rc; snprintf (d, sizeof d, " bad"); hist += d; rp_try ("heap %zu, free of foreign storage:%s", sz, hist.c_str ());
          rc = SASSimpleHeapFreeNoLock (h, x + 4096, 32); if ((uintptr_t) x > (uintptr_t) b + sz || (uintptr_t) x + 8192 < (uintptr_t) b) { CHECK (rc, "foreign storage accepted"); for (int i = 0; i < 8192; i++) CHECK (x[i] == 0x3c, "rejected free writes"); }
          munmap (x, 8192);
        }
      size_t fr = locked ? SASSimpleHeapFreeSpace (h) : SASSimpleHeapFreeSpaceNoLock (h);
      CHECK (fr == sz - heap_offset - used, "free space %zu instead of %zu", fr, sz - heap_offset - used);
      CHECK (!(locked ? SASSimpleHeapEmpty (h) : SASSimpleHeapEmptyNoLock (h)) == (used != 0), "empty");
      if (H->blockFreeSpace)
        {
          size_t mx = 0, cnt = 0; uintptr_t at = (uintptr_t) b + heap_offset; live[(uintptr_t) b + sz] = {0, 0};
          for (auto &e : live) { size_t g = e.first - at; if (g) cnt++; mx = std::max (mx, g); at = e.first + need (e.second.first); }
          live.erase ((uintptr_t) b + sz);
          CHECK (freeNode_maxFragment (H->blockFreeSpace) == mx, "largest fragment %lu instead of %zu", freeNode_maxFragment (H->blockFreeSpace), mx);
          CHECK (freeNode_freeFragmentsTotal (H->blockFreeSpace) == cnt, "%lu fragments instead of %zu (neighbours not merged)", freeNode_freeFragmentsTotal (H->blockFreeSpace), cnt);
        }
      for (auto &e : live) for (size_t i = 0; i < need (e.second.first); i++) CHECK (((unsigned char *) e.first)[i] == e.second.second, "allocated space was overwritten");
    }
}
int main ()
{
  rp_init (); rp_seed ();
  for (int it = 0; it < 1500; it++) { size_t sz = 256u << rnd (5); char *b = (char *) rp_mem (sz, 4096); memset (b, rnd (2) ? 0 : 0xff, sz); run (b, sz, false, 60); munmap (b, sz); }
  rp_try ("join"); if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 100; it++)
    {
      rp_try ("create"); SASSimpleHeap_t h = SASSimpleHeapCreate (4096); CHECK (h, "create"); run ((char *) h, 4096, true, 60);
      char *p = (char *) SASSimpleHeapAlloc (h, 24); CHECK (!p || SASSimpleHeapNearFind (p) == h, "near find");
      if (p) { void *q = SASNearAlloc (p, 40); if (q) { CHECK ((char *) q > (char *) h && (char *) q < (char *) h + 4096, "near allocation outside the heap"); SASNearDealloc (q, 40); } SASSimpleHeapFree (h, p, 24); }
      rp_try ("destroy"); CHECK (!SASSimpleHeapDestroy (h), "destroy");
    }
  SASRemove ();
  return 0;
}
