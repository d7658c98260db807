#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimplestack.h"
#include "sassimplespace.h"

block_size_t SASSimpleSpaceFreeSpaceNoLock (SASSimpleSpace_t);
int main ()
{
  rp_init (); rp_seed ();
  for (int it = 0; it < 3000; it++)
    {
      size_t sz = 8192 << rnd (3); if (rnd (3) == 0) sz += 256 * rnd (16); char *b = (char *) rp_mem (65536, 65536); memset (b, rnd (2) ? 0xA5 : 0, sz + 4096); unsigned char guard = b[sz];
      std::string hist; char d[80]; rp_try ("stack of %zu bytes", sz);
      SASSimpleStack_t h = SASSimpleStackInit (b, sz); size_t top = 4096; std::vector<size_t> mark; bool lk = false;
      CHECK (SASSimpleStackFreeSpaceNoLock (h) == sz - 4096, "new stack has %zu free", (size_t) SASSimpleStackFreeSpaceNoLock (h));
      for (int k = 0; k < 40; k++)
        {
          if (rnd (3))
            {
              size_t n = rnd (5) ? rnd (700) : rnd (3) ? rnd (sz) : rnd (2) ? sz - top : ~(size_t) 0 - rnd (8192); snprintf (d, sizeof d, " a%zu", n); hist += d; rp_try ("stack %zu:%s", sz, hist.c_str ());
              char *p = (char *) SASSimpleStackAllocNoLock (h, n); bool fits = n <= sz - top && ((n + 15) & ~(size_t) 15) <= sz - top;
              CHECK ((p != 0) == fits, fits ? "allocation refused with %zu bytes left" : "allocation succeeds with only %zu bytes left", sz - top);
              if (p) { CHECK (p == b + top, "space at %ld instead of the top %zu", (long) (p - b), top); mark.push_back (top); top += (n + 15) & ~(size_t) 15; }
            }
          else
            {
              size_t to = rnd (2) && mark.size () ? mark[rnd (mark.size ())] : rnd (sz + 64); snprintf (d, sizeof d, " d%zu", to); hist += d; rp_try ("stack %zu:%s", sz, hist.c_str ());
              int rc = SASSimpleStackDeallocNoLock (h, b + to); bool good = to >= 4096 && to <= sz && !(to & 15); CHECK ((rc == 0) == good, "pop to %zu returns %d", to, rc);
              if (good) { top = to; while (mark.size () && mark.back () >= top) mark.pop_back (); }
            }
          CHECK (SASSimpleStackFreeSpaceNoLock (h) == sz - top, "free space %zu instead of %zu", (size_t) SASSimpleStackFreeSpaceNoLock (h), sz - top);
        }
      CHECK ((unsigned char) b[sz] == guard, "wrote behind the block");
      size_t n = rnd (sz - 4096 + 1); rp_try ("space of %zu bytes in a block of %zu", n, sz); memset (b, 0x5a, sz);
      SASSimpleSpace_t s = SASSimpleSpaceInit (b, sz, n); CHECK (SASSimpleSpaceToAddr (s) == b + 4096, "address"); CHECK (SASSimpleSpaceFromAddr (b + 4096) == s, "handle"); CHECK (SASSimpleSpaceFreeSpaceNoLock (s) == sz - 4096 - n, "free space");
      ((SASBlockHeader *) b)->blockSig1++; CHECK (!SASSimpleSpaceToAddr (s) && !SASSimpleStackAllocNoLock (s, 16) && SASSimpleStackDeallocNoLock (s, b + 4096), "accepts a block that is no stack or space");
      munmap (b, 65536);
    }
  if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 200; it++)
    {
      size_t n = it == 0 ? ~(size_t) 0 : it == 1 ? ~(size_t) 0 - 8191 : it == 2 ? (size_t) 1 << 63 : rnd (300000); rp_try ("create a space of %zu bytes", n); SASSimpleSpace_t s = SASSimpleSpaceCreate (n);
      if (it < 3) CHECK (!s, "created"); else { CHECK (s, "not created"); char *a = (char *) SASSimpleSpaceToAddr (s); size_t bs = ((SASBlockHeader *) s)->blockSize; CHECK (a == (char *) s + 4096 && bs >= n + 4096 && !(bs & (bs - 1)) && (bs == 8192 || bs / 2 < n + 4096), "block of %zu", bs); CHECK (!SASSimpleSpaceDestroy (s), "destroy"); }
    }
  for (int it = 0; it < 30; it++)
    {
      rp_try ("locked stack"); SASSimpleStack_t s = SASSimpleStackCreate (16384 << rnd (4)); CHECK (s, "create"); char *p = (char *) SASSimpleStackAlloc (s, 100), *q = (char *) SASSimpleStackNearAlloc (p, 100); CHECK (p == (char *) s + 4096 && q == p + 112, "near allocation");
      CHECK (SASSimpleStackDealloc (s, q + 1) == -3 && SASSimpleStackDealloc (s, (char *) s + 64) == -2 && !SASSimpleStackDealloc (s, q), "pop"); CHECK (SASSimpleStackNearAllocNoLock (p, 1) == q, "reuse"); CHECK (SASSimpleStackFreeSpace (s) == ((SASBlockHeader *) s)->blockSize - 4096 - 128, "free"); CHECK (!SASSimpleStackDestroy (s), "destroy");
    }
  SASRemove ();
  return 0;
}
