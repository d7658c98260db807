#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sphlockfreeheap.h"
static size_t usz;
static size_t up (size_t n) { return (n + usz - 1) & ~(usz - 1); }
int main ()
{
  rp_init (); rp_seed (); if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 300; it++)
    {
      int sh = 4 + rnd (9), lw = rnd (5); if (sh + 6 + lw < 12) lw = 6 - sh + 1 > 0 ? 12 - sh - 6 : lw; usz = 1ul << sh; size_t hs = 1ul << (sh + 6 + lw); if (hs > 1 << 20) continue; std::string hist; char d[90]; rp_try ("heap of %zu bytes, unit %zu", hs, usz);
      SPHLockFreeHeap_t h = SPHLockFreeHeapCreate (hs, usz); if (lw == 0) { if (h) SPHLockFreeHeapDestroy (h); continue; } CHECK (h, "not created");
      char *b = (char *) h; size_t nu = hs / usz, hdr = 0; std::vector<char> used (nu, 0); std::map<size_t, size_t> live; size_t fs = SPHLockFreeHeapFreeSpace (h); hdr = nu - fs / usz; CHECK (fs % usz == 0 && hdr >= 1 && hdr * usz >= 128 && hdr <= 64, "free space %zu", fs); for (size_t i = 0; i < hdr; i++) used[i] = 1; CHECK (SPHLockFreeHeapEmpty (h), "new heap not empty");
      for (int k = 0; k < 120; k++)
        {
          if (rnd (5) < 3)
            {
              size_t n = rnd (8) == 0 ? 0 : rnd (3) ? rnd (usz * 6) : rnd (usz * 36); if (rnd (30) == 0) n = ~0ul - rnd (100); int al = rnd (2); size_t a = usz << rnd (7); int fn = al; snprintf (d, sizeof d, " alloc(%zu%s%zu)", n, al ? ",align " : ",", al ? a : 0); if (hist.size () > 3000) hist = "..."; hist += d; rp_try ("heap %zu unit %zu:%s", hs, usz, hist.c_str ());
              char *p = (char *) (fn ? SPHLockFreeHeapAlignAlloc (h, n, a) : k % 3 ? SPHLockFreeHeapAlloc (h, n) : n < 1 << 20 ? SPHLockFreeHeapNearAlloc (b + rnd (hs), n) : SPHLockFreeHeapAlloc (h, n));
              size_t q = n > 32 * usz ? 0 : up (n) / usz; bool fits = false; if (q) for (size_t i = 0; i + q <= nu && !fits; i++) { if (i / 64 != (i + q - 1) / 64 || (al && (i * usz) % a)) continue; size_t j = i; while (j < i + q && !used[j]) j++; fits = j == i + q; }
              if (n != 32 * usz) CHECK ((p != 0) == fits, p ? "allocated although nothing fits or the request is illegal" : "refused although it fits"); else if (p) CHECK (fits, "nothing fits");
              if (p) { size_t o = p - b; CHECK (o < hs && o % usz == 0 && o / usz + q <= nu && (!al || o % a == 0), "object at offset %zu", o); for (size_t i = o / usz; i < o / usz + q; i++) { CHECK (!used[i], "unit %zu is in use", i); used[i] = 1; } live[o] = n; memset (p, 0x77, n); }
            }
          else if (live.size () && rnd (8))
            {
              auto x = live.begin (); std::advance (x, rnd (live.size ())); size_t o = x->first, n = x->second, q = up (n) / usz; int f = rnd (6); snprintf (d, sizeof d, " free%d(%zu,%zu)", f, o, n); hist += d; rp_try ("heap %zu unit %zu:%s", hs, usz, hist.c_str ());
              if (f >= 4 && q < 32) CHECK (SPHLockFreeHeapFreeChk (h, b + o, n + usz), "freed with a wrong size"); if (f >= 4 && q > 1) CHECK (SPHLockFreeHeapFreeNearChk (b + o, n > usz ? n - usz : 1), "freed with a wrong size");
              int rc = f == 0 ? SPHLockFreeHeapFree (h, b + o) : f == 1 ? SPHLockFreeHeapFreeIn (h, b + o) : f == 2 ? SPHLockFreeHeapFreeNear (b + o) : f == 3 || q == 32 ? SPHLockFreeHeapFreeIn (h, b + o) : f == 4 ? SPHLockFreeHeapFreeChk (h, b + o, n) : SPHLockFreeHeapFreeNearChk (b + o, n); CHECK (!rc, "free fails with %d", rc); for (size_t i = o / usz; i < o / usz + q; i++) used[i] = 0; live.erase (x);
            }
          else { rp_try ("heap %zu unit %zu:%s free outside", hs, usz, hist.c_str ()); CHECK (SPHLockFreeHeapFreeIn (h, b + hs + rnd (hs)), "freed outside"); CHECK (SPHLockFreeHeapFreeChk (h, b - 1 - rnd (hs), usz), "freed outside"); }
          size_t fr = 0; for (size_t i = 0; i < nu; i++) fr += !used[i]; CHECK (SPHLockFreeHeapFreeSpace (h) == fr * usz, "free space %zu instead of %zu", (size_t) SPHLockFreeHeapFreeSpace (h), fr * usz); CHECK (!SPHLockFreeHeapEmpty (h) == !live.empty () , "empty"); CHECK (!SPHLockFreeHeapFull (h) == (fr != 0), "full");
          CHECK (SPHLockFreeHeapNearFind (b + rnd (hs)) == h, "near find");
        }
      ((SASBlockHeader *) b)->blockSig2 ^= 4; CHECK (!SPHLockFreeHeapAlloc (h, 16) && SPHLockFreeHeapFreeIn (h, b + hdr * usz) && SPHLockFreeHeapDestroy (h), "accepts a block that is no lock free heap"); ((SASBlockHeader *) b)->blockSig2 ^= 4; CHECK (!SPHLockFreeHeapDestroy (h), "destroy");
    }
  for (int sh = 4; sh < 9; sh++) { rp_try ("create with unit 1<<%d", sh); CHECK (!SPHLockFreeHeapCreate (12288, 1ul << sh), "odd heap size"); CHECK (!SPHLockFreeHeapCreate (1 << 16, (1ul << sh) + 8), "odd unit"); CHECK (!SPHLockFreeHeapCreate (4096, 4096), "unit too large"); }
  SASRemove ();
  return 0;
}
