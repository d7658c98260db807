#include "rp.h"
#include "sasalloc.h"
#include "sasallocpriv.h"
#include "freenode.h"
#include "sassim.h"
int main ()
{
  rp_init (); rp_seed ();
  char *b = (char *) rp_mem (65536, 65536); SASBlockHeader *h = (SASBlockHeader *) b;
  for (int it = 0; it < 20000; it++)
    {
      unsigned t = rnd (), u = rnd (2) ? rnd () : t ^ (1u << rnd (32)); if (rnd (4) == 0) u = t;
      size_t sz = 4096 << rnd (4), hs = rnd (4) ? 64 + 16 * rnd (16) : 0; memset (b, rnd (2) ? 0xA5 : 0, 4096);
      rp_try ("block of %zu bytes, type %#x, heap at %zu, checked against %#x", sz, t, hs, u);
      initSOMSASBlock (h, t, sz, hs ? (FreeNode *) (b + hs) : 0);
      CHECK (h->blockType == (unsigned) t && h->blockSize == sz && !h->special && h->baseBlock == h && !h->nextBlock && (char *) h->blockFreeSpace == (hs ? b + hs : 0), "header not initialized");
      if (hs) { unsigned long *fn = (unsigned long *) (b + hs); CHECK (freeNode_freeSpaceTotal ((FreeNode *) fn) == (long) (sz - hs), "free space"); }
      CHECK (SOMSASCheckBlockSig (h), "own signature rejected");
      if (!(t & 0xff000000u)) { CHECK (!!SOMSASCheckBlockSigAndType (h, u) == (((t ^ u) & 0xff0000) == 0), "type check"); CHECK (!!SOMSASCheckBlockSigAndTypeAndSubtype (h, u & 0xffffff) == (((t ^ u) & 0xffff00) == 0), "subtype check"); }
      CHECK (!!SOMSASCheckBlockSubType (h, u) == (((t ^ u) & 0xff00) == 0), "subtype check");
      SOMSASSetBlockSubType (h, u); CHECK (h->blockType == ((t & 0xffff00ffu) | (u & 0xff00)), "subtype set: %#lx", (long) h->blockType); CHECK (SOMSASGetBlockSubType (h) == (u & 0xff00), "subtype get");
      setSASBlockSpecial (h, b + 77); CHECK (getSASBlockSpecial (h) == b + 77, "special");
      if (rnd (2)) h->blockSig1 ^= 1ul << rnd (64); else h->blockSig2 ^= 1ul << rnd (64);
      CHECK (!SOMSASCheckBlockSig (h) && !SOMSASCheckBlockSigAndType (h, t) && !SOMSASCheckBlockSigAndTypeAndSubtype (h, t), "bad signature accepted");
    }
  CHECK (!SASFindHeader (b + 8), "block outside the region found");
  if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 300; it++)
    {
      unsigned k = 12 + rnd (14); size_t n = (size_t) 1 << k; rp_try ("block of %zu bytes", n); char *p = (char *) SASBlockAlloc (n); if (!p) continue;
      initSOMSASBlock ((SASBlockHeader *) p, SAS_RUNTIME_SIMPLEHEAP, n, 0);
      for (int j = 0; j < 5; j++) { size_t o = j ? rnd (n) : n - 1; rp_try ("object at %zu of a block of %zu", o, n); CHECK (SASFindHeader (p + o) == (SASBlockHeader *) p, "found %p", (void *) SASFindHeader (p + o)); }
      memset (p, 0, 128); SASBlockDealloc (p, n);
    }
  for (int it = 0; it < 300; it++)
    {
      size_t n = 8 * (1 + rnd ((1 << (9 + rnd (11))) / 8)); rp_try ("standard block of %zu bytes", n); size_t w = 4096; while (w < n) w <<= 2;
      char *p = (char *) SASSOMAlloc (n, n); CHECK (p, "no block"); for (size_t j = 0; j < w; j++) CHECK (!p[j], "byte %zu not zero", j);
      memset (p, 0xEE, w); SASSOMDestroy (p, n);
    }
  rp_try ("block larger than the region"); CHECK (!SASSOMAlloc (1L << 50, 0), "allocated");
  SASRemove ();
  return 0;
}
