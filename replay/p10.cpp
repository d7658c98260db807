#include "rp.h"
#include "sasalloc.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
struct E { uintptr_t a; size_t len; int id; };
int main ()
{
  rp_init (); rp_seed ();
  for (int it = 0; it < 60000; it++)
    {
      size_t sz = 512u << rnd (4); char *b = (char *) rp_mem (sz, 4096); memset (b, 0, sz);
      unsigned stride = 16 * (1 + rnd (16)); if (stride < 32) stride = 32; int kind = rnd (3); if (stride > sz - 256) stride = 32;
      bool circ = kind == 2; std::string hist;
      SPHLFLogger_t l = kind == 0 ? SPHLFLoggerInit (b, sz) : SPHLFLoggerInitWithStride (b, sz, stride, circ);
      std::vector<E> v; int id = 0; int rounds = 1 + rnd (3);
      for (int rd = 0; rd < rounds; rd++)
        {
          if (rd) { SPHLFLoggerResetAsync (l); v.clear (); hist += " reset"; }
          int n = rnd (rnd (2) ? 8 : 80); size_t cap = circ ? (sz - 256) / stride : 1 << 20;
          if (rnd (3) == 0) SPHLFLoggerSetCachePrefetch (l, rnd (4));
          if (circ && rnd (3) == 0) n = cap * (1 + rnd (2)) + rnd (2);
          for (int k = 0; k < n; k++)
            {
              SPHLFLoggerHandle_t h, *r; size_t s = 8 * (1 + rnd (25)); id++;
              char d[64]; snprintf (d, sizeof d, " %zu", kind ? (size_t) stride : s); hist += d;
              rp_try ("size %zu stride %u kind %d:%s", sz, kind ? stride : 0, kind, hist.c_str ());
              r = kind == 0 ? SPHLFLoggerAllocTimeStamped (l, id & 0xfff, id & 0xff, s, &h) : SPHLFLoggerAllocStrideTimeStamped (l, id & 0xfff, id & 0xff, &h);
              if (!r) break;
              memset (r->next, 0x11 + 2 * rnd (3), r->remaining); memcpy (r->next, &id, 4); SPHLFLogEntryStrongComplete (r);
              v.push_back ({(uintptr_t) r->entry, r->total_size, id}); if (v.size () > cap) v.erase (v.begin ());
            }
        }
      bool incomplete = false; size_t upto = v.size ();
      if (!circ && v.size () && rnd (4) == 0) { upto = rnd (v.size ()); ((SPHLFLogHeader_t *) v[upto].a)->entryID.detail.valid = 0; incomplete = true; }
      rp_try ("iterate: size %zu stride %u kind %d%s:%s", sz, kind ? stride : 0, kind, incomplete ? " (one incomplete entry)" : "", hist.c_str ());
      SPHLFLogIterator_t i, *ip = SPHLFLoggerCreateIterator (l, &i); CHECK (ip == &i, "no iterator");
      for (size_t k = 0; k < upto; k++)
        {
          SPHLFLoggerHandle_t h, *r = SPHLFLoggerIteratorNext (ip, &h);
          CHECK (r == &h, "iteration ends after %zu of %zu entries", k, upto);
          int got; memcpy (&got, h.next, 4);
          CHECK ((uintptr_t) h.entry == v[k].a && got == v[k].id, "entry %zu is number %d, expected %d", k, got, v[k].id);
          CHECK (h.total_size == v[k].len && h.remaining == v[k].len - 16 && h.next == (char *) v[k].a + 16, "handle of entry %zu", k);
        }
      for (int k = 0; k < 3; k++) { SPHLFLoggerHandle_t h; CHECK (!SPHLFLoggerIteratorNext (ip, &h), "iteration does not stop after the %zu entries", upto); }
      memset (b, 0, 64); rp_try ("not a logger"); SPHLFLoggerHandle_t h; CHECK (!SPHLFLoggerCreateIterator (l, &i) && !SPHLFLoggerIteratorNext (ip, &h), "iterating a block that is not a logger");
      munmap (b, sz);
    }
  return 0;
}
