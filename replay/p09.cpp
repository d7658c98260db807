#include "rp.h"
#include "sasalloc.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include <pthread.h>
#include <atomic>
struct Par { SPHLFLogger_t l; size_t sz; int mode; std::vector<std::pair<uintptr_t, size_t>> got; int n; unsigned seed; };
static pthread_barrier_t bar;
static void *work (void *a)
{
  Par *p = (Par *) a; pthread_barrier_wait (&bar);
  uint64_t x = p->seed * 0x9E3779B97F4A7C15ull + 1;
  for (int i = 0; i < p->n; i++)
    {
      SPHLFLoggerHandle_t h, *r; x ^= x << 13; x ^= x >> 7; x ^= x << 17; size_t s = x % 100;
      if (p->mode == 0) r = SPHLFLoggerAllocTimeStamped (p->l, 1, 2, s, &h);
      else if (p->mode == 1) r = SPHLFLoggerAllocStrideTimeStamped (p->l, 1, 2, &h);
      else { void *q = SPHLFLoggerAllocRaw (p->l, s + 1); if (!q) break; p->got.push_back ({(uintptr_t) q, (s + 16) & ~15ul}); continue; }
      if (!r) break;
      p->got.push_back ({(uintptr_t) r->entry, r->total_size});
    }
  return 0;
}
int main ()
{
  rp_init (); rp_seed ();
  for (int it = 0; it < 30000; it++)
    {
      size_t sz = 512u << rnd (5); char *b = (char *) rp_mem (sz, 4096); memset (b, 0x5A, sz);
      unsigned stride = rnd (3) ? 16 + rnd (rnd (2) ? 128 : 300) : 128; if (rnd (3) == 0) stride &= ~15u; if (stride < 16) stride = 16;
      if (((stride + 15) & ~15u) > sz - 256) stride = 16;
      unsigned opt = rnd (2); int kind = rnd (3);
      rp_try ("logger size %zu stride %u options %u kind %d", sz, stride, opt, kind);
      SPHLFLogger_t l = kind == 0 ? SPHLFLoggerInit (b, sz) : SPHLFLoggerInitWithStride (b, sz, stride, opt);
      CHECK (l == b, "init returns %p for %p", l, b);
      bool circ = kind && (opt & 1); size_t sd = kind ? (stride + 15) & ~15u : 0;
      uintptr_t start = (uintptr_t) b + 256, end = (uintptr_t) b + sz; if (circ) end -= (end - start) % sd;
      uintptr_t nf = start; bool wrapped = false; std::string hist;
      CHECK (SPHLFLoggerEmpty (l) == 1 && SPHLFLoggerFreeSpace (l) == end - start && !SPHLFLoggerWrapped (l) && !SPHLFLoggerFull (l), "new logger: empty %d free %ld (expected %ld)", SPHLFLoggerEmpty (l), (long) SPHLFLoggerFreeSpace (l), (long) (end - start));
      for (int k = 0; k < 60; k++)
        {
          int op = rnd (12); SPHLFLoggerHandle_t h, *r; memset (&h, 0xCC, sizeof h); size_t s = rnd (10) ? rnd (200) : rnd (2) ? (size_t) -1 - rnd (64) : end - start - 16 - rnd (3) + rnd (3); int cat = rnd (5000), sub = rnd (300);
          char d[80]; snprintf (d, sizeof d, " %d:%zd,%d,%d", op, (ssize_t) s, cat, sub); hist += d;
          if (op == 9 && sz < 8192) { for (int i = 0; i < 3; i++) { int p = rnd (5) - 1; SPHLFLoggerSetCachePrefetch (l, p); } CHECK (SPHLFLoggerWrapped (l) == (wrapped && circ), "cache prefetch option changed the wrapped state"); continue; }
          if (op == 10 && rnd (8) == 0) { rp_try ("size %zu stride %zu circular %d:%s", sz, sd, circ, hist.c_str ()); int x = SPHLFLoggerResetAsync (l); CHECK (x == 0, "reset"); nf = start; wrapped = false; CHECK (SPHLFLoggerEmpty (l) && !SPHLFLoggerWrapped (l), "not empty after reset"); continue; }
          if (op == 11) { rp_try ("size %zu stride %zu circular %d:%s", sz, sd, circ, hist.c_str ()); int x = SPHLFLoggerResetIfFullSync (l); bool f = nf + 128 >= end; CHECK (x == (f ? 0 : 1), "reset-if-full returns %d", x); if (f) { nf = start; wrapped = false; } CHECK (SPHLFLoggerFreeSpace (l) == (nf < end ? end - nf : 0), "free space after reset-if-full"); continue; }
          bool st = op >= 4 && op < 8; if (st && !kind) continue;
          rp_try ("size %zu stride %zu circular %d:%s", sz, sd, circ, hist.c_str ());
          if (op == 8) { if (circ) continue; void *q = SPHLFLoggerAllocRaw (l, s); size_t need = (s + 15) & ~15ul; bool ever = s <= end - start, fits = ever && nf + need <= end; CHECK ((uintptr_t) q == (fits ? nf : 0), "raw allocation of %zu returns offset %ld, expected %s at %ld", s, (long) ((char *) q - b), fits ? "space" : "none", (long) (nf - (uintptr_t) b)); if (ever) nf += need; continue; }
          bool ever = st || s <= end - start - 16; size_t need = st ? sd : (s + 16 + 15) & ~15ul;
          r = st ? (op & 1 ? SPHLFLoggerAllocStrideTimeStamped (l, cat, sub, &h) : SPHLFLoggerAllocStrideTimeStampedNoLock (l, cat, sub, &h))
                 : (op & 1 ? SPHLFLoggerAllocTimeStamped (l, cat, sub, s, &h) : SPHLFLoggerAllocTimeStampedNoLock (l, cat, sub, s, &h));
          bool fits = ever && nf + need <= end; bool ok = ever && (fits || circ); uintptr_t en = fits ? nf : start;
          if (ever) { nf = fits || !circ ? nf + need : start + need; if (circ && !fits) wrapped = true; }
          CHECK ((r == &h) == ok && (r == &h || !r), "allocation of %zu %s", need, r ? "succeeds without space" : "fails although there is space");
          if (ok)
            {
              CHECK ((uintptr_t) h.entry == en, "entry at offset %ld instead of %ld", (long) ((char *) h.entry - b), (long) (en - (uintptr_t) b));
              CHECK (h.next == (char *) en + 16 && h.total_size == (uint16_t) need && h.remaining == (uint16_t) (need - 16), "handle next %ld total %d remaining %d (entry of %zu)", (long) (h.next - (char *) en), h.total_size, h.remaining, need);
              CHECK (!h.entry->entryID.detail.valid && h.entry->entryID.detail.timestamped && h.entry->entryID.detail.category == (cat & 0xfff) && h.entry->entryID.detail.subcat == (sub & 0xff) && h.entry->entryID.detail.len == (need / 16 & 255), "entry header %x", h.entry->entryID.idUnit);
            }
          CHECK (SPHLFLoggerWrapped (l) == (circ && wrapped), "wrapped is %d", SPHLFLoggerWrapped (l));
          CHECK (SPHLFLoggerFreeSpace (l) == (nf < end ? end - nf : 0), "free space %ld, expected %ld", (long) SPHLFLoggerFreeSpace (l), nf < end ? (long) (end - nf) : 0);
          CHECK ((SPHLFLoggerFull (l) != 0) == (nf >= end) && (SPHLFLoggerEmpty (l) != 0) == (nf == start), "full/empty");
        }
      rp_try ("not a logger"); memset (b, 0, 64); SPHLFLoggerHandle_t h; 
      CHECK (!SPHLFLoggerAllocTimeStamped (l, 1, 1, 8, &h) && !SPHLFLoggerAllocRaw (l, 8) && !SPHLFLoggerAllocStrideTimeStamped (l, 1, 1, &h) && !SPHLFLoggerAllocTimeStampedNoLock (l, 1, 1, 8, &h) && !SPHLFLoggerAllocStrideTimeStampedNoLock (l, 1, 1, &h), "allocation from a block that is not a logger");
      CHECK (SPHLFLoggerResetAsync (l) == -1 && SPHLFLoggerResetIfFullSync (l) == -1 && SPHLFLoggerDestroy (l) == -1 && SPHLFLoggerFull (l) == 1, "status of a block that is not a logger");
      munmap (b, sz);
    }
  /* many threads: the areas handed out never overlap */
  for (int it = 0; it < 60; it++)
    {
      size_t sz = 4 << 20; char *b = (char *) rp_mem (sz, 4096); int mode = it % 3, T = 8; bool circ = it % 6 == 4;
      rp_try ("%d threads allocating (mode %d%s)", T, mode, circ ? ", circular" : ""); alarm (60);
      if (circ) sz = 8192;
      SPHLFLogger_t l = SPHLFLoggerInitWithStride (b, sz, 64, circ);
      pthread_barrier_init (&bar, 0, T); std::vector<Par> p (T); std::vector<pthread_t> t (T);
      for (int i = 0; i < T; i++) { p[i].l = l; p[i].sz = sz; p[i].mode = mode; p[i].n = 100000; p[i].seed = it * 8 + i + 1; pthread_create (&t[i], 0, work, &p[i]); }
      for (int i = 0; i < T; i++) pthread_join (t[i], 0);
      std::vector<std::pair<uintptr_t, size_t>> a; for (auto &x : p) a.insert (a.end (), x.got.begin (), x.got.end ());
      for (auto &x : a) CHECK (x.first >= (uintptr_t) b + 256 && x.first + x.second <= (uintptr_t) b + sz, "entry outside the log");
      if (!circ) { std::sort (a.begin (), a.end ()); for (size_t i = 1; i < a.size (); i++) CHECK (a[i - 1].first + a[i - 1].second <= a[i].first, "two threads were given overlapping entries (offsets %ld and %ld)", (long) (a[i - 1].first - (uintptr_t) b), (long) (a[i].first - (uintptr_t) b)); }
      munmap (b, 4 << 20);
    }
  return 0;
}
