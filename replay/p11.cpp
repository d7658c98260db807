#include "rp.h"
#include <deque>
#include <pthread.h>
#define SPH_INTERNAL
#include "sasalloc.h"
#include "sassim.h"
#include "sphdirectpcqueue.h"
#include "sphmultipcqueue.h"
static unsigned hdr (uintptr_t e) { unsigned w; memcpy (&w, (void *) e, 4); return w; }
struct Ent { uintptr_t a; int cat, sub; bool ts, done; unsigned char fill; };
static void spsc (void)
{
  size_t sz = 512u << rnd (5); char *b = (char *) rp_mem (sz + 4096, 4096); memset (b, rnd (2) ? 0xff : 0x5a, sz + 4096);
  unsigned req = 1 + rnd (rnd (2) ? 40 : 300), stride = (req + 15) / 16 * 16; if (stride > (sz - 256) / 2) { req = stride = 64; }
  unsigned opt = rnd (2); std::string hist;
  rp_try ("single queue: size %zu stride %u in non-zero memory", sz, req);
  SPHSinglePCQueue_t q = SPHSinglePCQueueInitWithStride (b, sz, req, opt); CHECK (q == b, "init");
  size_t n = (sz - 256) / stride, at = 0; uintptr_t base = (uintptr_t) b + 256; std::deque<Ent> m; size_t head = 0;
  CHECK (SPHSinglePCQueueGetStride (q) == (int) stride, "stride %d instead of %u", SPHSinglePCQueueGetStride (q), stride);
  for (int k = 0; k < 60; k++)
    {
      int op = rnd (9), c = rnd (4096), s = rnd (256); char d[64]; snprintf (d, sizeof d, " %d", op); hist += d;
      rp_try ("single queue: size %zu stride %u in non-zero memory, history (0-2 alloc, 3 complete, 4-5 take, 6 free, 7 reset, 8 options):%s", sz, req, hist.c_str ());
      SPHLFEntryHandle_t h, *r; bool room = m.size () + 1 < n; uintptr_t slot = base + head * stride;
      bool stuck = false; memset (&h, 0x77, sizeof h);
      if (op <= 2)
        {
          bool ts = op == 1; uintptr_t e; unsigned hs = ts ? sizeof (SPHLFEntryHeader_t) : 4;
          if (op == 2) { e = (uintptr_t) SPHSinglePCQueueAllocStrideDirect (q); c = s = 0; }
          else { r = ts ? SPHSinglePCQueueAllocStrideTimeStamped (q, c, s, &h) : SPHSinglePCQueueAllocStrideEntry (q, c, s, &h); CHECK (!r || r == &h, "handle"); e = r ? (uintptr_t) h.entry : 0;
                 if (r) CHECK (h.next == (char *) e + hs && h.total_size == stride && h.remaining == stride - hs, "handle next %+ld size %u remaining %u", (long) ((uintptr_t) h.next - e), h.total_size, h.remaining); }
          CHECK ((e != 0) == room, "allocation %s with %zu of %zu slots used", e ? "succeeds" : "fails", m.size (), n);
          if (e)
            {
              CHECK (e == slot, "entry at offset %ld, expected %ld", (long) (e - base), (long) (slot - base));
              CHECK (hdr (e) == ((stride / 16) << 24 | s << 16 | c << 4 | 4 | (ts ? 2 : 0)), "entry header %08x", hdr (e));
              unsigned char f = rnd (); memset ((char *) e + hs, f, stride - hs); m.push_back ({e, c, s, ts, false, f}); head = (head + 1) % n;
            }
        }
      else if (op == 3)
        {
          for (auto &x : m) if (!x.done) { SPHLFEntryHandle_t g; g.entry = (SPHLFEntryHeader_t *) x.a; CHECK (!SPHSinglePCQueueEntryIsComplete (&g), "complete too early"); CHECK (SPHSinglePCQueueEntryComplete (&g) == 1 && SPHSinglePCQueueEntryIsComplete (&g), "completion"); x.done = true; break; }
        }
      else if (op <= 5)
        {
          bool ok = m.size () && m[0].done; r = op == 4 ? SPHSinglePCQueueGetNextComplete (q, &h) : 0;
          uintptr_t e = op == 4 ? (r ? (uintptr_t) h.entry : 0) : (uintptr_t) SPHSinglePCQueueGetNextCompleteDirect (q);
          CHECK ((e != 0) == ok, "take %s", e ? "delivers an entry that is not complete" : "misses a complete entry"); if (e) CHECK (e == m[0].a, "take delivers the wrong entry");
          if (r) { unsigned hs = m[0].ts ? sizeof (SPHLFEntryHeader_t) : 4; CHECK (h.next == (char *) e + hs && h.total_size == stride && h.remaining == stride - hs, "handle of the taken entry"); }
          if (e) { unsigned hs = m[0].ts ? sizeof (SPHLFEntryHeader_t) : 4; for (unsigned i = hs; i < stride; i++) CHECK (((unsigned char *) e)[i] == m[0].fill, "data byte %u of the entry changed", i); CHECK ((hdr (e) >> 4 & 0xfff) == (unsigned) m[0].cat, "category changed"); }
          uintptr_t g = (uintptr_t) SPHSinglePCQueueGetNextEntryDirect (q); CHECK (g == (m.size () ? m[0].a : 0), "next entry");
        }
      else if (op == 6)
        {
          bool ok = m.size () && m[0].done; int x = rnd (2) || !ok ? SPHSinglePCQueueFreeNextEntry (q) : SPHSinglePCQueueFreeNextEntryDirect (q, (SPHLFEntryDirect_t) m[0].a);
          CHECK (x == ok, "free returns %d", x); if (ok) { CHECK (!hdr (m[0].a), "freed entry still marked %x", hdr (m[0].a)); m.pop_front (); }
        }
      else if (op == 7 && rnd (4) == 0) { CHECK (!SPHSinglePCQueueResetAsync (q), "reset"); m.clear (); head = 0; }
      else if (op == 8) { int p = rnd (5) - 1; CHECK (!SPHSinglePCQueueSetCachePrefetch (q, p), "prefetch"); CHECK (!SPHSinglePCQueuePrefetch (q), "prefetch"); }
      CHECK (SPHSinglePCQueueFreeSpace (q) == (n - 1 - m.size ()) * stride, "free space %lu with %zu of %zu slots used", (unsigned long) SPHSinglePCQueueFreeSpace (q), m.size (), n);
      CHECK (!!SPHSinglePCQueueFull (q) == (m.size () + 1 == n), "full"); CHECK (!!SPHSinglePCQueueEmpty (q) == (m.empty () || !m[0].done), "empty");
      CHECK (SPHSinglePCQueueGetEntryTemplate (q) == ((stride / 16) << 24 | 4), "template");
    }
  rp_try ("a block that is not a queue"); memset (b, 0, 64); SPHLFEntryHandle_t h;
  CHECK (!SPHSinglePCQueueAllocStrideEntry (q, 1, 1, &h) && !SPHSinglePCQueueAllocStrideTimeStamped (q, 1, 1, &h) && !SPHSinglePCQueueGetNextComplete (q, &h) && !SPHSinglePCQueueAllocStrideDirect (q) && !SPHSinglePCQueueFreeNextEntry (q)
     && SPHSinglePCQueueGetStride (q) == -1 && SPHSinglePCQueueResetAsync (q) && SPHSinglePCQueueDestroy (q) == -1 && !SPHSinglePCQueueAllocRaw (q), "not a queue");
  munmap (b, sz + 4096);
}
static void mpmc (void)
{
  size_t sz = 1024u << rnd (4); char *b = (char *) rp_mem (sz + 4096, 4096); memset (b, rnd (2) ? 0xff : 0x5a, sz + 4096);
  unsigned req = 1 + rnd (rnd (2) ? 40 : 300), stride = (req + 15) / 16 * 16; std::string hist;
  rp_try ("multi queue: size %zu stride %u in non-zero memory", sz, req);
  SPHMPMCQ_t q = SPHMPMCQInitWithStride (b, sz, req, 0); size_t n = SPHMPMCQGetEntries (q); CHECK (SPHMPMCQGetStride (q) == (int) stride, "stride"); CHECK (n >= 1 && n <= sz / stride, "%zu entries", n);
  std::deque<Ent> m; std::vector<uintptr_t> held; std::vector<uintptr_t> ring; size_t head = 0; std::set<uintptr_t> inuse;
  for (int k = 0; k < 60; k++)
    {
      int op = rnd (7); char d[64]; snprintf (d, sizeof d, " %d", op); hist += d;
      rp_try ("multi queue: size %zu stride %u in non-zero memory, history (0-1 alloc, 2 complete, 3-4 take, 5 free, 6 reset):%s", sz, req, hist.c_str ());
      if (op <= 1)
        {
          bool room = ring.size () < n || !inuse.count (ring[head % n]);
          uintptr_t e = (uintptr_t) (op ? SPHSPMCQAllocStrideDirect (q) : SPHMPMCQAllocStrideDirectSync (q));
          CHECK ((e != 0) == room, "allocation %s with %zu of %zu slots in use", e ? "succeeds" : "fails", inuse.size (), n);
          if (e)
            {
              CHECK (e % 16 == 0 && e > (uintptr_t) b && e + stride <= (uintptr_t) b + sz, "entry outside the queue");
              if (ring.size () < n) { if (ring.size ()) CHECK (e == ring.back () + stride, "entries not adjacent"); ring.push_back (e); } else CHECK (e == ring[head % n], "not the next slot");
              head++; CHECK (hdr (e) == ((stride / 16) << 24 | 4), "header %08x", hdr (e)); unsigned char f = rnd (); memset ((char *) e + 4, f, stride - 4); m.push_back ({e, 0, 0, false, false, f}); inuse.insert (e);
            }
        }
      else if (op == 2) { for (auto &x : m) if (!x.done) { CHECK (!SPHMPMCQEntryDirectIsComplete ((SPHLFEntryDirect_t) x.a), "early"); SPHLFEntryDirectComplete ((SPHLFEntryDirect_t) x.a, SPHMPMCQGetEntryTemplate (q), 0, 0); CHECK (SPHMPMCQEntryDirectIsComplete ((SPHLFEntryDirect_t) x.a), "completion"); x.done = true; break; } }
      else if (op <= 4)
        {
          bool ok = m.size () && m[0].done; uintptr_t e = (uintptr_t) (op == 3 ? SPHMPMCQGetNextCompleteDirectSync (q) : SPHMPSCQGetNextCompleteDirect (q));
          CHECK ((e != 0) == ok, "take %s", e ? "delivers an entry that is not complete" : "misses a complete entry");
          if (e) { CHECK (e == m[0].a, "wrong entry"); for (unsigned i = 4; i < stride; i++) CHECK (((unsigned char *) e)[i] == m[0].fill, "data byte %u changed", i); held.push_back (e); m.pop_front (); }
        }
      else if (op == 5) { if (held.size ()) { size_t i = rnd (held.size ()); CHECK (SPHMPMCQFreeEntryDirect (q, (SPHLFEntryDirect_t) held[i]) == 1 && !hdr (held[i]), "free"); inuse.erase (held[i]); held.erase (held.begin () + i); } }
      else if (rnd (5) == 0) { CHECK (!SPHMPMCQResetAsync (q), "reset"); m.clear (); held.clear (); inuse.clear (); head = 0; ring.clear (); }
      if (ring.size () == n) CHECK (!!SPHMPMCQIsFull (q) == !!inuse.count (ring[head % n]), "full");
      if (held.empty ())
        {
          CHECK (!!SPHMPMCQIsEmpty (q) == (m.empty () || !m[0].done), "empty");
          CHECK (SPHMPMCQFreeSpace (q) == (n - m.size ()) * stride, "free space %lu with %zu of %zu entries used", (unsigned long) SPHMPMCQFreeSpace (q), m.size (), n);
        }
    }
  rp_try ("a block that is not a multi queue"); memset (b, 0, 64);
  CHECK (!SPHSPMCQAllocStrideDirect (q) && !SPHMPMCQAllocStrideDirectSync (q) && !SPHMPMCQGetNextCompleteDirectSync (q) && SPHMPMCQGetStride (q) == -1 && SPHMPMCQGetEntries (q) == -1 && SPHMPMCQDestroy (q) == -1 && SPHMPMCQFreeSpace (q) == 0, "not a queue");
  munmap (b, sz + 4096);
}
static SPHSinglePCQueue_t tq; static int tv; static const int TN = 60000;
static void *producer (void *)
{
  for (int i = 0; i < TN; i++)
    {
      SPHLFEntryDirect_t e;
      if (tv == 0) while (!(e = SPHSinglePCQueueAllocStrideDirect (tq))) sched_yield (); else e = tv == 1 ? SPHSinglePCQueueAllocStrideDirectSpin (tq) : SPHSinglePCQueueAllocStrideDirectSpinPause (tq);
      ((volatile int *) e)[1] = i; SPHLFEntryDirectComplete (e, SPHSinglePCQueueGetEntryTemplate (tq), i & 0xfff, 1);
    }
  return 0;
}
static void threads (void)
{
  for (tv = 0; tv < 3; tv++)
    {
      char *b = (char *) rp_mem (4096, 4096); memset (b, 0, 4096); rp_try ("one producer thread, one consumer thread, variant %d (0 polling, 1 spin, 2 spin with pause)", tv); alarm (60);
      tq = SPHSinglePCQueueInitWithStride (b, 512 + 128 * tv, 64, 0); pthread_t t; pthread_create (&t, 0, producer, 0);
      for (int i = 0; i < TN; i++)
        {
          SPHLFEntryDirect_t e; if (tv == 0) while (!(e = SPHSinglePCQueueGetNextCompleteDirect (tq))) sched_yield (); else e = tv == 1 ? SPHSinglePCQueueGetNextCompleteDirectSpin (tq) : SPHSinglePCQueueGetNextCompleteDirectSpinPause (tq);
          CHECK (((volatile int *) e)[1] == i, "item %d arrives where %d is due", ((volatile int *) e)[1], i);
          CHECK (rnd (2) ? SPHSinglePCQueueFreeNextEntry (tq) : SPHSinglePCQueueFreeNextEntryDirect (tq, e), "free fails");
        }
      pthread_join (t, 0);
    }
}
int main ()
{
  rp_init (); rp_seed (); rp_try ("joining a region"); CHECK (!SASJoinRegion (), "cannot join the region");
  for (int i = 0; i < 4; i++)
    {
      SPHSinglePCQueue_t q; SPHMPMCQ_t r; rp_try ("create and destroy queues in region memory, round %d", i);
      CHECK ((q = SPHSinglePCQueueCreateWithStride (4096, 128)), "create"); SPHLFEntryHandle_t h; int n = 0; while (n < 100 && SPHSinglePCQueueAllocStrideEntry (q, 1, 1, &h)) { n++; memset (h.next, 0xff, h.remaining); SPHSinglePCQueueEntryComplete (&h); } CHECK (n == 29, "%d entries", n); CHECK (!SPHSinglePCQueueDestroy (q), "destroy");
      CHECK ((r = SPHMPMCQCreateWithStride (4096, 128)), "create"); int k = SPHMPMCQGetEntries (r); void *p; n = 0; while (n < 100 && (p = SPHMPMCQAllocStrideDirectSync (r))) { n++; memset ((char *) p + 4, 0xff, 124); } CHECK (n == k, "%d of %d entries", n, k); CHECK (!SPHMPMCQDestroy (r), "destroy");
    }
  for (int it = 0; it < 6000; it++) { spsc (); mpmc (); }
  threads ();
  rp_try ("cleanup"); SASRemove ();
  return 0;
}
