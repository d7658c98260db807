#include "rp.h"
#include <pthread.h>
extern "C" {
#include "bitv.h"
}
#include "bitv_priv.h"
typedef unsigned long W;
static W bit (int i) { return 0x8000000000000000ul >> i; }
static int fit (W w, int n, int al) { for (int i = 0; i + n <= 64; i += al) { int k = 0; while (k < n && (w & bit (i + k))) k++; if (k == n) return i; } return -1; }
static bitv_cb_t G; static bitv_word gw, ge; static int gown[64]; static volatile int gbad;
static void *worker (void *a)
{
  long id = (long) a; uint64_t s = id * 7919 + 13; std::vector<long> mine;
  for (int k = 0; k < 30000 && !gbad; k++)
    {
      s ^= s << 13; s ^= s >> 7; s ^= s << 17; int n = s % 7 + 1;
      if (mine.size () < 5 && (s >> 20) % 3) { ssize_t p = bitv_alloc_marked (&G, &gw, &ge, n * 64); if (p >= 0) { int i = p / 64; mine.push_back (p); for (int j = i; j < i + n; j++) if (__sync_lock_test_and_set (&gown[j], 1)) gbad = 1; } }
      else if (mine.size ()) { long p = mine.back (); mine.pop_back (); int i = p / 64; int len = bitv_allocated_size (&G, &gw, &ge, p) / 64; if (len < 1 || len > 7) gbad = 2; else for (int j = i; j < i + len; j++) gown[j] = 0; if (bitv_free_marked (&G, &gw, &ge, p)) gbad = 3; }
    }
  for (long p : mine) { int len = bitv_allocated_size (&G, &gw, &ge, p) / 64; for (int j = p / 64; j < p / 64 + len; j++) gown[j] = 0; bitv_free_marked (&G, &gw, &ge, p); }
  return 0;
}
int main ()
{
  rp_init (); rp_seed ();
  for (int sh = 0; sh < 64; sh++) { bitv_cb_t c; memset (&c, 7, sizeof c); rp_try ("init unit 1<<%d", sh); bitv_init (&c, 1ul << sh); CHECK (c.alloc_unit == 1ul << sh && c.alloc_shift == (size_t) sh && c.alloc_mask == (1ul << sh) - 1, "wrong control block"); memset (&c, 7, sizeof c); bitv_cb_t d = c; if (sh > 1) { bitv_init (&c, (1ul << sh) + 1 + rnd ((1ul << sh) - 1)); CHECK (!memcmp (&c, &d, sizeof c), "odd unit accepted"); } }
  for (long it = 0; it < 400000; it++)
    {
      int sh = rnd (4) ? rnd (12) : rnd (38); bitv_cb_t c; bitv_init (&c, 1ul << sh); W w = rnd (), e = rnd (); int m = rnd (6); if (m == 0) w = ~0ul; if (m == 1) w |= rnd () | rnd (); if (m == 2) w |= ~0ul << rnd (64); if (m == 3) { w = 0; int n = rnd (64) + 1; w = (~0ul << (64 - n)) >> rnd (65 - n); } if (m == 4) w |= ~0ul >> rnd (64); e &= ~w;
      int n = rnd (3) ? rnd (64) + 1 : rnd (6) + 1; size_t size = ((size_t) n << sh) - (sh ? rnd (1ul << sh) : 0); int al = 1 << rnd (7); W w0 = w, e0 = e; int fn = rnd (4); size_t a = rnd (4) ? (size_t) al << sh : al == 1 && sh ? 1ul << rnd (sh) : (size_t) al << sh; bool odd = fn & 1 && rnd (8) == 0 && a > 2; if (odd) a = a / 2 + 1 + (a > 4); if (odd && !(a & (a - 1))) odd = false;
      if (odd) ; else if (a >> sh) al = a >> sh; else al = 1; if (!(fn & 1)) al = 1;
      rp_try ("unit 1<<%d, free units %016lx, %zu bytes (%d units), %s%s alignment %zu", sh, w, size, n, fn & 2 ? "marked" : "unmarked", fn & 1 ? " aligned" : "", fn & 1 ? a : 0);
      ssize_t p = fn == 0 ? bitv_alloc (&c, &w, size) : fn == 1 ? bitv_aligned_alloc (&c, &w, size, a) : fn == 2 ? bitv_alloc_marked (&c, &w, &e, size) : bitv_aligned_alloc_marked (&c, &w, &e, size, a);
      int i = odd ? -1 : fit (w0, n, al); W r = 0; if (i >= 0) for (int k = i; k < i + n; k++) r |= bit (k);
      CHECK (i < 0 ? p == -1 : p == (ssize_t) ((size_t) i << sh), "returns %zd, the first fit is unit %d", p, i);
      CHECK (w == (w0 & ~r) && e == (fn & 2 && i >= 0 ? e0 | bit (i + n - 1) : e0), "words after: %016lx marks %016lx", w, e);
      if (i < 0) continue;
      if (fn & 2) { W base = rnd () << sh << 6; CHECK (bitv_allocated_size (&c, &w, &e, (base + p)) == (size_t) n << sh, "allocated size"); CHECK (bitv_allocated_size_chk (&c, &w, &e, base + p, size) == (size_t) n << sh, "checked size"); if (n > 1) CHECK (!bitv_allocated_size_chk (&c, &w, &e, base + p, (size_t) (n - 1) << sh), "wrong size accepted"); }
      CHECK (bitv_free_space (&c, &w) == (size_t) __builtin_popcountl (w) << sh, "free space");
      int rc = fn & 2 ? bitv_free_marked (&c, &w, &e, p) : bitv_dealloc (&c, &w, p, size); CHECK (!rc && w == w0 && e == e0, "release: %d %016lx %016lx", rc, w, e);
      int x = rnd (64); W w1 = w, e1 = e; e = e1 = fn & 2 ? e | bit (rnd (64)) : e; rp_try ("release of unit %d, free %016lx marks %016lx", x, w, e);
      if (fn & 2) { int k = x; while (k < 64 && !(e & bit (k))) k++; bool ok = k < 64 && !(w & bit (x)); W q = 0; for (int j = x; ok && j <= k; j++) q |= bit (j); rc = bitv_free_marked (&c, &w, &e, (W) x << sh); CHECK (w == (w1 | q) && e == (ok ? e1 & ~bit (k) : e1), "words %016lx %016lx", w, e); CHECK ((rc == 0) == (ok && !(w1 & q)), "returns %d", rc); }
    }
  rp_try ("four threads allocating and freeing"); alarm (60); bitv_init (&G, 64);
  for (int it = 0; it < 4; it++) { gw = ~0ul; ge = 0; pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create (&t[i], 0, worker, (void *) (i + 4 * it)); for (int i = 0; i < 4; i++) pthread_join (t[i], 0); CHECK (!gbad, "a run was handed out twice or lost its size (%d)", gbad); CHECK (gw == ~0ul && !ge, "units lost: %016lx %016lx", gw, ge); }
  return 0;
}
