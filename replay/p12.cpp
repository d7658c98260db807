#include "rp.h"
#include "sasalloc.h"
#include "sphlflogentry.h"
#include "sphlfentry.h"
#define BODY(NS, H, HD, P1, P2) namespace NS { \
  static char *blk; \
  static void mk (H &h, unsigned off, unsigned len) { memset (&h, 0, sizeof h); h.entry = (HD *) blk; h.next = blk + off; h.remaining = len - off; h.total_size = len; } \
  static bool same (const H &a, const H &b) { return a.entry == b.entry && a.next == b.next && a.remaining == b.remaining && a.total_size == b.total_size; } \
  static char before[70000]; \
  static void onlychanged (const char *f, const char *p, size_t n) { for (int i = 0; i < 70000; i++) if (blk[i] != before[i] && !(blk + i >= p && blk + i < p + n)) rp_fail ("%s wrote at offset %d, outside its field", f, i); } \
  template <class T, class A, class G> static void scalar (const char *nm, A add, G get, unsigned off, unsigned len, T v) { \
    H h, h0; mk (h, off, len); h0 = h; memcpy (before, blk, 70000); size_t k = sizeof (T); \
    char *p = (char *) (((uintptr_t) h.next + k - 1) & ~(k - 1)); bool fits = p + k <= blk + len; \
    rp_try ("add %s at offset %u of an entry of %u bytes", nm, off, len); int r = add (&h, v); \
    CHECK (r == (fits ? 0 : -1), "add returned %d, fits=%d", r, fits); onlychanged ("add", p, fits ? k : 0); \
    if (fits) { CHECK (!memcmp (p, &v, k), "the value is not in the entry"); CHECK (h.next == p + k && h.remaining == blk + len - (p + k) && h.entry == h0.entry && h.total_size == h0.total_size, "handle after add: next offset %ld remaining %u", (long) (h.next - blk), h.remaining); } \
    else CHECK (same (h, h0), "failed add changed the handle"); \
    H g = h0; rp_try ("get %s at offset %u of an entry of %u bytes", nm, off, len); T w = get (&g); \
    if (fits) CHECK (!memcmp (&w, &v, k) && same (g, h), "get does not return what add stored"); else { T z; memset (&z, 0, sizeof z); CHECK (!memcmp (&w, &z, k) && same (g, h0), "get past the end"); } memcpy (blk, before, 70000); } \
  static void run (void) { blk = (char *) rp_mem (140000, 4096); for (int i = 0; i < 140000; i++) blk[i] = (char) rnd (); \
   for (int it = 0; it < 4000; it++) { unsigned len = 16 * (1 + rnd (rnd (4) ? 6 : 4095)), off = rnd (3) ? len - rnd (len < 24 ? len + 1 : 24) : rnd (len + 1); uint64_t x = rnd (); double d; memcpy (&d, &x, 8); float f; memcpy (&f, &x, 4); \
    scalar<char> ("char", P2##AddChar, P2##GetNextChar, off, len, (char) x); scalar<short> ("short", P2##AddShort, P2##GetNextShort, off, len, (short) x); scalar<int> ("int", P2##AddInt, P2##GetNextInt, off, len, (int) x); \
    scalar<long> ("long", P2##AddLong, P2##GetNextLong, off, len, (long) x); scalar<long long> ("long long", P2##AddLongLong, P2##GetNextLongLong, off, len, (long long) x); \
    scalar<void *> ("pointer", P2##AddPtr, P2##GetNextPtr, off, len, (void *) x); \
    scalar<double> ("double", P2##AddDouble, P2##GetNextDouble, off, len, (x >> 52 & 0x7ff) == 0x7ff ? 1.5 : d); scalar<float> ("float", P2##AddFloat, P2##GetNextFloat, off, len, (x >> 23 & 0xff) == 0xff ? 1.5f : f); \
    /* strings */ { unsigned n = rnd (4) ? rnd (2) ? len - off : rnd (len - off + 3) : len - off + 1; if (rnd (3) == 0 && n) n--; std::string s; for (unsigned i = 0; i < n; i++) s += (char) (1 + rnd (255)); \
      H h, h0; mk (h, off, len); h0 = h; memcpy (before, blk, 70000); bool fits = n + 1 <= len - off; rp_try ("add string of %u characters at offset %u of an entry of %u bytes", n, off, len); int r = P2##AddString (&h, s.c_str ()); \
      CHECK (r == (fits ? 0 : -1), "add returned %d", r); onlychanged ("add", blk + off, fits ? n + 1 : 0); \
      if (fits) { CHECK (!strcmp (blk + off, s.c_str ()) && h.next == blk + off + n + 1 && h.remaining == len - off - n - 1, "string not stored or handle wrong"); H g = h0; char *q = P2##GetNextString (&g); CHECK (q == blk + off && same (g, h), "get string"); } \
      else { CHECK (same (h, h0), "failed add changed the handle"); memcpy (blk + off, s.c_str (), n + 1); H g = h0; char *q = P2##GetNextString (&g); CHECK (!q && same (g, h0), "string running past the entry was returned"); } memcpy (blk, before, 70000); } \
    /* structs */ for (int wh = 0; wh < 2; wh++) { unsigned long al = 1ul << rnd (rnd (2) ? 5 : 13), sz = rnd (4) ? rnd (len - off + 20) : rnd (2) ? ~0ul - rnd (40) : 0; H h, h0; mk (h, off, len); h0 = h; memcpy (before, blk, 70000); \
      uintptr_t p = ((uintptr_t) h.next + al - 1) & ~(al - 1), end = (uintptr_t) blk + len; bool fits = p <= end && sz <= end - p; rp_try ("%s struct of %lu bytes aligned to %lu at offset %u of an entry of %u bytes", wh ? "get" : "allocate", sz, al, off, len); \
      char *r = (char *) (wh ? P2##GetStructPtr (&h, sz, al) : P2##AllocStruct (&h, sz, al)); onlychanged ("struct", blk, 0); \
      if (fits) CHECK (r == (char *) p && h.next == (char *) p + sz && h.remaining == end - p - sz, "space at offset %ld, next offset %ld, remaining %u", (long) (r - blk), (long) (h.next - blk), h.remaining); else CHECK (!r && same (h, h0), "space handed out beyond the entry (offset %ld)", (long) (r - blk)); } \
    /* header */ { H h; mk (h, off, len); HD *e = (HD *) blk; uint32_t w = (uint32_t) rnd (); memcpy (blk, &w, 4); uint64_t ts = rnd (); memcpy (blk + 8, &ts, 8); uint16_t pid = rnd (), tid = rnd (); memcpy (blk + 4, &pid, 2); memcpy (blk + 6, &tid, 2); bool v = w & 1, t = (w & 3) == 3; \
      rp_try ("entry header word %x", w); memcpy (before, blk, 70000); \
      CHECK (!!P1##IsComplete (&h) == v && !!P1##IsTimestamped (&h) == t, "complete / timestamped"); CHECK (P1##TimeStamp (&h) == (t ? ts : 0), "time stamp"); CHECK (P1##PID (&h) == (t ? pid : 0) && P1##TID (&h) == (t ? tid : 0), "pid / tid"); \
      CHECK (P1##Category (&h) == (v ? (int) (w >> 4 & 0xfff) : -1) && P1##Subcat (&h) == (v ? (int) (w >> 16 & 0xff) : -1), "category %d subcategory %d", P1##Category (&h), P1##Subcat (&h)); CHECK ((char *) P1##Header (&h) == (v ? blk : 0), "header address"); CHECK (P1##GetFreePtr (&h) == h.next, "free pointer"); onlychanged ("reader", blk, 0); \
      int (*f[3]) (H *) = {P1##StrongComplete, P1##WeakComplete, P1##Complete}; for (int i = 0; i < 3; i++) { memcpy (blk, &w, 4); CHECK (f[i] (&h) == 0, "complete failed"); uint32_t w2; memcpy (&w2, blk, 4); CHECK (w2 == (w | 1), "completion changed the entry word to %x", w2); onlychanged ("complete", blk, 4); } (void) e; } \
   } } }
BODY (lg, SPHLFLoggerHandle_t, SPHLFLogHeader_t, SPHLFLogEntry, SPHLFlogEntry)
BODY (lf, SPHLFEntryHandle_t, SPHLFEntryHeader_t, SPHLFEntry, SPHLFEntry)
int main () { rp_init (); rp_seed (); lg::run (); lf::run (); return 0; }
