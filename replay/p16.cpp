#include "rp.h"
#include "sasalloc.h"
#include "sasindexkey.h"
#include <math.h>
static int sgn (int x) { return x < 0 ? -1 : x > 0; }
static int lex (const SASIndexKey_t &a, const SASIndexKey_t &b)
{
  unsigned na = a.compare_size / 8, nb = b.compare_size / 8;
  for (unsigned i = 0; i < na && i < nb; i++) if (a.data[i] != b.data[i]) return a.data[i] < b.data[i] ? -1 : 1;
  return na < nb ? -1 : na > nb;
}
static std::string show (const SASIndexKey_t &k)
{ std::string s = "("; char b[40]; for (unsigned i = 0; i < k.compare_size / 8; i++) { sprintf (b, "%s%lx", i ? "," : "", (long) k.data[i]); s += b; } return s + ")"; }
static uint64_t val (void)
{
  static const uint64_t c[] = {0, 1, 2, 255, 256, 257, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x100000000ull, 0xffffffffull, 0x8000000000000001ull, 0x0100000000000000ull};
  switch (rnd (3)) { case 0: return c[rnd (13)]; case 1: return rnd (4); default: return rnd () >> rnd (64); }
}
int main ()
{
  rp_init (); rp_seed ();
  for (int it = 0; it < 2000000; it++)
    {
      SASIndexKey_t a, b, c; memset (&c, 0xAA, sizeof c);
      unsigned na = 1 + rnd (rnd (2) ? 3 : 15), nb = rnd (2) ? na : 1 + rnd (15);
      a.compare_size = na * 8; a.copy_size = na * 8 + 8; b.compare_size = nb * 8; b.copy_size = nb * 8 + 8;
      for (int i = 0; i < 15; i++) { a.data[i] = val (); b.data[i] = rnd (4) ? a.data[i] : val (); }
      rp_try ("compare %s with %s", show (a).c_str (), show (b).c_str ());
      int r = SASIndexKeyCompare (&a, &b);
      CHECK (sgn (r) == lex (a, b), "compare gave %d, word order gives %d", r, lex (a, b));
      rp_try ("copy %s", show (a).c_str ());
      SASIndexKeyCopy (&c, &a);
      CHECK (c.compare_size == a.compare_size && c.copy_size == a.copy_size && !memcmp (c.data, a.data, na * 8), "the copy differs");
      for (unsigned i = na; i < 15; i++) CHECK (c.data[i] == 0xAAAAAAAAAAAAAAAAull, "copy wrote past the key");
      CHECK (SASIndexKeySize (&a) == a.copy_size, "size is not the copy size");
      uint64_t x = val (), y = val (); SASIndexKey_t k, l; memset (&k, 0xAA, sizeof k); memset (&l, 0xAA, sizeof l);
      rp_try ("unsigned keys %lx %lx", (long) x, (long) y);
      SASIndexKeyInitUInt64 (&k, x); SASIndexKeyInitUInt64 (&l, y);
      CHECK (k.compare_size == 8 && k.copy_size == 16, "sizes"); CHECK (SASIndexKeyReturn1stUInt64 (&k) == x, "round trip");
      CHECK (sgn (SASIndexKeyCompare (&k, &l)) == (x < y ? -1 : x > y), "order");
      for (int i = 1; i < 15; i++) CHECK (k.data[i] == 0xAAAAAAAAAAAAAAAAull, "init wrote past the key");
      rp_try ("address keys %lx %lx", (long) x, (long) y);
      SASIndexKeyInitRef (&k, (void *) x); SASIndexKeyInitRef (&l, (void *) y);
      CHECK (k.compare_size == 8 && k.copy_size == 16, "sizes"); CHECK (SASIndexKeyReturn1stUInt64 (&k) == x, "round trip");
      CHECK (sgn (SASIndexKeyCompare (&k, &l)) == (x < y ? -1 : x > y), "order");
      rp_try ("signed keys %ld %ld", (long) x, (long) y);
      SASIndexKeyInitInt64 (&k, (long long) x); SASIndexKeyInitInt64 (&l, (long long) y);
      CHECK (k.compare_size == 8 && k.copy_size == 16, "sizes"); CHECK (SASIndexKeyReturn1stInt64 (&k) == (long long) x, "round trip");
      CHECK (sgn (SASIndexKeyCompare (&k, &l)) == ((long) x < (long) y ? -1 : (long) x > (long) y), "order");
      double sp[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, -NAN, 4.9e-324, -4.9e-324, 1.7976931348623157e308, -1.7976931348623157e308, 0.5, -0.5, 2, -2};
      double u, v; if (rnd (2)) u = sp[rnd (16)]; else memcpy (&u, &x, 8); if (rnd (2)) v = sp[rnd (16)]; else memcpy (&v, &y, 8);
      rp_try ("double keys %g %g", u, v);
      SASIndexKeyInitDouble (&k, u); SASIndexKeyInitDouble (&l, v); double w = SASIndexKeyReturn1stDouble (&k);
      CHECK (k.compare_size == 8 && k.copy_size == 16, "sizes"); CHECK (!memcmp (&w, &u, 8), "round trip gives %g", w);
      if (u < v) CHECK (SASIndexKeyCompare (&k, &l) < 0, "order"); if (u > v) CHECK (SASIndexKeyCompare (&k, &l) > 0, "order");
      if (!memcmp (&u, &v, 8)) CHECK (SASIndexKeyCompare (&k, &l) == 0, "equal keys compare different");
      else if (u == u && v == v) CHECK (SASIndexKeyCompare (&k, &l) != 0, "different keys compare equal");
    }
  return 0;
}
