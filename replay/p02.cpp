#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sasconf.h"
#include <sys/stat.h>
typedef std::map<unsigned long, unsigned long> Map;
extern "C" { void SASListFreeRegion (void **, unsigned long *, int *); void SASListAllocatedRegion (void **, unsigned long *, int *); void SASListInUseMem (void **, unsigned long *, int *); void SASListUncommittedMem (void **, unsigned long *, int *); void SASListFreeMem (void **, unsigned long *, int *); }
typedef void (*lister) (void **, unsigned long *, int *);
static Map L (lister f)
{
  static void *a[100000]; static unsigned long z[100000]; int n = -1; f (a, z, &n); Map m; CHECK (n >= 0 && n < 100000, "list of %d blocks", n);
  for (int i = 0; i < n; i++) { CHECK (!m.count ((unsigned long) a[i]), "block listed twice"); m[(unsigned long) a[i]] = z[i]; CHECK (((unsigned long) a[i] - getMemLow ()) % z[i] == 0, "listed block %p of %#lx unaligned", a[i], z[i]); }
  return m;
}
static bool in (const Map &m, unsigned long a, unsigned long n) { for (auto &e : m) if (e.first <= a && a + n <= e.first + e.second) return true; return false; }
static bool hit (const Map &m, unsigned long a, unsigned long n) { auto i = m.lower_bound (a); if (i != m.end () && i->first < a + n) return true; if (i != m.begin ()) { --i; if (i->first + i->second > a) return true; } return false; }
static unsigned long tot (const Map &m) { unsigned long t = 0; for (auto &e : m) t += e.second; return t; }
static Map live;
static void same (void)
{
  Map fr = L (SASListFreeMem), un = L (SASListUncommittedMem), us = L (SASListInUseMem), al = L (SASListAllocatedRegion), re = L (SASListFreeRegion);
  CHECK (tot (fr) + tot (un) + tot (us) == tot (al), "pages of the segments lost or doubled: %#lx free %#lx uncommitted %#lx used of %#lx", tot (fr), tot (un), tot (us), tot (al)); CHECK (tot (al) + tot (re) == RegionSize, "region lost: %#lx", RegionSize - tot (al) - tot (re));
  for (auto &m : { fr, un, us }) for (auto &e : m) { bool ok = false; for (auto &s : al) if (s.first < e.first + e.second && e.first < s.first + s.second) ok = true; CHECK (ok, "block outside the allocated segments"); }
  for (auto &e : fr) { CHECK (!hit (un, e.first, e.second) && !hit (us, e.first, e.second), "free block overlaps"); CHECK (!(fr.count (((e.first - getMemLow ()) ^ e.second) + getMemLow ()) && fr[((e.first - getMemLow ()) ^ e.second) + getMemLow ()] == e.second), "free buddies not merged"); }
  for (auto &e : un) CHECK (!hit (us, e.first, e.second), "uncommitted block in use");
  for (auto &e : live) CHECK (in (us, e.first, e.second), "live block %#lx of %#lx not listed as in use", e.first, e.second);
  CHECK (tot (us) == tot (live) + (1 << 20), "in use: %#lx instead of %#lx", tot (us), tot (live) + (1 << 20));
}
static void *get (unsigned long z)
{
  Map fr = L (SASListFreeMem), un = L (SASListUncommittedMem); bool room = false; for (auto &e : fr) room |= e.second >= z; for (auto &e : un) room |= e.second >= z;
  void *b = SASBlockAlloc (z); unsigned long a = (unsigned long) b; CHECK (b || !room, "refused although a free block is large enough"); if (!b) return 0;
  CHECK (a >= getMemLow () && a + z <= getMemHigh (), "block outside the region"); CHECK (!((a - getMemLow ()) & (z - 1)), "block unaligned"); CHECK (!hit (live, a, z) && a >= getMemLow () + (1 << 20), "block overlaps a live block");
  Map al = L (SASListAllocatedRegion); CHECK (in (al, a, z), "block not in a segment"); live[a] = z; *(volatile char *) b = 1; ((volatile char *) b)[z - 1] = 1; return b;
}
int main ()
{
  rp_init (); rp_seed (); const char *base = getenv ("SASSTOREPATH"); if (SASJoinRegion ()) return 0; alarm (60);
  std::string h; strcpy (rp_input, "fresh region"); same ();
  for (int it = 0; it < 700; it++)
    {
      char d[64];
      if (live.empty () || rnd (9) < 5) { unsigned long z = 4096ul << (rnd (6) ? rnd (5) : rnd (17)); snprintf (d, sizeof d, " +%lx", z); h += d; snprintf (rp_input, sizeof rp_input, "SASBlockAlloc/Dealloc history:%s", h.size () > 3500 ? h.c_str () + h.size () - 3500 : h.c_str ()); get (z); }
      else { auto i = live.begin (); std::advance (i, rnd (live.size ())); snprintf (d, sizeof d, " -%lx:%lx", i->first - getMemLow (), i->second); h += d; snprintf (rp_input, sizeof rp_input, "SASBlockAlloc/Dealloc history:%s", h.size () > 3500 ? h.c_str () + h.size () - 3500 : h.c_str ()); SASBlockDealloc ((void *) i->first, i->second); CHECK (*(char *) i->first == 0, "freed block not cleared"); live.erase (i); }
      if (it % 4 == 0) same ();
      if (it % 100 == 99) { h += " detach+join"; for (auto &e : live) *(unsigned long *) e.first = e.first; SASCleanUp (); if (SASJoinRegion ()) return 0; for (auto &e : live) CHECK (*(unsigned long *) e.first == e.first, "content lost by joining again"); same (); }
    }
  strcpy (rp_input, "2 MB and 4 KB blocks in segments above 4 GB"); std::vector<void *> big; for (int i = 0; i < 20; i++) { void *b = get (SegmentSize); if (!b) break; big.push_back (b); }
  for (int i = 0; i < 12; i++) { get (0x200000); get (4096); } same (); for (auto b : big) { SASBlockDealloc (b, SegmentSize); live.erase ((unsigned long) b); } same (); for (int i = 0; i < 8; i++) { get (0x4000000); get (8192); } same ();
  while (!live.empty ()) { SASBlockDealloc ((void *) live.begin ()->first, live.begin ()->second); live.erase (live.begin ()); } same ();
  strcpy (rp_input, "segment creation fails"); { Map al = L (SASListAllocatedRegion); unsigned long i = 0; while (al.count (getMemLow () + i * SegmentSize)) i++; char n[4096]; for (int k = 0; k < 40; k++) { snprintf (n, sizeof n, "%s/SAS%05lX.DAT", base ? base : ".", i + k); mkdir (n, 0700); }
    for (int k = 0; k < 300; k++) if (!SASBlockAlloc (SegmentSize)) break; else {} Map a2 = L (SASListAllocatedRegion), re = L (SASListFreeRegion); CHECK (tot (a2) + tot (re) == RegionSize, "a failed allocation lost %#lx of the region", RegionSize - tot (a2) - tot (re)); for (int k = 0; k < 40; k++) { snprintf (n, sizeof n, "%s/SAS%05lX.DAT", base ? base : ".", i + k); rmdir (n); } }
  SASRemove (); return 0;
}
