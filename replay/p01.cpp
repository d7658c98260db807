#include "rp.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimpleheap.h"
#include "ultree.h"
typedef uLongTreeNode N;
int main ()
{
  rp_init (); rp_seed (); if (SASJoinRegion ()) return 0;
  for (int it = 0; it < 400; it++)
    {
      size_t sz = it % 5 == 4 ? 1024 : 65536; char *b = (char *) SASBlockAlloc (sz); if (!b) break; SASSimpleHeap_t h = SASSimpleHeapInit (b, SAS_RUNTIME_SIMPLEHEAP, sz); N **root = (N **) SASSimpleHeapAlloc (h, 16); *root = 0; std::map<unsigned long, unsigned long> M; std::string hist; std::vector<N *> spare;
      size_t fr = SASSimpleHeapFreeSpace (h); unsigned long R = it % 3 == 0 ? 12 : it % 3 == 1 ? 60 : ~0ul; int steps = rnd (90);
      auto K = [&] { unsigned long k = R == ~0ul ? (rnd (3) ? rnd (20) * 0x0ccccccccccccccdul : rnd (2) ? rnd (3) : ~0ul - rnd (3)) : rnd (R); return k; };
      for (int st = 0; st < steps; st++)
        {
          unsigned long k = K (), v = rnd (); char d[80]; int op = rnd (9); snprintf (d, sizeof d, " %c%#lx", "iInesSpdr"[op], k); hist += d; if (hist.size () < 3000) rp_try ("tree:%s", hist.c_str ()); else { alarm (5); }
          auto u = M.upper_bound (k), l = M.lower_bound (k); bool has = M.count (k); N *t = *root, *r, **rr;
          switch (op)
            {
            case 0: { size_t f0 = SASSimpleHeapFreeSpace (h); r = t->insertNode (root, k, v); CHECK (!r == (has || f0 < 32), "insertion of a key by value"); if (r) { M[k] = v; CHECK (r->getKey () == k && r->getInfo () == v, "inserted node differs"); } CHECK (SASSimpleHeapFreeSpace (h) == f0 - (r ? 32 : 0), "storage lost by an insertion"); break; }
            case 1: { N *n = (N *) SASNearAlloc (root, 32); if (!n) break; n->init (k, v); r = t->insertNode (root, n); CHECK (r == (has ? 0 : n), "insertion of a node"); if (r) M[k] = v; else SASNearDealloc (n, 32); break; }
            case 2: r = t->searchNextNode (t, k); CHECK (u == M.end () ? !r : r && r->getKey () == u->first && r->getInfo () == u->second, "least key above"); break;
            case 3: r = t->searchEqualOrNextNode (t, k); CHECK (l == M.end () ? !r : r && r->getKey () == l->first, "least key not below"); break;
            case 4: r = t->searchNode (t, k); CHECK (!has || (r && r->getKey () == k && r->getInfo () == M[k]), "search"); rr = t->searchNode (root, k); CHECK (!has || (rr && *rr == r), "search of the link"); break;
            case 5: rr = t->searchEqualOrNextNode (root, k); CHECK (l == M.end () ? !rr : rr && *rr && (*rr)->getKey () == l->first, "link of the least key not below"); break;
            case 6: r = t->searchPrevNode (t, k); CHECK (l == M.begin () ? !r : r && r->getKey () == std::prev (l)->first, "greatest key below"); break;
            default: { rr = t->searchEqualOrNextNode (root, k); if (!rr) break; unsigned long kk = (*rr)->getKey (); N *x = *rr; size_t f0 = SASSimpleHeapFreeSpace (h); if (op == 7) { t->deleteNode (rr); CHECK (SASSimpleHeapFreeSpace (h) == f0 + 32, "storage of a deleted node"); } else { CHECK (t->removeNode (rr) == x, "removed node"); CHECK (SASSimpleHeapFreeSpace (h) == f0, "storage of a removed node"); SASNearDealloc (x, 32); } M.erase (kk); }
            }
          unsigned long c = 0; size_t n = 0; t = *root; if (t) { CHECK (t->totalNodes () == (int) M.size (), "%d nodes instead of %zu", t->totalNodes (), M.size ()); int dp = t->maxNodeDepth (); CHECK (dp >= 0 && dp < (int) M.size (), "depth %d", dp); r = t->searchEqualOrNextNode (t, 0); for (auto &e : M) { CHECK (r && r->getKey () == e.first && r->getInfo () == e.second, "key %#lx lost", e.first); r = t->searchNextNode (t, e.first); n++; } CHECK (!r, "stray key"); }
          else CHECK (M.empty (), "all keys lost");
        }
      CHECK (SASSimpleHeapFreeSpace (h) + 32 * M.size () == fr, "storage lost"); SASBlockDealloc (b, sz);
    }
  SASRemove (); return 0;
}
