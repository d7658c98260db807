exec(open('/verif/tools/bugs/b1.py').read().split('BUGS = [')[0])
T = H + r'''

#include "ultree.h"
#include <map>
typedef uLongTreeNode N;
static N *mk(unsigned long k) { N *n = (N*)malloc(sizeof(N)); n->init(k, k); return n; }
'''
R = H + r'''
#include <map>
extern "C" { void SASListFreeMem (void **, unsigned long *, int *); void SASListInUseMem (void **, unsigned long *, int *); void SASListUncommittedMem (void **, unsigned long *, int *); }
static void *a[100000]; static unsigned long z[100000]; static int n;
'''
BUGS = [
dict(id='p01-remove-chain', prop='P01', edits=[('src/ultree.cpp', '''			   q = p->right;	// move right then as far left as possible
            while ( q->left ) q = q->left;''', '''			   q = p->right;	// move right then as far left as possible
            if ( q->left ) q = q->left;''')],
 needs='removing a node with two subtrees whose right subtree continues to the left for two steps or more', breaks='the keys below are lost',
 demo=T + r'''
int main() { N *root = 0; unsigned long ks[] = {50, 20, 90, 80, 70, 60, 75}; for (int i = 0; i < 7; i++) root->insertNode(&root, mk(ks[i])); N **pp = root->searchNode(&root, 50); (*pp)->removeNode(pp);
 for (int i = 1; i < 7; i++) { N *q = root->searchNode(root, ks[i]); if (!q || q->getKey() != ks[i]) BAD("key %lu lost\n", ks[i]); } return 0; }'''),
dict(id='p01-prev-self', prop='P01', edits=[('src/ultree.cpp', '''               if ( p->left->key < k ) q = p->left;''', '''               if ( p->left->key <= k ) q = p->left;''')],
 needs='asking for the key before the key of a left child without left subtree', breaks='the search returns the key itself',
 demo=T + r'''
int main() { N *root = 0; unsigned long ks[] = {10, 50, 20, 70}; for (int i = 0; i < 4; i++) root->insertNode(&root, mk(ks[i])); N *q = root->searchPrevNode(root, 20); if (!q || q->getKey() != 10) BAD("before 20: %ld\n", q ? (long)q->getKey() : -1L); return 0; }'''),
dict(id='p01-next-link', prop='P01', edits=[('src/ultree.cpp', '''                  if ( p->right->key > k )
                  {
                     qq = &p->right;''', '''                  if ( p->right->key > k && !p->right->left )
                  {
                     qq = &p->right;''')],
 needs='searching the link of the next key when it is a right child whose left subtree has only smaller keys', breaks='a larger key or none is found',
 demo=T + r'''
int main() { N *root = 0; unsigned long ks[] = {10, 50, 20}; for (int i = 0; i < 3; i++) root->insertNode(&root, mk(ks[i])); N **q = root->searchEqualOrNextNode(&root, 30); if (!q || (*q)->getKey() != 50) BAD("next of 30 is %ld\n", q ? (long)(*q)->getKey() : -1L); return 0; }'''),
dict(id='p02-merge-levels', prop='P02', edits=[('src/sassim.cpp', """	      flag = (uj < maxLog2);""", """	      flag = (uj < maxLog2 / 4);""")],
 needs='freeing the last of the pieces of a block of 1 MB or more', breaks='merging stops early: the free buddies stay split',
 demo=R + r"""
int main() { if (SASJoinRegion()) return 0; void *b[64]; for (int i = 0; i < 64; i++) b[i] = SASBlockAlloc(1 << 18); for (int i = 0; i < 64; i++) if (b[i]) SASBlockDealloc(b[i], 1 << 18); SASListFreeMem(a, z, &n); std::map<unsigned long, unsigned long> m; for (int i = 0; i < n; i++) m[(unsigned long)a[i] - getMemLow()] = z[i];
 int bad = 0; for (auto &e : m) if (m.count(e.first ^ e.second) && m[e.first ^ e.second] == e.second) bad = 1; SASRemove(); if (bad) BAD("free buddies are not merged\n"); return 0; }"""),
dict(id='p02-split-mid', prop='P02', edits=[('src/sassim.cpp', """      if (aoff >= moff)
	{""", """      if (aoff > moff)
	{""")],
 needs='compacted used list, freeing the block at the exact middle of a compacted entry', breaks='the used list keeps the freed block and loses its neighbour',
 demo=R + r"""
int main() { if (SASJoinRegion()) return 0; setSASCompactUseList(); std::map<unsigned long, int> m; char *b[32]; for (int i = 0; i < 32; i++) b[i] = (char*)SASBlockAlloc(65536); int bad = 0;
 for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) if (b[i] && b[j] == b[i] + 65536 && !(((unsigned long)b[i] - getMemLow()) & 65536) && !m[1]) { m[1] = 1; SASBlockDealloc(b[j], 65536); SASListInUseMem(a, z, &n); int f = 0; for (int q = 0; q < n; q++) { if ((char*)a[q] <= b[j] && b[j] < (char*)a[q] + z[q]) bad = 1; if ((char*)a[q] <= b[i] && b[i] < (char*)a[q] + z[q]) f = 1; } if (!f) bad = 1; }
 SASRemove(); if (bad) BAD("used list is wrong\n"); return 0; }"""),
dict(id='p02-free-unlocked', prop='P02', edits=[('src/sassim.cpp', """  if (sasClearOnDealloc)
    {
      SASRelease ();
      if (blockSize > 4096)
	memset ((char *) blockAddr + 4096, 0, blockSize - 4096);
      SASSeize ();
    }
  nn = &(anchor->anchors.free);
  p2Dealloc (nn, blockSize, blockAddr);
  SASRelease ();""", """  SASRelease ();
  if (sasClearOnDealloc)
    {
      if (blockSize > 4096)
	memset ((char *) blockAddr + 4096, 0, blockSize - 4096);
    }
  nn = &(anchor->anchors.free);
  p2Dealloc (nn, blockSize, blockAddr);""")],
 needs='two threads allocating and freeing blocks at once', breaks='the free tree is changed without the region lock',
 demo=R + r"""
static volatile int go; static unsigned long tot() { SASListFreeMem(a, z, &n); unsigned long t = 0; for (int i = 0; i < n; i++) t += z[i]; SASListUncommittedMem(a, z, &n); for (int i = 0; i < n; i++) t += z[i]; SASListInUseMem(a, z, &n); for (int i = 0; i < n; i++) t += z[i]; return t; }
static void *w(void *x) { unsigned s = (long)x * 7 + 1; void *b[16] = {0}; unsigned long q[16]; for (int k = 0; k < 40000; k++) { s = s * 1103515245 + 12345; int i = (s >> 16) & 15; if (b[i]) { SASBlockDealloc(b[i], q[i]); b[i] = 0; } else { q[i] = 4096ul << ((s >> 24) & 3); b[i] = SASBlockAlloc(q[i]); } } for (int i = 0; i < 16; i++) if (b[i]) SASBlockDealloc(b[i], q[i]); return 0; }
int main() { if (SASJoinRegion()) return 0; unsigned long t0 = tot(); pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, w, (void*)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); unsigned long t1 = tot(); SASRemove(); if (t1 != t0) BAD("%lx pages became %lx\n", t0, t1); return 0; }"""),
dict(id='p23-retry-full', prop='P23', edits=[('src/sphlogportal.cpp', """			if (!result && SPHLFLoggerFull(log) && ((log_index+1) < headerBlock->next_free))""", """			if (!result && ((log_index+1) < headerBlock->next_free))""")], nth={'src/sphlogportal.cpp': 2},
 needs='a raw request that is too large for the rest of the current logger, which still has room', breaks='the portal moves past a logger that is not full',
 demo=H + r"""
#include "sphlflogger.h"
#include "sphlogportal.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536 * 4)) return 1; memset(b, 0, 65536 * 4); SPHLogPortal_t p = SPHLogPortalInit(b, 65536); SPHLFLogger_t l[2]; for (int i = 0; i < 2; i++) { l[i] = SPHLFLoggerInit(b + 65536 * (i + 1), 65536); SPHLogPortalAddLogger(p, l[i]); }
 void *r = SPHLogPortalAllocRaw(p, 1 << 20); if (!SPHLFLoggerFull(l[0]) && SPHLogPortalGetCurrentIndex(p) != 0) BAD("moved past a logger with room\n"); return 0; }"""),
dict(id='p23-current-int', prop='P23', edits=[('src/sphlogportal.cpp', '''		if ( (index >= 0) && (index  < headerBlock->next_free) )''', '''		if ( (index >= headerBlock->current_logger) && (index  < headerBlock->next_free) )''')],
 needs='looking up a logger that the portal has moved past', breaks='loggers before the current one are not found',
 demo=H + r'''
#include "sphlflogger.h"
#include "sphlogportal.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536 * 4)) return 1; memset(b, 0, 65536 * 4); SPHLogPortal_t p = SPHLogPortalInit(b, 65536); SPHLFLogger_t l[2]; for (int i = 0; i < 2; i++) { l[i] = SPHLFLoggerInit(b + 65536 * (i + 1), 65536); SPHLogPortalAddLogger(p, l[i]); }
 SPHLFLoggerHandle_t hh; for (int i = 0; i < 70; i++) SPHLogPortalAllocTimeStamped(p, 1, 2, 1000, &hh); if (SPHLogPortalGetCurrentIndex(p) != 1) return 0; if (SPHLogPortalGetLoggerByIndex(p, 0) != l[0]) BAD("first logger lost\n"); return 0; }'''),
]
