H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "sasalloc.h"
#include "sasshm.h"
#include "sassim.h"
#define BAD(...) do { printf(__VA_ARGS__); _exit(1); } while (0)
#include <unistd.h>
'''
BUGS = [
dict(id='p03-lost-node', prop='P03', edits=[('src/freenode.c', 'if (delta) { ', 'if (delta > nodeAlign) { ')],
 needs='a request one allocation unit smaller than a free node', breaks='the remaining 16 bytes are lost for ever',
 demo=H + r'''
#include "sassimpleheap.h"
int main() { void *b; if (posix_memalign(&b, 65536, 65536)) return 1; memset(b, 0, 65536);
 SASSimpleHeap_t h = SASSimpleHeapInit(b, SAS_RUNTIME_SIMPLEHEAP, 65536); char *p[6];
 for (int i = 0; i < 6; i++) p[i] = (char*)SASSimpleHeapAllocNoLock(h, 64);
 SASSimpleHeapFreeNoLock(h, p[1], 64); block_size_t f = SASSimpleHeapFreeSpaceNoLock(h);
 char *q = (char*)SASSimpleHeapAllocNoLock(h, 48); if (q && SASSimpleHeapFreeSpaceNoLock(h) != f - 48) BAD("lost %ld\n", (long)(f - SASSimpleHeapFreeSpaceNoLock(h)));
 return 0; }'''),
dict(id='p03-tail-merge', prop='P03', edits=[('src/freenode.c', """            head->nodeSize = head->nodeSize + size;
            if (temp) {
               if ((char *)temp == (((char *)head)+head->nodeSize)) { ""","""            head->nodeSize = head->nodeSize + size;
            if (temp && temp->nextNode) {
               if ((char *)temp == (((char *)head)+head->nodeSize)) { """)],
 needs='freeing the object between two free nodes the second of which is the last of the list', breaks='the nodes are not merged: a request for the space of both is refused',
 demo=H + """
#include "sassimpleheap.h"
int main() { void *b; if (posix_memalign(&b, 65536, 65536)) return 1; memset(b, 0, 65536);
 SASSimpleHeap_t h = SASSimpleHeapInit(b, SAS_RUNTIME_SIMPLEHEAP, 65536); block_size_t f = SASSimpleHeapFreeSpaceNoLock(h);
 char *p = (char*)SASSimpleHeapAllocNoLock(h, 1024), *q = (char*)SASSimpleHeapAllocNoLock(h, 1024);
 SASSimpleHeapFreeNoLock(h, p, 1024); SASSimpleHeapFreeNoLock(h, q, 1024);
 if (!SASSimpleHeapAllocNoLock(h, f - 16)) BAD("free space is not merged\\n"); return 0; }"""),
dict(id='p09-header-forgotten', prop='P09', edits=[('src/sphlflogger.cpp', '''      log_entry = headerBlock->next_free;
      headerBlock->next_free += alloc_round;
      if (log_entry + alloc_round <= headerBlock->end_log_buf)''', '''      log_entry = headerBlock->next_free;
      headerBlock->next_free += alloc_round;
      if (log_entry + alloc_size <= headerBlock->end_log_buf)''')], nth={'src/sphlflogger.cpp': 0},
 needs='a NoLock allocation whose payload just fits behind the last entry but its header does not', breaks='the entry runs past the end of the log',
 demo=H + r'''
#include "sphlflogger.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 131072)) return 1; memset(b, 0, 131072);
 for (int sz = 0; sz < 700; sz += 16) { memset(b, 0, 131072); SPHLFLogger_t l = SPHLFLoggerInit(b, 65536); SPHLFLoggerHandle_t hh, *p;
 for (int i = 0; i < 5000; i++) { p = SPHLFLoggerAllocTimeStampedNoLock(l, 1, 2, sz, &hh);
  if (!p) break; if ((char*)p->entry + p->total_size > b + 65536) BAD("entry %d ends %ld behind the log\n", i, (long)((char*)p->entry + p->total_size - b - 65536)); } }
 return 0; }'''),
dict(id='p09-empty-wrap', prop='P09', edits=[('src/sphlflogger.cpp', """      headerBlock->next_free += alloc_round;
      if (log_entry + alloc_round <= headerBlock->end_log_buf)""", """      headerBlock->next_free += alloc_round;
      if (log_entry + alloc_round < headerBlock->end_log_buf)""")], nth={'src/sphlflogger.cpp': 1},
 needs='a strided NoLock log whose area is an exact multiple of the stride', breaks='the last slot is never handed out although it fits',
 demo=H + """
#include "sphlflogger.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536)) return 1;
 for (int s = 32; s <= 512; s += 16) { memset(b, 0, 65536); SPHLFLogger_t l = SPHLFLoggerInitWithStride(b, 65536, s, 0); if (!l) continue; block_size_t f = SPHLFLoggerFreeSpace(l); SPHLFLoggerHandle_t hh, *p; long n = 0;
 while (SPHLFLoggerAllocStrideTimeStampedNoLock(l, 1, 2, &hh)) n++; if (n != f / s) BAD("stride %d: %ld of %ld\\n", s, n, (long)(f / s)); }
 return 0; }"""),
dict(id='p09-subcat', prop='P09', edits=[('src/sphlflogger.cpp', "entrytemp.detail.subcat = subcode;", "entrytemp.detail.subcat = subcode & 0x7f;")], nth={'src/sphlflogger.cpp': 3},
 needs='a subcategory above 127 in the strided NoLock allocator', breaks='the entry carries another subcategory',
 demo=H + """
#include "sphlflogger.h"
#include "sphlflogentry.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536)) return 1; memset(b, 0, 65536);
 SPHLFLogger_t l = SPHLFLoggerInitWithStride(b, 65536, 64, 0); SPHLFLoggerHandle_t hh, *p; 
 for (int k = 0; k < 256; k++) { p = SPHLFLoggerAllocStrideTimeStampedNoLock(l, 3, k, &hh); if (!p || p->entry->entryID.detail.subcat != k) BAD("subcat %d\\n", k); }
 return 0; }"""),
dict(id='p10-raw-remaining', prop='P10', edits=[('src/sphlflogger.cpp', 'handleorg->remaining = eLen - sizeof (sphLogEntry_t);', 'handleorg->remaining = eLen - sizeof (SPHLFLogHeader_t);')],
 needs='an entry that is not time stamped', breaks='the remaining size of the visited entry is too small',
 demo=H + """
#include "sphlflogger.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536)) return 1; memset(b, 0, 65536);
 SPHLFLogger_t l = SPHLFLoggerInitWithStride(b, 65536, 128, 0); SPHLFLoggerHandle_t hh, *p = SPHLFLoggerAllocStrideTimeStamped(l, 1, 2, &hh); p->entry->entryID.detail.timestamped = 0; SPHLFLoggerEntryComplete(p);
 SPHLFLogIterator_t it, *ip = SPHLFLoggerCreateIterator(l, &it); p = SPHLFLoggerIteratorNext(ip, &hh);
 if (!p || p->next + p->remaining != (char*)p->entry + p->total_size) BAD("remaining %d\\n", p ? p->remaining : -1); return 0; }"""),
dict(id='p11-mp-wrap', prop='P11', edits=[('src/sphmultipcqueue.cpp', 'if (new_head >= qhi)', 'if (new_head > qhi)')],
 needs='a multi producer queue filled to its last slot', breaks='a slot behind the end of the queue is handed out',
 demo=H + r'''
#include "sphmultipcqueue.h"
int main() { char *b; if (posix_memalign((void**)&b, 65536, 65536)) return 1; 
 for (int s = 128; s <= 1024; s += 128) { memset(b, 0, 65536); SPHMPMCQ_t q = SPHMPMCQInitWithStride(b, 16384, s, 0); if (!q) continue;
 for (int i = 0; i < 1000; i++) { char *d = (char*)SPHSPMCQAllocStrideDirect(q); if (!d) break; if (d + s > b + 16384) BAD("slot behind the queue\n"); } }
 return 0; }'''),
dict(id='p12-padding', prop='P12', edits=[('src/sphlflogentry.h', 'if ((len >= adjust) && ((len - adjust) >= __size))\n\t{\n\t\thandle->next = ptr + __size;\n\t\thandle->remaining = len - adjust - __size;', 'if ((len >= adjust) && ((len - adjust) >= __size))\n\t{\n\t\thandle->next = ptr + __size;\n\t\thandle->remaining = len - __size;')], nth={'src/sphlflogentry.h': 0},
 needs='a struct added at an unaligned cursor', breaks='the remaining count is too large by the padding',
 demo=H + r'''
#include "sphlflogger.h"
#include "sphlflogentry.h"
int main() { char b[256] __attribute__((aligned(16))); 
 for (int w = 0; w < 2; w++) { SPHLFLoggerHandle_t h; h.entry = (SPHLFLogHeader_t*)b; h.next = b + 17; h.total_size = 128; h.remaining = 111;
 void *p = w ? SPHLFlogEntryGetStructPtr(&h, 24, 8) : SPHLFlogEntryAllocStruct(&h, 24, 8); if (p && h.next + h.remaining != b + 128) BAD("remaining is %d\n", h.remaining); }
 return 0; }'''),
dict(id='p12-string-nul', prop='P12', edits=[('src/sphlfentry.h', 'size_t		vlen	= (strlen(value) + 1);', 'size_t		vlen	= strlen(value);')], nth={'src/sphlfentry.h': 0},
 needs='a string exactly as long as the remaining space', breaks='the terminating NUL is written behind the entry',
 demo=H + r'''
#include "sphlfentry.h"
int main() { char b[256] __attribute__((aligned(16))); memset(b, 0x55, 256); SPHLFEntryHandle_t h; h.entry = (SPHLFEntryHeader_t*)b; h.next = b + 16; h.total_size = 32; h.remaining = 16;
 SPHLFEntryAddString(&h, "0123456789abcdef"); if (b[32] != 0x55) BAD("wrote behind the entry\n"); return 0; }'''),
dict(id='p16-prefix', prop='P16', edits=[('src/sasindexkey.h', '''      if (op_a->compare_size > op_b->compare_size)
	len = op_b->compare_size;''', '''      if (op_a->compare_size < op_b->compare_size)
	len = op_b->compare_size;''')],
 needs='two keys of different length with equal common words', breaks='the comparison reads words behind the shorter key',
 demo=H + r'''
#include "sasindexkey.h"
int main() { SASIndexKey_t a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.compare_size = 8; a.copy_size = 16; b.compare_size = 16; b.copy_size = 24;
 a.data[0] = b.data[0] = 7; b.data[1] = 1; a.data[1] = 99; if (SASIndexKeyCompare(&a, &b) >= 0 || SASIndexKeyCompare(&b, &a) <= 0) BAD("short key is not smaller\n"); return 0; }'''),
]
