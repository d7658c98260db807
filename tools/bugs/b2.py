exec(open('/verif/tools/bugs/b1.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='p05-pop-end', prop='P05', edits=[('src/sassimplestack.cpp', '''	  && (new_sp <= headerBlock->end_stack))''', '''	  && (new_sp < headerBlock->end_stack))''')], nth={'src/sassimplestack.cpp': 1},
 needs='popping to the very end of the stack', breaks='a valid pop is refused',
 demo=H + r'''
#include "sassimplestack.h"
int main() { setenv("SASSTOREPATH", ".", 0); if (SASJoinRegion()) return 0; SASSimpleStack_t s = SASSimpleStackCreate(16384); if (!s) return 1; char *e = (char*)s + 16384;
 int rc = SASSimpleStackDealloc(s, e); SASRemove(); if (rc) BAD("pop to the end returns %d\n", rc); return 0; }'''),
dict(id='p05-space-round', prop='P05', edits=[('src/sassimplespace.cpp', '''    while (min_size > p2_size)''', '''    while (min_size > p2_size + 15)''')],
 needs='a space whose size with header exceeds a power of two by less than 16 bytes', breaks='the block is a few bytes too small for the requested space',
 demo=H + r'''
#include "sassimplespace.h"
int main() { setenv("SASSTOREPATH", ".", 0); if (SASJoinRegion()) return 0; SASSimpleSpace_t s = SASSimpleSpaceCreate(16384 - 4096 + 8); int bad = s && ((SASBlockHeader*)s)->blockSize < 16384 + 8; SASRemove(); if (bad) BAD("block too small\n"); return 0; }'''),
dict(id='p06-claim-and', prop='P06', edits=[('src/bitv.c', '''	      if (__sync_bool_compare_and_swap (bvec, cur_msk, new_msk))
		{		/* cur_msk was still valid and update successful */
		  bitv_word end_mrk''', '''	      if ((sas_fetch_and_and_long (bvec, ~req_msk) & req_msk) != 0)
		{		/* cur_msk was still valid and update successful */
		  bitv_word end_mrk''')], nth={'src/bitv.c': 0},
 needs='another thread taking part of the run between the search and the claim', breaks='overlapping runs are handed out',
 demo=H + r'''
#include <pthread.h>
extern "C" {
#include "bitv.h"
}
static bitv_cb_t G; static bitv_word gw, ge; static int own[64]; static volatile int bad;
static void *work(void *a) { unsigned long s = (long)a * 77777 + 1; for (int k = 0; k < 400000 && !bad; k++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; int n = s % 9 + 2; ssize_t p = bitv_alloc_marked(&G, &gw, &ge, n * 64); if (p < 0) continue; int i = p / 64;
  for (int j = i; j < i + n; j++) if (__sync_lock_test_and_set(&own[j], 1)) bad = 1; for (int j = i; j < i + n; j++) own[j] = 0; if (bad) break; bitv_free_marked(&G, &gw, &ge, p); } return 0; }
int main() { bitv_init(&G, 64); for (int it = 0; it < 10 && !bad; it++) { gw = ~0ul; ge = 0; pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, work, (void*)(i + 10 * it)); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); } if (bad) BAD("a unit was handed out twice\n"); return 0; }'''),
dict(id='p06-align-word', prop='P06', edits=[], needs='', breaks='', demo=''),
dict(id='p08-owner-step', prop='P08', edits=[('src/sasalloc.cpp', '''    sas_printf("SASFindHeader size=%lx -> %p \\n", size, block);''', '''    sas_printf("SASFindHeader size=%lx -> %p\\n", size, block);''')],
 needs='x', breaks='x', demo=H + 'int main(){return 0;}'),
dict(id='p08-sig-half', prop='P08', edits=[('src/sasalloc.h', '''    return ((header->blockSig1 == block__Signature_1)
	    &&(header->blockSig2 == block__Signature_2)
	    &&((header->blockType & SAS_TYPE_CHECK_MASK)''', '''    return ((header->blockSig1 == block__Signature_1)
	    &&((header->blockType & SAS_TYPE_CHECK_MASK)''')],
 needs='a block whose second signature word is damaged', breaks='type checks accept it',
 demo=H + r'''
int main() { char *b; if (posix_memalign((void**)&b, 4096, 4096)) return 1; memset(b, 0, 4096); SASBlockHeader *h = (SASBlockHeader*)b; initSOMSASBlock(h, SAS_RUNTIME_SIMPLEHEAP, 4096, 0); h->blockSig2 ^= 16;
 if (SOMSASCheckBlockSigAndType(h, SAS_RUNTIME_SIMPLEHEAP)) BAD("damaged block accepted\n"); return 0; }'''),
]
BUGS = [b for b in BUGS if b['id'] not in ('p08-owner-step', 'p06-align-word')]
