"""Vocabulary of unit vectors: one word of free units (1 = free, leftmost bit = unit 0) and its end marks."""
from common import *
TEXT = '#include "bitv.c"\n#include "bitv_priv.h"\n' + r'''
size_t w_size (const bitv_cb_t *c, const bitv_word *b, const bitv_word *e, bitv_word at) { return bitv_allocated_size (c, b, e, at); }
size_t w_chk (const bitv_cb_t *c, const bitv_word *b, const bitv_word *e, bitv_word at, size_t n) { return bitv_allocated_size_chk (c, b, e, at, n); }
int w_one (bitv_word v) { return bitv_popcountl_one (v); }
bitv_word w_end (bitv_word v) { return bitv_mask_to_end_mrk (v); }
bitv_word w_start (bitv_word v) { return bitv_mask_to_start_mrk (v); }
bitv_word w_mask (size_t u) { return bitv_units_to_mask (u); }
bitv_word w_smask (const bitv_cb_t *c, size_t n) { return bitv_size_to_mask (c, n); }
size_t w_units (const bitv_cb_t *c, size_t n) { return bitv_round_unit (c, n); }
size_t w_rsize (const bitv_cb_t *c, size_t n) { return bitv_round_size (c, n); }
void *w_rptr (const bitv_cb_t *c, const void *p) { return bitv_round_ptr_to_unit (c, p); }
bitv_word w_rmask (const bitv_cb_t *c) { return bitv_round_mask (c); }
''' + layout(dict(bitv_cb_t=['alloc_unit', 'alloc_shift', 'alloc_mask']))
W_ = 'w_bitv.c'
TOP = C(1 << 63)
def shr(x, n): return z3.LShR(x, n)
def M(n): return C(2**64 - 1) << (64 - n)                 # the first n units
def run(n, i): return shr(M(n), i)                        # n units from unit i
def last(n, i): return shr(TOP, i + n - 1)                # the last of them
def free_at(w, n, i): return And(ULE(i + n, C(64)), w & run(n, i) == run(n, i))
def units(size, sh): return shr(size + ((C(1) << sh) - 1), sh)
def first_fit(st, w, n, al):
    """ff: the first aligned unit from which n units are free, 64 when there is none (a definition)"""
    ff = sym('firstfit'); st.assume(ULE(ff, C(64)), Implies(ff != 64, And(free_at(w, n, ff), (ff & (al - 1)) == 0)),
        Q(['unit'], lambda j: Implies(And(ULT(j, ff), j & (al - 1) == 0), Not(free_at(w, n, j)))))
    return ff
def first_mark(st, e, i):
    """k: units before the first end mark at or after unit i, 64 when there is none (a definition)"""
    k = sym('mark'); x = e << i; st.assume(Or(And(k == 64, x == 0), And(ULT(k, C(64)), (x & shr(TOP, k)) != 0, shr(x, C(64) - k) == 0)))
    return k
