"""Binary index keys: order and round trip."""
from run import *
TEXT = '''
#include <stdlib.h>
#include <string.h>
#include "sasalloc.h"
#include "sasindexkey.h"
int    w_compare (const SASIndexKey_t *a, const SASIndexKey_t *b) { return SASIndexKeyCompare (a, b); }
void   w_copy (SASIndexKey_t *d, const SASIndexKey_t *s) { SASIndexKeyCopy (d, s); }
size_t w_size (const SASIndexKey_t *k) { return SASIndexKeySize (k); }
void   w_initref (SASIndexKey_t *d, const void *v) { SASIndexKeyInitRef (d, v); }
void   w_initu (SASIndexKey_t *d, unsigned long long v) { SASIndexKeyInitUInt64 (d, v); }
unsigned long long w_retu (const SASIndexKey_t *d) { return SASIndexKeyReturn1stUInt64 (d); }
void   w_initi (SASIndexKey_t *d, long long v) { SASIndexKeyInitInt64 (d, v); }
long long w_reti (const SASIndexKey_t *d) { return SASIndexKeyReturn1stInt64 (d); }
void   w_initd (SASIndexKey_t *d, double v) { SASIndexKeyInitDouble (d, v); }
double w_retd (const SASIndexKey_t *d) { return SASIndexKeyReturn1stDouble (d); }
'''
SOURCES = [('w_key.c', TEXT)]
INFO = dict(assumptions=['compare contract: keys of 1..15 whole machine words (the key structure holds 15)', 'IEEE-754 double order taken from the SMT theory of floating point'])

def key(e, st, n):
    k = ptr(st, n, 128); return k
def csz(m, k): return m.rd(k + 4, 4)
def cpz(m, k): return m.rd(k, 4)
def word(m, k, i): return m.rd(k + C(8 + 8 * i))

def lexlt(m, a, b):
    """unsigned lexicographic order on whole-word keys, shorter prefix first"""
    na, nb = csz(m, a), csz(m, b)
    r = ULT(na, nb)          # beyond the common prefix
    for i in reversed(range(15)):
        inboth = And(UGT(na, 8 * i), UGT(nb, 8 * i))
        wa, wb = word(m, a, i), word(m, b, i)
        r = If(inboth, Or(ULT(wa, wb), And(wa == wb, r)), ULT(na, nb))
    return r
def wf(m, k):
    n = csz(m, k); return And((n & 7) == 0, UGE(n, 8), ULE(n, 120))

@unit('compare', 3)
def u_compare(ctx):
    e = ctx.engine(['w_key.c']); e.unroll = 16
    st = State(); a = key(e, st, 'a'); b = key(e, st, 'b'); m = st.mem
    st.assume(wf(m, a), wf(m, b)); e.may_write = lambda s, p, n: z3.BoolVal(False)
    for s, r in ctx.run(e, st, '@w_compare', [a, b]):
        lt, gt = lexlt(m, a, b), lexlt(m, b, a)
        e.oblige(s, 'compare-is-lexicographic-word-order', And((r < 0) == lt, (r > 0) == gt))

@unit('copy')
def u_copy(ctx):
    e = ctx.engine(['w_key.c']); e.unroll = 16
    st = State(); a = key(e, st, 'dest'); b = key(e, st, 'src'); m = st.mem
    st.assume(wf(m, b), cpz(m, b) == csz(m, b) + 8, disjoint(a, 128, b, 128))
    e.may_write = lambda s, p, n: within(p, n, a, z3.ZeroExt(32, cpz(m, b)))
    for s, r in ctx.run(e, st, '@w_copy', [a, b]):
        m2 = s.mem
        e.oblige(s, 'copied-header', And(csz(m2, a) == csz(m, b), cpz(m2, a) == cpz(m, b)))
        for i in range(15):
            e.oblige(s, 'copied-word', Implies(UGT(csz(m, b), 8 * i), word(m2, a, i) == word(m, b, i)))
    for s, r in ctx.run(e, st.copy(), '@w_size', [b]):
        e.oblige(s, 'size-is-copy-size', r == z3.ZeroExt(32, cpz(m, b)))

def initret(ctx, ini, ret, spec):
    e = ctx.engine(['w_key.c'])
    st = State(); k = key(e, st, 'k'); v = sym('v')
    e.may_write = lambda s, p, n: within(p, n, k, 16)
    for s, _ in ctx.run(e, st, ini, [k, v]):
        e.oblige(s, 'sizes', And(csz(s.mem, k) == 8, cpz(s.mem, k) == 16))
        if ret:
            for s2, r in ctx.run(e, s.copy(), ret, [k]):
                e.oblige(s2, 'round-trip', r == v)
        # order: two values, two keys
        k2 = key(e, s, 'k2'); v2 = sym('v2'); s.assume(disjoint(k, 128, k2, 128))
        e.may_write = lambda s_, p, n: within(p, n, k2, 16)
        for s2, _ in ctx.run(e, s.copy(), ini, [k2, v2]):
            for s3, r in ctx.run(e, s2, '@w_compare', [k, k2]):
                e.oblige(s3, 'order-embedding', spec(v, v2, r))
        e.may_write = lambda s_, p, n: within(p, n, k, 16)

def su(v, w, r): return And((r < 0) == ULT(v, w), (r > 0) == UGT(v, w))
def si(v, w, r): return And((r < 0) == (v < w), (r > 0) == (v > w))
def sd(v, w, r):
    a, b = z3.fpBVToFP(v, z3.Float64()), z3.fpBVToFP(w, z3.Float64())
    return Implies(Not(Or(z3.fpIsNaN(a), z3.fpIsNaN(b))), And(Implies(z3.fpLT(a, b), r < 0), Implies(z3.fpGT(a, b), r > 0),
                   Implies(v == w, r == 0), Implies(v != w, r != 0)))
@unit('uint64')
def u_u(ctx): initret(ctx, '@w_initu', '@w_retu', su)
@unit('ref')
def u_ref(ctx): initret(ctx, '@w_initref', '@w_retu', su)
@unit('int64')
def u_i(ctx): initret(ctx, '@w_initi', '@w_reti', si)
@unit('double', 2)
def u_d(ctx): initret(ctx, '@w_initd', '@w_retd', sd)
SOURCES.append(('w_key2.c', TEXT.replace('#include "sasalloc.h"\n', '')))
@unit('header-alone')
def u_layout(ctx):
    """the key layout does not depend on which header came first"""
    for f in ('w_key.c', 'w_key2.c'):
        e = ctx.engine([f]); st = State(); k = key(e, st, 'k'); v = sym('v')
        e.may_write = lambda s, p, n: within(p, n, k, 16)
        for s, _ in ctx.run(e, st, '@w_initu', [k, v]):
            e.oblige(s, 'layout', And(csz(s.mem, k) == 8, cpz(s.mem, k) == 16, word(s.mem, k, 0) == v))
