"""Block headers: initialisation, signature and type checks, the owner search, standard block allocation."""
from common import *
HC = dict(BCONST, vers='SAS_VERSION_MASK', subm='SAS_SUB_TYPE_MASK', tmpl='__SAS_TEMP_ADDRESS', tmph='__SAS_TEMP_FREE')
TEXT = '#include "sasalloc.cpp"\n' + r'''
extern "C" {
int w_sig (const SASBlockHeader *h) { return SOMSASCheckBlockSig (h); }
int w_type (const SASBlockHeader *h, sas_type_t t) { return SOMSASCheckBlockSigAndType (h, t); }
int w_subtype (const SASBlockHeader *h, sas_type_t t) { return SOMSASCheckBlockSigAndTypeAndSubtype (h, t); }
int w_issub (const SASBlockHeader *h, sas_type_t t) { return SOMSASCheckBlockSubType (h, t); }
void w_setsub (SASBlockHeader *h, sas_type_t t) { SOMSASSetBlockSubType (h, t); }
unsigned long w_getsub (const SASBlockHeader *h) { return (unsigned long) (unsigned int) SOMSASGetBlockSubType (h); }
unsigned long w_gettype (const SASBlockHeader *h) { return (unsigned long) (unsigned int) SOMSASGetBlockType (h); }
}
''' + layout(dict(BLOCK, FreeNode=['nextNode', 'nodeSize'])) + consts(HC)
W_ = 'w_block.cpp'
SOURCES = [(W_, TEXT), 'freenode.c']
class BL:
    def __init__(s, ctx, size=4096):
        s.e = e = ctx.engine([W_, 'freenode.c']); s.st = st = State(); s.B = Rec(e, 'SASBlockHeader')
        s.b = ptr(st, 'block', size, 16); s.m = st.mem; e.may_write = lambda st, a, n: z3.BoolVal(False)
        # the specification itself: where type, subtype, version and group live in the word
        s.sig = And(s.rd(s.m, 'blockSig1') == C(gconst(e, 'vc_sig1')), s.rd(s.m, 'blockSig2') == C(gconst(e, 'vc_sig2')))
    def rd(s, m, n): return s.B.rd(m, s.b, n)
@unit('checks')
def u_checks(ctx):
    for fn, mask in (('@w_sig', 0), ('@w_type', 0x80ff0000), ('@w_subtype', 0x80ffff00), ('@w_issub', 0xff00)):
        S = BL(ctx); e, st = S.e, S.st; t = sym('t', 32); ty = S.rd(S.m, 'blockType')
        # checks of built-in types: the user-defined group bit of the block decides too
        if fn == '@w_type': want = And(S.sig, (ty & C(gconst(e, 'vc_typecheck'))) == (zx(t) & C(0xff0000)))
        elif fn == '@w_subtype': want = And(S.sig, (ty & C(gconst(e, 'vc_subtypecheck'))) == (zx(t) & C(gconst(e, 'vc_subtypecheck'))))
        elif fn == '@w_issub': want = (ty & C(0xff00)) == (zx(t) & C(0xff00))
        else: want = S.sig
        for s, r in ctx.run(e, st, fn, [S.b] + ([t] if fn != '@w_sig' else []), name=fn[1:]):
            e.oblige(s, 'accepts-exactly-matching-blocks', (r != 0) == want)
    e.oblige(st, 'masks', z3.BoolVal(gconst(e, 'vc_typecheck') & 0x80ff0000 == 0x80ff0000 and gconst(e, 'vc_subtypecheck') & 0x80ffff00 == 0x80ffff00 and gconst(e, 'vc_typecheck') & 0xffff == 0 and gconst(e, 'vc_subtypecheck') & 0xff == 0))
@unit('subtype')
def u_sub(ctx):
    S = BL(ctx); e, st, m = S.e, S.st, S.m; t = sym('t', 32); e.may_write = lambda st, a, n: And(a == S.B.a(S.b, 'blockType'), n == S.B.size('blockType'))
    for s, r in ctx.run(e, st, '@w_setsub', [S.b, t]):
        e.oblige(s, 'sets-the-subtype-and-nothing-else', S.rd(s.mem, 'blockType') == (S.rd(m, 'blockType') & C(0xffff00ff)) | (zx(t) & C(0xff00)))
        for s2, r2 in ctx.run(e, s, '@w_getsub', [S.b]): e.oblige(s2, 'reads-back', r2 == zx(t) & C(0xff00))
    for s, r in ctx.run(e, S.st.copy(), '@w_gettype', [S.b]): e.oblige(s, 'type', r == S.rd(s.mem, 'blockType'))
@unit('special')
def u_special(ctx):
    S = BL(ctx); e, st, m = S.e, S.st, S.m; v = sym('v'); e.may_write = lambda st, a, n: And(a == S.B.a(S.b, 'special'), n == 8)
    for s, r in ctx.run(e, st, '@setSASBlockSpecial', [S.b, v]):
        for s2, r2 in ctx.run(e, s, '@getSASBlockSpecial', [S.b]): e.oblige(s2, 'special-pointer-reads-back', r2 == v)
@unit('init')
def u_init(ctx):
    size = sym('size'); S = BL(ctx, size); e, st, m = S.e, S.st, S.m; N = Rec(e, 'FreeNode'); t = sym('t', 32); h = sym('heapstart'); st.assume(UGE(size, C(128)), ULE(size, C(2**40)), Or(h == 0, And((h & 15) == 0, UGE(h, S.b + 64), ULE(h - S.b, size - 16))))
    e.may_write = lambda st, a, n: Or(within(a, n, S.b, 64), And(h != 0, within(a, n, h, 16)))
    for s, r in ctx.run(e, st, '@initSOMSASBlock', [S.b, t, size, h]):
        f = lambda n, s=s: S.rd(s.mem, n)
        e.oblige(s, 'signed-typed-and-sized', And(f('blockSig1') == C(gconst(e, 'vc_sig1')), f('blockSig2') == C(gconst(e, 'vc_sig2')), f('blockType') == zx(t), f('blockSize') == size, f('special') == 0, f('baseBlock') == S.b, f('nextBlock') == 0))
        e.oblige(s, 'free-list-is-one-fragment-to-the-end-of-the-block', And(f('blockFreeSpace') == h, Implies(h != 0, And(N.rd(s.mem, h, 'nextNode') == 0, N.rd(s.mem, h, 'nodeSize') == S.b + size - h))))
@unit('find-header', weight=3)
def u_find(ctx):
    e = ctx.engine([W_]); st = State(); B = Rec(e, 'SASBlockHeader'); o = sym('near')
    lo, hi = sym('low'), sym('high'); st.assume(UGE(lo, C(1 << 29)), ULT(lo, hi), ULT(hi, C(2**47)))
    e.contracts['@getfastMemLow'] = lambda e, st, a, i: [(st, lo)]
    e.contracts['@getfastMemHigh'] = lambda e, st, a, i: [(st, hi)]
    e.may_write = lambda st, a, n: z3.BoolVal(False)
    m = st.mem; tl, th = C(gconst(e, 'vc_tmpl')), C(gconst(e, 'vc_tmph'))
    mem = lambda a: m.rd(a)
    mod = e.modules[0]
    if '@memLow' in mod.globals: st.assume(m.rd(C(e.gaddr(mod, '@memLow'))) == lo, m.rd(C(e.gaddr(mod, '@memHigh'))) == hi)
    inside = Or(And(UGE(o, lo), ULT(o, hi)), And(UGE(o, tl), ULT(o, th)))
    cand = [o & C(~((1 << k) - 1)) for k in range(9, 29)]
    sig = [And(B.rd(m, c, 'blockSig1') == C(gconst(e, 'vc_sig1')), B.rd(m, c, 'blockSig2') == C(gconst(e, 'vc_sig2'))) for c in cand]
    want = C(0)
    for c, g in reversed(list(zip(cand, sig))): want = If(g, c, want)
    want = If(inside, want, C(0))
    class F:
        def cands(s, L):
            for i, v in L.ints.items() if hasattr(L.ints, 'items') else [(x, None) for x in L.ints]:
                yield ('%s: candidate size, none smaller is signed' % i, lambda v, st, i=i: And(Or(*[v[i] == C(1 << k) for k in range(9, 30)]), *[Implies(UGT(v[i], C(1 << k)), Not(sig[k - 9])) for k in range(9, 29)]) if v[i].size() == 64 else z3.BoolVal(False))
                yield ('%s: candidate exponent, none smaller is signed' % i, lambda v, st, i=i: And(Or(*[v[i] == k for k in range(9, 30)]), *[Implies(UGT(v[i], k), Not(sig[k - 9])) for k in range(9, 29)]))
        def measures(s, L):
            for i in L.ints:
                yield ('up to 256m: ' + i, lambda v, st, i=i: C(1 << 29) - v[i] if v[i].size() == 64 else zx(29 - v[i]))
                yield ('exponent ' + i, lambda v, st, i=i: C(29) - v[i] if v[i].size() == 64 else zx(29 - v[i]))
    e.loopspec = F()
    for s, r in ctx.run(e, st, '@SASFindHeader', [o]):
        e.oblige(s, 'finds-the-innermost-block-around-the-object', r == want)
    e.on_access = None
@unit('som-blocks', weight=2)
def u_som(ctx):
    seen = {}
    for fn in ('@SASSOMAlloc', '@SASSOMDestroy'):
        e = ctx.engine([W_]); st = State(); n = sym('n'); o = sym('o'); blk = sym('blk'); e.lia = 500
        st.assume((blk & 4095) == 0, ULT(blk, C(2**47)), n > 0, ULE(n, C(2**40)), (n & 7) == 0, Implies(UGT(n, C(1 << 24)), (n & (n - 1)) == 0))
        want = n
        for k in (12, 14, 16, 18, 20, 22, 24): pass
        def al(e, st, args, ins): st.g['asked'] = args[0]; st.g['ret'] = blk; return [(st, blk)]
        def de(e, st, args, ins): st.g['freed'] = (args[0], args[1]); return [(st, None)]
        e.contracts['@SASBlockAlloc'] = al; e.contracts['@SASBlockDealloc'] = de
        e.may_write = lambda s, a, k: And(blk != 0, within(a, k, blk, s.g['asked']))
        j = sym('j')
        class Z:
            def pools(s, L, hs, cur): hs.pool('w', j)
            def measures(s, L):
                for p in L.ptrs: yield ('left ' + p, lambda v, st, p=p: blk + st.g['asked'] - v[p])
            def cands(s, L):
                for p in L.ptrs:
                    yield ('%s in block' % p, lambda v, st, p=p: And(UGE(v[p], blk), ULE(v[p], blk + st.g['asked']), (v[p] & 7) == 0))
                    yield ('zero below %s' % p, lambda v, st, p=p: Q(['w'], lambda x: Implies(And(UGE(x, blk), ULT(x, v[p]), (x & 7) == 0), st.mem.rd(x) == 0)))
        e.loopspec = Z(); e.write_idx = lambda st, i: z3.BoolVal(True); st.pool('w', j)
        for s, r in ctx.run(e, st, fn, [n, o] if fn == '@SASSOMAlloc' else [o, n], name=fn[1:]):
            a = s.g['asked'] if fn == '@SASSOMAlloc' else s.g['freed'][1]
            ok = [And(a == (1 << k), ULE(n, C(1 << k)), UGT(n, C(0) if prev is None else C(1 << prev))) for prev, k in zip([None, 12, 14, 16, 18, 20, 22], [12, 14, 16, 18, 20, 22, 24])]
            e.oblige(s, 'rounds-to-the-standard-block-size', Or(*ok, And(UGT(n, C(1 << 24)), a == n)))
            if fn == '@SASSOMAlloc':
                e.oblige(s, 'returns-the-block', r == blk)
                e.oblige(s, 'new-block-is-zero', Implies(And(blk != 0, UGE(j, blk), ULT(j, blk + a), (j & 7) == 0), s.mem.rd(j) == 0), extra=[('w', j)])
            else: e.oblige(s, 'gives-back-that-block', s.g['freed'][0] == o)
INFO = dict(assumptions=['owner search: blocks are powers of two between 512 bytes and 256 MB, aligned to their size; storage inside the region is readable', 'SASBlockAlloc/SASBlockDealloc through their contracts (P02)'])
