"""Lock-free heaps: whole-heap allocation, aligned allocation, release and status over the unit vector contracts of P06."""
from common import *
import bits
from bits import run as runm, last, units, shr, first_mark, TOP
TEXT = '#include "sphlockfreeheap.cpp"\n' + layout(dict(BLOCK, SPHLockFreeHeapHeader=['bitv_cb', 'bitv_cb.alloc_unit', 'bitv_cb.alloc_shift', 'bitv_cb.alloc_mask', 'vec_cnt', 'alloc_vec', 'endmrk_vec', 'vecbuf'])) + consts(dict(BCONST, ty='SAS_RUNTIME_LOCKFREEHEAP'))
W_ = 'w_lfheap.cpp'
SOURCES = [(W_, TEXT), 'freenode.c', 'sasalloc.cpp']
B_ = z3.BoolSort()
class LH:
    def __init__(s, ctx, valid=False, init=False):
        s.e = e = ctx.engine([W_, 'freenode.c', 'sasalloc.cpp']); s.st = st = State(); s.H = Rec(e, 'SPHLockFreeHeapHeader'); s.B = Rec(e, 'SASBlockHeader')
        s.sh, s.lc = sym('unitshift'), sym('logwords'); s.cnt = C(1) << s.lc; st.assume(UGE(s.sh, C(4)), ULE(s.sh, C(30)), UGE(s.lc, C(1)), ULE(s.lc, C(12)))
        s.size = C(1) << (s.sh + s.lc + 6); s.b = ptr(st, 'heap', s.size, 256); st.assume(s.b & (s.size - 1) == 0)
        m = s.m = st.mem; s.V = s.H.a(s.b, 'vecbuf'); s.vo = C(s.H.off('vecbuf')); s.E = s.V + 8 * s.cnt; s.hn = units(s.vo + 16 * s.cnt, s.sh); s.one = C(1) << s.sh
        s.ok = type_ok(e, m, s.b, 'ty'); s.ok2 = subtype_ok(e, m, s.b, 'ty'); st.assume(Implies(s.ok2, s.ok))
        if valid: st.assume(s.ok)
        if not init: st.assume(ULE(s.hn, C(64)), Implies(s.ok, And(*s.inv(m))))
        s.fit = z3.Function('fit!%d' % next(EG._ctr), BV(64), B_); s.calls = []
        e.may_write = lambda st, a, n: z3.BoolVal(False); lockstubs(e)
        w = s.j = sym('j'); st.pool('word', w, C(0))
    def f(s, m, n): return s.H.rd(m, s.b, n)
    def inv(s, m): return [s.f(m, 'bitv_cb.alloc_shift') == s.sh, s.f(m, 'bitv_cb.alloc_unit') == s.one, s.f(m, 'bitv_cb.alloc_mask') == s.one - 1, s.f(m, 'vec_cnt') == s.cnt, s.f(m, 'alloc_vec') == s.V, s.f(m, 'endmrk_vec') == s.E, s.B.rd(m, s.b, 'blockSize') == s.size]
    def aw(s, m, w): return m.rd(s.V + 8 * w)
    def ew(s, m, w): return m.rd(s.E + 8 * w)
    def alloc_contract(s, aligned):
        e, st = s.e, s.st
        st.assume(Q(['word'], lambda w: Implies(And(ULT(w, s.cnt), s.aw(s.m, w) == 0), Not(s.fit(w))), name='full words do not fit'))
        def al(e, st, a, ins):
            cb, bv, ev, n = a[:4]; w = shr(bv - s.V, 3); i, hit = fresh('unit'), fresh('hit', B_); u = units(n, s.sh)
            e.oblige(st, 'request-for-one-word-and-its-marks', And(cb == s.H.a(s.b, 'bitv_cb'), bv == s.V + 8 * w, ULT(w, s.cnt), ev == s.E + 8 * w, n != 0, ULE(n, C(64) << s.sh)))
            if aligned: e.oblige(st, 'alignment-passed-on', And(a[4] == s.align, ULE(s.align, C(64) << s.sh)))
            st.pool('word', w)
            st.assume(hit == s.fit(w), ULE(i + u, C(64)), ULT(i, C(64)), *([i & (If(ULT(s.align, s.one), C(1), shr(s.align, s.sh)) - 1) == 0] if aligned else []))
            out = []
            for h in (True, False):
                t = st.copy(); t.assume(hit if h else Not(hit))
                if h:
                    t.g['got'] = t.g.get('got', []) + [(w, i, n)]; x, y = t.mem.rd(bv), t.mem.rd(ev)
                    t.mem = t.mem.wr(bv, x & ~runm(u, i)).wr(ev, y | last(u, i))
                out.append((t, i << s.sh if h else C(-1)))
            return out
        e.write_idx = lambda s, i: z3.BoolVal(False)
        e.contracts['@bitv_aligned_alloc_marked' if aligned else '@bitv_alloc_marked'] = al
    def loop(s, extra=None):
        class L_:
            def cands(self, L):
                for i in L.ints:
                    if L.entry[i].size() != 64: continue
                    yield '%s in range' % i, lambda v, st, i=i: ULE(v[i], s.cnt)
                    yield 'nothing fits before %s' % i, lambda v, st, i=i: Q(['word'], lambda w: Implies(ULT(w, v[i]), Not(s.fit(w))), name='tried')
                    for f in (extra or []):
                        for y in L.ints:
                            if y != i: yield f[0] + ' %s %s' % (i, y), lambda v, st, i=i, y=y, f=f: f[1](v[i], v[y], st) if v[y].size() == 64 else z3.BoolVal(False)
            def measures(self, L):
                for i in L.ints: yield 'words left ' + i, lambda v, st, i=i: s.cnt - v[i] if v[i].size() == 64 else C(0)
            def pools(self, L, hs, cur):
                for i in L.ints:
                    if cur[i].size() == 64: hs.pool('word', cur[i])
        s.e.loopspec = L_()
def alloc(fn, aligned, near):
    @unit('alloc' + fn, weight=2)
    def u(ctx):
        S = LH(ctx); e, st, m = S.e, S.st, S.m; n = sym('size'); a0 = S.b; found = z3.BoolVal(True); a = []
        if aligned: S.align = sym('align'); a = [S.align]; p2 = And(S.align != 0, S.align & (S.align - 1) == 0)
        S.alloc_contract(aligned); S.loop()
        if near:
            a0 = sym('near'); found = z3.Bool('found')
            def find(e, st, args, ins): e.oblige(st, 'searches-from-the-object', args[0] == a0); return [(st, If(found, S.b, C(0)))]
            e.contracts['@SASFindHeader'] = find
        legal = And(found, S.ok, n != 0, ULE(n, C(32) << S.sh), *([p2, ULE(S.align, C(64) << S.sh)] if aligned else []))
        for s, r in ctx.run(e, st, fn, [a0, n] + a):
            g = s.g.get('got', []); e.oblige(s, 'at-most-one-run-taken', z3.BoolVal(len(g) <= 1))
            if g:
                w, i, k = g[0]
                e.oblige(s, 'object-is-the-run-taken', And(r == S.b + (w << (S.sh + 6)) + (i << S.sh), k == n))
                e.oblige(s, 'object-inside-the-heap-and-aligned', And(UGE(r, S.b), ULE(r - S.b, S.size - n), ULE(n, S.size), r & (S.one - 1) == 0, *([r & (S.align - 1) == 0] if aligned else [])))
            else:
                e.oblige(s, 'fails-only-when-no-word-fits', And(r == 0, Implies(And(legal, n != C(32) << S.sh, ULT(S.j, S.cnt)), Not(S.fit(S.j)))))
            e.oblige(s, 'nothing-for-illegal-requests', Implies(Not(legal), And(r == 0, z3.BoolVal(not g))))
alloc('@SPHLockFreeHeapAllocNoLock', False, False); alloc('@SPHLockFreeHeapAlloc', False, False); alloc('@SPHLockFreeHeapNearAllocNoLock', False, True); alloc('@SPHLockFreeHeapNearAlloc', False, True)
alloc('@SPHLockFreeHeapAlignAllocNoLock', True, False); alloc('@SPHLockFreeHeapAlignAlloc', True, False)
def free(fn, near, chk):
    @unit('free' + fn)
    def u(ctx):
        S = LH(ctx); e, st, m = S.e, S.st, S.m; p, n = sym('object'), sym('size') if chk else C(0); found = z3.BoolVal(True)
        if near:
            found = z3.Bool('found')
            def find(e, st, args, ins): e.oblige(st, 'searches-from-the-object', args[0] == p); return [(st, If(found, S.b, C(0)))]
            e.contracts['@SASFindHeader'] = find
        o = p - S.b; inside = ULT(o, S.size); w = shr(o, S.sh + 6); i = shr(o, S.sh) & 63; k = first_mark(st, S.ew(m, w), i); rc = sym('rc', 32)
        fits = Or(n == 0, And(k != 64, units(n, S.sh) == k + 1, ULT(n, C(2**60)))); edge = n == C(32) << S.sh; legal = And(found, S.ok, inside, fits, ULE(n, C(32) << S.sh))
        def fr(e, st, a, ins):
            e.oblige(st, 'releases-at-the-object', And(a[0] == S.H.a(S.b, 'bitv_cb'), a[1] == S.V + 8 * w, a[2] == S.E + 8 * w, shr(a[3], S.sh) & 63 == i, inside))
            st.g['freed'] = st.g.get('freed', 0) + 1; return [(st, rc)]
        e.contracts['@bitv_free_marked'] = fr
        for s, r in ctx.run(e, st, fn, ([] if near else [S.b]) + [p] + ([n] if chk else [])):
            f = s.g.get('freed', 0); e.oblige(s, 'released-exactly-when-it-belongs-to-the-heap-and-the-size-matches', And(z3.BoolVal(f <= 1), Or(edge, z3.BoolVal(f == 1) == legal), Implies(z3.BoolVal(f > 0), legal)))
            e.oblige(s, 'success-exactly-when-released', (r == 0) == And(z3.BoolVal(f == 1), rc == 0))
free('@SPHLockFreeHeapFreeInNoLock', False, True); free('@SPHLockFreeHeapFreeChk', False, True); free('@SPHLockFreeHeapFree', False, False); free('@SPHLockFreeHeapFreeIn', False, False); free('@SPHLockFreeHeapFreeNear', True, False); free('@SPHLockFreeHeapFreeNearChk', True, True)
@unit('near-find')
def u_near(ctx):
    S = LH(ctx); e, st = S.e, S.st; p = sym('object'); found = z3.Bool('found'); e.contracts['@SASFindHeader'] = lambda e, st, a, i: [(st, If(And(found, a[0] == p), S.b, C(0)))]
    for s, r in ctx.run(e, st, '@SPHLockFreeHeapNearFind', [p]): e.oblige(s, 'finds-exactly-lock-free-heaps', r == If(And(found, S.ok), S.b, C(0)))
    S = LH(ctx); e, st = S.e, S.st
    if '@SPHLockFreeHeapNotContainedNoLock' in e.fns or any('SPHLockFreeHeapNotContainedNoLock' in x for x in e.fns):
        for s, r in ctx.run(e, st, '@SPHLockFreeHeapNotContainedNoLock', [S.b, p]): e.oblige(s, 'contained-exactly-inside', (r == 0) == And(S.ok, ULT(p - S.b, S.size)))
def fold(fn, kind):
    @unit('status' + fn)
    def u(ctx):
        S = LH(ctx); e, st, m = S.e, S.st, S.m; F = z3.Function('fold!%d' % next(EG._ctr), BV(64), BV(64)); fs = z3.Function('fs!%d' % next(EG._ctr), BV(64), BV(64))
        word = S.ew if kind == 'empty' else S.aw
        if kind == 'space':
            def sp(e, st, a, ins):
                w = shr(a[1] - S.V, 3); st.pool('word', w); e.oblige(st, 'asks-for-a-word-of-this-heap', And(a[0] == S.H.a(S.b, 'bitv_cb'), a[1] == S.V + 8 * w, ULT(w, S.cnt))); return [(st, fs(w))]
            e.contracts['@bitv_free_space'] = sp; e.write_idx = lambda s, i: z3.BoolVal(False)
            st.assume(F(C(0)) == 0, Q(['word'], lambda w: Implies(ULT(w, S.cnt), And(F(w + 1) == F(w) + fs(w), Implies(word(m, w) == 0, fs(w) == 0))), name='sum'))
        else: st.assume(F(C(0)) == 0, Q(['word'], lambda w: Implies(ULT(w, S.cnt), F(w + 1) == F(w) | word(m, w)), name='union'))
        S.loop([('accumulated', lambda i, y, st: y == F(i))])
        for s, r in ctx.run(e, st, fn, [S.b]):
            if kind == 'space': e.oblige(s, 'sum-of-all-words', r == If(S.ok, F(S.cnt), C(0)))
            else: e.oblige(s, 'no-unit-left' if kind == 'full' else 'no-object-left', Implies(S.ok, (r != 0) == (F(S.cnt) == 0)))
    return u
fold('@SPHLockFreeHeapFreeSpaceNoLock', 'space'); fold('@SPHLockFreeHeapFreeSpace', 'space'); fold('@SPHLockFreeHeapEmptyNoLock', 'empty'); fold('@SPHLockFreeHeapEmpty', 'empty'); fold('@SPHLockFreeHeapFullNoLock', 'full'); fold('@SPHLockFreeHeapFull', 'full')
@unit('union-lemma')
def u_union(ctx):
    """the union of words is zero exactly when each is: the induction step"""
    S = LH(ctx); a, w = sym('a'), sym('w'); S.e.oblige(State(), 'union-step', ((a | w) == 0) == And(a == 0, w == 0)); ctx.lemmas.append('union')
def init(create):
    @unit('create' if create else 'init', weight=2)
    def u(ctx):
        S = LH(ctx, init=True); e, st, m = S.e, S.st, S.m; n, un = S.size, S.one; null = z3.Bool('null'); legal = z3.BoolVal(True)
        st.assume(UGE(S.sh, C(4)))
        if create:
            n, un = sym('n'), sym('u'); p2 = lambda x: And(x != 0, x & (x - 1) == 0); st.assume(ULE(un, C(1 << 30)), UGE(un, C(16)), ULE(n, C(1 << 48)), Implies(And(p2(n), p2(un), UGT(n, un << 6)), And(n == S.size, un == S.one)))
            legal = And(p2(n), p2(un), UGT(n, un << 6))
            def al(e, st, a, ins): e.oblige(st, 'asks-for-a-block-of-that-size', And(legal, a[0] == n)); st.g['ev'] = ['alloc']; return [(st, If(null, C(0), S.b))]
            def de(e, st, a, ins): e.oblige(st, 'gives-back-that-block', And(a[0] == S.b, a[1] == n)); st.g['ev'] = st.g['ev'] + ['free']; return [(st, None)]
            e.contracts['@SASBlockAlloc'] = al; e.contracts['@SASBlockDealloc'] = de
        cbf = S.H.a(S.b, 'bitv_cb'); R = {k: S.H.a(S.b, 'bitv_cb.' + k) for k in ('alloc_unit', 'alloc_shift', 'alloc_mask')}
        def bi(e, st, a, ins):
            e.oblige(st, 'unit-size-set-up', And(a[0] == cbf, a[1] == S.one)); st.mem = st.mem.wr(R['alloc_unit'], S.one).wr(R['alloc_shift'], S.sh).wr(R['alloc_mask'], S.one - 1); return [(st, None)]
        def ba(e, st, a, ins):
            x = st.mem.rd(a[1]); u = units(a[2], S.sh); e.oblige(st, 'header-units-requested', And(a[0] == cbf, a[2] != 0, ULE(a[2], C(64) << S.sh), within(a[1], 8, S.b, S.size)))
            hit = And(x == C(-1)); i = fresh('i'); st.assume(Or(x != C(-1), i == 0))
            st.mem = st.mem.wr(a[1], If(hit, x & ~bits.M(u), fresh('w'))); return [(st, i << S.sh)]
        e.contracts['@bitv_init'] = bi; e.contracts['@bitv_alloc'] = ba
        e.may_write = lambda s, a, k: within(a, k, S.b, S.vo + 16 * S.cnt)
        e.write_idx = lambda s, i: ULT(z3.Concat(i, C(0, 3)) - S.V, 16 * S.cnt)
        class L_:
            def cands(self, L):
                for i in L.ints:
                    X = (lambda v, i=i: z3.SignExt(32, v[i]) if v[i].size() == 32 else v[i])
                    yield '%s in range' % i, lambda v, st, X=X: ULE(X(v), S.cnt)
                    yield 'words below %s are free and unmarked' % i, lambda v, st, X=X: Q(['word'], lambda w: Implies(ULT(w, X(v)), And(S.aw(st.mem, w) == C(-1), S.ew(st.mem, w) == 0)), name='initialised')
            def measures(self, L):
                for i in L.ints: yield 'words left ' + i, lambda v, st, i=i: S.cnt - (z3.SignExt(32, v[i]) if v[i].size() == 32 else v[i])
            def pools(self, L, hs, cur):
                for i in L.ints: hs.pool('word', z3.SignExt(32, cur[i]) if cur[i].size() == 32 else cur[i])
        e.loopspec = L_(); j = S.j; st.assume(ULT(j, S.cnt))
        for s, r in ctx.run(e, st, '@SPHLockFreeHeapCreate' if create else '@SPHLockFreeHeapInit', [n, un] if create else [S.b, C(gconst(e, 'vc_ty') & 0xffffffff, 32), S.size, S.one]):
            m2 = s.mem; small = ULE(S.hn, C(64)); ev = s.g.get('ev', [])
            good = And(r == S.b, *S.inv(m2), type_ok(e, m2, S.b, 'ty'), subtype_ok(e, m2, S.b, 'ty'), S.ew(m2, j) == 0, S.aw(m2, j) == If(j == 0, ~bits.M(S.hn), C(-1)))
            if not create: e.oblige(s, 'new-heap-has-only-its-header-in-use', If(small, good, r == C(-1)), extra=[('word', j)])
            else: e.oblige(s, 'new-heap-has-only-its-header-in-use-or-no-heap', If(And(legal, Not(null), small), And(good, z3.BoolVal(ev == ['alloc'])), And(r == 0, z3.BoolVal(ev in ([], ['alloc', 'free'], ['alloc'])), Implies(And(legal, Not(null)), z3.BoolVal(ev == ['alloc', 'free'])))), extra=[('word', j)])
init(False); init(True)
@unit('destroy')
def u_destroy(ctx):
    for nl in ('NoLock', ''):
        S = LH(ctx); e, st = S.e, S.st
        def dl(e, st, args, ins): st.g['ev'] = st.g.get('ev', []) + [args]; return [(st, None)]
        e.contracts['@SASBlockDealloc'] = dl
        for s, r in ctx.run(e, st, '@SPHLockFreeHeapDestroy' + nl, [S.b], name=nl):
            d = s.g.get('ev', []); L = s.g.get('locks', [])
            e.oblige(s, 'gives-back-exactly-the-block', If(S.ok2, And(r == 0, z3.BoolVal(len(d) == 1), *([d[0][0] == S.b, d[0][1] == S.size] if d else [])), And(r != 0, z3.BoolVal(not d))))
            if not nl: e.oblige(s, 'lock-released-and-paired', And(z3.BoolVal([x[0] for x in L] == ['lock', 'unlock']), L[0][1] == S.b, L[1][1] == S.b) if L else Not(S.ok2))
INFO = dict(assumptions=['heap and unit sizes are powers of two, units of 16 bytes to 1 GB, up to 4096 words of units, as documented', 'objects freed are live objects, free units or outside the heap', 'unit vector functions through their contracts (P06); SASBlockAlloc, SASBlockDealloc, SASFindHeader, SASLock through theirs'])
