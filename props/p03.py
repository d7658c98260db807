"""Free-list heaps: the free list itself (freenode.c), simple heaps and near allocation over it."""
from common import *
HC = dict(BCONST, sh='SAS_RUNTIME_SIMPLEHEAP', off='heap_offset')
TEXT = '#include "sassimpleheap.cpp"\n' + layout(BLOCK) + consts(HC)
W_ = 'w_simpleheap.cpp'
TA = '#include "sasalloc.cpp"\n' + layout(BLOCK) + consts(dict(BCONST, off='heap_offset'))
A_ = 'w_alloc.cpp'
TF = '#include "freenode.c"\n' + layout({'FreeNode': ['nextNode', 'nodeSize']})
F_ = 'w_freenode.c'
SOURCES = [(W_, TEXT), (A_, TA), (F_, TF), 'freenode.c', 'sasalloc.cpp']
def r16(x): return (x + 15) & C(~15)
def need(n): return If(n == 0, C(16), r16(n))

class FL:
    """a free list in the arena [lo, hi): node is the ghost set of its nodes, own the node covering a free byte"""
    def __init__(s, ctx, nonempty=False, cover=True):
        s.e = e = ctx.engine([F_]); e.lia = 500; s.st = st = State(); s.N = Rec(e, 'FreeNode')
        s.size = sym('arena'); st.assume(ULE(s.size, C(2**40)), UGE(s.size, C(16)), (s.size & 15) == 0)
        s.lo = ptr(st, 'lo', s.size, 16); s.hi = s.lo + s.size
        s.hp = ptr(st, 'headp', 8, 8); st.assume(disjoint(s.hp, 8, s.lo, s.size))
        k = next(EG._ctr); s.nodef = z3.Function('node!%d' % k, BV(64), z3.BoolSort()); s.own = z3.Function('own!%d' % k, BV(64), BV(64))
        s.node = lambda x: s.nodef(x)
        s.m = st.mem; s.head = s.m.rd(s.hp)
        for q in s.inv(s.m, s.node, s.head): st.assume(q)
        if cover: st.assume(Q(['node', 'byte'], lambda x, y: Implies(And(s.node(x), ULE(x, y), ULT(y, x + s.sz(s.m, x))), s.own(y) == x)))
        st.pool('node', s.head); e.access_pool = ('node',); e.on_access = None
        if nonempty: st.assume(s.head != 0)
    def nx(s, m, x): return s.N.rd(m, x, 'nextNode')
    def sz(s, m, x): return s.N.rd(m, x, 'nodeSize')
    def inv(s, m, node, head):
        """sorted, inside the arena, granular, apart from each other (neighbours are merged), complete from the head"""
        return [Q(['node'], lambda x: Implies(node(x), And((x & 15) == 0, UGE(x, s.lo), ULT(x, s.hi), (s.sz(m, x) & 15) == 0, UGE(s.sz(m, x), C(16)), ULE(s.sz(m, x), s.hi - x))), name='nodes-inside-the-arena'),
                Q(['node'], lambda x: Implies(And(node(x), s.nx(m, x) != 0), And(node(s.nx(m, x)), ULT(x + s.sz(m, x), s.nx(m, x)))), name='next-node-is-a-node-behind-a-gap', hints=lambda x: [('node', s.nx(m, x)), ('node', s.nx(s.m, x)), ('node', s.nx(s.m, s.nx(s.m, x)))]),
                Q(['node', 'node'], lambda x, y: Implies(And(node(x), node(y), ULT(x, y)), And(s.nx(m, x) != 0, ULE(s.nx(m, x), y))), name='no-node-is-skipped', hints=lambda x, y: [('node', s.nx(s.m, x)), ('node', s.nx(s.m, s.nx(s.m, x)))]),
                Q(['node'], lambda x: Implies(node(x), And(head != 0, ULE(head, x))), name='head-is-the-first-node'),
                Implies(head != 0, node(head))]
    def keep(s, st, tag, m, node, head, extra=()):
        for i, q in enumerate(s.inv(m, node, head)): s.e.oblige(st, 'free-list-' + (q.name if isinstance(q, Q) else 'head-is-a-node') + tag, q, extra=list(extra) + [('node', head)], assume=False)
    def free(s, a): o = s.own(a); return And(s.node(o), ULE(o, a), ULT(a, o + s.sz(s.m, o)))
    def frame(s, also=None):
        def fr(st, a, n):
            st.pool('byte', a)
            return Or(And(a == s.hp, n == 8), And(s.free(a), (a & 7) == 0), also(a, n) if also else z3.BoolVal(False))
        s.e.may_write = fr
        s.e.write_idx = lambda st, i: z3.BoolVal(True)
class Walk:
    """list walk: phis are nodes or null, one is the successor of the other; what was passed does not qualify"""
    def __init__(s, F, passed=None, below=None): s.F, s.passed, s.below = F, passed, below
    def pools(s, L, hs, cur):
        for n in L.ptrs: hs.pool('node', cur[n]); hs.pool('node', s.F.nx(s.F.m, cur[n]))
    def cands(s, L):
        F = s.F; m = F.m
        for a in L.ptrs:
            yield ('node(%s) or null' % a, lambda v, st, a=a: Or(v[a] == 0, F.node(v[a])))
            yield ('node(%s)' % a, lambda v, st, a=a: F.node(v[a]))
            if s.below is not None: yield ('%s before' % a, lambda v, st, a=a: ULT(v[a], s.below))
            for b in L.ptrs:
                if a != b: yield ('%s->next is %s' % (a, b), lambda v, st, a=a, b=b: And(F.node(v[a]), F.nx(m, v[a]) == v[b]))
            if s.passed is not None:
                yield ('passed before %s' % a, lambda v, st, a=a: Q(['node'], lambda x: Implies(And(F.node(x), Or(v[a] == 0, ULT(x, v[a]))), s.passed(x)), hints=lambda x: [('node', L.entry[a])]))
    def measures(s, L):
        for n in L.ptrs: yield ('left ' + n, lambda v, st, n=n: If(v[n] == 0, C(0), s.F.hi - v[n]))

@unit('alloc', weight=6)
def u_alloc(ctx):
    F = FL(ctx); e, st, m = F.e, F.st, F.m; n = sym('n'); nn = need(n)
    fits = lambda x: And(ULT(n, C(2**63)), UGE(F.sz(m, x), nn))
    e.loopspec = Walk(F, passed=lambda x: Not(fits(x))); F.frame(); fn = sym('listarg')
    st.assume(fn == F.head)
    for s, r in ctx.run(e, st, '@freeNode_allocSpace', [fn, F.hp, n]):
        m2 = s.mem; h2 = m2.rd(F.hp)
        got = r != 0
        nd = lambda x, r=r, got=got: Or(And(F.node(x), x != r), And(got, x == r + nn, UGT(F.sz(m, r), nn)))
        s.pool('node', r, r + nn, F.nx(m, r), F.head)
        e.oblige(s, 'refuses-only-when-no-free-fragment-is-large-enough', Q(['node'], lambda x, got=got: Implies(And(Not(got), F.node(x)), Not(fits(x)))))
        e.oblige(s, 'returned-space-was-free-aligned-and-large-enough', Implies(got, And(F.node(r), (r & 15) == 0, fits(r), UGE(r, F.lo), ULE(nn, F.hi - r))))
        F.keep(s, '', m2, nd, h2, [('node', r), ('node', r + nn), ('node', F.nx(m, r))])
        e.oblige(s, 'remaining-free-space-is-exactly-the-rest', Q(['node'], lambda x, r=r, got=got, m2=m2: And(Implies(And(F.node(x), x != r), F.sz(m2, x) == F.sz(m, x)), Implies(And(got, x == r + nn, UGT(F.sz(m, r), nn)), F.sz(m2, x) == F.sz(m, r) - nn))), extra=[('node', r), ('node', r + nn)])

@unit('dealloc', weight=8)
def u_dealloc(ctx):
    F = FL(ctx, cover=False); e, st, m = F.e, F.st, F.m; n = sym('n'); nn = need(n); f = sym('freed')
    st.assume((f & 15) == 0, UGE(f, F.lo), ULE(n, C(2**41)), ULT(f, F.hi), ULE(nn, F.hi - f))
    st.pool('node', f)
    # the block is in use: apart from every free node
    st.assume(Q(['node'], lambda x: Implies(F.node(x), Or(ULE(f + nn, x), ULE(x + F.sz(m, x), f)))))
    # ghost: the free nodes before and behind it
    pr, su = sym('before'), sym('behind'); st.pool('node', pr, su)
    st.assume(Implies(pr != 0, And(F.node(pr), ULT(pr, f))), Implies(su != 0, And(F.node(su), UGT(su, f))))
    st.assume(Q(['node'], lambda x: Implies(F.node(x), And(Implies(ULT(x, f), And(pr != 0, ULE(x, pr))), Implies(UGT(x, f), And(su != 0, ULE(su, x)))))))
    st.pool('node', F.nx(m, pr), F.nx(m, su))
    e.loopspec = Walk(F, below=f); e.may_write = lambda s, a, k: Or(a == F.hp, within(a, k, f, nn), F.node(a), F.node(a - 8)); e.write_idx = lambda st, i: z3.BoolVal(True)
    ml = And(pr != 0, pr + F.sz(m, pr) == f); mr = And(su != 0, f + nn == su)
    for s, r in ctx.run(e, st, '@freeNode_deallocSpace', [f, F.hp, n]):
        m2 = s.mem; h2 = m2.rd(F.hp)
        nd = lambda x: Or(And(F.node(x), Not(And(mr, x == su))), And(x == f, Not(ml)))
        F.keep(s, '', m2, nd, h2, [('node', pr), ('node', su), ('node', f)])
        grown = nn + If(mr, F.sz(m, su), C(0))
        e.oblige(s, 'free-space-grows-by-exactly-the-block-and-merges', Q(['node'], lambda x, m2=m2: Implies(nd(x), F.sz(m2, x) == If(And(ml, x == pr), F.sz(m, pr) + grown, If(x == f, grown, F.sz(m, x))))), extra=[('node', pr), ('node', su), ('node', f)])

def total(ctx, fn, first, step, goal, bound=None):
    """totals over the list: acc is the ghost running total up to and including a node"""
    F = FL(ctx, True, False); e, st, m = F.e, F.st, F.m; e.may_write = lambda s, a, n: z3.BoolVal(False)
    acc = z3.Function('acc!%d' % next(EG._ctr), BV(64), BV(64)); pred = z3.Function('pred!%d' % next(EG._ctr), BV(64), BV(64))
    # ghost predecessor; the predecessor of null is the last node
    st.assume(acc(F.head) == first(F, F.head), Q(['node'], lambda x: Implies(F.node(x), And(pred(F.nx(m, x)) == x, Implies(F.nx(m, x) != 0, acc(F.nx(m, x)) == step(acc(x), F, F.nx(m, x)))))),
              Q(['node'], lambda x: Implies(And(F.node(x), x != F.head), And(F.node(pred(x)), F.nx(m, pred(x)) == x))))
    class W(Walk):
        def pools(s, L, hs, cur):
            Walk.pools(s, L, hs, cur)
            for n in L.ptrs: hs.pool('node', pred(cur[n]))
        def cands(s, L):
            for a in L.ptrs: yield ('%s is behind the first' % a, lambda v, st, a=a: v[a] != F.head)
            yield from Walk.cands(s, L)
            for a in L.ptrs:
                for k in L.ints: yield ('%s accumulates up to %s' % (k, a), lambda v, st, a=a, k=k: v[k] == acc(pred(v[a])))
    e.loopspec = W(F)
    for s, r in ctx.run(e, st, fn, [F.head]): e.oblige(s, goal, r == acc(pred(C(0))))
@unit('free-space-total')
def u_t1(ctx): total(ctx, '@freeNode_freeSpaceTotal', lambda F, x: F.sz(F.m, x), lambda a, F, x: a + F.sz(F.m, x), 'total-is-the-sum-of-the-free-fragments')
@unit('max-fragment')
def u_t2(ctx): total(ctx, '@freeNode_maxFragment', lambda F, x: F.sz(F.m, x), lambda a, F, x: If(ULT(a, F.sz(F.m, x)), F.sz(F.m, x), a), 'maximum-of-the-free-fragments')
@unit('fragments')
def u_t3(ctx): total(ctx, '@freeNode_freeFragmentsTotal', lambda F, x: C(1), lambda a, F, x: a + 1, 'number-of-free-fragments')

# ---------------- heaps over the list, using its contract ----------------
class SH:
    def __init__(s, ctx, valid=False, files=(W_, F_)):
        s.e = e = ctx.engine(list(files)); s.st = st = State(); s.B = Rec(e, 'SASBlockHeader'); s.ctx = ctx
        s.off = C(gconst(e, 'vc_off'))
        s.size = sym('heapsize'); st.assume(UGE(s.size, C(256)), ULE(s.size, C(2**40)), (s.size & 255) == 0)
        s.h = ptr(st, 'heap', s.size, 256); m = s.m = st.mem
        if W_ in files:
            s.ok = type_ok(e, m, s.h, 'sh'); s.ok2 = subtype_ok(e, m, s.h, 'sh'); st.assume(Implies(s.ok2, s.ok))
        else: s.ok = sig_ok(e, m, s.h)
        if valid: st.assume(s.ok)
        s.f = lambda m, n: s.B.rd(m, s.h, n)
        st.assume(Implies(s.ok, s.f(m, 'blockSize') == s.size))
        s.head = s.f(m, 'blockFreeSpace'); s.headp = s.h + C(s.B.off('blockFreeSpace'))
        lockstubs(e); e.may_write = lambda st, a, n: z3.BoolVal(False)
        s.locked = True
        e.contracts['@freeNode_allocSpace'] = s.alloc; e.contracts['@freeNode_deallocSpace'] = s.dealloc
        e.contracts['@freeNode_freeSpaceTotal'] = s.tot; e.contracts['@freeNode_init'] = s.init
    def held(s, st): return bool(st.g.get('locks')) and st.g['locks'][-1][0] == 'lock'
    def serial(s, st, nolock):
        if not nolock: s.e.oblige(st, 'free-list-is-used-under-the-heap-lock', z3.BoolVal(s.held(st)))
    nolock = True
    def alloc(s, e, st, args, ins):
        s.serial(st, s.nolock); e.oblige(st, 'list-contract-of-alloc', And(args[1] == s.headp, args[0] == s.head))
        r = sym('space'); n = args[2]; st.assume(Or(r == 0, And((r & 15) == 0, UGE(r, s.h + s.off), ULT(r, s.h + s.size), ULE(need(n), s.h + s.size - r))))
        st.g['ev'] = st.g.get('ev', []) + [('alloc', n, r)]
        return [(st, r)]
    def dealloc(s, e, st, args, ins):
        s.serial(st, s.nolock); e.oblige(st, 'list-contract-of-free', args[1] == s.headp)
        st.g['ev'] = st.g.get('ev', []) + [('free', args[0], args[2])]; return [(st, None)]
    def tot(s, e, st, args, ins):
        s.serial(st, s.nolock); e.oblige(st, 'list-contract-of-total', And(args[0] == s.head, s.head != 0))
        r = sym('freetotal'); st.g['ev'] = st.g.get('ev', []) + [('total', r)]; return [(st, r)]
    def init(s, e, st, args, ins):
        # scratch write into the block being freed: the node is initialised by the list anyway
        st.g['ev'] = st.g.get('ev', []) + [('init', args[0])]; return [(st, None)]
    def ev(s, st, kind): return [x for x in st.g.get('ev', []) if x[0] == kind]
    def lockpair(s, st, name='lock-released-and-paired'):
        L = st.g.get('locks', [])
        s.e.oblige(st, name, z3.BoolVal(not L or ([x[0] for x in L] == ['lock', 'unlock'])) if len(L) != 2 else And(z3.BoolVal([x[0] for x in L] == ['lock', 'unlock']), L[0][1] == s.h, L[1][1] == s.h, L[0][2] == 1))

def heap_alloc(fn, near=False, nolock=True):
    @unit('simpleheap' + fn)
    def u(ctx):
        S = SH(ctx); e, st = S.e, S.st; S.nolock = nolock; n = sym('n'); arg = S.h
        found = z3.BoolVal(True)
        if near: arg, found = nearobj(S)
        for s, r in ctx.run(e, st, fn, [arg, n]):
            a = S.ev(s, 'alloc'); okk = And(found, S.ok, ULT(n, S.size - S.off))
            e.oblige(s, 'allocates-exactly-for-a-heap-and-size-in-range', If(okk, z3.BoolVal(len(a) == 1), z3.BoolVal(len(a) == 0)))
            e.oblige(s, 'returns-the-allocated-space', r == a[0][2] if a else r == 0)
            if a: e.oblige(s, 'asks-for-the-requested-size', a[0][1] == n)
            S.lockpair(s)
def nearobj(S):
    o = sym('near'); found = z3.Bool('found')
    def find(e, st, args, ins):
        e.oblige(st, 'searches-from-the-object', args[0] == o)
        return [(st, If(found, S.h, C(0)))]
    S.e.contracts['@SASFindHeader'] = find
    return o, found
def heap_free(fn, near=False, nolock=True):
    @unit('simpleheap' + fn)
    def u(ctx):
        S = SH(ctx); e, st = S.e, S.st; S.nolock = nolock; n = sym('n'); f = sym('block'); found = z3.BoolVal(True)
        if near:
            f, found = nearobj(S); st.assume(Implies(found, And(UGE(f, S.h), ULT(f, S.h + S.size))))
        st.assume(ULT(f, C(USERTOP)))
        for s, r in ctx.run(e, st, fn, [f, n] if near else [S.h, f, n]):
            d = S.ev(s, 'free')
            inr_ = And(found, S.ok, ULT(n, S.size - S.off), UGE(f, S.h + S.off), ULE(f - S.h, S.size - n) if not near else z3.BoolVal(True))
            e.oblige(s, 'frees-exactly-blocks-of-the-heap', If(inr_, z3.BoolVal(len(d) == 1), z3.BoolVal(len(d) == 0)))
            if d: e.oblige(s, 'frees-the-given-block-and-size', And(d[0][1] == f, d[0][2] == n))
            for x in S.ev(s, 'init'): e.oblige(s, 'rejected-free-leaves-the-storage-alone', And(inr_, x[1] == f))
            if not near: e.oblige(s, 'reports-success-exactly-when-freed', (r == 0) == inr_)
            S.lockpair(s)
for fn, near, nl in (('@SASSimpleHeapAllocNoLock', False, True), ('@SASSimpleHeapAlloc', False, False), ('@SASSimpleHeapNearAllocNoLock', True, True)): heap_alloc(fn, near, nl)
for fn, near, nl in (('@SASSimpleHeapFreeNoLock', False, True), ('@SASSimpleHeapFree', False, False), ('@SASSimpleHeapNearDeallocNoLock', True, True)): heap_free(fn, near, nl)
def heap_query(fn, nolock):
    @unit('simpleheap' + fn)
    def u(ctx):
        S = SH(ctx); e, st = S.e, S.st; S.nolock = nolock; empty = 'Empty' in fn
        for s, r in ctx.run(e, st, fn, [S.h]):
            t = S.ev(s, 'total'); tv = t[0][1] if t else C(0)
            e.oblige(s, 'reads-the-list-of-a-heap', If(And(S.ok, S.head != 0), z3.BoolVal(len(t) == 1), z3.BoolVal(len(t) == 0)))
            if empty: e.oblige(s, 'empty-exactly-when-all-space-is-free', (r != 0) == And(S.ok, tv == S.size - S.off))
            else: e.oblige(s, 'free-space-is-the-total-of-the-list', r == If(S.ok, tv, C(0)))
            S.lockpair(s)
for fn, nl in (('@SASSimpleHeapFreeSpaceNoLock', True), ('@SASSimpleHeapFreeSpace', False), ('@SASSimpleHeapEmptyNoLock', True), ('@SASSimpleHeapEmpty', False)): heap_query(fn, nl)

@unit('simpleheap-lifecycle')
def u_life(ctx):
    for fn in ('@SASSimpleHeapDestroyNoLock', '@SASSimpleHeapDestroy'):
        S = SH(ctx); e, st = S.e, S.st
        def dl(e, st, args, ins): st.g['ev'] = st.g.get('ev', []) + [('dealloc', args[0], args[1])]; return [(st, None)]
        e.contracts['@SASBlockDealloc'] = dl
        for s, r in ctx.run(e, st, fn, [S.h], name=fn[1:]):
            d = S.ev(s, 'dealloc')
            e.oblige(s, 'gives-back-exactly-the-heap-block', If(S.ok2, And(r == 0, *([z3.BoolVal(len(d) == 1)] + ([d[0][1] == S.h, d[0][2] == S.size] if d else []))), And(r != 0, z3.BoolVal(len(d) == 0))))
            S.lockpair(s)
    S = SH(ctx); e, st = S.e, S.st; o, found = nearobj(S)
    for s, r in ctx.run(e, st, '@SASSimpleHeapNearFind', [o], name='NearFind'):
        e.oblige(s, 'finds-exactly-simple-heaps', r == If(And(found, S.ok), S.h, C(0)))
def started(e, S, s, m2, typ, n):
    """the block is a heap whose free list is one fragment: everything behind the header"""
    hd = S.f(m2, 'blockFreeSpace')
    return And(sig_ok(e, m2, S.h), S.B.rd(m2, S.h, 'blockType') == typ, S.f(m2, 'blockSize') == n, hd == S.h + S.off, S.N.rd(m2, hd, 'nextNode') == 0, S.N.rd(m2, hd, 'nodeSize') == n - S.off,
               S.f(m2, 'baseBlock') == S.h, S.f(m2, 'nextBlock') == 0)
@unit('simpleheap-init')
def u_init(ctx):
    for create in (False, True):
        S = SH(ctx, files=(W_, F_, 'sasalloc.cpp')); e, st = S.e, S.st; S.N = Rec(e, 'FreeNode'); del e.contracts['@freeNode_init']
        e.may_write = lambda s, a, n: within(a, n, S.h, S.size)
        null = z3.Bool('null'); t = sym('type', 32)
        if create:
            def al(e, st, args, ins): e.oblige(st, 'asks-for-a-block-of-the-heap-size', args[0] == S.size); return [(st, If(null, C(0), S.h))]
            e.contracts['@SASBlockAlloc'] = al
        for s, r in (ctx.run(e, st, '@SASSimpleHeapCreate', [S.size], name='Create') if create else ctx.run(e, st, '@SASSimpleHeapInit', [If(null, C(0), S.h), t, S.size], name='Init')):
            e.oblige(s, 'new-heap-is-entirely-free', If(null, r == 0, And(r == S.h, started(e, S, s, s.mem, C(gconst(e, 'vc_sh')) if create else zx(t), S.size))))

@unit('near-heap')
def u_near(ctx):
    for fn in ('@SASNearAlloc', '@SASSOMHeapAlloc', '@SASNearDealloc', '@SASSOMHeapDealloc'):
        S = SH(ctx, files=(A_, F_)); e, st = S.e, S.st; n = sym('n'); S.nolock = True
        o, found = nearobj(S)
        def mal(e, st, args, ins): r = sym('malloc'); st.g['ev'] = st.g.get('ev', []) + [('malloc', args[0], r)]; return [(st, r)]
        def fre(e, st, args, ins): st.g['ev'] = st.g.get('ev', []) + [('libcfree', args[0])]; return [(st, None)]
        e.contracts['@malloc'] = mal; e.contracts['@free'] = fre
        som = 'SOM' in fn; dea = 'Dealloc' in fn; hb = If(found, S.h, C(0))
        args = ([hb, o, n] if dea else [hb, n]) if som else [o, n]
        for s, r in ctx.run(e, st, fn, args, name=fn[1:]):
            a, d, ma, fr = [S.ev(s, k) for k in ('alloc', 'free', 'malloc', 'libcfree')]
            if dea:
                e.oblige(s, 'freed-into-its-own-block', If(found, z3.BoolVal(len(d) == 1 and not fr), z3.BoolVal(not d and len(fr) == (0 if som else 1))))
                if d: e.oblige(s, 'frees-the-given-object', And(d[0][1] == o, d[0][2] == n))
                if fr: e.oblige(s, 'frees-the-given-object-locally', fr[0][1] == o)
            else:
                e.oblige(s, 'allocated-in-the-block-of-the-near-object', If(found, z3.BoolVal(len(a) == 1 and not ma), z3.BoolVal(not a and len(ma) == (0 if som else 1))))
                x = a or ma
                e.oblige(s, 'returns-what-was-allocated', And(r == x[0][2], x[0][1] == n) if x else r == 0)
INFO = dict(assumptions=['a freed block was allocated from that list with that size (or with sizes rounding to the same granules)', 'callers of the NoLock variants serialise themselves, as documented', 'heap sizes are multiples of 256 of at least 256 bytes', 'SASBlockAlloc, SASBlockDealloc, SASFindHeader, SASLock through their contracts (P02, P08, P14); malloc/free of libc'])
