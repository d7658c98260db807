"""Buddy allocator of the region (sassim.cpp) over the contracts of its search trees (P01).
A tree is represented by the level of every 4K page: 0, or 1 + log2 of the (aligned) block whose key is in the tree."""
from common import *
TEXT = '#include "sassim.cpp"\n' + layout(dict(BLOCK, SASAnchorBlock_t=['anchors', 'anchors.uncommitted', 'anchors.free', 'anchors.used', 'anchors.region', 'anchors.allocated', 'anchors.rFlags', 'anchors.regionSize', 'anchors.SASSem'])) + consts(dict(BCONST, seg='SegmentSize', reg='RegionSize', base='__SAS_BASE_ADDRESS', m1='block__Size1M', anchor='SAS_RUNTIME_ANCHOR', page='block__Size4K'))
W_ = 'w_sassim.cpp'
SOURCES = [(W_, TEXT)]
PW = 36                                                # pages and levels are 36-bit words
P = lambda v: C(v, PW)
TREES = ('uncommitted', 'free', 'used', 'region', 'allocated')
def x64(v): return z3.ZeroExt(64 - v.size(), v)
def pg(a): return z3.Extract(47, 12, a)
def msk(s): return (P(1) << s) - 1
def base(p, s): return p & ~msk(s)
def inb(p, x, s): return base(p, s) == x
def keyof(x, s): return z3.Concat(z3.Extract(7, 0, s), C(0, 16), x, C(0, 4))
ULE_ = ULE
def blockin(x, s, R):
    """an aligned block of 2^s pages inside a region of R pages"""
    return And(ULE(s, P(34)), base(x, s) == x, ULT(x, R), ULE(x + msk(s), R - 1), ULE(x, x + msk(s)))
class B:
    def __init__(s, ctx, fn=True):
        s.e = e = ctx.engine([W_]); s.st = st = State(); s.A = Rec(e, 'SASAnchorBlock_t'); s.ctx = ctx
        s.gl = C(e.gaddr(e.modules[0], '@memLow')); s.low = low = z3.Concat(C(0, 17), sym('low', 35), C(0, 12)); st.mem = st.mem.wr(s.gl, low); s.R = sym('regionpages', PW); st.al[('al', low.get_id())] = (low, 8)
        st.assume(UGE(low, C(1 << 44)), ULE(low, C(1 << 46)), UGE(s.R, P(256)), ULE(s.R, P(1 << 34)))
        # the size table as initialised; nothing in sassim.cpp writes it
        lt = C(e.gaddr(e.modules[0], '@logTable')) ; li = num(lt) >> 3; s.lt = lt
        st.mem = Mem('havoc', st.mem, f=lambda i: C(0x1000) << z3.ZeroExt(3, i - C(li, 61)), pred=lambda i: And(UGE(i, C(li, 61)), ULT(i, C(li + 36, 61))))
        s.h0, s.h1 = s.low + 4096, s.low + (1 << 20); s.m = st.mem
        s.root = {}
        e.may_write = lambda st, a, n: z3.BoolVal(False); e.write_idx = lambda st, i: s.inheap(i)
        e.contracts['@_ZL10SizeToLog2m'] = s.c_log
        e.contracts['@_ZN13uLongTreeNode21searchEqualOrNextNodeEPPS_m'] = s.c_search; e.contracts['@_ZN13uLongTreeNode10removeNodeEPPS_'] = s.c_remove; e.contracts['@_ZN13uLongTreeNode10insertNodeEPPS_S0_'] = s.c_insert
        e.contracts['@_ZN13uLongTreeNode4initEmm'] = s.c_init; e.contracts['@SASNearAlloc'] = s.c_near; e.contracts['@SASNearDealloc'] = s.c_neardel
        s.c_log.__func__.pure = True; s.c_search.__func__.pure = False
    def inheap(s, i):
        return Or(And(UGE(i, z3.Extract(63, 3, s.h0)), ULT(i, z3.Extract(63, 3, s.h1))), *[i == z3.Extract(63, 3, r) for r in s.root])
    # ---- ghost state
    G = dict(owned=1, link=2, node=3, key=4, cnt=5, last=6)
    def gw(s, n): return C((1 << 60) | (15 << 40) | s.G[n], 61)
    def g(s, m, n): return m.word(None, 0, s.gw(n))
    def setg(s, st, **kw):
        for n, v in kw.items(): st.mem = st.mem.store(None, 0, s.gw(n), v)
    def tag(s, t): return (1 << 24) | t
    def lv(s, m, p, t=0): return z3.Extract(PW - 1, 0, m.word(None, 0, z3.Concat(C(s.tag(t), 25), p)))
    def fill(s, st, t, pred, val): st.mem = Mem('havoc', st.mem, f=lambda i: x64(val(z3.Extract(35, 0, i))), pred=lambda i: And(z3.Extract(60, 36, i) == C(s.tag(t), 25), pred(z3.Extract(35, 0, i))))
    def Qp(s, f, name='', n=1): return Q(['pg'] * n, f, name=name, sorts=[BV(PW)] * n)
    # ---- well-formed trees
    def wf(s, m, t=0):
        L = lambda p: s.lv(m, p, t)
        return [s.Qp(lambda p: And(ULE(L(p), P(35)), Implies(L(p) != 0, blockin(base(p, L(p) - 1), L(p) - 1, s.R))), 'levels'),
            s.Qp(lambda p, q: Implies(And(L(p) != 0, inb(q, base(p, L(p) - 1), L(p) - 1)), L(q) == L(p)), 'whole-blocks', 2)]
    def nb(s, m, t=0):
        """no two buddies are both in the tree"""
        L = lambda p: s.lv(m, p, t)
        return Q(['pg'], lambda p: Implies(L(p) != 0, L(base(p, L(p) - 1) ^ (P(1) << (L(p) - 1))) != L(p)), name='buddies-merged', sorts=[BV(PW)], hints=lambda p: s.hint(m, p, t))
    def hint(s, m, p, t=0):
        l = s.lv(m, p, t); return [('pg', base(p, l - 1)), ('pg', base(p, l - 1) ^ (P(1) << (l - 1)))]
    # ---- contracts
    def c_log(s, e, st, a, ins): return [(st, s.log32(a[0]))]
    def log32(s, z):
        r = C(0, 32)
        for k in range(36): r = If(z == C(4096 << k), C(k, 32), r)
        return r
    def log(s, z):
        r = P(0)
        for k in range(36): r = If(z == C(4096 << k), P(k), r)
        return r
    def havoc(s, st, keep=None):
        st.mem = st.mem.havoc(lambda i: And(s.inheap(i), Not(keep(i)) if keep else True), 'heap')
    def nodeok(s, n): return And(UGE(n, s.h0), ULE(n, s.h1), ULE(n + 32, s.h1), n & 15 == 0)
    def fnode(s, st):
        n = z3.Concat(C(0, 17), fresh('node', BV(43)), C(0, 4)); st.al[('al', n.get_id())] = (n, 16); st.assume(s.nodeok(n)); return n
    def c_search(s, e, st, a, ins):
        root, k = a[1], a[2]; e.oblige(st, 'searches-its-own-tree', And(*[root == r for r in s.root])); m = st.mem; L = lambda p: s.lv(m, p)
        K = lambda p: keyof(base(p, L(p) - 1), L(p) - 1)
        f, n = st.copy(), st
        n.assume(s.Qp(lambda p: Implies(L(p) != 0, ULT(K(p), k)), 'no-such-key')); s.setg(n, link=C(0))
        lk, nd, x, sz = z3.Concat(C(0, 17), fresh('link', BV(44)), C(0, 3)), s.fnode(f), fresh('page', BV(PW)), fresh('lev', BV(PW)); kk = keyof(x, sz); l0 = simp(lk)
        s.setg(f, link=lk, node=nd, key=kk); f.al[('al', lk.get_id())] = (lk, 8)
        f.assume(lk != 0, lk & 7 == 0, Or(*[lk == r for r in s.root], And(UGE(lk, s.h0), ULE(lk + 8, s.h1))), s.nodeok(nd), disjoint(lk, 8, nd, 32), disjoint(nd, 32, s.g(m, 'owned'), 32), disjoint(lk, 8, s.g(m, 'owned'), 32),
            f.mem.rd(lk) == nd, f.mem.rd(nd) == kk, f.mem.rd(nd + 8) == s.low + (x64(x) << 12), blockin(x, sz, s.R), UGE(kk, k), L(x) == sz + 1,
            s.Qp(lambda p: Implies(inb(p, x, sz), L(p) == sz + 1), 'block-of-key'), s.Qp(lambda p: Implies(And(L(p) != 0, UGE(K(p), k)), UGE(K(p), kk)), 'least-key'))
        f.pool('pg', x); f.g['found'] = f.g.get('found', []) + [(x, sz)]
        return [(f, lk), (n, C(0))]
    def c_remove(s, e, st, a, ins):
        m = st.mem; kk = s.g(m, 'key'); x, sz = z3.Extract(39, 4, kk), z3.ZeroExt(28, z3.Extract(63, 56, kk)); nd = s.g(m, 'node')
        e.oblige(st, 'removes-the-node-just-found', And(a[1] != 0, a[1] == s.g(m, 'link'))); e.oblige(st, 'no-node-is-dropped', s.g(m, 'owned') == 0)
        s.fill(st, 0, lambda p: inb(p, x, sz), lambda p: P(0)); s.havoc(st, lambda i: Or(i == z3.Extract(63, 3, nd), i == z3.Extract(63, 3, nd) + 1)); s.setg(st, owned=nd, link=C(0)); return [(st, nd)]
    def c_insert(s, e, st, a, ins):
        m = st.mem; n = a[2]; k = m.rd(n); x, sz = z3.Extract(39, 4, k), z3.ZeroExt(28, z3.Extract(63, 56, k))
        e.oblige(st, 'inserts-into-its-own-tree', And(*[a[1] == r for r in s.root])); e.oblige(st, 'inserts-a-node-it-owns', And(n != 0, n == s.g(m, 'owned')))
        e.oblige(st, 'key-names-an-aligned-block-of-the-region', And(k == keyof(x, sz), blockin(x, sz, s.R))); e.oblige(st, 'value-is-the-address-of-the-block', m.rd(n + 8) == s.low + (x64(x) << 12))
        e.oblige(st, 'new-node-has-no-children', And(m.rd(n + 16) == 0, m.rd(n + 24) == 0)); e.oblige(st, 'block-overlaps-no-block-in-the-tree', s.Qp(lambda p: Implies(inb(p, x, sz), s.lv(m, p) == 0)), assume=False)
        s.fill(st, 0, lambda p: inb(p, x, sz), lambda p: sz + 1); s.havoc(st); s.setg(st, owned=C(0), link=C(0)); st.pool('pg', x); return [(st, n)]
    def c_init(s, e, st, a, ins):
        n = a[0]; e.oblige(st, 'initialises-a-node-it-owns', And(n != 0, n == s.g(st.mem, 'owned')))
        for o, v in ((0, a[1]), (8, a[2]), (16, C(0)), (24, C(0))): st.mem = st.mem.wr(n + o, v)
        return [(st, C(0))]
    def c_near(s, e, st, a, ins):
        e.oblige(st, 'node-storage-beside-the-tree', And(Or(*[a[0] == r for r in s.root]), a[1] == 32)); e.oblige(st, 'no-node-is-dropped', s.g(st.mem, 'owned') == 0)
        n = s.fnode(st); s.havoc(st); s.setg(st, owned=n, link=C(0)); return [(st, n)]
    def c_neardel(s, e, st, a, ins):
        e.oblige(st, 'frees-a-node-it-owns-once', And(a[0] != 0, a[0] == s.g(st.mem, 'owned'), a[1] == 32)); s.havoc(st); s.setg(st, owned=C(0), link=C(0)); return [(st, C(0))]
    def start(s, nb=True, t=0):
        st = s.st; s.setg(st, owned=C(0), link=C(0)); s.rp = s.low + C(sum(s.A.off(f) for f in ()) + s.A.off('anchors.' + TREES[t])); s.root = {s.rp: 0}; s.root = [s.rp]; s.m = st.mem
        st.assume(*s.wf(st.mem))
        if nb: st.assume(s.nb(st.mem))
        return s.rp
@unit('size-to-log2')
def u_log(ctx):
    S = B(ctx); e, st = S.e, S.st; del e.contracts['@_ZL10SizeToLog2m']; z = sym('size'); e.unroll = 40; e.eager = True
    v = e.modules[0].globals['@logTable']; m = e.modules[0]; by = e.initbytes(m, m.res(v[1]), v[2]); e.cur = ctx.u.name
    e.oblige(st, 'table-holds-the-powers-of-two', z3.BoolVal([int.from_bytes(bytes(by[8 * i:8 * i + 8]), 'little') for i in range(len(by) // 8)] == [4096 << i for i in range(36)]))
    for fn in ('@_ZL10SizeToLog2m', '@SASS2Log2'):
        for s, r in ctx.run(e, st, fn, [z]): e.oblige(s, 'log2-of-table-sizes-else-0', r == S.log32(z))
class LAlloc:
    """the block found is cut in halves until it has the size asked for"""
    def __init__(s, S, J): s.S, s.J = S, J
    def cands(s, L):
        S = s.S; fx = [None]; x, U = L.st.g['found'][-1]; m0 = S.m
        for p in L.ptrs:
            yield '%s is the owned node' % p, lambda v, st, p=p: S.g(st.mem, 'owned') == v[p]
            for i in L.ints:
                if L.cur[i].size() == 32: yield '%s used up after the first half %s' % (p, i), lambda v, st, p=p, i=i: Or(v[p] == 0, z3.ZeroExt(4, v[i]) == U)
            yield '%s null or a node' % p, lambda v, st, p=p: Or(v[p] == 0, S.nodeok(v[p]))
        for i in L.ints:
            if L.cur[i].size() != 32: continue
            u = lambda v, i=i: z3.ZeroExt(4, v[i])
            yield '%s between asked and found size' % i, lambda v, st, u=u: And(ULE(s.J, u(v)), ULE(u(v), U))
            yield '%s: rest of the block' % i, lambda v, st, u=u: S.Qp(lambda p, u=u(v), m=st.mem: And(Implies(inb(p, x, U), If(inb(p, x, u), S.lv(m, p) == 0, And(S.lv(m, p) != 0, ULT(u, S.lv(m, p)), ULE(S.lv(m, p), U), base(p, S.lv(m, p) - 1) == x + (P(1) << (S.lv(m, p) - 1))))), Implies(Not(inb(p, x, U)), S.lv(m, p) == S.lv(m0, p))))
    def measures(s, L):
        for i in L.ints: yield i, lambda v, st, i=i: x64(v[i]) if v[i].size() < 64 else v[i]
def same_outside(S, s, name, pred): S.e.oblige(s, name, S.Qp(lambda p, m=s.mem: Implies(pred(p), S.lv(m, p) == S.lv(S.m, p))), assume=False)
@unit('p2Alloc', weight=5)
def u_alloc(ctx):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(); z = sym('size'); J = S.log(z); e.loopspec = LAlloc(S, J); m = S.m
    for s, r in ctx.run(e, st, '@_ZL7p2AllocPP13uLongTreeNodem', [rp, z]):
        m2 = s.mem; x = pg(r - S.low); s.pool('pg', x); L, L2 = (lambda p: S.lv(m, p)), (lambda p, m2=m2: S.lv(m2, p))
        e.oblige(s, 'no-node-leaks', S.g(m2, 'owned') == 0)
        e.oblige(s, 'refuses-only-without-a-block-of-that-size', S.Qp(lambda p, r=r, x=x, L2=L2: Implies(And(r == 0, L(p) != 0), ULT(L(p) - 1, J))), assume=False)
        e.oblige(s, 'refusal-changes-nothing', S.Qp(lambda p, r=r, x=x, L2=L2: Implies(r == 0, L2(p) == L(p))), assume=False)
        e.oblige(s, 'result-is-an-aligned-block-of-the-region', Implies(r != 0, And(r == S.low + (x64(x) << 12), blockin(x, J, S.R))), assume=False)
        e.oblige(s, 'taken-from-the-start-of-a-block', Implies(r != 0, base(x, L(x) - 1) == x), assume=False)
        e.oblige(s, 'block-was-free', S.Qp(lambda p, r=r, x=x, L2=L2: Implies(And(r != 0, inb(p, x, J)), L(p) != 0)), assume=False)
        e.oblige(s, 'block-is-no-longer-free', S.Qp(lambda p, r=r, x=x, L2=L2: Implies(And(r != 0, inb(p, x, J)), L2(p) == 0)), assume=False)
        e.oblige(s, 'everything-else-stays-free-or-allocated', S.Qp(lambda p, r=r, x=x, L2=L2: Implies(And(r != 0, Not(inb(p, x, J))), (L2(p) == 0) == (L(p) == 0))), assume=False)
        e.oblige(s, 'buddies-stay-merged', S.nb(m2), assume=False); wf_kept(S, s)

def block_arg(S, st, z, x, m, free=True, t=0):
    """the caller's block: aligned, inside the region, all of it outside the tree (or all of it inside one block of the tree)"""
    J = S.log(z); st.assume(blockin(x, J, S.R)); st.pool('pg', x)
    if free: st.assume(S.Qp(lambda p: Implies(inb(p, x, J), S.lv(m, p, t) == 0), 'block-not-in-tree'))
    else: st.assume(UGT(S.lv(m, x, t), J))
    return J
class LDealloc:
    """the freed block together with the free buddies taken out of the tree"""
    def __init__(s, S, x, J): s.S, s.x, s.J = S, x, J
    def cands(s, L):
        S, m0, X, J = s.S, s.S.m, s.x, s.J; i64 = [i for i in L.ints if L.cur[i].size() == 64]
        yield 'no owned node', lambda v, st: S.g(st.mem, 'owned') == 0
        for k in i64:
            y, u = (lambda v, k=k: z3.Extract(39, 4, v[k])), (lambda v, k=k: z3.ZeroExt(28, z3.Extract(63, 56, v[k])))
            yield '%s is the key of a block around the freed one' % k, lambda v, st, k=k, y=y, u=u: And(v[k] == keyof(y(v), u(v)), blockin(y(v), u(v), S.R), ULE(J, u(v)), base(X, u(v)) == y(v))
            for a in i64:
                if a != k: yield '%s is the address of %s' % (a, k), lambda v, st, a=a, y=y: v[a] == S.low + (x64(y(v)) << 12)
            yield '%s: block was free but for the freed part' % k, lambda v, st, y=y, u=u: S.Qp(lambda p, y=y(v), u=u(v), m=st.mem: And(Implies(inb(p, y, u), And(S.lv(m, p) == 0, Or(inb(p, X, J), S.lv(m0, p) != 0))), Implies(Not(inb(p, y, u)), S.lv(m, p) == S.lv(m0, p))))
    def measures(s, L):
        for i in L.ints:
            if L.cur[i].size() == 64: yield i, lambda v, st, i=i: 64 - z3.LShR(v[i], 56)
@unit('p2Dealloc', weight=5)
def u_dealloc(ctx, fn='@_ZL9p2DeallocPP13uLongTreeNodemPv'):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(); z = sym('size'); x = sym('block', PW); m = S.m; J = block_arg(S, st, z, x, m); e.loopspec = LDealloc(S, x, J); L = lambda p: S.lv(m, p)
    for s, r in ctx.run(e, st, fn, [rp, z, S.low + (x64(x) << 12)]):
        m2 = s.mem; L2 = lambda p, m2=m2: S.lv(m2, p)
        e.oblige(s, 'no-node-leaks', S.g(m2, 'owned') == 0)
        e.oblige(s, 'block-is-free-now', S.Qp(lambda p, L2=L2: Implies(inb(p, x, J), L2(p) != 0)), assume=False)
        e.oblige(s, 'everything-else-stays-free-or-allocated', S.Qp(lambda p, L2=L2: Implies(Not(inb(p, x, J)), (L2(p) == 0) == (L(p) == 0))), assume=False)
        e.oblige(s, 'blocks-only-grow', S.Qp(lambda p, L2=L2: And(ULE(L(p), L2(p)), Implies(inb(p, x, J), UGT(L2(p), J)))), assume=False)
        e.oblige(s, 'buddies-are-merged', S.nb(m2), assume=False); wf_kept(S, s)
@unit('p2AddUsed', weight=1)
def u_addused(ctx):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(False); z = sym('size'); x = sym('block', PW); m = S.m; J = block_arg(S, st, z, x, m)
    for s, r in ctx.run(e, st, '@_ZL9p2AddUsedPP13uLongTreeNodemPv', [rp, z, S.low + (x64(x) << 12)]):
        e.oblige(s, 'no-node-leaks', S.g(s.mem, 'owned') == 0)
        e.oblige(s, 'exactly-the-block-is-added', S.Qp(lambda p, m2=s.mem: S.lv(m2, p) == If(inb(p, x, J), J + 1, S.lv(m, p))), assume=False)
class LFind:
    def __init__(s, S, x, J): s.S, s.x, s.J = S, x, J
    def cands(s, L):
        S, m0 = s.S, s.S.m; T = S.lv(m0, s.x) - 1
        yield 'no owned node', lambda v, st: S.g(st.mem, 'owned') == 0
        yield 'tree unchanged', lambda v, st: S.Qp(lambda p, m=st.mem: S.lv(m, p) == S.lv(m0, p))
        for i in L.ints:
            if L.cur[i].size() == 32: yield '%s below the size of the containing block' % i, lambda v, st, i=i: And(ULE(s.J, z3.ZeroExt(4, v[i])), ULT(z3.ZeroExt(4, v[i]), T))
        for q in L.ptrs: yield '%s null' % q, lambda v, st, q=q: v[q] == 0
@unit('p2FindCont', weight=3)
def u_findcont(ctx):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(False); z = sym('size'); x = sym('block', PW); m = S.m; J = block_arg(S, st, z, x, m, False); e.loopspec = LFind(S, x, J); T = S.lv(m, x) - 1; st.assume(UGT(T, J)); X = base(x, T); st.pool('pg', X)
    for s, r in ctx.run(e, st, '@_ZL10p2FindContPP13uLongTreeNodemPv', [rp, z, S.low + (x64(x) << 12)]):
        e.oblige(s, 'takes-the-containing-block-out', And(r != 0, r == S.g(s.mem, 'owned'), s.mem.rd(r) == keyof(X, T), s.mem.rd(r + 8) == S.low + (x64(X) << 12)))
        e.oblige(s, 'only-the-containing-block-is-taken-out', S.Qp(lambda p, m2=s.mem: S.lv(m2, p) == If(inb(p, X, T), P(0), S.lv(m, p))), assume=False)
def split_rest(S, m0, m, x, J, X, T):
    """block(X,T) without block(x,J) is in the tree again, cut at the buddies of the blocks around x"""
    def f(p):
        l = S.lv(m, p) - 1
        return If(inb(p, X, T), If(inb(p, x, J), S.lv(m, p) == 0, And(S.lv(m, p) != 0, ULE(J, l), ULT(l, T), base(p, l) ^ (P(1) << l) == base(x, l))), S.lv(m, p) == S.lv(m0, p))
    return S.Qp(f)
class LSplit:
    def __init__(s, S, x, J, X, T): s.S, s.x, s.J, s.X, s.T = S, x, J, X, T
    def cands(s, L):
        S, m0 = s.S, s.S.m; i64 = [i for i in L.ints if L.cur[i].size() == 64]; i32 = [i for i in L.ints if L.cur[i].size() == 32]
        yield 'no owned node', lambda v, st: S.g(st.mem, 'owned') == 0
        for i in i32:
            u = lambda v, i=i: z3.ZeroExt(4, v[i])
            yield '%s between the sizes' % i, lambda v, st, u=u: And(ULE(s.J, u(v)), ULE(u(v), s.T))
            for a in i64:
                yield '%s is the block of size %s around the freed one' % (a, i), lambda v, st, a=a, u=u: v[a] == x64(base(s.x, u(v))) << 12
                yield '%s is its address %s' % (a, i), lambda v, st, a=a, u=u: v[a] == S.low + (x64(base(s.x, u(v))) << 12)
            yield '%s: the rest is in the tree' % i, lambda v, st, u=u: split_rest(S, m0, st.mem, base(s.x, u(v)), u(v), s.X, s.T)
@unit('p2split', weight=3)
def u_split(ctx):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(False); z = sym('size'); x = sym('block', PW); J = S.log(z); T = sym('containing', PW); X = base(x, T); st.assume(blockin(x, J, S.R), blockin(X, T, S.R), UGT(T, J)); st.pool('pg', x, X)
    c = S.fnode(st); S.setg(st, owned=c); st.mem = st.mem.wr(c, keyof(X, T)).wr(c + 8, S.low + (x64(X) << 12)); S.m = m = st.mem
    st.assume(S.Qp(lambda p: Implies(inb(p, X, T), S.lv(m, p) == 0))); e.loopspec = LSplit(S, x, J, X, T)
    for s, r in ctx.run(e, st, '@_ZL7p2splitPP13uLongTreeNodemPvS0_', [rp, z, S.low + (x64(x) << 12), c]):
        e.oblige(s, 'no-node-leaks', S.g(s.mem, 'owned') == 0)
        e.oblige(s, 'the-rest-is-in-the-tree-again', split_rest(S, m, s.mem, x, J, X, T), assume=False)
@unit('p2RemUsed', weight=4)
def u_remused(ctx):
    S = B(ctx); e, st = S.e, S.st; rp = S.start(False); z = sym('size'); x = sym('block', PW); m = S.m; J = block_arg(S, st, z, x, m, False); L = lambda p: S.lv(m, p); T = L(x) - 1; X = base(x, T); st.pool('pg', X); loc = S.low + (x64(x) << 12)
    def fc(e, st, a, ins):
        e.oblige(st, 'looks-for-this-block', And(a[0] == rp, a[1] == z, a[2] == loc, S.g(st.mem, 'owned') == 0)); e.oblige(st, 'only-if-a-larger-block-contains-it', UGT(T, J)); e.oblige(st, 'tree-still-whole', S.Qp(lambda p, m2=st.mem: S.lv(m2, p) == L(p)), assume=False)
        n = S.fnode(st); S.fill(st, 0, lambda p: inb(p, X, T), lambda p: P(0)); S.havoc(st); S.setg(st, owned=n, link=C(0)); st.mem = st.mem.wr(n, keyof(X, T)).wr(n + 8, S.low + (x64(X) << 12)); return [(st, n)]
    def sp(e, st, a, ins):
        m1 = st.mem; e.oblige(st, 'splits-the-block-taken-out', And(a[0] == rp, a[1] == z, a[2] == loc, a[3] == S.g(m1, 'owned'), a[3] != 0, m1.rd(a[3]) == keyof(X, T), m1.rd(a[3] + 8) == S.low + (x64(X) << 12), UGT(T, J)))
        e.oblige(st, 'containing-block-is-out', S.Qp(lambda p, m1=m1: Implies(inb(p, X, T), S.lv(m1, p) == 0)), assume=False)
        g = z3.Function('split!%d' % next(EG._ctr), BV(PW), BV(PW)); S.fill(st, 0, lambda p: inb(p, X, T), g); S.havoc(st); S.setg(st, owned=C(0), link=C(0)); st.assume(split_rest(S, m1, st.mem, x, J, X, T)); return [(st, C(0))]
    e.contracts['@_ZL10p2FindContPP13uLongTreeNodemPv'] = fc; e.contracts['@_ZL7p2splitPP13uLongTreeNodemPvS0_'] = sp
    y, K = sym('other', PW), sym('otherlog', PW); st.pool('pg', y)
    for s, r in ctx.run(e, st, '@_ZL9p2RemUsedPP13uLongTreeNodemPv', [rp, z, loc]):
        L2 = lambda p, m2=s.mem: S.lv(m2, p)
        e.oblige(s, 'no-node-leaks', S.g(s.mem, 'owned') == 0)
        e.oblige(s, 'block-is-not-used-any-more', S.Qp(lambda p, L2=L2: Implies(inb(p, x, J), L2(p) == 0)), assume=False)
        e.oblige(s, 'everything-else-stays-used-or-unused', S.Qp(lambda p, L2=L2: Implies(Not(inb(p, x, J)), (L2(p) == 0) == (L(p) == 0))), assume=False)
        e.oblige(s, 'other-used-blocks-stay-inside-one-block-of-the-tree', Implies(And(blockin(y, K, S.R), UGT(L(y), K), Not(inb(y, x, J)), Not(inb(x, y, K))), UGT(L2(y), K)), assume=False)
@unit('lemma-whole-blocks', weight=2)
def u_lemma(ctx):
    """with buddies merged, an aligned block all of whose pages are free is inside one free block (one step of the induction over the smallest level)"""
    S = B(ctx); e, st = S.e, S.st; S.start(); m = S.m; ctx.lemmas.append('lemma'); x, J, l = sym('x', PW), sym('J', PW), sym('l', PW); e.cur = ctx.u.name; L = lambda p: S.lv(m, p)
    st.assume(blockin(x, J, S.R), ULT(l, J), S.Qp(lambda p: Implies(inb(p, x, J), UGE(L(p), l + 1)), 'all at least this large'))
    q = sym('page', PW); st.pool('pg', q, *[t for k, t in S.hint(m, q)]); st.assume(inb(q, x, J))
    e.oblige(st, 'larger-by-one', UGE(L(q), l + 2), assume=False)

# ---------------- blocks: the region's five trees ----------------
UNC, FREE, USED, REG, ALL = range(5)
SEG = 16
def wf_kept(S, s): 
    for f in S.wf(s.mem): S.e.oblige(s, 'tree-of-disjoint-aligned-blocks-' + f.name, f, assume=False)
class Region(B):
    """every page is in exactly one of region and allocated (whole segments), every allocated page in exactly one of uncommitted, free and used"""
    def __init__(s, ctx):
        super().__init__(ctx); e, st = s.e, s.st; s.rp = [s.low + C(s.A.off('anchors.' + t)) for t in TREES]; s.rootsw = [r for r in s.rp]; s.sem = s.low + C(s.A.off('anchors.SASSem')); s.seg = gconst(e, 'vc_seg')
        e.oblige(st, 'segments-are-256-MB', z3.BoolVal(s.seg == 4096 << SEG)); s.m = st.mem
        st.assume(s.inv(st.mem)); s.compact = z3.Extract(0, 0, st.mem.rd(s.low + C(s.A.off('anchors.rFlags')))) == 1; e.write_idx = lambda st, i: z3.BoolVal(False)
        for n, c in (('@_ZL7p2AllocPP13uLongTreeNodem', s.k_alloc), ('@_ZL9p2DeallocPP13uLongTreeNodemPv', s.k_dealloc), ('@_ZL9p2AddUsedPP13uLongTreeNodemPv', s.k_add), ('@_ZL9p2RemUsedPP13uLongTreeNodemPv', s.k_rem)): e.contracts[n] = c
        s.empties(st)
    def on(s, m, t, p): return s.lv(m, p, t) != 0
    def one(s, m, p, hole=lambda p: z3.BoolVal(False)):
        u, f, d, r, a = [s.on(m, t, p) for t in range(5)]; n = [Not(x) for x in (u, f, d)]
        return If(ULT(p, s.R), And(r == Not(a), If(And(a, Not(hole(p))), Or(And(u, n[1], n[2]), And(n[0], f, n[2]), And(n[0], n[1], d)), And(*n))), And(*n, Not(r), Not(a)))
    def inv(s, m, hole=lambda p: z3.BoolVal(False)): return s.Qp(lambda p: And(s.one(m, p, hole), Implies(s.on(m, ALL, p), And(s.lv(m, p, ALL) == SEG + 1))), 'pages-in-exactly-one-tree')
    def empties(s, st):
        m = st.mem
        for t in range(5): st.assume(s.Qp(lambda p, t=t: Implies(m.rd(s.rp[t]) == 0, s.lv(m, p, t) == 0), 'null-root-is-empty'))
    def tree(s, root):
        for t in range(5):
            if z3.is_true(simp(root - s.rp[t] == 0)): return t
            if s.valid_eq(root, s.rp[t]): return t
        raise Undecided('tree')
    def valid_eq(s, a, b): q = z3.Solver(); q.add(a != b); return q.check() == z3.unsat
    def touch(s, st):
        ws = [z3.Extract(63, 3, r) for r in s.rp]; st.mem = st.mem.havoc(lambda i: Or(And(UGE(i, z3.Extract(63, 3, s.h0)), ULT(i, z3.Extract(63, 3, s.h1))), *[i == w for w in ws]), 'heap'); s.empties(st)
    def newlv(s, st, t, pred=lambda p: z3.BoolVal(True)):
        g = z3.Function('level!%d' % next(EG._ctr), BV(PW), BV(PW)); s.fill(st, t, pred, g); return g
    def held(s, st): s.e.oblige(st, 'under-the-region-lock', z3.BoolVal(st.g.get('lock', True)), assume=False)
    def k_alloc(s, e, st, a, ins):
        t = s.tree(a[0]); J = s.log(a[1]); m = st.mem; s.held(st); f, n = st.copy(), st; L = lambda p: s.lv(m, p, t)
        n.assume(s.Qp(lambda p: Implies(L(p) != 0, ULT(L(p) - 1, J)), 'no-block-of-that-size')); n.g['ev'] = n.g.get('ev', []) + [('none', t, J)]
        x = fresh('block', BV(PW)); f.assume(blockin(x, J, s.R), base(x, L(x) - 1) == x, s.Qp(lambda p: Implies(inb(p, x, J), L(p) != 0), 'block was free')); s.newlv(f, t); s.touch(f); m2 = f.mem
        f.assume(s.Qp(lambda p: If(inb(p, x, J), s.lv(m2, p, t) == 0, (s.lv(m2, p, t) == 0) == (L(p) == 0)), 'taken')); f.pool('pg', x); f.g['ev'] = f.g.get('ev', []) + [('take', t, x, J)]
        return [(f, s.low + (x64(x) << 12)), (n, C(0))]
    def outside(s, st, t, a):
        x = pg(a[2] - s.low); J = s.log(a[1]); m = st.mem; s.held(st); st.pool('pg', x)
        e = s.e; e.oblige(st, 'an-aligned-block-of-the-region', And(a[2] == s.low + (x64(x) << 12), blockin(x, J, s.R))); return x, J, m
    def k_dealloc(s, e, st, a, ins):
        t = s.tree(a[0]); x, J, m = s.outside(st, t, a); e.oblige(st, 'block-not-yet-in-that-tree', s.Qp(lambda p: Implies(inb(p, x, J), s.lv(m, p, t) == 0)), assume=False)
        s.newlv(st, t); s.touch(st); m2 = st.mem; st.assume(s.Qp(lambda p: And(If(inb(p, x, J), UGT(s.lv(m2, p, t), J), (s.lv(m2, p, t) == 0) == (s.lv(m, p, t) == 0)), ULE(s.lv(m, p, t), s.lv(m2, p, t)), ULE(s.lv(m2, p, t), P(35))), 'given')); st.g['ev'] = st.g.get('ev', []) + [('give', t, x, J)]; return [(st, C(0))]
    def k_add(s, e, st, a, ins):
        t = s.tree(a[0]); x, J, m = s.outside(st, t, a); e.oblige(st, 'block-not-yet-in-that-tree', s.Qp(lambda p: Implies(inb(p, x, J), s.lv(m, p, t) == 0)), assume=False)
        s.fill(st, t, lambda p: inb(p, x, J), lambda p: J + 1); s.touch(st); st.g['ev'] = st.g.get('ev', []) + [('give', t, x, J)]; return [(st, C(0))]
    def k_rem(s, e, st, a, ins):
        t = s.tree(a[0]); x, J, m = s.outside(st, t, a); e.oblige(st, 'block-is-in-that-tree', UGT(s.lv(m, x, t), J))
        s.newlv(st, t); s.touch(st); m2 = st.mem; st.assume(s.Qp(lambda p: If(inb(p, x, J), s.lv(m2, p, t) == 0, (s.lv(m2, p, t) == 0) == (s.lv(m, p, t) == 0)), 'removed')); st.g['ev'] = st.g.get('ev', []) + [('rem', t, x, J)]; return [(st, C(0))]
    def lockc(s):
        def seize(e, st, a, ins):
            e.oblige(st, 'lock-not-held-twice', z3.BoolVal(not st.g.get('lock', False)), assume=False); st.g['lock'] = True; st.g['locks'] = st.g.get('locks', 0) + 1; return [(st, C(0))]
        def rel(e, st, a, ins):
            e.oblige(st, 'releases-the-lock-it-holds', z3.BoolVal(bool(st.g.get('lock', False))), assume=False); st.g['lock'] = False; return [(st, C(0))]
        s.e.contracts['@SASSeize'] = seize; s.e.contracts['@SASRelease'] = rel; s.st.g['lock'] = False
def alloc_post(S, e, s, r, J, m, rec=False):
    """what SASBlockAllocNoLock guarantees"""
    m2 = s.mem; x = pg(r - S.low); s.pool('pg', x); out = []
    out.append(('result-is-a-block-aligned-at-its-size', Implies(r != 0, And(r == S.low + (x64(x) << 12), blockin(x, J, S.R)))))
    out.append(('block-was-not-in-use', S.Qp(lambda p: Implies(And(r != 0, inb(p, x, J)), Not(S.on(m, USED, p))))))
    out.append(('exactly-the-block-becomes-used', S.Qp(lambda p: S.on(m2, USED, p) == Or(S.on(m, USED, p), And(r != 0, inb(p, x, J))))))
    out.append(('used-blocks-stay-whole', S.Qp(lambda p: And(ULE(S.lv(m, p, USED), S.lv(m2, p, USED)), Implies(And(r != 0, inb(p, x, J)), UGT(S.lv(m2, p, USED), J))))))
    out.append(('block-is-backed-by-a-segment', S.Qp(lambda p: And(Implies(And(r != 0, inb(p, x, J)), S.on(m2, ALL, p)), Implies(S.on(m, ALL, p), S.on(m2, ALL, p))))))
    out.append(('pages-stay-in-exactly-one-tree', S.inv(m2)))
    out.append(('refused-only-without-a-free-block', S.Qp(lambda p: Implies(r == 0, And(ULE(S.lv(m, p, FREE), J), ULE(S.lv(m, p, UNC), J))))))
    out.append(('refusal-changes-nothing', S.Qp(lambda p: Implies(r == 0, And(*[S.on(m, t, p) == S.on(m2, t, p) for t in range(5)])))))
    return out
@unit('SASBlockAllocNoLock', weight=5)
def u_balloc(ctx):
    S = Region(ctx); e, st = S.e, S.st; z = sym('size'); m = S.m; J = S.log(z); st.assume(ULE(z, C(S.seg))); FN = '@_Z19SASBlockAllocNoLockm'
    def create(e, st, a, ins):
        x = pg(a[0] - S.low); e.oblige(st, 'creates-an-unallocated-segment', And(a[0] == S.low + (x64(x) << 12), blockin(x, P(SEG), S.R), a[1] == C(S.seg))); e.oblige(st, 'segment-not-yet-allocated', S.Qp(lambda p, m1=st.mem: Implies(inb(p, x, P(SEG)), Not(S.on(m1, ALL, p)))), assume=False)
        rc = fresh('rc', BV(32)); st.g['rc'] = rc; return [(st, rc)]
    def rec(e, st, a, ins):
        m1 = st.mem; e.oblige(st, 'asks-again-for-that-size', a[0] == z); e.oblige(st, 'consistent-before-asking-again', S.inv(m1), assume=False)
        ev = [v for v in st.g.get('ev', []) if v[0] == 'give' and v[1] == UNC]; e.oblige(st, 'asks-again-only-with-a-new-segment', z3.BoolVal(bool(ev)))
        if ev: st.pool('pg', ev[-1][2])
        for t in (UNC, FREE, USED, REG, ALL): S.newlv(st, t)
        S.touch(st); r = z3.Concat(C(0, 17), fresh('r', BV(35)), C(0, 12)); st.g['rec'] = True
        for n, f in alloc_post(S, e, st, r, J, m1): st.assume(f)
        return [(st, r)]
    e.contracts['@_Z18SASCreateSegByAddrPvm'] = e.contracts['@SASCreateSegByAddr'] = create; e.contracts[FN] = rec
    for s, r in ctx.run(e, st, FN, [z]):
        for n, f in alloc_post(S, e, s, r, J, m): e.oblige(s, n, f, assume=False)
        ev = s.g.get('ev', [])
        if z3.is_true(simp(r == 0)) or not s.g.get('rec'): e.oblige(s, 'refused-only-without-room-for-a-segment-or-without-its-file', Implies(r == 0, Or(z3.BoolVal(any(v[:2] == ('none', REG) and z3.is_true(simp(v[2] == SEG)) for v in ev)), s.g['rc'] != 0 if 'rc' in s.g else False)))
        else: e.oblige(s, 'succeeds-with-a-new-segment', r != 0)
@unit('SASBlockAlloc', weight=1)
def u_ballocl(ctx):
    S = Region(ctx); e, st = S.e, S.st; z = sym('size'); S.lockc(); rr = sym('inner')
    def inner(e, st, a, ins): S.held(st); e.oblige(st, 'passes-the-size-on', a[0] == z); st.g['n'] = st.g.get('n', 0) + 1; return [(st, rr)]
    e.contracts['@_Z19SASBlockAllocNoLockm'] = inner
    for s, r in ctx.run(e, st, '@SASBlockAlloc', [z]):
        ok = ULE(z, C(S.seg)); e.oblige(s, 'allocates-once-under-the-lock-up-to-the-segment-size', And(z3.BoolVal(s.g.get('n', 0) == 1) == ok, z3.BoolVal(s.g.get('n', 0) <= 1), r == If(ok, rr, C(0)))); e.oblige(s, 'lock-released', z3.BoolVal(not s.g['lock'] and s.g.get('locks', 0) <= 1))
@unit('SASBlockDealloc', weight=3)
def u_bdealloc(ctx):
    S = Region(ctx); e, st = S.e, S.st; z = sym('size'); S.lockc(); x = sym('block', PW); m = S.m; J = block_arg(S, st, z, x, m, False, USED); loc = S.low + (x64(x) << 12); st.assume(Or(*[z == C(4096 << k) for k in range(17)]), S.Qp(lambda p: Implies(inb(p, x, J), S.lv(m, p, USED) == S.lv(m, x, USED)), 'used as a whole'))
    hole = lambda p: inb(p, x, J); sz = e.contracts['@SASSeize']
    def seize(e, st, a, ins):
        rs = sz(e, st, a, ins)
        if st.g['locks'] > 1:          # others worked on the trees while the lock was released; the block is in none of their trees
            for t in range(5): S.newlv(st, t)
            S.touch(st); st.assume(S.inv(st.mem, hole), S.Qp(lambda p, m2=st.mem: Implies(hole(p), S.on(m2, ALL, p)))); st.g['before'] = st.mem
        return rs
    e.contracts['@SASSeize'] = seize
    def ms(e, st, a, ins):
        e.oblige(st, 'clears-with-zeros-inside-the-block', And(z3.Extract(7, 0, a[1]) == 0, ULE(loc, a[0]), ULE(a[2], z), ULE(a[0] - loc, z - a[2])))
        m1 = st.mem; e.oblige(st, 'clears-only-while-nobody-can-get-the-block', S.Qp(lambda p: Implies(inb(p, x, J), And(*[Not(S.on(m1, t, p)) for t in (UNC, FREE, USED, REG)]))), assume=False)
        st.g['cl'] = st.g.get('cl', []) + [(a[0], a[2])]; return [(st, C(0))]
    e.contracts['@llvm.memset.p0.i64'] = ms
    for s, r in ctx.run(e, st, '@SASBlockDealloc', [loc, z]):
        m2 = s.mem; b = s.g.get('before', m)
        e.oblige(s, 'lock-released', z3.BoolVal(not s.g['lock']))
        e.oblige(s, 'exactly-the-block-becomes-unused', S.Qp(lambda p, m2=m2, b=b: S.on(m2, USED, p) == And(S.on(b, USED, p), Not(inb(p, x, J)))), assume=False)
        e.oblige(s, 'block-is-free', S.Qp(lambda p, m2=m2: Implies(inb(p, x, J), S.on(m2, FREE, p))), assume=False)
        e.oblige(s, 'pages-stay-in-exactly-one-tree', S.inv(m2), assume=False)
        cl = s.g.get('cl', []); e.oblige(s, 'first-page-is-cleared', Or(*[And(a == loc, UGE(n, If(ULT(z, C(4096)), z, C(4096)))) for a, n in cl]) if cl else z3.BoolVal(False))
@unit('region-lock', weight=1)
def u_lock(ctx):
    S = Region(ctx); e, st = S.e, S.st
    class NT: no_termination = True
    NT.cands = lambda self, L: []
    e.loopspec = NT(); er = ptr(st, 'errno', 4); ok = []
    def ev(k):
        def h(e, st, a, ins):
            rc = fresh('rc', BV(32)); st.g['ev'] = st.g.get('ev', []) + [(k, a[0], rc)]; return [(st, rc)]
        return h
    e.contracts['@__errno_location'] = lambda e, st, a, ins: [(st, er)]
    e.contracts['@sem_wait'] = ev('wait'); e.contracts['@sem_post'] = ev('post'); e.contracts['@strerror'] = lambda e, st, a, ins: [(st, sym('msg'))]
    for fn, k in (('@SASSeize', 'wait'), ('@SASRelease', 'post')):
        for s, r in ctx.run(e, st, fn, []):
            l = s.g.get('ev', []); last = l[-1] if l else None
            e.oblige(s, 'on-the-semaphore-of-the-region', And(z3.BoolVal(bool(l)), *[And(z3.BoolVal(v[0] == k), v[1] == S.sem) for v in l]))
            if last: e.oblige(s, 'returns-only-after-the-last-call-succeeded-or-failed-for-good', Or(last[2] == 0, s.mem.rd(er, 4) != 4 if k == 'wait' else True))

# ---------------- enumerating the trees ----------------
class Walk:
    """ghost: the keys handed out so far in order (order[j]), where a block stands in that order (pos[page]), what was done with it (done[page])"""
    ORD, POS, DONE = 8, 9, 10
    def __init__(s, ctx, t, locked, done=False):
        S = s.S = Region(ctx); s.e, s.st, s.t, s.withdone = S.e, S.st, t, done; st = s.st; m = s.m = st.mem; s.locked = locked; s.lo = sym('capacity', PW); st.assume(ULE(s.lo, P(1 << 26)))
        st.assume(*S.wf(m, t)); S.setg(st, cnt=C(0), last=C(0)); st.assume(S.lv(m, P(0), t) != 1); S.fill(st, s.DONE, lambda p: z3.BoolVal(True), lambda p: P(0)); s.m = st.mem
        s.e.contracts['@_ZN13uLongTreeNode14searchNextNodeEPS_m'] = s.nxt; s.rootval = m.rd(S.rp[t])
        if locked:
            S.lockc()
            def acc(e, st, kind, addr, size, vol):
                if kind == 'load' and simp(addr).eq(simp(S.rp[t])): S.held(st)
            s.e.on_access = acc
    def lv(s, p): return s.S.lv(s.m, p, s.t)
    def K(s, p): return keyof(base(p, s.lv(p) - 1), s.lv(p) - 1)
    def order(s, m, j): return m.word(None, 0, z3.Concat(C(s.S.tag(s.ORD), 25), j))
    def pos(s, m, p): return s.S.lv(m, p, s.POS)
    def done(s, m, p): return s.S.lv(m, p, s.DONE)
    def cnt(s, m): return z3.Extract(35, 0, s.S.g(m, 'cnt'))
    def nxt(s, e, st, a, ins):
        S = s.S
        if s.locked: S.held(st)
        e.oblige(st, 'walks-the-current-tree', a[1] == s.rootval); k = a[2]; f, n = st.copy(), st
        n.assume(S.Qp(lambda p: Implies(s.lv(p) != 0, ULE(s.K(p), k)), 'no-greater-key'))
        x, sz = fresh('page', BV(PW)), fresh('lev', BV(PW)); kk = keyof(x, sz); nd = S.fnode(f); c = s.cnt(f.mem)
        f.assume(f.mem.rd(nd) == kk, f.mem.rd(nd + 8) == S.low + (x64(x) << 12), blockin(x, sz, S.R), UGT(kk, k), s.lv(x) == sz + 1, S.Qp(lambda p: Implies(inb(p, x, sz), s.lv(p) == sz + 1)), S.Qp(lambda p: Implies(And(s.lv(p) != 0, UGT(s.K(p), k)), UGE(s.K(p), kk)), 'least-greater'), ULT(c, s.lo))
        f.pool('pg', x); f.pool('ord', c); S.fill(f, s.POS, lambda p: p == x, lambda p: c); f.mem = f.mem.store(None, 0, z3.Concat(C(S.tag(s.ORD), 25), c), kk); S.setg(f, cnt=x64(c + 1), last=kk)
        return [(f, nd), (n, C(0))]
    def Qo(s, f, n=1): return Q(['ord'] * n, f, sorts=[BV(PW)] * n)
    def facts(s, m, arr):
        S = s.S; c = s.cnt(m); last = S.g(m, 'last'); o = lambda j: s.order(m, j); out = []
        kx, ks = (lambda k: z3.Extract(39, 4, k)), (lambda k: z3.ZeroExt(28, z3.Extract(63, 56, k)))
        out.append(('in-ascending-order-without-repetition', s.Qo(lambda i, j: Implies(And(ULT(i, j), ULT(j, c)), ULT(o(i), o(j))), 2)))
        out.append(('listed-blocks-are-in-the-tree', s.Qo(lambda j: Implies(ULT(j, c), And(ULE(o(j), last), o(j) == keyof(kx(o(j)), ks(o(j))), s.lv(kx(o(j))) == ks(o(j)) + 1, base(kx(o(j)), ks(o(j))) == kx(o(j)), *([m.rd(arr[0] + (x64(j) << 3)) == S.low + (x64(kx(o(j))) << 12), m.rd(arr[1] + (x64(j) << 3)) == C(4096) << x64(ks(o(j)))] if arr else []))))))
        def at(p): b = base(p, s.lv(p) - 1); return Implies(And(s.lv(p) != 0, ULE(s.K(p), last)), And(ULT(s.pos(m, b), c), o(s.pos(m, b)) == s.K(p)))
        out.append(('every-block-is-listed', Q(['pg'], at, sorts=[BV(PW)], hints=lambda p: [('pg', base(p, s.lv(p) - 1)), ('ord', s.pos(m, base(p, s.lv(p) - 1)))])))
        return out
class LWalk:
    def __init__(s, W, arr): s.W, s.arr = W, arr
    def pools(s, L, hs, cur): c = s.W.cnt(hs.mem); hs.pool('ord', c, c - 1); hs.pool('pg', z3.Extract(39, 4, s.W.order(hs.mem, c - 1)))
    def cands(s, L):
        W = s.W; S = W.S
        yield 'count in range', lambda v, st: And(ULE(W.cnt(st.mem), W.lo), S.g(st.mem, 'cnt') == x64(W.cnt(st.mem)), (S.g(st.mem, 'cnt') == 0) == (S.g(st.mem, 'last') == 0))
        for i in L.ints:
            if L.cur[i].size() == 32: yield '%s counts' % i, lambda v, st, i=i: And(v[i] == z3.Extract(31, 0, S.g(st.mem, 'cnt')))
            if L.cur[i].size() == 64: yield '%s is the last key' % i, lambda v, st, i=i: v[i] == S.g(st.mem, 'last')
        for k in range(3): yield 'walk %d' % k, lambda v, st, k=k: W.facts(st.mem, s.arr)[k][1]
        if W.withdone: yield 'done', lambda v, st: W.handled(st.mem)
    def measures(s, L):
        for i in L.ints:
            if L.cur[i].size() == 64: yield i, lambda v, st, i=i: ~v[i]
def lists(fn, t):
    @unit('list-' + TREES[t], weight=3)
    def u(ctx):
        W = Walk(ctx, t, True); S, e, st = W.S, W.e, W.st; n = x64(W.lo) << 3; A, Z = ptr(st, 'addresses', n, 8), ptr(st, 'sizes', n, 8); cp = ptr(st, 'count', 4, 4)
        st.assume(disjoint(A, n, Z, n), *[disjoint(a, k, cp, 4) for a, k in ((A, n), (Z, n))], *[And(ULE(a, C(1 << 47)), disjoint(a, k, S.low, C(1 << 20)), Or(UGE(a, C(0x0600_0000_0000)), ULE(a + k, C(0x0500_0000_0000)))) for a, k in ((A, n), (Z, n), (cp, C(4)))], A & 7 == 0, Z & 7 == 0)
        ix = lambda i: z3.Concat(i, C(0, 3)); e.may_write = lambda st, a, k: Or(within(a, k, A, n), within(a, k, Z, n), within(a, k, cp, 4)); e.write_idx = lambda st, i: Or(And(ULE(A, ix(i)), ULT(ix(i), A + n)), And(ULE(Z, ix(i)), ULT(ix(i), Z + n)))
        e.loopspec = LWalk(W, (A, Z))
        for s, r in ctx.run(e, st, '@' + fn, [A, Z, cp]):
            m2 = s.mem; c = W.cnt(m2); e.oblige(s, 'lock-released', z3.BoolVal(not s.g['lock'] and s.g['locks'] == 1)); e.oblige(s, 'count-of-the-blocks', z3.ZeroExt(4, e.rawload(s, m2, cp, 0, 4)) == c)
            for nm, f in W.facts(m2, (A, Z)): e.oblige(s, nm, f, assume=False)
            e.oblige(s, 'no-block-is-left-out', S.Qp(lambda p, m2=m2: Implies(W.lv(p) != 0, ULE(W.K(p), S.g(m2, 'last')))), assume=False)
for fn, t in (('SASListFreeRegion', REG), ('SASListAllocatedRegion', ALL), ('SASListInUseMem', USED), ('SASListUncommittedMem', UNC), ('SASListFreeMem', FREE)): lists(fn, t)
def segs(fn, op):
    @unit(fn, weight=3)
    def u(ctx):
        W = Walk(ctx, ALL, False, True); S, e, st = W.S, W.e, W.st; m = W.m; st.assume(W.lv(P(0)) == SEG + 1); st.pool('pg', P(0)); e.write_idx = lambda st, i: z3.BoolVal(False)
        W.handled = lambda m1: S.Qp(lambda p: Implies(W.lv(p) != 0, W.done(m1, base(p, W.lv(p) - 1)) == If(And(ULE(W.K(p), S.g(m1, 'last')), base(p, P(SEG)) != 0), P(1), P(0))))
        def h(e, st, a, ins):
            x = pg(a[0] - S.low); st.pool('pg', x); k = S.g(st.mem, 'last'); e.oblige(st, 'handles-the-segment-just-found-once', And(a[0] == S.low + (x64(x) << 12), k == keyof(x, P(SEG)), x != 0, a[1] == C(S.seg), W.done(st.mem, x) == 0)); S.fill(st, Walk.DONE, lambda p: p == x, lambda p: P(1)); return [(st, sym('rc', 32))]
        for nm in (op,) + ('@_Z%d%sPvm' % (len(op) - 1, op[1:]),): e.contracts[nm] = h
        e.contracts['@__errno_location'] = lambda e, st, a, ins: [(st, ptr(st, 'errno', 4))]; e.contracts['@strerror'] = lambda e, st, a, ins: [(st, sym('msg'))]
        e.loopspec = LWalk(W, None); st.assume(ULE(W.lo, P(1 << 20)))
        for s, r in ctx.run(e, st, '@' + fn, []):
            e.oblige(s, 'every-segment-but-the-anchor-is-handled-exactly-once', S.Qp(lambda p, m2=s.mem: Implies(W.lv(p) != 0, (W.done(m2, base(p, P(SEG))) == 1) == (base(p, P(SEG)) != 0))), assume=False)
for fn, op in (('SASAttachAllocatedSegs', '@SASAttachSegByAddr'), ('SASDetachAllocatedSegs', '@SASDetachSegByAddr'), ('SASRemoveAllocatedSegs', '@SASRemoveSegByAddr')): segs(fn, op)

@unit('attach-faulting-segment', weight=2)
def u_attach(ctx):
    W = Walk(ctx, ALL, False, True); S, e, st = W.S, W.e, W.st; m = W.m; e.write_idx = lambda st, i: z3.BoolVal(False); a = z3.Concat(C(0, 17), sym('page', 35), sym('inpage', 12)); st.assume(ULE(S.low, a)); x = pg(a - S.low); X = base(x, P(SEG)); st.pool('pg', x, X); st.assume(S.low & C(S.seg - 1) == 0)
    W.handled = lambda m1: S.Qp(lambda p: And(W.done(m1, p) == 0, Implies(W.lv(X) != 0, ULT(S.g(m1, 'last'), W.K(X))))); st.assume(ULT(x, S.R))
    def h(e, st, args, ins):
        e.oblige(st, 'attaches-the-segment-of-the-address', And(args[0] == S.low + (x64(X) << 12), args[1] == C(S.seg), W.lv(X) == SEG + 1, W.done(st.mem, X) == 0)); S.fill(st, Walk.DONE, lambda p: p == X, lambda p: P(1)); return [(st, sym('rc', 32))]
    for nm in ('@SASAttachSegByAddr', '@_Z18SASAttachSegByAddrPvm'): e.contracts[nm] = h
    e.loopspec = LWalk(W, None); st.assume(ULE(W.lo, P(1 << 20)))
    for s, r in ctx.run(e, st, '@SASAttachAllocatedAddr', [a]): e.oblige(s, 'allocated-segments-are-attached-exactly-once', (W.done(s.mem, X) == 1) == (W.lv(X) != 0))
@unit('region-init', weight=3)
def u_init(ctx):
    S = Region(ctx); e, st = S.e, State(); st.mem = S.m; st.al = dict(S.st.al); b = C(gconst(e, 'vc_base'))
    S.low = b; S.R = P(gconst(e, 'vc_reg') >> 12); S.h0, S.h1 = b + 4096, b + (1 << 20); S.rp = [simp(b + C(S.A.off('anchors.' + t))) for t in TREES]; H = Rec(e, 'SASBlockHeader')
    st.g['lock'] = True
    for t in range(5): S.fill(st, t, lambda p: z3.BoolVal(True), lambda p: P(0))
    hi = C(gconst(e, 'vc_reg'))
    e.may_write = lambda st, a, k: within(a, k, b, C(1 << 20))
    def new(e, st, a, ins):
        st.g['n'] = st.g.get('n', 0) + 1; nd = simp(b + C(8192 + 64 * st.g['n'])); e.oblige(st, 'node-storage-in-the-anchor-block', And(a[0] == 32, UGE(a[1], b), ULT(a[1], b + C(1 << 20)))); return [(st, nd)]
    def root(st, t, x, l):
        nd = st.mem.rd(S.rp[t]); ok = And(nd != 0, st.mem.rd(nd) == keyof(P(x), P(l)), st.mem.rd(nd + 8) == b + C(x << 12), st.mem.rd(nd + 16) == 0, st.mem.rd(nd + 24) == 0)
        e.oblige(st, 'first-node-of-' + TREES[t], ok); S.fill(st, t, lambda p: inb(p, P(x), P(l)), lambda p: P(l + 1))
    def al(e, st, a, ins):
        t = S.tree(a[0]); 
        if t == UNC: root(st, UNC, 0, SEG)
        if t == REG: root(st, REG, 0, S.log(hi).as_long() if z3.is_bv_value(S.log(hi)) else num(simp(S.log(hi))))
        st.g['ev'] = st.g.get('ev', []) + [('alloc', t, num(a[1]))]; rs = S.k_alloc(e, st, a, ins)
        return rs
    e.contracts['@_ZL7p2AllocPP13uLongTreeNodem'] = al; e.contracts['@_ZN13uLongTreeNodenwEmPS_'] = new
    def ib(e, st, a, ins):
        e.oblige(st, 'anchor-block-header', And(a[0] == b, a[1] == C(gconst(e, 'vc_anchor'), 32) if a[1].size() == 32 else a[1] == C(gconst(e, 'vc_anchor')), a[2] == C(gconst(e, 'vc_m1')), a[3] == b + 4096)); return [(st, C(0))]
    for nm in list(e.fns) + [c for m in e.modules for c in getattr(m, 'decls', [])]:
        if 'initSOMSASBlock' in nm: e.contracts[nm] = ib
    e.contracts['@initSOMSASBlock'] = ib
    sem = []
    def si(e, st, a, ins): sem.append(1); e.oblige(st, 'semaphore-shared-and-free', And(a[0] == b + C(S.A.off('anchors.SASSem')), a[1] != 0, a[2] == 1)); return [(st, C(0, 32))]
    e.contracts['@sem_init'] = si; e.contracts['@strerror'] = lambda e, st, a, ins: [(st, sym('msg'))]; e.contracts['@__errno_location'] = lambda e, st, a, ins: [(st, ptr(st, 'errno', 4))]
    for s, r in ctx.run(e, st, '@_ZL10initRegionv', []):
        m2 = s.mem; e.oblige(s, 'region-bounds', And(m2.rd(S.gl) == b, m2.rd(C(e.gaddr(e.modules[0], '@memHigh'))) == b + hi))
        e.oblige(s, 'new-region-is-consistent', S.inv(m2), assume=False)
        e.oblige(s, 'only-the-anchor-block-is-used-only-its-segment-allocated', S.Qp(lambda p, m2=m2: And(S.on(m2, USED, p) == ULT(p, P(256)), S.on(m2, ALL, p) == ULT(p, P(1 << SEG)))), assume=False)
        e.oblige(s, 'semaphore-initialised-once', z3.BoolVal(len(sem) >= 1))
INFO = dict(assumptions=['the search tree operations through their contracts (P01)',
    'the bookkeeping heap of the anchor block has room for the nodes of the region trees (its refusal is not modelled)',
    'block sizes of 512 bytes and up are powers of two, as documented',
    'the arrays given to the list calls are large enough for the blocks listed',
    'mmap, munmap, file creation and semaphore calls through their contracts',
    'two blocks in one tree have different keys because the level map gives every page one level (obligations wf_kept)'])
