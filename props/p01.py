"""The allocator's search trees (uLongTreeNode): searches, insertion, removal, totals."""
import itertools
from tree import *
SOURCES = [(W_, TEXT)]
M_ = '@_ZN13uLongTreeNode'
class T:
    def __init__(s, ctx, pairs=False):
        s.e = e = ctx.engine([W_]); e.lia = 500; s.st = st = State(); s.rp = ptr(st, 'rootp', 8, 8); s.t = t = Tree(st, s.rp); s.m = m = st.mem; s.N = t.N
        st.assume((s.rp & 7) == 0)
        for n, f in t.wf(m, ykind=None if pairs else 'any'):
            if pairs or n not in ('nodes-disjoint-and-keys-unique',): st.assume(f)
        s.root = m.rd(s.rp); st.pool('node', s.root); s.k = sym('k'); s.y = sym('anynode'); st.pool('any', s.y); st.assume(s.N(s.y)); st.pool('node', s.y)
        e.access_pool = (); e.on_access = s.acc; e.may_write = lambda st, a, n: z3.BoolVal(False); e.write_idx = lambda st, i: z3.BoolVal(False)
    def acc(s, e, st, kind, addr, size, vol): pass
    def Ns(s, *ks): return [s.m.rd(x) for x in ks]
class Search:
    """loop invariants of the searches; want(q): q is the result for the whole tree so far"""
    def __init__(s, T, done, dirn, link): s.T, s.done, s.dirn, s.link = T, done, dirn, link
    def pools(s, L, hs, cur):
        t = s.T.t; m = s.T.m
        for n in L.ptrs:
            x = cur[n]; hs.pool('node', x, x - 16, x - 24, m.rd(x), m.rd(x + 16), m.rd(x + 24))
            if s.link: hs.pool('node', m.rd(m.rd(x) + 16), m.rd(m.rd(x) + 24))
    def cands(s, L):
        T, t, m, k = s.T, s.T.t, s.T.m, s.T.k; up = s.dirn >= 0
        val = (lambda v: m.rd(v)) if s.link else (lambda v: v)
        for i in L.ints:
            yield ('%s boolean' % i, lambda v, st, i=i: ULE(v[i], 1))
        for p in L.ptrs:
            if s.link:
                yield ('%s is a link' % p, lambda v, st, p=p: And(v[p] != 0, t.link(v[p]), Or(v[p] == t.rp, ULT(v[p], C(1 << 47)))))
                yield ('%s is a link or null' % p, lambda v, st, p=p: Or(v[p] == 0, And(t.link(v[p]), Or(v[p] == t.rp, ULT(v[p], C(1 << 47))))))
                yield ('%s null or the link of a node' % p, lambda v, st, p=p: Implies(v[p] != 0, And(m.rd(v[p]) != 0, T.N(m.rd(v[p])))))
            X = (lambda v, p=p: val(v[p])); ok = (lambda v, p=p: And(v[p] != 0, val(v[p]) != 0)) if s.link else (lambda v, p=p: v[p] != 0)
            nn = lambda v, p=p: And(v[p] != 0, val(v[p]) != 0) if s.link else v[p] != 0
            yield ('%s null or node' % p, lambda v, st, nn=nn, X=X: Implies(nn(v), T.N(X(v))))
            yield ('%s covers k' % p, lambda v, st, nn=nn, X=X: Implies(nn(v), And(ULE(t.lo(X(v)), k), UGE(t.hi(X(v)), k))))
            if up: yield ('%s covers k+1' % p, lambda v, st, nn=nn, X=X: Implies(nn(v), And(Or(ULE(t.lo(X(v)), k), t.lo(X(v)) == k + 1), UGE(t.hi(X(v)), k))))
            if not up: yield ('%s covers k-1' % p, lambda v, st, nn=nn, X=X: Implies(nn(v), And(ULE(t.lo(X(v)), k), Or(UGE(t.hi(X(v)), k), t.hi(X(v)) == k - 1))))
            yield ('%s null: key absent' % p, lambda v, st, nn=nn: Implies(Not(nn(v)), t.key(T.y) != k))
            for q in L.ptrs:
                if p == q: continue
                nq = (lambda v, q=q: And(v[q] != 0, val(v[q]) != 0)) if s.link else (lambda v, q=q: v[q] != 0)
                Y = lambda v, q=q: val(v[q])
                if up: yield ('%s found/next of %s' % (q, p), lambda v, st, nn=nn, X=X, nq=nq, Y=Y: Implies(nn(v), Or(And(nq(v), Y(v) == X(v), UGT(t.key(X(v)), k)), And(Not(nq(v)), t.hi(X(v)) == MAX), And(nq(v), T.N(Y(v)), UGT(t.key(Y(v)), k), t.hi(X(v)) == t.key(Y(v)) - 1))))
                if not up: yield ('%s found/prev of %s' % (q, p), lambda v, st, nn=nn, X=X, nq=nq, Y=Y: Implies(nn(v), Or(And(nq(v), Y(v) == X(v), ULT(t.key(X(v)), k)), And(Not(nq(v)), t.lo(X(v)) == 0), And(nq(v), T.N(Y(v)), ULT(t.key(Y(v)), k), t.lo(X(v)) == t.key(Y(v)) + 1))))
                yield ('%s null: %s is the result' % (p, q), lambda v, st, nn=nn, q=q: Implies(Not(nn(v)), s.done(v[q])))
                for i in L.ints: yield ('%s and %s: %s is the result' % (p, i, q), lambda v, st, nn=nn, q=q, i=i: Implies(Or(Not(nn(v)), v[i] != 0), s.done(v[q])))
                if s.link:
                    yield ('%s same or link of node' % q, lambda v, st, p=p, q=q: Implies(v[q] != 0, Or(v[q] == v[p], val(v[q]) != 0)))
    def measures(s, L):
        t = s.T.t; m = s.T.m
        for p in L.ptrs:
            x = (lambda v, p=p: m.rd(v[p])) if s.link else (lambda v, p=p: v[p])
            yield ('interval ' + p, lambda v, st, x=x: If(x(v) == 0, C(0, 65), 1 + z3.ZeroExt(1, t.hi(x(v)) - t.lo(x(v)))))
            for q in L.ptrs:
                if q != p and s.link: pass
def find(ctx, fn, link, spec, names):
    F = T(ctx); t, m, k, y = F.t, F.m, F.k, F.y; e, st = F.e, F.st
    val = (lambda r: m.rd(r)) if link else (lambda r: r)
    nul = (lambda r: r == 0) 
    S = dict(exact=lambda r: Implies(t.key(y) == k, And(r != 0, val(r) == y)),
        next=lambda r: And(Implies(UGT(t.key(y), k), And(r != 0, val(r) != 0, ULE(t.key(val(r)), t.key(y)))), Implies(r != 0, And(val(r) != 0, UGT(t.key(val(r)), k)))),
        eqnext=lambda r: And(Implies(UGE(t.key(y), k), And(r != 0, val(r) != 0, ULE(t.key(val(r)), t.key(y)))), Implies(r != 0, And(val(r) != 0, UGE(t.key(val(r)), k)))),
        prev=lambda r: And(Implies(ULT(t.key(y), k), And(r != 0, val(r) != 0, UGE(t.key(val(r)), t.key(y)))), Implies(r != 0, And(val(r) != 0, ULT(t.key(val(r)), k)))))
    want = S[spec]; e.eager = True; e.loopspec = Search(F, want, -1 if spec == 'prev' else 1, link)
    for s, r in ctx.run(e, st, fn, [sym('this'), F.rp if link else F.root, k]):
        s.pool('node', val(r))
        if link: e.oblige(s, 'result-is-a-link-of-the-tree', Implies(r != 0, And(t.link(r), val(r) != 0, F.N(val(r)))), extra=[('node', r - 16), ('node', r - 24)])
        else: e.oblige(s, 'result-is-a-node-of-the-tree', Implies(r != 0, F.N(r)))
        e.oblige(s, names, want(r))
FINDS = [('search-exact', '10searchNodeEPS_m', 0, 'exact', 'finds-the-node-with-the-key'), ('search-exact-link', '10searchNodeEPPS_m', 1, 'exact', 'finds-the-link-of-the-node-with-the-key'),
    ('search-next', '14searchNextNodeEPS_m', 0, 'next', 'finds-the-least-key-above'), ('search-eqnext', '21searchEqualOrNextNodeEPS_m', 0, 'eqnext', 'finds-the-least-key-not-below'),
    ('search-eqnext-link', '21searchEqualOrNextNodeEPPS_m', 1, 'eqnext', 'finds-the-link-of-the-least-key-not-below'), ('search-prev', '14searchPrevNodeEPS_m', 0, 'prev', 'finds-the-greatest-key-below')]
for u, f, l, sp, nm in FINDS: unit(u, weight=5)(lambda ctx, f=f, l=l, sp=sp, nm=nm: find(ctx, M_ + f, l, sp, nm))

# ---------------- insertion and removal ----------------
def has_key(F, k):
    """case split: y is the node with this key, or no node has it"""
    t, st = F.t, F.st; has = z3.FreshConst(z3.BoolSort(), 'present')
    w = sym('present_node'); st.pool('node', w)
    st.assume(Implies(has, And(F.N(w), t.key(w) == k)), Q(['node'], lambda x: Implies(And(Not(has), F.N(x)), t.key(x) != k), name='absent'))
    return has
class Down:
    def __init__(s, T, below=None): s.T, s.below = T, below
    def pools(s, L, hs, cur):
        m = s.T.m
        for n in L.ptrs:
            x = cur[n]; hs.pool('node', x, m.rd(x + 16), m.rd(x + 24))
    def cands(s, L):
        T, t, k = s.T, s.T.t, s.T.k
        for p in L.ptrs:
            yield ('%s node' % p, lambda v, st, p=p: T.N(v[p]))
            yield ('%s null or node' % p, lambda v, st, p=p: Or(v[p] == 0, T.N(v[p])))
            if s.below is None: yield ('%s covers k' % p, lambda v, st, p=p: Implies(v[p] != 0, And(ULE(t.lo(v[p]), k), UGE(t.hi(v[p]), k))))
            else:
                b = s.below
                yield ('%s on the left edge of the right subtree' % p, lambda v, st, p=p: And(t.lo(v[p]) == t.key(b) + 1, ULE(t.hi(v[p]), t.hi(b)), T.N(v[p])))
                yield ('%s null or on the left edge' % p, lambda v, st, p=p: Implies(v[p] != 0, And(t.lo(v[p]) == t.key(b) + 1, ULE(t.hi(v[p]), t.hi(b)), T.N(v[p]))))
                for q in L.ptrs:
                    if q != p: yield ('%s is left of %s' % (p, q), lambda v, st, p=p, q=q: And(v[q] != 0, s.T.m.rd(v[q] + 16) == v[p]))
    def measures(s, L):
        t = s.T.t
        for p in L.ptrs: yield ('interval ' + p, lambda v, st, p=p: If(v[p] == 0, C(0, 65), 1 + z3.ZeroExt(1, t.hi(v[p]) - t.lo(v[p]))))
def empty_link(F, st, a, n): return And(n == 8, F.t.link(a), F.m.rd(a) == 0)
def note(e, st, addr, val, size, vol):
    if size == 8: st.g['stores'] = st.g.get('stores', []) + [(addr, val)]
def shape(F, s, name, N2, root, left, right, extra):
    """the tree now consists of exactly these links; keys and values are the old ones (the lemmas turn this into a well-formed tree)"""
    e, m, m2 = F.e, F.m, s.mem; hints = lambda x: [('node', left(x)), ('node', right(x))]
    e.oblige(s, name + 'root', m2.rd(F.rp) == root, extra=extra, assume=False)
    for nm, o, f in (('left', 16, left), ('right', 24, right)):
        e.oblige(s, name + nm + '-links', Q(['node'], lambda x, o=o, f=f: Implies(And(F.N(x), N2(x)), m2.rd(x + o) == f(x))), extra=extra, assume=False)
    e.oblige(s, name + 'keys-and-values', Q(['node'], lambda x: Implies(And(F.N(x), N2(x)), And(m2.rd(x) == m.rd(x), m2.rd(x + 8) == m.rd(x + 8)))), extra=extra, assume=False)
def inserted(F, s, n, r, has, k, info=None):
    e, t, m = F.e, F.t, F.m
    ws = [(a, v) for a, v in s.g.get('stores', []) if not z3.is_bv_value(simp(a - n))]
    e.oblige(s, 'inserts-exactly-when-the-key-is-new', r == If(has, C(0), n))
    if ws:
        a = ws[-1][0]; ex = [('node', n), ('node', a - 16), ('node', a - 24)]
        e.oblige(s, 'attached-once-at-an-empty-link', And(z3.BoolVal(len(ws) == 1), ws[-1][1] == n, t.link(a), m.rd(a) == 0, Not(has)), extra=ex)
        e.oblige(s, 'attached-at-the-link-responsible-for-the-key', And(t.gap(a), ULE(t.llo(a), k), ULE(k, t.lhi(a))), extra=ex)
        shape(F, s, 'only-that-link-changes-', lambda x: z3.BoolVal(True), If(a == F.rp, n, F.root), lambda x: If(a == x + 16, n, m.rd(x + 16)), lambda x: If(a == x + 24, n, m.rd(x + 24)), ex)
        e.oblige(s, 'inserted-node-is-a-leaf-and-keeps-key-and-value', And(s.mem.rd(n) == k, s.mem.rd(n + 16) == 0, s.mem.rd(n + 24) == 0, z3.BoolVal(True) if info is None else s.mem.rd(n + 8) == info), extra=ex)
    else:
        shape(F, s, 'refused-unchanged-', lambda x: z3.BoolVal(True), F.root, lambda x: m.rd(x + 16), lambda x: m.rd(x + 24), [])
        e.oblige(s, 'tree-unchanged-only-when-refused', And(r == 0, has))
def new_node(F, st, nm):
    n = ptr(st, nm, 32, 16); N = F.N
    st.assume(Not(N(n)), UGE(n, C(65536)), ULE(n, C(1 << 46)), disjoint(n, 32, F.rp, 8), Q(['node'], lambda x: Implies(N(x), Or(ULE(n + 32, x), ULE(x + 32, n))), name='new-node-apart')); st.pool('node', n)
    return n

@unit('insert-node', weight=6)
def u_ins(ctx):
    F = T(ctx, True); e, st, m, t = F.e, F.st, F.m, F.t; n = new_node(F, st, 'n'); k = F.k; st.assume(m.rd(n) == k, m.rd(n + 16) == 0, m.rd(n + 24) == 0)
    has = has_key(F, k); e.loopspec = Down(F); e.on_store = note; e.eager = True
    e.may_write = lambda st, a, sz: empty_link(F, st, a, sz); e.write_idx = lambda st, i: z3.BoolVal(False)
    for s, r in ctx.run(e, st, M_ + '10insertNodeEPPS_S0_', [sym('this'), F.rp, n]):
        inserted(F, s, n, r, has, k)

@unit('insert-key', weight=6)
def u_insk(ctx):
    F = T(ctx, True); e, st, m, t = F.e, F.st, F.m, F.t; k = F.k; i = sym('info'); n = new_node(F, st, 'n')
    has = has_key(F, k); e.loopspec = Down(F); e.on_store = note; e.eager = True
    e.may_write = lambda st, a, sz: Or(within(a, sz, n, C(32)), empty_link(F, st, a, sz)); e.write_idx = lambda st, i: z3.BoolVal(False)
    ok = z3.FreshConst(z3.BoolSort(), 'space')
    def alloc(e, st, args, ins):
        e.oblige(st, 'storage-near-the-tree-one-node', And(args[0] == F.rp, args[1] == 32)); st.g['allocs'] = st.g.get('allocs', 0) + 1
        a, b = st, st.copy(); a.assume(ok); b.assume(Not(ok)); return [(a, n), (b, C(0))]
    def dealloc(e, st, args, ins):
        e.oblige(st, 'gives-back-the-unused-node', And(args[0] == n, args[1] == 32, ok)); st.g['frees'] = st.g.get('frees', 0) + 1; return [(st, C(0))]
    e.contracts['@SASNearAlloc'] = alloc; e.contracts['@SASNearDealloc'] = dealloc; dealloc.pure = True
    for s, r in ctx.run(e, st, M_ + '10insertNodeEPPS_mm', [sym('this'), F.rp, k, i]):
        e.oblige(s, 'no-node-without-storage', Implies(Not(ok), And(r == 0, z3.BoolVal(not s.g.get('frees')))))
        s.assume(ok)
        e.oblige(s, 'one-node-allocated-and-freed-exactly-when-unused', And(z3.BoolVal(s.g.get('allocs', 0) == 1), has == z3.BoolVal(s.g.get('frees', 0) == 1), z3.BoolVal(s.g.get('frees', 0) <= 1)))
        inserted(F, s, n, r, has, k, i)

def removal(ctx, fn, dele):
    F = T(ctx, True); e, st, m, t = F.e, F.st, F.m, F.t; pp = sym('pp'); st.pool('node', pp - 16, pp - 24)
    st.assume(t.link(pp), Or(pp == F.rp, And(UGE(pp, C(65536)), ULE(pp, C(1 << 47))))); p = m.rd(pp); st.pool('node', p, m.rd(p + 16), m.rd(p + 24))
    e.loopspec = Down(F, p); e.on_store = note; e.eager = True; e.write_idx = lambda st, i: z3.BoolVal(False)
    l, r_ = m.rd(p + 16), m.rd(p + 24)
    def fr(st, a, n):
        st.pool('node', a - 16, a - 24)
        return And(n == 8, p != 0, Or(a == pp, And(l != 0, r_ != 0, F.N(a - 16), m.rd(a) == 0)))
    e.may_write = fr
    def dealloc(e, st, args, ins):
        e.oblige(st, 'gives-back-exactly-the-removed-node', And(args[0] == p, p != 0, args[1] == 32)); st.g['frees'] = st.g.get('frees', 0) + 1
        lo = z3.Extract(63, 3, p); st.mem = st.mem.havoc(lambda i: And(UGE(i, lo), ULT(i, lo + 4)), 'freed'); return [(st, C(0))]
    e.contracts['@SASNearDealloc'] = dealloc
    for s, r in ctx.run(e, st, fn, [sym('this'), pp]):
        if dele: e.oblige(s, 'freed-exactly-once', (p != 0) == z3.BoolVal(s.g.get('frees', 0) == 1)); e.oblige(s, 'freed-at-most-once', z3.BoolVal(s.g.get('frees', 0) <= 1))
        else: e.oblige(s, 'returns-the-removed-node', r == p)
        q = None
        for a, v in s.g.get('stores', []):
            if not z3.is_true(simp(a == pp)): q = a - 16
        both = And(p != 0, l != 0, r_ != 0)
        ex = [('node', q)] if q is not None else []
        if q is not None: e.oblige(s, 'left-subtree-goes-below-the-next-key', Implies(both, And(F.N(q), m.rd(q + 16) == 0, t.lo(q) == t.key(p) + 1, ULE(t.hi(q), t.hi(p)))), extra=ex)
        else: e.oblige(s, 'left-subtree-is-not-lost', Not(both))
        new = lambda a, old, q=q, both=both: If(And(p != 0, a == pp), If(r_ == 0, l, r_), If(And(both, a == q + 16), l, old) if q is not None else old)
        shape(F, s, '', lambda x: x != p, new(F.rp, F.root), lambda x, new=new: new(x + 16, m.rd(x + 16)), lambda x, new=new: new(x + 24, m.rd(x + 24)), ex)
unit('remove-node', weight=8)(lambda ctx: removal(ctx, M_ + '10removeNodeEPPS_', False))
unit('delete-node', weight=8)(lambda ctx: removal(ctx, M_ + '10deleteNodeEPPS_', True))

# ---------------- lemmas: such links are a search tree again ----------------
class Abs:
    def __init__(s, ctx):
        s.e = e = ctx.engine([W_]); e.lia = 30; s.st = st = State(); b = BV(64); ctx.lemmas.append('lemma')
        s.N = mk('node', b, B_); s.key, s.L, s.R, s.lo, s.hi, s.par = [mk(n, b, b) for n in ('key', 'left', 'right', 'lo', 'hi', 'parent')]; s.rt = sym('root'); e.cur = 'lemma'
        for n, f in s.wf(s.key, s.L, s.R, s.rt, s.N, s.lo, s.hi, s.par): st.assume(f)
        st.pool('node', s.rt)
    def wf(s, *a): return [x for x in bst(*a, hints=lambda x: (s.L(x), s.R(x))) if x[0] != 'nodes-disjoint-and-keys-unique']
    def node(s, x):
        s.st.assume(s.N(x)); s.st.pool('node', x, s.L(x), s.R(x))
    def goal(s, *a, cases=None, pick=None):
        for n, f in s.wf(*a):
            if cases and isinstance(f, Q) and n != 'empty-tree-has-no-node':
                def split(*xs, b=f.body):
                    r = []
                    for cs in itertools.product([cases(xs[0])[pick]], *[cases(x) for x in xs[1:]]): r.append(Implies(And(*cs), b(*xs)))
                    return And(*r, *[Implies(s.N(x), Or(*cases(x))) for x in xs])
                f = Q(f.kinds, split, hints=f.hints, name=f.name)
            elif pick: continue
            s.e.oblige(s.st, n, f, assume=False)
def lemma_insert(ctx, side):
    A = Abs(ctx); st = A.st; n, at, k = sym('n'), sym('at'), sym('k'); st.pool('node', n); st.assume(n != 0, Not(A.N(n)))
    if side == 'root': st.assume(A.rt == 0); lo, hi = C(0), MAX
    else:
        A.node(at); d = side == 'left'; st.assume((A.L if d else A.R)(at) == 0, ULT(A.lo(at), A.key(at)) if d else ULT(A.key(at), A.hi(at)))
        lo, hi = (A.lo(at), A.key(at) - 1) if d else (A.key(at) + 1, A.hi(at))
    st.assume(ULE(lo, k), ULE(k, hi))
    f = lambda f, v: lambda x: If(x == n, v, f(x))
    L2 = lambda x: If(x == n, C(0), If(And(z3.BoolVal(side == 'left'), x == at), n, A.L(x))); R2 = lambda x: If(x == n, C(0), If(And(z3.BoolVal(side == 'right'), x == at), n, A.R(x)))
    A.goal(f(A.key, k), L2, R2, n if side == 'root' else A.rt, lambda x: Or(A.N(x), x == n), f(A.lo, lo), f(A.hi, hi), f(A.par, at))
for sd in ('root', 'left', 'right'): unit('lemma-insert-' + sd, weight=3)(lambda ctx, sd=sd: lemma_insert(ctx, sd))
def lemma_remove(ctx, side, case, pick=None):
    A = Abs(ctx); st = A.st; p, u, q = sym('p'), sym('u'), sym('q'); A.node(p); l, r = A.L(p), A.R(p)
    v = l if case == 'no-right' else r
    if side == 'root': st.assume(A.rt == p)
    else: A.node(u); st.assume((A.L if side == 'left' else A.R)(u) == p)
    if case == 'no-right': st.assume(r == 0)
    elif case == 'no-left': st.assume(l == 0, r != 0)
    else: st.assume(l != 0, r != 0, A.N(q), A.L(q) == 0, A.lo(q) == A.key(p) + 1, ULE(A.hi(q), A.hi(p))); A.node(q)
    both = case == 'both'; H = A.key(q) - 1 if both else A.hi(p)
    L2 = lambda x: If(And(z3.BoolVal(side == 'left'), x == u), v, If(And(z3.BoolVal(both), x == q), l, A.L(x))); R2 = lambda x: If(And(z3.BoolVal(side == 'right'), x == u), v, A.R(x))
    lo2 = lambda x: If(And(r != 0, A.lo(x) == A.key(p) + 1), A.lo(p), A.lo(x)); hi2 = lambda x: If(And(l != 0, A.hi(x) == A.key(p) - 1), H, A.hi(x))
    par2 = lambda x: If(And(x == l, l != 0), q if both else u, If(And(x == r, r != 0), u, A.par(x)))
    A.goal(A.key, L2, R2, v if side == 'root' else A.rt, lambda x: And(A.N(x), x != p), lo2, hi2, par2, cases=(lambda x: [x == p, And(x != p, ULE(A.lo(p), A.lo(x)), ULT(A.hi(x), A.key(p))), And(x != p, ULT(A.key(p), A.lo(x)), ULE(A.hi(x), A.hi(p))), And(x != p, ULE(A.lo(x), A.lo(p)), ULE(A.hi(p), A.hi(x))), And(x != p, Or(ULT(A.hi(x), A.lo(p)), ULT(A.hi(p), A.lo(x))))]) if case == 'both' else None, pick=pick)
for sd in ('root', 'left', 'right'):
    for cs in ('no-right', 'no-left'): unit('lemma-remove-%s-%s' % (sd, cs), weight=4)(lambda ctx, sd=sd, cs=cs: lemma_remove(ctx, sd, cs))
    for i in range(5): unit('lemma-remove-%s-both-%d' % (sd, i), weight=7)(lambda ctx, sd=sd, i=i: lemma_remove(ctx, sd, 'both', i))

# ---------------- totals ----------------
def totals(ctx, fn, outer, depth, goal):
    F = T(ctx); e, st, m, t = F.e, F.st, F.m, F.t; g = mk('size', BV(64), BV(32)); lb = sym('sub'); st.pool('node', lb); st.assume(F.N(lb)); st.pool('node', m.rd(lb + 16), m.rd(lb + 24))
    G = lambda x: If(x == 0, C(0, 32), g(x)); L = lambda x: m.rd(x + 16); R = lambda x: m.rd(x + 24)
    mx = lambda a, b: If(a < b, b, a)
    if depth: st.assume(Q(['node'], lambda x: Implies(F.N(x), And(g(x) >= 0, g(x) < C(2**30, 32), g(x) == mx(C(0, 32), mx(If(L(x) == 0, C(0, 32), g(L(x)) + 1), If(R(x) == 0, C(0, 32), g(R(x)) + 1))))), name='height', hints=lambda x: [('node', L(x)), ('node', R(x))]))
    else: st.assume(Q(['node'], lambda x: Implies(F.N(x), g(x) == 1 + G(L(x)) + G(R(x))), name='size'))
    def contract(e, st, args, ins):
        x = args[0]
        e.oblige(st, 'called-on-a-node-further-down', And(F.N(x), ULT(t.hi(x) - t.lo(x), t.hi(lb) - t.lo(lb)) if not outer else x == lb))
        if depth: e.oblige(st, 'depth-bounded', And(args[2] >= 0, args[2] <= C(2**30, 32))); return [(st, mx(args[1], args[2] + g(x)))]
        return [(st, args[1] + g(x))]
    contract.pure = True
    inner = M_ + ('12maxNodeDepthEii' if depth else '10totalNodesEi'); c = sym('count', 32); d = sym('depth', 32)
    if not outer:
        # the recursive calls are checked against this contract
        e.contracts[inner] = contract
        if depth: st.assume(d >= 0, d <= C(2**30 - 1, 32), c >= 0)
    else: e.contracts[inner] = contract
    st.assume(And(d >= 0))
    for s, r in ctx.run(e, st, inner if not outer else fn, [lb] if outer else ([lb, c, d] if depth else [lb, c])):
        e.oblige(s, goal, r == (g(lb) if outer else mx(c, d + g(lb)) if depth else c + g(lb)))
unit('total-nodes', weight=2)(lambda ctx: totals(ctx, M_ + '10totalNodesEv', True, False, 'counts-every-node-once'))
unit('total-nodes-rec', weight=2)(lambda ctx: totals(ctx, None, False, False, 'counts-every-node-once'))
unit('max-depth', weight=2)(lambda ctx: totals(ctx, M_ + '12maxNodeDepthEv', True, True, 'depth-of-the-deepest-node'))
unit('max-depth-rec', weight=2)(lambda ctx: totals(ctx, None, False, True, 'depth-of-the-deepest-node'))
