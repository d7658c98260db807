"""Unit vectors (bitv): allocation of runs of units, end marks, release; sequential and under interference."""
from bits import *
import engine
SOURCES = [(W_, TEXT)]
class BV_:
    def __init__(s, ctx):
        s.e = e = ctx.engine([W_]); s.st = st = State(); s.R = Rec(e, 'bitv_cb_t')
        s.cb = ptr(st, 'cb', s.R.size()); s.b = ptr(st, 'vector', C(8)); s.v = ptr(st, 'marks', C(8)); s.gh = ptr(st, 'ghost', C(8))
        P = [(s.cb, s.R.size()), (s.b, 8), (s.v, 8), (s.gh, 8)]
        for i, (p, a) in enumerate(P):
            for q, b in P[:i]: st.assume(disjoint(p, a, q, b))
        m = s.m = st.mem; s.sh = s.R.rd(m, s.cb, 'alloc_shift'); st.assume(ULE(s.sh, C(40)), s.R.rd(m, s.cb, 'alloc_mask') == (C(1) << s.sh) - 1, s.R.rd(m, s.cb, 'alloc_unit') == C(1) << s.sh)
        s.w0, s.e0 = m.rd(s.b), m.rd(s.v)
        e.may_write = lambda st, a, n: And(n == 8, Or(a == s.b, a == s.v))
        e.write_idx = lambda st, i: Or(*[z3.Concat(i, C(0, 3)) == x for x in (s.b, s.v, s.gh)])
    def W(s, st): return st.mem.rd(s.b)
    def E(s, st): return st.mem.rd(s.v)
    def G(s, st): return st.mem.rd(s.gh)
    def request(s, al):
        n = sym('size'); s.n = units(n, s.sh); s.st.assume(n > 0, ULE(n, C(1) << (s.sh + 6)))
        if al is None: s.al = C(1); return [n]
        a = sym('align'); s.pow2 = Or(*[a == C(1 << k) for k in range(64)]); s.al = z3.If(ULT(a, C(1) << s.sh), C(1), shr(a, s.sh)); s.st.assume(ULE(a, C(64) << s.sh))
        return [n, a]
    def others(s):
        """interference: other threads claim and release their own runs; the invariant: a free unit carries no end mark"""
        e = s.e
        def other(st):
            w, v, g = s.W(st), s.E(st), s.G(st); w2, v2 = fresh('ow'), fresh('ov')
            st.assume(w2 & v2 == 0, w2 & g == w & g, v2 & g == v & g); st.mem = st.mem.wr(s.b, w2).wr(s.v, v2)
        def acc(e, st, kind, addr, size, vol):
            if kind == 'fence': return
            a = simp(addr)
            if a.eq(simp(s.b)) or a.eq(simp(s.v)): other(st)
        def sto(e, st, addr, val, size, vol):
            a = simp(addr); w, v, g = s.W(st), s.E(st), s.G(st)
            if a.eq(simp(s.b)):
                got = w & ~val; e.oblige(st, 'releases-only-own-units-without-marks', And((val & ~w) & ~g == 0, val & v == 0))
                st.mem = st.mem.wr(s.gh, (g | got) & ~(val & ~w))
            elif a.eq(simp(s.v)):
                e.oblige(st, 'marks-only-own-units', And((v ^ val) & ~g == 0, w & val == 0))
            elif num(a) is None: e.fail(st, 'marks-only-own-units', 'store elsewhere')
        e.on_access = acc; e.on_store = sto; s.other = other; e.havoc_ghost = lambda e, st: None
def P32(v): return zx(v) if v.size() == 64 else z3.SignExt(64 - v.size(), v)
def alloc(fn, aligned, marked):
    def args(S): return [S.cb, S.b] + ([S.v] if marked else [])
    def loop(S, done, start, terminates, ff=None):
        class L_:
            no_termination = not terminates
            def cands(self, L):
                wide = [n for n in L.ints if L.entry[n].size() == 64]
                for x in L.ints:
                    yield '%s a unit' % x, lambda v, st, x=x: And(ULE(P32(v[x]), C(128)), P32(v[x]) & (S.al - 1) == 0, UGE(P32(v[x]), 0))
                    if ff is not None:
                        yield '%s at or before the first fit' % x, lambda v, st, x=x: And(Or(ULE(P32(v[x]), ff), ff == 64), P32(v[x]) & (S.al - 1) == 0, ULE(P32(v[x]), C(128)))
                    for y in wide:
                        if y != x: yield '%s scans the word from %s' % (y, x), lambda v, st, x=x, y=y: If(v[y] == 0, UGT(P32(v[x]) + S.n, C(64)), And(ULE(P32(v[x]) + S.n, C(64)), v[y] == S.w0 if ff is not None else z3.BoolVal(True)))
                    for y in wide:
                        if y != x:
                            yield '%s is the run at %s' % (y, x), lambda v, st, x=x, y=y: Implies(ULE(P32(v[x]) + S.n, C(64)), v[y] == run(S.n, P32(v[x])))
                            yield '%s done by %s' % (x, y), lambda v, st, x=x, y=y: If(v[x] == 0, done(st, v[y], v[x]), start(st, v[y], v[x])) if v[x].size() == 64 else z3.BoolVal(False)
            def pools(self, L, hs, cur):
                for x in L.ints: hs.pool('unit', P32(cur[x]))
            def measures(self, L):
                for x in L.ints:
                    yield 'left ' + x, lambda v, st, x=x: C(256) - P32(v[x])
                    yield 'todo ' + x, lambda v, st, x=x: If(P32(v[x]) == 0, C(0), C(1))
        S.e.loopspec = L_()
    @unit(fn[1:])
    def u(ctx):
        S = BV_(ctx); e, st = S.e, S.st; rq = S.request(True if aligned else None); w0, e0 = S.w0, S.e0
        ff = first_fit(st, w0, S.n, S.al)
        bad = Not(S.pow2) if aligned else z3.BoolVal(False)
        def result(s, r):
            hit = And(Not(bad), ff != 64)
            c = If(hit, And(r == ff << S.sh, S.W(s) == w0 & ~run(S.n, ff)), And(r == C(-1), S.W(s) == w0))
            return And(c, S.E(s) == If(hit, e0 | last(S.n, ff), e0)) if marked else And(c, S.E(s) == e0)
        loop(S, lambda s, r, c: result(s, r), lambda s, r, c: And(r == C(-1), c == w0, S.W(s) == w0, S.E(s) == e0), True, ff)
        for s, r in ctx.run(e, st, fn, args(S) + rq): e.oblige(s, 'first-fitting-run-or-nothing', result(s, r))
    @unit(fn[1:] + '-racing')
    def u2(ctx):
        S = BV_(ctx); e, st = S.e, S.st; rq = S.request(True if aligned else None); st.assume(S.w0 & S.e0 == 0, S.G(st) == 0)
        S.others(); i_ = lambda r: shr(r, S.sh)
        def result(s, r):
            g = S.G(s); i = i_(r); ok = And(r == i << S.sh, ULE(i + S.n, C(64)), ULT(i, C(64)), i & (S.al - 1) == 0, g == run(S.n, i), S.W(s) & g == 0)
            if marked: ok = And(ok, S.E(s) & g == last(S.n, i))
            return And(S.W(s) & S.E(s) == 0, Or(And(r == C(-1), g == 0), ok))
        loop(S, lambda s, r, c: result(s, r), lambda s, r, c: And(r == C(-1), S.G(s) == 0, S.W(s) & S.E(s) == 0), False)
        for s, r in ctx.run(e, st, fn, args(S) + rq): e.oblige(s, 'claims-exactly-the-run-it-returns', result(s, r))
    u.weight = u2.weight = 3
alloc('@bitv_alloc', False, False); alloc('@bitv_alloc_marked', False, True); alloc('@bitv_aligned_alloc', True, False); alloc('@bitv_aligned_alloc_marked', True, True)
@unit('free')
def u_free(ctx):
    for fn, marked in (('@bitv_dealloc', False), ('@bitv_free_marked', True)):
        for racing in (False, True):
            S = BV_(ctx); e, st = S.e, S.st; at = sym('at'); i = shr(at, S.sh) & 63; w0, e0 = S.w0, S.e0
            if marked:
                k = first_mark(st, e0, i); n = k + 1; alive = And(k != 64, w0 & shr(TOP, i) == 0); a = [S.v, at]
            else:
                rq = S.request(None); n = S.n; alive = ULE(i + n, C(64)); a = [at] + rq
            if racing:
                st.assume(alive, S.G(st) == run(n, i), w0 & e0 == 0, w0 & run(n, i) == 0, e0 & run(n, i) == (last(n, i) if marked else C(0))); S.others()
                if not marked: st.assume(ULE(i + n, C(64)))
            for s, r in ctx.run(e, st, fn, [S.cb, S.b] + a, name=fn[1:] + ('-racing' if racing else '')):
                if racing: e.oblige(s, 'gives-back-exactly-the-run', And(r == 0, S.G(s) == 0))
                else:
                    e.oblige(s, 'frees-the-run-and-its-mark-or-nothing', And(S.W(s) == If(alive, w0 | run(n, i), w0), S.E(s) == (If(alive, e0 & ~last(n, i), e0) if marked else e0)))
                    e.oblige(s, 'reports-success-exactly-for-an-allocated-run', (r == 0) == And(alive, w0 & run(n, i) == 0))
@unit('sizes')
def u_sizes(ctx):
    S = BV_(ctx); e, st = S.e, S.st; e.may_write = lambda st, a, n: z3.BoolVal(False); at = sym('at'); i = shr(at, S.sh) & 63; k = first_mark(st, S.e0, i); n = sym('n'); st.assume(ULE(n, C(2**62)))
    size = If(k == 64, C(0), (k + 1) << S.sh); u = units(n, S.sh)
    for s, r in ctx.run(e, st, '@w_size', [S.cb, S.b, S.v, at]): e.oblige(s, 'distance-to-the-mark', r == size)
    for s, r in ctx.run(e, st, '@w_chk', [S.cb, S.b, S.v, at, n]): e.oblige(s, 'size-only-when-it-matches', r == If(And(k != 64, u == k + 1), size, C(0)))
    for s, r in ctx.run(e, st, '@bitv_free_space', [S.cb, S.b]): e.oblige(s, 'free-units', r == engine.popcount(S.w0) << S.sh)
    for s, r in ctx.run(e, st, '@w_units', [S.cb, n]): e.oblige(s, 'units', And(UGE(r << S.sh, n), Implies(r != 0, ULT((r - 1) << S.sh, n)), shr(r << S.sh, S.sh) == r))
    for s, r in ctx.run(e, st, '@w_rsize', [S.cb, n]): e.oblige(s, 'rounded', r == u << S.sh)
    for s, r in ctx.run(e, st, '@w_rptr', [S.cb, n]): e.oblige(s, 'rounded', r == u << S.sh)
    for s, r in ctx.run(e, st, '@w_rmask', [S.cb]): e.oblige(s, 'mask', r == (C(1) << S.sh) - 1)
    for s, r in ctx.run(e, st, '@w_one', [n]): e.oblige(s, 'power-of-two', (r != 0) == And(n != 0, n & (n - 1) == 0))
    j, c = sym('j'), sym('c'); st.assume(c > 0, ULE(j, C(64)), ULE(c, C(64)), ULE(j + c, C(64)))
    for s, r in ctx.run(e, st, '@w_end', [run(c, j)]): e.oblige(s, 'last-unit', r == last(c, j))
    for s, r in ctx.run(e, st, '@w_start', [run(c, j)]): e.oblige(s, 'first-unit', r == shr(TOP, j))
    for s, r in ctx.run(e, st, '@w_mask', [c]): e.oblige(s, 'mask', r == M(c))
@unit('size-mask')
def u_smask(ctx):
    S = BV_(ctx); S.e.may_write = lambda st, a, n: z3.BoolVal(False); rq = S.request(None)
    for s, r in ctx.run(S.e, S.st, '@w_smask', [S.cb] + rq): S.e.oblige(s, 'mask', r == M(S.n))
@unit('init')
def u_init(ctx):
    S = BV_(ctx); e = S.e; st = State(); cb = ptr(st, 'control', S.R.size()); n = sym('unit'); m = st.mem; st.assume(n != 0)
    e.may_write = lambda st, a, k: within(a, k, cb, S.R.size()); p2 = n & (n - 1) == 0
    for s, r in ctx.run(e, st, '@bitv_init', [cb, n]):
        f = lambda x, s=s: S.R.rd(s.mem, cb, x)
        e.oblige(s, 'unit-shift-and-mask-agree', If(p2, And(f('alloc_unit') == n, f('alloc_mask') == n - 1, ULT(f('alloc_shift'), C(64)), C(1) << f('alloc_shift') == n), unchanged(m, s.mem, cb, S.R.size())))
INFO = dict(assumptions=['requests of 1 to 64 units; a release names a run handed out before (position of any unit vector word)', 'interference: sequential consistency; other threads touch only units they own'])
