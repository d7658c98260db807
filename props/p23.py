"""Log portals: a list of loggers; the portal's allocation moves on from full loggers, one step at a time."""
from common import *
TEXT = '#include "sphlogportal.cpp"\n' + layout(dict(BLOCK, SASLogPortalHeader=['log_buff_list', 'current_logger', 'next_free', 'list_size'], SPHLFPortalIterator_t=['logIter', 'logIter.logger', 'portal', 'current', 'next_free', 'capacity'])) + consts(dict(BCONST, ty='SAS_RUNTIME_LOGPORTAL', lty='SAS_RUNTIME_LOCKFREELOGGER', hdr='DEFAULT_PAGE'))
W_ = 'w_portal.cpp'
SOURCES = [(W_, TEXT), 'freenode.c', 'sasalloc.cpp']
class PT:
    def __init__(s, ctx, valid=False):
        s.e = e = ctx.engine([W_, 'freenode.c', 'sasalloc.cpp']); s.st = st = State(); s.H = Rec(e, 'SASLogPortalHeader'); s.B = Rec(e, 'SASBlockHeader'); s.I = Rec(e, 'SPHLFPortalIterator_t')
        s.size = sym('size'); st.assume(UGE(s.size, C(512)), ULE(s.size, C(1 << 40))); s.p = ptr(st, 'portal', s.size, 256); m = s.m = st.mem; s.hdr = C(gconst(e, 'vc_hdr'))
        s.ok = type_ok(e, m, s.p, 'ty'); s.ok2 = subtype_ok(e, m, s.p, 'ty'); st.assume(Implies(s.ok2, s.ok))
        if valid: st.assume(s.ok)
        s.L = s.p + s.hdr; s.n = s.f(m, 'next_free'); s.cur = s.f(m, 'current_logger'); s.cap = s.H.rd(m, s.p, 'list_size', True)
        st.assume(Implies(s.ok, And(s.f(m, 'log_buff_list') == s.L, ULE(8 * s.cap, s.size - s.hdr), ULE(s.n, s.cap), ULE(s.cur, s.n), Implies(s.n != 0, ULT(s.cur, s.n)))))
        e.may_write = lambda st, a, n: z3.BoolVal(False); lockstubs(e)
    def f(s, m, n): return s.H.rd(m, s.p, n)
    def slot(s, m, i): return m.rd(s.L + 8 * i)
@unit('status')
def u_status(ctx):
    S = PT(ctx); e, st, m = S.e, S.st, S.m; i = sym('index')
    def q(fn, a, lab, f):
        for s, r in ctx.run(e, st, fn, a, name=fn[1:]): e.oblige(s, lab, f(r))
    q('@SPHLogPortalGetCurrentLogger', [S.p], 'current-logger-or-null-when-empty', lambda r: r == If(And(S.ok, S.n != 0), S.slot(m, S.cur), C(0)))
    q('@SPHLogPortalGetLoggerByIndex', [S.p, i], 'logger-of-that-index-or-null', lambda r: r == If(And(S.ok, ULT(i, S.n)), S.slot(m, i), C(0)))
    q('@SPHLogPortalGetCurrentIndex', [S.p], 'current-index-or-minus-one', lambda r: r == If(And(S.ok, S.n != 0), z3.Extract(31, 0, S.cur), C(-1, 32)))
    q('@SPHLogPortalEmpty', [S.p], 'empty-exactly-without-loggers', lambda r: (r != 0) == And(S.ok, S.n == 0))
    q('@SPHLogPortalEntries', [S.p], 'number-of-loggers', lambda r: r == If(S.ok, z3.Extract(31, 0, S.n), C(-1, 32)))
    q('@SPHLogPortalCapacity', [S.p], 'capacity', lambda r: r == If(S.ok, z3.Extract(31, 0, S.cap), C(0, 32)))
@unit('add')
def u_add(ctx):
    S = PT(ctx); e, st, m = S.e, S.st, S.m; lg = ptr(st, 'logger', C(512), 256); pv = ptr(st, 'last', C(512), 256); st.assume(disjoint(lg, C(512), S.p, S.size), disjoint(pv, C(512), S.p, S.size), lg & 255 == 0, pv & 255 == 0, Or(pv == lg, disjoint(pv, C(512), lg, C(512))), Implies(And(S.ok, S.n != 0), S.slot(m, S.n - 1) == pv))
    lok = type_ok(e, m, lg, 'lty'); good = And(S.ok, lok, ULT(S.n, S.cap)); bb, nb = S.B.a(lg, 'baseBlock'), S.B.a(pv, 'nextBlock')
    e.write_idx = lambda s, i: z3.BoolVal(False); j = sym('j')
    class L_:
        no_termination = True                          # a compare-and-swap retry: repeated only when another thread added a logger
        def cands(self, L): return []
    e.loopspec = L_()
    e.may_write = lambda st, a, n: Or(S.H.at(S.p, 'next_free', a, n), within(a, n, S.L + 8 * S.n, 8), within(a, n, bb, 8), within(a, n, nb, 8))
    for s, r in ctx.run(e, st, '@SPHLogPortalAddLogger', [S.p, lg]):
        m2 = s.mem; e.oblige(s, 'adds-exactly-when-there-is-room', r == If(good, lg, C(0)))
        e.oblige(s, 'appended-behind-the-last-logger', If(good, And(S.f(m2, 'next_free') == S.n + 1, S.slot(m2, S.n) == lg, S.B.rd(m2, lg, 'baseBlock') == S.p, Implies(S.n != 0, S.B.rd(m2, pv, 'nextBlock') == lg)), S.f(m2, 'next_free') == S.n))
        e.oblige(s, 'other-loggers-stay-listed', Implies(And(S.ok, ULT(j, S.n)), S.slot(m2, j) == S.slot(m, j)))
        e.oblige(s, 'current-unchanged', And(S.f(m2, 'current_logger') == S.cur, S.H.rd(m2, S.p, 'list_size', True) == S.cap))
        e.oblige(s, 'failure-changes-nothing', Or(good, And(unchanged(m, m2, S.p, 128), unchanged(m, m2, lg, 128), unchanged(m, m2, pv, 128))))
def alloc(fn, inner, nargs):
    @unit('alloc' + fn)
    def u(ctx):
        S = PT(ctx); e, st, m = S.e, S.st, S.m; a = [sym('arg%d' % k, b) for k, b in enumerate(nargs)]; ca = S.H.a(S.p, 'current_logger'); busy = And(S.ok, S.n != 0)
        full = z3.Function('full!%d' % next(EG._ctr), BV(64), z3.BoolSort())          # a full logger stays full
        def acc(e, st, kind, addr, size, vol):
            """other threads move current past full loggers, any number of times, before every access"""
            if kind == 'fence' or not simp(addr).eq(simp(ca)): return
            c = S.f(st.mem, 'current_logger'); c2 = fresh('cur'); st.assume(UGE(c2, c), If(busy, ULT(c2, S.n), c2 == c), Q(['logger'], lambda i: Implies(And(busy, UGE(i, c), ULT(i, c2)), full(S.slot(m, i))), name='passed loggers are full'))
            st.mem = st.mem.wr(ca, c2); st.g['seen'] = st.g.get('seen', []) + [c2]; st.pool('logger', *[x for y in st.g['seen'] for x in (y, y + 1)])
        def sto(e, st, addr, val, size, vol):
            c = S.f(st.mem, 'current_logger'); ok = simp(addr).eq(simp(ca)); e.oblige(st, 'moves-one-step-past-a-full-logger', And(z3.BoolVal(ok), Or(val == c, And(val == c + 1, full(S.slot(m, c)), ULT(val, S.n)))))
        e.on_access = acc; e.on_store = sto; e.may_write = lambda st, x, n: And(x == ca, n == 8)
        same = lambda args: And(*[x == y for x, y in zip(args[1:], a)])
        def al(e, st, args, ins):
            t = st.g.get('tried', []); e.oblige(st, 'tries-the-current-or-the-next-listed-logger', And(busy, Or(*[And(ULT(i + k, S.n), args[0] == S.slot(m, i + k), full(S.slot(m, i)) if k else z3.BoolVal(True)) for i in st.g.get('seen', []) for k in (0, 1)])))
            e.oblige(st, 'passes-the-request-on', same(args)); r = fresh('res'); st.g['tried'] = t + [(args[0], r)]; return [(st, r)]
        def fl(e, st, args, ins):
            t = st.g.get('tried', []); c = fresh('fullrc', BV(32)); e.oblige(st, 'asks-the-logger-tried', Or(*[args[0] == x[0] for x in t])); st.assume((c != 0) == full(args[0])); return [(st, c)]
        def rec(e, st, args, ins):
            c = S.f(st.mem, 'current_logger'); t = st.g.get('tried', []); e.oblige(st, 'retries-only-after-progress', And(args[0] == S.p, same(args), Or(*[UGT(c, i) for i in st.g.get('seen', [])]), *[x[1] == 0 for x in t]))
            r = fresh('recres'); st.g['rec'] = r; return [(st, r)]
        e.contracts['@' + inner] = al; e.contracts['@SPHLFLoggerFull'] = fl; e.contracts[fn] = rec
        for s, r in ctx.run(e, st, fn, [S.p] + a):
            t = s.g.get('tried', [])
            if 'rec' in s.g: e.oblige(s, 'result-of-the-retry', r == s.g['rec']); continue
            e.oblige(s, 'tries-a-logger-whenever-there-is-one', z3.BoolVal(bool(t)) == busy)
            if t:
                e.oblige(s, 'result-of-the-last-logger-tried', And(r == t[-1][1], *[x[1] == 0 for x in t[:-1]]))
                e.oblige(s, 'gives-up-only-at-a-logger-with-room-or-the-last', Implies(r == 0, Or(Not(full(t[-1][0])), t[-1][0] == S.slot(m, S.n - 1))))
            else: e.oblige(s, 'null-without-a-logger', r == 0)
alloc('@SPHLogPortalAllocRaw', 'SPHLFLoggerAllocRaw', [64])
alloc('@SPHLogPortalAllocStrideTimeStamped', 'SPHLFLoggerAllocStrideTimeStamped', [32, 32, 64])
alloc('@SPHLogPortalAllocTimeStamped', 'SPHLFLoggerAllocTimeStamped', [32, 32, 64, 64])
@unit('iterate')
def u_iter(ctx):
    S = PT(ctx); e, st, m = S.e, S.st, S.m; it = ptr(st, 'iterator', S.I.size()); h = sym('handle'); st.assume(disjoint(it, S.I.size(), S.p, S.size)); li = S.I.a(it, 'logIter'); lg = S.I.a(it, 'logIter.logger')
    e.may_write = lambda st, a, n: within(a, n, it, S.I.size()); okc = z3.Bool('created'); first = sym('first'); later = sym('later')
    def cr(e, st, a, ins):
        e.oblige(st, 'iterates-over-a-listed-logger', And(a[1] == li, a[0] != 0)); st.g['on'] = st.g.get('on', []) + [a[0]]; st.mem = st.mem.wr(lg, If(okc, a[0], st.mem.rd(lg))); return [(st, If(okc, li, C(0)))]
    def nx(e, st, a, ins):
        e.oblige(st, 'next-entry-into-the-handle', And(a[0] == li, a[1] == h)); k = st.g.get('nx', 0); st.g['nx'] = k + 1; return [(st, later if st.g.get('on') else first)]
    e.contracts['@SPHLFLoggerCreateIterator'] = cr; e.contracts['@SPHLFLoggerIteratorNext'] = nx
    st.assume(Implies(And(S.ok, S.n != 0), S.slot(m, C(0)) != 0))
    for s, r in ctx.run(e, st, '@SPHLFPortalCreateIterator', [S.p, it], name='create'):
        on = s.g.get('on', []); good = And(S.ok, S.n != 0); m2 = s.mem
        e.oblige(s, 'positioned-at-the-first-logger', And(z3.BoolVal(len(on) == 1) == good, r == If(And(good, okc), it, C(0)), *[x == S.slot(m, C(0)) for x in on]))
        e.oblige(s, 'iterator-of-this-portal', Implies(r != 0, And(S.I.rd(m2, it, 'portal') == S.p, S.I.rd(m2, it, 'current') == 0, S.I.rd(m2, it, 'capacity') == S.cap, S.I.rd(m2, it, 'next_free') == S.n)))
    c = S.I.rd(m, it, 'current'); st.assume(S.I.rd(m, it, 'portal') == S.p, S.I.rd(m, it, 'capacity') == S.cap, ULT(c, C(1 << 32)), ULE(S.I.rd(m, it, 'next_free'), S.n), Implies(m.rd(lg) != 0, And(S.n != 0, ULT(c, S.n), m.rd(lg) == S.slot(m, c))))
    for i in (c, c + 1): st.assume(Implies(And(S.ok, ULT(i, S.n)), S.slot(m, i) != 0))
    for s, r in ctx.run(e, st, '@SPHLFPortalIteratorNext', [it, h], name='next'):
        on = s.g.get('on', []); m2 = s.mem; act = And(S.ok, m.rd(lg) != 0); mv = And(act, first == 0, ULT(c + 1, S.n))
        e.oblige(s, 'next-entry-of-this-logger-else-first-of-the-next', r == If(act, If(first != 0, first, If(And(mv, okc), later, C(0))), C(0)))
        e.oblige(s, 'moves-on-exactly-at-the-end-of-a-logger', And(z3.BoolVal(len(on) == 1) == mv, *[x == S.slot(m, c + 1) for x in on]))
        e.oblige(s, 'position', S.I.rd(m2, it, 'current') == If(And(mv, okc), c + 1, c))
@unit('init', weight=1)
def u_init(ctx):
    S = PT(ctx); e = S.e; st = State(); sz = sym('sz'); st.assume(UGE(sz, C(512)), ULE(sz, C(1 << 40))); b = ptr(st, 'seg', sz, 256); null = z3.Bool('null'); m = st.mem
    e.may_write = lambda st, a, n: within(a, n, b, S.hdr)
    def al(e, st, a, ins): e.oblige(st, 'asks-for-that-size', a[0] == sz); return [(st, If(null, C(0), b))]
    e.contracts['@SASBlockAlloc'] = al
    for fn in ('@SPHLogPortalInit', '@SPHLogPortalCreate'):
        cre = fn.endswith('Create')
        for s, r in ctx.run(e, st, fn, [sz] if cre else [b, sz], name=fn[1:]):
            f = lambda n, sg=False: S.H.rd(s.mem, b, n, sg) if sg else S.H.rd(s.mem, b, n); cap = f('list_size', True); good = And(r == b, f('next_free') == 0, f('current_logger') == 0, f('log_buff_list') == b + S.hdr, ULE(cap * 8, sz - S.hdr), Implies(ULE(sz, C(1 << 20)), cap == z3.LShR(sz - S.hdr, 4)), subtype_ok(e, s.mem, b, 'ty'), S.B.rd(s.mem, b, 'blockSize') == sz)
            e.oblige(s, 'new-portal-is-empty-and-its-list-inside', If(null, r == 0, good) if cre else good)
@unit('destroy')
def u_destroy(ctx):
    S = PT(ctx); e, st = S.e, S.st; st.assume(S.B.rd(S.m, S.p, 'blockSize') == S.size)
    def dl(e, st, args, ins): st.g['ev'] = st.g.get('ev', []) + [args]; return [(st, None)]
    e.contracts['@SASBlockDealloc'] = dl
    for s, r in ctx.run(e, st, '@SPHLogPortalDestroy', [S.p]):
        d = s.g.get('ev', []); L = s.g.get('locks', [])
        e.oblige(s, 'gives-back-exactly-the-block', If(S.ok2, And(r == 0, z3.BoolVal(len(d) == 1), *([d[0][0] == S.p, d[0][1] == S.size] if d else [])), And(r != 0, z3.BoolVal(not d))))
        e.oblige(s, 'lock-released-and-paired', And(z3.BoolVal([x[0] for x in L] == ['lock', 'unlock']), L[0][1] == S.p, L[1][1] == S.p) if L else Not(S.ok2))
INFO = dict(assumptions=['loggers are added by one thread at a time before others use them', 'logger operations through their contracts (P09); sequential consistency', 'recursive retries: partial correctness with progress per retry'])
