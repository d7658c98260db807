"""Event log iteration: one step contract of the iterator, its start, and the whole walk by induction over them."""
from logger import *
SOURCES = [(W_, TEXT), 'freenode.c', 'sasalloc.cpp']
def setup(ctx, valid=True):
    L = Log(ctx, valid); e, st = L.e, L.st; IT = L.IT
    it = ptr(st, 'iter', IT.size()); h = L.handle(); st.assume(disjoint(it, IT.size(), L.log, L.size), disjoint(it, IT.size(), h, L.HD.size()))
    return L, e, st, it, h
def fields(L, m, it): return {f: L.IT.rd(m, it, f) for f in ('logger', 'current', 'free', 'start_log', 'end_log', 'options')}

@unit('start')
def u_start(ctx):
    L, e, st, it, h = setup(ctx, False); m = st.mem
    e.may_write = lambda s, a, n: within(a, n, it, L.IT.size())
    opt = L.f(m, 'options'); wr = And(L.circ, (opt & L.k('wrap')) != 0); nf = L.nf(m)
    for s, r in ctx.run(e, st, '@SPHLFLoggerCreateIterator', [L.log, it]):
        F = fields(L, s.mem, it)
        free = If(And(wr, UGE(nf, L.end)), L.start, nf)
        e.oblige(s, 'iterator-start', If(L.ok, And(r == it, F['logger'] == L.log, F['start_log'] == L.start, F['end_log'] == L.end, F['options'] == opt, F['free'] == free,
                                                   F['current'] == If(wr, free, L.start)), And(r == 0, unchanged(m, s.mem, it, L.IT.size()))))

def step(ctx, valid=True):
    L, e, st, it, h = setup(ctx, valid); m = st.mem; F = fields(L, m, it); cur = F['current']
    st.assume(F['logger'] == L.log, Implies(L.ok, And(F['start_log'] == L.start, F['end_log'] == L.end, UGE(cur, L.start), ULE(cur, L.end), (cur & 15) == 0, (L.end & 15) == 0)))
    w = L.EN.rd(m, cur, 'entryID', False); ln = z3.ZeroExt(52, z3.Concat(L.bits(w, 24, 8), C(0, 4))); complete = And(ULT(cur, L.end), L.bits(w, 0, 1) == 1); ts = L.bits(w, 1, 1) == 1
    e.may_write = lambda s, a, n: Or(L.IT.at(it, 'current', a, n), L.IT.at(it, 'options', a, n), within(a, n, h, L.HD.size()))
    return L, e, st, it, h, F, cur, ln, complete, ts

@unit('step')
def u_step(ctx):
    L, e, st, it, h, F, cur, ln, complete, ts = step(ctx, False); m = st.mem; o = F['options']
    wr = And((o & L.k('circ')) != 0, (o & L.k('wrap')) != 0); nfst = (o & L.k('notfirst')) != 0
    go = And(L.ok, complete, If(wr, Not(And(cur == F['free'], nfst)), And(ULT(cur, F['free']), ULE(cur + ln, F['free']))))
    for s, r in ctx.run(e, st, '@SPHLFLoggerIteratorNext', [it, h]):
        m2 = s.mem; G = fields(L, m2, it); nx = cur + ln
        e.oblige(s, 'returns-the-entry-exactly-when-one-is-left', And((r == h) == go, Or(r == h, r == 0)))
        hs = If(ts, C(L.EN.size()), C(L.EN.size('entryID')))
        e.oblige(s, 'handle-describes-the-entry', Implies(go, And(L.HD.rd(m2, h, 'entry') == cur, L.HD.rd(m2, h, 'next') == cur + hs, L.HD.rd(m2, h, 'total_size') == ln, L.HD.rd(m2, h, 'remaining', False) == z3.Extract(15, 0, ln - hs))))
        e.oblige(s, 'advances-to-the-next-entry', If(go, And(G['current'] == If(And(wr, UGE(nx, L.end)), L.start, nx), G['options'] == o | L.k('notfirst')), And(G['current'] == cur, G['options'] == o)))
        e.oblige(s, 'iterator-otherwise-unchanged', And(*[G[f] == F[f] for f in ('logger', 'free', 'start_log', 'end_log')]))

@unit('walk-plain')
def u_plain(ctx):
    """not wrapped: [start, current) is what has been returned; every call returns the entry at current while one is left and
    ends with current at the first incomplete entry or the allocation cursor"""
    L, e, st, it, h, F, cur, ln, complete, ts = step(ctx); m = st.mem; o = F['options']
    st.assume(Not(And((o & L.k('circ')) != 0, (o & L.k('wrap')) != 0)))
    free = F['free']
    # the log: entries (complete or not) tile [start, limit); limit is the cursor, or the marked rest of a full log
    lim = sym('limit'); at_entry = ULT(cur, lim)
    st.assume(ULE(lim, L.end), ULE(lim, free), ULE(cur, lim), Implies(lim != free, And(Implies(ULT(lim, L.end), L.bits(L.EN.rd(m, lim, 'entryID', False), 0, 1) == 0), UGT(free, L.end))),
              Implies(at_entry, And(ULE(cur + ln, lim), UGE(ln, C(16)))))
    for s, r in ctx.run(e, st, '@SPHLFLoggerIteratorNext', [it, h]):
        G = fields(L, s.mem, it)
        e.oblige(s, 'plain-step', If(And(at_entry, complete), And(r == h, L.HD.rd(s.mem, h, 'entry') == cur, G['current'] == cur + ln, ULE(G['current'], lim)), And(r == 0, G['current'] == cur)))

@unit('walk-wrapped')
def u_wrapped(ctx):
    """wrapped log of complete fixed-size entries: the returned part is [free, current) before the turn and [free, end) + [start, current) after it;
    each call extends it by one entry until it is the whole log"""
    L, e, st, it, h, F, cur, ln, complete, ts = step(ctx); m = st.mem; o = F['options']; free = F['free']
    st.assume((o & L.k('circ')) != 0, (o & L.k('wrap')) != 0)
    sd = L.f(m, 'default_entry_stride'); st.assume(ln == sd, UGE(sd, C(16)), complete)
    nfst = (o & L.k('notfirst')) != 0
    turned = z3.Bool('turned')
    def inv(cur, turned, nfst):
        # whole-stride facts (lemma stride-grid): a position before the end (before free) leaves room for one entry
        return And(If(turned, And(ULE(L.start, cur), ULE(cur, free), nfst), And(ULE(free, cur), ULT(cur, L.end), Implies(cur != free, nfst), Implies(cur == free, Not(nfst)))))
    grid = lambda p: And(Implies(ULT(p, L.end), ULE(p + sd, L.end)), Implies(ULT(p, free), ULE(p + sd, free)))
    st.assume(ULE(L.start, free), ULT(free, L.end), inv(cur, turned, nfst), grid(cur), grid(L.start), ULT(L.start, L.end))
    for s, r in ctx.run(e, st, '@SPHLFLoggerIteratorNext', [it, h]):
        G = fields(L, s.mem, it); nc = G['current']; nn = (G['options'] & L.k('notfirst')) != 0
        done = Or(And(turned, cur == free), And(Not(turned), cur == free, nfst))
        last = And(Not(turned), cur + sd == L.end); turn2 = Or(turned, last)
        e.oblige(s, 'ends-when-every-entry-was-returned', (r == 0) == done)
        e.oblige(s, 'returns-the-next-oldest-entry', Implies(Not(done), And(r == h, L.HD.rd(s.mem, h, 'entry') == cur)))
        e.oblige(s, 'moves-on-by-one-entry', Implies(Not(done), nc == If(last, L.start, cur + sd)))
        e.oblige(s, 'walk-invariant-kept', Implies(Not(done), inv(nc, turn2, nn)))
    # the walk as a whole: with the moves above, the bytes not yet returned shrink by exactly one entry per call
    # (integers; addresses do not wrap)
    st = State(); cur, free, start, end, S = z3.Ints('cur free start end S'); turned, last = z3.Bools('tu la')
    left = lambda t, c: If(t, free - c, (end - c) + (free - start))
    st.assume(S > 0, last == And(Not(turned), cur + S == end))
    e.oblige(st, 'remaining-part-shrinks-by-one-entry', left(Or(turned, last), If(last, start, cur + S)) == left(turned, cur) - S)
    # arithmetic lemma used for `grid`: positions are start + k*stride
    st = State(); k, n, f, S = z3.Ints('k n f S'); st.assume(S > 0, k >= 0, n > 0, k * S < n * S)
    e.oblige(st, 'stride-grid', k * S + S <= n * S); ctx.lemmas.append('stride-grid')
INFO = dict(assumptions=['no allocation runs while a log is iterated', 'wrapped logs hold fixed-size entries (stride allocation) filling whole strides (established by the logger initialisation contract, P09)', 'entries of at most 4080 bytes (8-bit length in 16-byte units)',
                         'layout of a log: entries tile the used part, a full log is followed by a marked rest (established by the allocation contracts, P09)'])
