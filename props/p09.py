"""Event logger: space allocation (sequential and under arbitrary interference), status, reset, life cycle."""
from logger import *
SOURCES = [(W_, TEXT), 'freenode.c', 'sasalloc.cpp']
FN = {'@SPHLFLoggerAllocTimeStamped': ('size', True), '@SPHLFLoggerAllocStrideTimeStamped': ('stride', True),
      '@SPHLFLoggerAllocTimeStampedNoLock': ('size', False), '@SPHLFLoggerAllocStrideTimeStampedNoLock': ('stride', False)}
def need_of(L, m, kind, size): return r16(size + C(L.EN.size())) if kind == 'size' else L.f(m, 'default_entry_stride')
def args_of(L, kind, cat, sub, size, h): return [L.log, cat, sub, size, h] if kind == 'size' else [L.log, cat, sub, h]
def fits_ever(L, m, kind, size):
    if kind == 'size': return ULE(size, L.end - L.start - C(L.EN.size()))
    return ULE(L.f(m, 'default_entry_stride'), L.end - L.start)
def pre(L, m, kind, size):
    st = L.st; st.assume(Implies(L.ok, UGE(L.end - L.start, C(64))))
    if kind == 'stride':
        sd = L.f(m, 'default_entry_stride'); st.assume(Implies(L.ok, And(UGE(sd, C(16)), (sd & 15) == 0, ULE(sd, L.end - L.start))))
    # the usable area is a whole number of allocation units
    st.assume(Implies(L.ok, (L.end & 15) == 0))

for fn, (kind, _) in FN.items():
    def u_seq(ctx, fn=fn, kind=kind):
        L = Log(ctx, valid=False); e, st = L.e, L.st; m = st.mem; h = L.handle(); size = sym('size'); cat, sub = sym('cat', 32), sym('sub', 32)
        pre(L, m, kind, size); st.assume(Implies(And(L.ok, L.circ), ULE(L.nf(m), L.end)))
        e.unroll = 1
        L.frame(h); need = need_of(L, m, kind, size); nf = L.nf(m); hs = C(L.EN.size())
        ever = And(L.ok, fits_ever(L, m, kind, size)); fits = ULE(nf + need, L.end)
        for s, r in ctx.run(e, st, fn, args_of(L, kind, cat, sub, size, h)):
            m2 = s.mem
            e.oblige(s, 'success-exactly-when-space', (r == h) == And(ever, Or(fits, L.circ)))
            e.oblige(s, 'failure-is-null', Or(r == h, r == 0))
            en = If(fits, nf, L.start)
            e.oblige(s, 'entry-inside-the-buffer', Implies(r == h, And(within(en, need, L.start, L.end - L.start), UGE(need, size if kind == 'size' else hs))))
            e.oblige(s, 'handle', Implies(r == h, L.handle_ok(m2, h, en, need)))
            e.oblige(s, 'entry-header', Implies(r == h, L.entry_ok(m2, en, need, cat, sub)))
            e.oblige(s, 'rest-of-a-full-log-is-marked-unused', Implies(And(ever, Not(fits), Not(L.circ), ULT(nf, L.end)), L.EN.rd(m2, nf, 'entryID') == 0))
            e.oblige(s, 'cursor', If(ever, L.nf(m2) == If(Or(fits, Not(L.circ)), nf + need, L.start + need), Implies(Not(L.ok), unchanged(m, m2, L.log, 256))))
            e.oblige(s, 'options', If(And(ever, L.circ, Not(fits)), L.f(m2, 'options') == L.f(m, 'options') | L.k('wrap'), L.f(m2, 'options') == L.f(m, 'options')))
            e.oblige(s, 'failed-allocation-leaves-the-handle', Implies(r != h, unchanged(m, m2, h, L.HD.size())))
    unit('sequential' + fn, 3)(u_seq)

def interfere(L, inc=None):
    """rely: between any two of our accesses other threads may move the cursor (always 16-aligned, at or
    above the start) and change every option except `circular`.  guarantee: our writes to the cursor are
    single atomic additions of the entry size, or the reset to the start made only by the one thread whose
    own addition crossed the end."""
    e = L.e; A = L.H.a(L.log, 'next_free'); O = L.H.a(L.log, 'options')
    def other(st):
        m = st.mem; v = fresh('other_next'); o = fresh('other_opt')
        st.assume(UGE(v, L.start), ULT(v, C(2**62)), (v & 15) == 0)
        w = m.rd(O & C(~7)); sh = L.H.off('options') % 8 * 8
        old = m.rd(O, 4); no = fresh('other_options', BV(32)); circ = z3.Extract(31, 0, L.k('circ'))
        st.assume((no & circ) == (old & circ))
        parts = [z3.Extract(63, 32, w), no] if sh == 0 else [no, z3.Extract(31, 0, w)]
        st.mem = m.wr(A, v).wr(O & C(~7), simp(z3.Concat(*parts)))
    def acc(e, st, kind, addr, size, vol):
        if kind == 'fence': return
        if simp(addr).eq(simp(A)) or simp(addr).eq(simp(O)):
            other(st)
        if kind == 'rmw': st.g['rmw'] = simp(addr)
    def sto(e, st, addr, val, size, vol):
        addr = simp(addr); at = st.g.pop('rmw', None)
        if addr.eq(simp(A)):
            old = st.mem.rd(A)
            if at is None or not at.eq(addr):
                e.fail(st, 'cursor-updated-atomically', 'plain store to the shared cursor'); return
            isadd = simp(val - old)
            t = st.g.get('tickets', [])
            crossed = Or(*[And(ULE(x, L.end), UGT(x + y, L.end)) for x, y in t]) if t else z3.BoolVal(False)
            cas = st.g.get('$cas')
            if cas is None:
                e.oblige(st, 'cursor-advanced-by-whole-entries', isadd == inc)
                st.g['tickets'] = t + [(old, isadd)]
            else:
                st.g['casold'] = old
                e.oblige(st, 'cursor-reset-only-by-the-thread-that-crossed-the-end', Implies(cas, And(val == L.start, crossed)))
        elif addr.eq(simp(O)):
            old = st.mem.rd(O, 4)
            if at is None or not at.eq(addr): e.fail(st, 'options-updated-atomically', 'plain store to the shared option word'); return
            e.oblige(st, 'options-only-set-wrapped', val == old | z3.Extract(31, 0, L.k('wrap')))
        else:
            # any other store goes to memory this thread owns: its handle or the entry it was given
            t = st.g.get('tickets', [])
            if num(addr) is None or num(addr) < STACK:
                own = [within(addr, C(size), x, y) for x, y in t] + [within(addr, C(size), L.h, L.HD.size())]
                e.oblige(st, 'writes-only-owned-memory', Or(*own))
    e.on_access = acc; e.on_store = sto

def crossed_block(fn, kind):
    def u(ctx):
        L = Log(ctx); e, st = L.e, L.st; m = st.mem; h = L.h = L.handle(); size = sym('size'); cat, sub = sym('cat', 32), sym('sub', 32)
        pre(L, m, kind, size)
        if kind == 'size': st.assume(fits_ever(L, m, kind, size))
        L.frame(h); need = need_of(L, m, kind, size)
        interfere(L, need)
        def self_contract(e, st, args, ins):
            """own contract, for the recursive retry: same arguments, same promise"""
            e.oblige(st, 'retry-same-request', And(*[x == y for x, y in zip(args, args_of(L, kind, cat, sub, size, h))]))
            out = []
            for good in (True, False):
                s = st.copy() if good else st
                m0 = s.mem
                wi = e.write_idx; s0 = st
                s.mem = m0.havoc(lambda i: wi(s0, i), 'retry')
                t = s.g.get('tickets', [])
                s.assume((s.mem.rd(L.H.a(L.log, 'options'), 4) & z3.Extract(31, 0, L.k('circ'))) == (m0.rd(L.H.a(L.log, 'options'), 4) & z3.Extract(31, 0, L.k('circ'))))
                s.assume(s.mem.rd(L.H.a(L.log, 'default_entry_stride'), 2) == m0.rd(L.H.a(L.log, 'default_entry_stride'), 2))
                if good:
                    en = fresh('retry_entry'); s.assume(within(en, need, L.start, L.end - L.start), (en & 15) == 0, L.handle_ok(s.mem, h, en, need), L.entry_ok(s.mem, en, need, cat, sub))
                    s.g['tickets'] = t + [(en, need)]; s.g['got'] = en
                    out.append((s, h))
                else:
                    s.assume(Not(L.circ)); s.g['got'] = None
                    out.append((s, C(0)))
            return out
        class LS:
            no_termination = True
            def cands(self, LL): return []
        e.loopspec = LS()
        e.havoc_ghost = lambda e, s: None
        # the outermost call runs the body; calls made from it use the contract
        e.contracts[fn] = self_contract
        for s, r in ctx.run(e, st, fn, args_of(L, kind, cat, sub, size, h)):
            m2 = s.mem; t = s.g.get('tickets', [])
            e.oblige(s, 'null-or-handle', Or(r == h, r == 0))
            e.oblige(s, 'circular-never-fails', Implies(L.circ, r == h))
            en = L.HD.rd(m2, h, 'entry')
            e.oblige(s, 'entry-came-from-own-atomic-claim', Implies(r == h, Or(*[And(en == x, y == need) for x, y in t]) if t else z3.BoolVal(False)))
            e.oblige(s, 'entry-inside-the-buffer', Implies(r == h, within(en, need, L.start, L.end - L.start)))
            e.oblige(s, 'handle', Implies(r == h, L.handle_ok(m2, h, en, need)))
            e.oblige(s, 'entry-header', Implies(r == h, L.entry_ok(m2, en, need, cat, sub)))
    return u
for fn, (kind, conc) in FN.items():
    if conc: unit('concurrent' + fn, 5)(crossed_block(fn, kind))

@unit('raw')
def u_raw(ctx):
    L = Log(ctx, valid=False); e, st = L.e, L.st; m = st.mem; size = sym('size'); nf = L.nf(m)
    st.assume(Implies(L.ok, (L.end & 15) == 0)); mw = lambda s, p, n: Or(L.H.at(L.log, 'next_free', p, n), within(p, n, L.start, L.end - L.start)); e.may_write = mw
    need = r16(size); ever = And(L.ok, ULE(size, L.end - L.start))
    for s, r in ctx.run(e, st, '@SPHLFLoggerAllocRaw', [L.log, size]):
        fits = And(ever, ULE(nf + need, L.end))
        e.oblige(s, 'raw', And(r == If(fits, nf, C(0)), Implies(ever, L.nf(s.mem) == nf + need), Implies(Not(ever), L.nf(s.mem) == nf)))
        e.oblige(s, 'raw-rest-marked-unused', Implies(And(ever, Not(fits), ULT(nf, L.end)), L.EN.rd(s.mem, nf, 'entryID') == 0))
        e.oblige(s, 'raw-inside', Implies(r != 0, within(r, size, L.start, L.end - L.start)))
    L = Log(ctx); e, st = L.e, L.st; m = st.mem; size = sym('size'); L.h = C(0); st.assume(ULE(size, L.end - L.start))
    need = r16(size); interfere(L, need); st.assume((L.end & 15) == 0); e.may_write = lambda s, p, n: Or(L.H.at(L.log, 'next_free', p, n), within(p, n, L.start, L.end - L.start))
    for s, r in ctx.run(e, st, '@SPHLFLoggerAllocRaw', [L.log, size], name='concurrent'):
        t = s.g.get('tickets', [])
        e.oblige(s, 'raw-from-own-claim', Or(r == 0, And(within(r, size, L.start, L.end - L.start), Or(*[And(r == x, y == need) for x, y in t]) if t else z3.BoolVal(False))))

@unit('claims-disjoint')
def u_claims(ctx):
    """lemma over the guarantee: claims made by atomic additions between two resets never overlap"""
    e = ctx.engine([W_]); st = State(); a, x, b, y, start, end = [sym(n) for n in ('a', 'x', 'b', 'y', 'start', 'end')]
    # claim (a,x) then cursor = a+x; the cursor only grew until claim (b,y)
    st.assume(ULE(start, a), ULE(a + x, end), UGE(b, a + x), ULE(b + y, end), ULT(end, C(2**62)), ULT(x, C(2**40)), ULT(y, C(2**40)), ULT(a, end), ULE(b, end))
    e.oblige(st, 'claims-disjoint', disjoint(a, x, b, y)); ctx.lemmas.append('claims-disjoint')
    # at most one thread crosses the end in one epoch
    st = State(); a, x, b, y, end = [sym(n) for n in ('a', 'x', 'b', 'y', 'end')]
    st.assume(ULT(end, C(2**62)), ULT(a, C(2**62)), ULT(b, C(2**62)), ULT(x, C(2**40)), ULT(y, C(2**40)), UGE(b, a + x), ULE(a, end), UGT(a + x, end))
    e.oblige(st, 'only-one-thread-crosses-the-end', Not(And(ULE(b, end), UGT(b + y, end))))

@unit('status')
def u_status(ctx):
    L = Log(ctx, valid=False); e, st = L.e, L.st; m = st.mem; nf, op = L.nf(m), L.f(m, 'options'); e.may_write = lambda s, p, n: z3.BoolVal(False)
    for fn, good, bad in (('Wrapped', lambda r: (r != 0) == And(L.circ, (op & L.k('wrap')) != 0), 0), ('Empty', lambda r: (r != 0) == (nf == L.start), 0),
                          ('Full', lambda r: (r != 0) == UGE(nf, L.end), 1), ('FreeSpace', lambda r: r == If(ULT(nf, L.end), L.end - nf, C(0)), 0)):
        for s, r in ctx.run(e, st.copy(), '@SPHLFLogger' + fn, [L.log]):
            e.oblige(s, fn, If(L.ok, good(r), r == bad))
    ps = []
    class LS:
        def cands(self, LL): return []
    for s, r in ctx.run(e, st.copy(), '@SPHLFLoggerPrefetch', [L.log]) if False else []: pass

@unit('options')
def u_opt(ctx):
    L = Log(ctx, valid=False); e, st = L.e, L.st; m = st.mem; nf, op = L.nf(m), L.f(m, 'options'); p = sym('prefetch', 32)
    e.may_write = lambda s, a, n: L.H.at(L.log, 'options', a, n)
    both = L.k('pf0') | L.k('pf1')
    for s, r in ctx.run(e, st.copy(), '@SPHLFLoggerSetCachePrefetch', [L.log, p]):
        want = (op & ~both) | If(p > 2, both, If(p == 2, L.k('pf1'), If(p == 1, L.k('pf0'), C(0))))
        e.oblige(s, 'prefetch-options', If(L.ok, And(r == 0, L.f(s.mem, 'options') == want), And(r != 0, L.f(s.mem, 'options') == op)))
    e.may_write = lambda s, a, n: Or(L.H.at(L.log, 'options', a, n), L.H.at(L.log, 'next_free', a, n))
    ok2 = subtype_ok(e, m, L.log, 'lftype')
    class LS:
        def cands(self, LL): return []
    e.unroll = 1
    st.assume(Implies(ok2, L.ok))
    for s, r in ctx.run(e, st.copy(), '@SPHLFLoggerResetAsync', [L.log]):
        m2 = s.mem
        e.oblige(s, 'reset', If(ok2, And(r == 0, L.nf(m2) == L.start, L.f(m2, 'options') == op & L.k('reset')), And(r == -1, L.nf(m2) == nf, L.f(m2, 'options') == op)))
    for s, r in ctx.run(e, st.copy(), '@SPHLFLoggerResetIfFullSync', [L.log]):
        m2 = s.mem; full = UGE(nf + 128, L.end)
        e.oblige(s, 'reset-if-full', If(ok2, If(full, And(r == 0, L.nf(m2) == L.start, L.f(m2, 'options') == op & L.k('reset')), And(r == 1, L.nf(m2) == nf, L.f(m2, 'options') == op)),
                                           And(r == -1, L.nf(m2) == nf, L.f(m2, 'options') == op)))

@unit('lifecycle')
def u_life(ctx):
    L = Log(ctx); e, st0 = L.e, L.st
    B = Rec(e, 'SASBlockHeader')
    e.write_idx = lambda s, i: z3.BoolVal(False)
    for fn, args in (('@SPHLFLoggerInit', False), ('@SPHLFLoggerInitWithStride', True), ('@SPHLFLoggerCreate', False), ('@SPHLFCircularLoggerCreate', True)):
        st = State(); size = sym('bufsize'); st.assume(UGE(size, C(512)), ULE(size, C(2**40)), (size & 15) == 0); blk = ptr(st, 'blk', size, 256)
        stride, opt = sym('stride', 16), sym('opt', 32)
        create = 'Create' in fn
        def alloc(e, s, a, ins, size=size, blk=blk):
            e.oblige(s, 'block-of-the-requested-size', a[0] == size)
            s2 = s.copy(); s.g['blk'] = True; s2.g['blk'] = False
            return [(s, blk), (s2, C(0))]
        e.contracts['@SASBlockAlloc'] = alloc
        e.may_write = lambda s, a, n, blk=blk: within(a, n, blk, gconst(e, 'vc_hdr'))
        st.g['blk'] = True
        a = ([size] if create else [blk, size]) + (([stride] if args and create else [stride, opt]) if args else [])
        if fn == '@SPHLFLoggerInitWithStride': pass
        st.assume(ULE(stride, C(0xfff0, 16)))
        sd = (zx(stride) + 15) & C(~15) if args else C(0)
        o = L.k('circ') if create and args else (zx(opt) if args else C(0))
        for s, r in ctx.run(e, st, fn, a):
            m = s.mem
            if not s.g['blk']: e.oblige(s, 'no-block-no-logger', r == 0); continue
            f = lambda n: L.H.rd(m, blk, n)
            end = f('end_log_buf'); lim = blk + size; start = blk + L.k('hdr')
            circ = And((o & L.k('circ')) != 0, sd != 0)
            e.oblige(s, 'initialised', And(r == blk, subtype_ok(e, m, blk, 'lftype'), type_ok(e, m, blk, 'lftype'), B.rd(m, blk, 'blockSize') == size, f('next_free') == start, f('start_log_buf') == start,
                     f('options') == o, f('default_entry_stride') == sd, f('align_mask') == C(~15)))
            e.oblige(s, 'usable-area', And(ULE(end, lim), UGE(end, start), (end & 15) == 0, Implies(Not(circ), end == lim), Implies(circ, And(ULT(lim - end, sd)))))
            if args:
                # whole number of strides in a circular log
                rem = z3.URem(simp(lim - start), f('default_entry_stride'))
                e.oblige(s, 'circular-log-is-whole-strides', Implies(circ, end == lim - rem))
    L = Log(ctx, valid=False); e, st = L.e, L.st; m = st.mem
    ok2 = subtype_ok(e, m, L.log, 'lftype')
    def dealloc(e, s, a, ins): s.g['freed'] = s.g.get('freed', []) + [(a[0], a[1], list(s.g.get('locks', [])))]; return [(s, None)]
    e.contracts['@SASBlockDealloc'] = dealloc; e.may_write = lambda s, a, n: z3.BoolVal(False)
    for fn in ('Destroy',):
        for s, r in ctx.run(e, st.copy(), '@SPHLFLogger' + fn, [L.log]):
            fr = s.g.get('freed', []); lk = s.g.get('locks', [])
            e.oblige(s, 'destroy-gives-back-exactly-its-block', If(ok2, And(r == 0, z3.BoolVal(len(fr) == 1), *[And(x[0] == L.log, x[1] == L.f(m, 'blockHeader.blockSize')) for x in fr]), And(r == -1, z3.BoolVal(not fr))))
            good = [x[0] for x in lk] == (['lock', 'unlock'] if fn == 'Destroy' else []) or not fr
            e.oblige(s, 'destroy-locked', And(z3.BoolVal(good), *[x[1] == L.log for x in lk]))
INFO = dict(assumptions=['cursor does not wrap: fewer than 2^62 bytes requested past the end of a full log', 'interference: other threads use only the logger API (rely condition), and each obeys the guarantee proved here', 'sequentially consistent memory',
                         'SASBlockAlloc returns a block of the requested size not in use elsewhere', 'waiting loops of a full circular log end when the wrapping thread makes progress (termination under interference not claimed)'],
            trusted=['clock_gettime / rdtsc: arbitrary value', 'SASLock/SASUnlock contracts (property P14)'])
