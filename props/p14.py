"""User locks (sasulock.cpp): a lock object is a monitor protected by its spin lock. Every operation is verified against
rely/guarantee contracts of the spin lock: what a thread finds when it takes the spin lock is any state in which the lock
invariant holds and its own claims still stand; what it leaves behind must satisfy the invariant and keep the claims of others."""
from common import *
HDR = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <semaphore.h>\n#include <pthread.h>\n#define private public\n'
FL = ['data_lock', 'status', 'total_readers_count', 'readers_waiting', 'readers_waiting_sem', 'writers_waiting', 'writers_waiting_sem', 'readers_done_sem', 'writer_task_id', 'writer_thread_id', 'writer_thread_lock_count', 'readers', 'address']
TEXT = HDR + '#include "sasulock.cpp"\n' + layout(dict(SasUserLock=FL, reader_id_t=['reader_task_id', 'reader_thread_id', 'reader_thread_lock_count'])) + consts(dict(excl='SasUserLock__exclusive', nexcl='SasUserLock__not_exclusive', nslot='MAX_READER_THREADS'))
W_ = 'w_sasulock.cpp'
SOURCES = [(W_, TEXT)]
M_ = '@_ZN11SasUserLock'
I32 = lambda v: C(v, 32)
SPIN, UNSPIN, INITSPIN = '@_ZL9spin_lockPVl', '@_ZL11spin_unlockPVl', '@_ZL14spin_lock_initPVl'
SLEEP, WAKE, UNLOCK = M_ + '12thread_sleepEPvP5sem_tPVl', M_ + '13thread_wakeupEPvP5sem_t9boolean_t', M_ + '6unlockEv'
NAMES = ['status', 'total', 'rw', 'ww', 'wtask', 'wtid', 'wcount', 'addr']
FIELD = dict(status='status', total='total_readers_count', rw='readers_waiting', ww='writers_waiting', wtask='writer_task_id', wtid='writer_thread_id', wcount='writer_thread_lock_count', addr='address')
class F:
    """one snapshot of the fields the spin lock protects"""
    def __init__(s, get, n): s.__dict__.update({k: get(k) for k in NAMES}); s.slots = [(get(('task', i)), get(('tid', i)), get(('count', i))) for i in range(n)]
    def all(s): return [getattr(s, k) for k in NAMES] + [x for t in s.slots for x in t]
class UL:
    def __init__(s, ctx):
        s.e = e = ctx.engine([W_]); s.st = st = State(); s.R = Rec(e, 'SasUserLock'); s.D = Rec(e, 'reader_id_t'); s.n = gconst(e, 'vc_nslot'); s.ex = I32(gconst(e, 'vc_excl')); s.ne = I32(gconst(e, 'vc_nexcl'))
        s.p = ptr(st, 'lockobj', s.R.size(), 8); s.lo = z3.Concat(C(0, 17), sym('listlock', 44), C(0, 3)); st.al[('al', s.lo.get_id())] = (s.lo, 8); st.assume(s.lo != s.p, s.lo != 0); s.K = sym('key'); s.me = (sym('mytask', 32), sym('mytid', 32)); st.assume(s.me[0] > 0, s.me[1] > 0)
        e.contracts['@sphdeGetTID'] = s.const(s.me[1]); e.contracts['@getpid'] = s.const(s.me[0])
        e.may_write = lambda st, a, n: within(a, n, s.p, s.R.size()); e.write_idx = lambda st, i: z3.BoolVal(True)
        e.unroll = s.n + 2; e.loopspec = s; s.no_termination = True; e.havoc_ghost = s.havoc_ghost
    def const(s, v):
        def h(e, st, a, ins): return [(st, v)]
        h.pure = True; return h
    def inobj(s, i): return And(UGE(i, z3.Extract(63, 3, s.p)), ULT(i, z3.Extract(63, 3, s.p + s.R.size() + 7)))
    def fa(s, k):
        if isinstance(k, tuple): return s.R.off('readers') + k[1] * s.D.size() + s.D.off(dict(task='reader_task_id', tid='reader_thread_id', count='reader_thread_lock_count')[k[0]])
        return s.R.off(FIELD[k])
    def cur(s, st): return F(lambda k: s.e.rawload(st, st.mem, s.p, s.fa(k), 8 if k == 'addr' else 4), s.n)
    def new(s): return F(lambda k: fresh('f', BV(64 if k == 'addr' else 32)), s.n)
    # ---- the lock invariant
    def mine(s, t): return And(t[0] == s.me[0], t[1] == s.me[1])
    def small(s, f): return And(*[x < (1 << 20) for x in [f.rw, f.ww, f.wcount, f.total] + [t[2] for t in f.slots]])
    def users(s, f): return Or(f.status == s.ex, f.total > 0, f.rw > 0, f.ww > 0)
    def inv(s, f):
        ok = [Or(f.status == s.ex, f.status == s.ne), f.rw >= 0, f.ww >= 0, f.wcount >= 0, f.total >= 0]
        for t in f.slots: ok.append(If(t[2] == 0, And(t[0] == 0, t[1] == 0), And(t[2] > 0, t[0] > 0, t[1] > 0)))
        for i in range(s.n):
            for j in range(i): ok.append(Or(f.slots[i][2] == 0, f.slots[i][0] != f.slots[j][0], f.slots[i][1] != f.slots[j][1]))
        ok += [If(f.wcount == 0, And(f.wtid == 0, f.wtask == 0), And(f.wtid > 0, f.wtask > 0, f.status == s.ex, f.total == 0)), Implies(s.users(f), f.addr == s.K)]
        return And(*ok)
    def sums(s, f):
        """what 'total is the sum of the counts' says; the sum itself is kept step by step, see the lemmas"""
        return And(*[f.total >= t[2] for t in f.slots], Implies(And(*[t[2] == 0 for t in f.slots]), f.total == 0))
    # ---- this thread's claims: held reads, held writes, pending writer, counted as waiting reader/writer
    def myr(s, f):
        r = I32(0)
        for t in reversed(f.slots): r = If(s.mine(t), t[2], r)
        return r
    def myw(s, f): return If(And(f.wtask == s.me[0], f.wtid == s.me[1]), f.wcount, I32(0))
    GH = ('held', 'pend', 'myr', 'myw', 'cr', 'cw')
    def newg(s): return dict(held=z3.FreshConst(z3.BoolSort(), 'held'), pend=z3.FreshConst(z3.BoolSort(), 'pend'), **{k: fresh(k, BV(32)) for k in ('myr', 'myw', 'cr', 'cw')})
    def rely(s, f, g, k):
        return And(s.inv(f), s.sums(f), s.small(f), *[Implies(a == s.me[1], b == s.me[0]) for b, a in [(f.wtask, f.wtid)] + [t[:2] for t in f.slots]], ULE(k, s.n), (g['myr'] == 0) == (k == s.n), *[And(s.mine(t) == (k == i), Implies(k == i, t[2] == g['myr'])) for i, t in enumerate(f.slots)], s.myw(f) == g['myw'], f.rw >= g['cr'], f.ww >= g['cw'], Implies(g['pend'], And(f.status == s.ex, f.wtid == 0)), Or(f.addr == s.K, f.addr == 0), Or(g['myr'] > 0, *[t[2] == 0 for t in f.slots]))
    def gwf(s, g): return And(g['myr'] >= 0, g['myw'] >= 0, Or(g['cr'] == 0, g['cr'] == 1), Or(g['cw'] == 0, g['cw'] == 1))
    def put(s, st, a, n):
        o = num(simp(a - s.p))
        for q in range(o // 8, (o + n + 7) // 8): st.mem = st.mem.store(s.p, q, simp(z3.Extract(63, 3, s.p) + C(q, 61)), fresh('sem'))
    def scramble(s, st):
        b, q0 = s.p, s.R.off('data_lock') // 8
        for q in range((s.R.size() + 7) // 8):
            if q != q0: st.mem = st.mem.store(b, q, simp(z3.Extract(63, 3, b) + C(q, 61)), fresh('fld'))
    def acquire(s, e, st, a, ins):
        e.oblige(st, 'takes-its-own-spin-lock-once', And(a[0] == s.R.a(s.p, 'data_lock'), Not(st.g['held'])))
        s.scramble(st); f = s.cur(st); st.g['snap'] = f; st.g['slot'] = fresh('slot', BV(8)); st.assume(s.rely(f, st.g, st.g['slot'])); st.g['held'] = z3.BoolVal(True); return [(st, None)]
    def leave(s, e, st, cr, cw, why):
        g, S, N = st.g, st.g['snap'], s.cur(st); e.oblige(st, 'leaves-the-spin-lock-it-holds', g['held'])
        e.oblige(st, 'lock-invariant-kept', s.inv(N)); e.oblige(st, 'total-counts-every-reader', N.total - S.total == s.myr(N) - s.myr(S))
        taken = [And(t[2] == 0, u[2] != 0) for t, u in zip(S.slots, N.slots)]
        for t, u, k in zip(S.slots, N.slots, taken):
            same = And(*[x == y for x, y in zip(t, u)])
            e.oblige(st, 'other-readers-keep-their-locks', If(t[2] == 0, Or(same, s.mine(u)), Or(s.mine(t), same)))
        e.oblige(st, 'no-new-reader-past-a-writer', Implies(Or(*taken), And(S.status == s.ne, S.ww == g['cw'])))
        keep = And(N.status == S.status, N.wtask == S.wtask, N.wtid == S.wtid, N.wcount == S.wcount); my = lambda f: And(f.wtask == s.me[0], f.wtid == s.me[1])
        e.oblige(st, 'writer-keeps-its-lock', Implies(And(S.wtid != 0, Not(my(S))), keep))
        e.oblige(st, 'pending-writer-keeps-its-turn', Implies(And(S.status == s.ex, S.wtid == 0, Not(g['pend'])), keep))
        e.oblige(st, 'becomes-writer-only-by-itself', Implies(N.wtid != 0, Or(my(N), keep)))
        e.oblige(st, 'counts-itself-among-the-waiting', And(N.rw == S.rw - g['cr'] + cr, N.ww == S.ww - g['cw'] + cw))
        if why is not None: e.oblige(st, 'sleeps-only-when-it-has-to', why(N))
        g['pend'] = And(N.status == s.ex, N.wtid == 0, Or(S.status != s.ex, my(S), g['pend'])); g['myr'], g['myw'], g['cr'], g['cw'] = s.myr(N), s.myw(N), cr, cw; g['held'] = z3.BoolVal(False); g['left'] = g.get('left', []) + [N]
    def release(s, e, st, a, ins):
        e.oblige(st, 'leaves-its-own-spin-lock', a[0] == s.R.a(s.p, 'data_lock')); s.leave(e, st, I32(0), I32(0), None); return [(st, None)]
    def kind(s, e, st, ev, sem):
        rd = And(ev == s.R.a(s.p, 'readers_waiting'), sem == s.R.a(s.p, 'readers_waiting_sem')); wr = And(ev == s.R.a(s.p, 'writers_waiting'), sem == s.R.a(s.p, 'writers_waiting_sem')); dn = And(ev == s.R.a(s.p, 'writers_waiting'), sem == s.R.a(s.p, 'readers_done_sem'))
        e.oblige(st, 'event-and-semaphore-belong-together', Or(rd, wr, dn)); return rd, wr, dn
    def sleep(s, e, st, a, ins):
        rd, wr, dn = s.kind(e, st, a[1], a[2]); e.oblige(st, 'sleeps-on-its-own-lock', a[0] == s.p); p0 = st.g['pend']
        def why(N):
            mepend = And(N.status == s.ex, N.wtid == 0, Or(p0, st.g['snap'].status != s.ex)); oww = N.ww - If(rd, I32(0), I32(1))
            return If(rd, Or(N.status == s.ex, oww > 0), If(dn, And(mepend, N.total > 0), And(N.status == s.ex, Not(mepend))))
        s.leave(e, st, If(rd, I32(1), I32(0)), If(rd, I32(0), I32(1)), why); return [(st, None)]
    def wake(s, e, st, a, ins):
        rd, wr, dn = s.kind(e, st, a[1], a[2]); e.oblige(st, 'wakes-its-own-waiters', a[0] == s.p); st.g['woken'] = st.g.get('woken', []) + [(rd, wr, dn, a[3])]; return [(st, None)]
    def listunlock(s, e, st, a, ins):
        e.oblige(st, 'list-is-unlocked-once-and-only-when-the-address-is-named', And(a[0] == s.lo, st.g['held'], s.cur(st).addr == s.K, st.g['lists'] == 0, s.lo != 0)); st.g['lists'] = st.g['lists'] + 1; return [(st, None)]
    def access(s, e, st, kind, addr, size, vol):
        if kind == 'fence' or addr is None: return
        n = s.fa('addr') + 8
        e.oblige(st, 'fields-are-used-under-the-spin-lock', Or(st.g['held'], Not(And(ULT(addr - s.p, C(n)))), s.free_read(kind, addr))); e.oblige(st, 'spin-lock-word-left-alone', Or(*[Not(within(addr, size, s.R.a(s.p, 'data_lock'), 8))]))
    def free_read(s, kind, addr): return z3.BoolVal(False)
    def start(s, monitor=True):
        e, st = s.e, s.st; e.contracts[SPIN] = s.acquire; e.contracts[UNSPIN] = s.release; e.contracts[SLEEP] = s.sleep; e.contracts[WAKE] = s.wake
        g = dict(held=z3.BoolVal(False), pend=z3.BoolVal(False), cr=I32(0), cw=I32(0), myr=sym('heldreads', 32), myw=sym('heldwrites', 32), lists=C(0), snap=s.new(), slot=C(0, 8), left=[]); st.g.update(g); st.assume(s.gwf(g), Or(g['myr'] == 0, g['myw'] == 0), g['myr'] < (1 << 20), g['myw'] < (1 << 20)); e.on_access = s.access
        return g['myr'], g['myw']
    # ---- loops around a wait
    def force(s, engine, fn, body): return engine.calls_contract(fn, body)
    def havoc_ghost(s, e, st):
        s.scramble(st)
        st.g.update(s.newg()); st.g['snap'] = s.new(); st.g['slot'] = fresh('slot', BV(8)); st.g['lists'] = fresh('lists'); st.g['left'] = []; st.assume(s.gwf(st.g))
    def cands(s, L):
        g0 = L.st.g
        yield 'spin lock held', lambda v, st: st.g['held']
        for k in ('pend', 'myr', 'myw', 'lists'): yield k + ' as before', lambda v, st, k=k: st.g[k] == g0[k]
        yield 'what was found obeyed the rely', lambda v, st: s.rely(st.g['snap'], st.g, st.g['slot'])
        for k in NAMES:
            if k in ('rw', 'ww'): continue
            yield k + ' as found', lambda v, st, k=k: getattr(s.cur(st), k) == getattr(st.g['snap'], k)
        yield 'slots as found', lambda v, st: And(*[x == y for t, u in zip(s.cur(st).slots, st.g['snap'].slots) for x, y in zip(t, u)])
        yield 'no longer counted as waiting reader', lambda v, st: s.cur(st).rw == st.g['snap'].rw - st.g['cr']
        yield 'no longer counted as waiting writer', lambda v, st: s.cur(st).ww == st.g['snap'].ww - st.g['cw']
        yield 'address named', lambda v, st: s.cur(st).addr == s.K
        yield 'address null or named', lambda v, st: Or(s.cur(st).addr == s.K, s.cur(st).addr == 0)
def lockop(fn, lab, write):
    @unit(lab, weight=4)
    def u(ctx):
        S = UL(ctx); e, st = S.e, S.st; r0, w0 = S.start(); e.contracts[UNLOCK] = S.listunlock; withlist = z3.Bool('withlist'); arg = If(withlist, S.lo, C(0))
        if write: st.assume(r0 == 0)                       # no upgrade of a read lock
        for nul in (False, True):
            for s, r in ctx.run(e, st.copy(), M_ + fn, [S.p, C(0) if nul else S.lo, S.K], name=lab + ('-nolist' if nul else '')):
                g = s.g; e.oblige(s, 'spin-lock-released', Not(g['held']))
                e.oblige(s, 'holds-the-lock-once-more', And(g['myw'] == w0 + 1, g['myr'] == r0) if write else If(w0 > 0, And(g['myw'] == w0 + 1, g['myr'] == r0), And(g['myr'] == r0 + 1, g['myw'] == 0)))
                e.oblige(s, 'no-longer-waiting', And(g['cr'] == 0, g['cw'] == 0, Not(g['pend'])))
                e.oblige(s, 'list-unlocked-exactly-once', g['lists'] == (0 if nul else 1))
                N = g['left'][-1]; e.oblige(s, 'lock-names-the-address', N.addr == S.K)
@unit('total-is-the-sum')
def u_sum(ctx):
    n = 10; c, d, t, u = [[z3.Int('%s%d' % (x, i)) for i in range(n)] for x in 'cd'] + [z3.Int('t'), z3.Int('u')]; e = ctx.engine([W_]); e.cur = ctx.u.name
    def ob(x): e.oblige(State(), x[0], x[1]); ctx.lemmas.append(x[0])
    for k in range(n): ob(('one-slot-and-the-total-change-alike-%d' % k, z3.Implies(z3.And(t == z3.Sum(c), u - t == d[k] - c[k], *[d[i] == c[i] for i in range(n) if i != k]), u == z3.Sum(d))))
    ob(('sum-bounds', z3.Implies(z3.And(t == z3.Sum(c), *[x >= 0 for x in c]), z3.And(*[t >= x for x in c], z3.Implies(z3.And(*[x == 0 for x in c]), t == 0)))))
lockop('9read_lockEPS_Pv', 'read-lock', False)
lockop('10write_lockEPS_Pv', 'write-lock', True)
@unit('unlock', weight=4)
def u_unlock(ctx):
    S = UL(ctx); e, st = S.e, S.st; r0, w0 = S.start(); st.assume(Or(r0 > 0, w0 > 0))
    for s, r in ctx.run(e, st, UNLOCK, [S.p]):
        g = s.g; e.oblige(s, 'spin-lock-released', Not(g['held'])); e.oblige(s, 'holds-the-lock-once-less', And(If(w0 > 0, And(g['myw'] == w0 - 1, g['myr'] == 0), And(g['myr'] == r0 - 1, g['myw'] == 0))))
        e.oblige(s, 'never-leaves-a-half-released-lock', And(Not(g['pend']), g['cr'] == 0, g['cw'] == 0)); N, P = g['left'][-1], g['snap']; wk = g.get('woken', [])
        some = lambda k, one=None: Or(*[w[k] if one is None else And(w[k], (w[3] != 0) == one) for w in wk]) if wk else z3.BoolVal(False)
        e.oblige(s, 'free-for-another-address-when-unused', Implies(Not(S.users(N)), N.addr == 0))
        last = And(r0 > 0, N.total == 0); wfree = And(w0 > 0, N.wcount == 0)
        e.oblige(s, 'last-reader-wakes-the-pending-writer', Implies(And(last, N.status == S.ex), some(2)))
        e.oblige(s, 'a-waiting-writer-is-woken-when-the-lock-becomes-free', Implies(And(N.ww > 0, Or(wfree, And(last, N.status == S.ne))), some(1)))
        e.oblige(s, 'all-waiting-readers-are-woken-when-the-writer-leaves', Implies(And(N.rw > 0, wfree), some(0, False)))
        e.oblige(s, 'writer-status-given-up', Implies(wfree, N.status == S.ne))
@unit('unlock-not-held')
def u_unlock2(ctx):
    S = UL(ctx); e, st = S.e, S.st; r0, w0 = S.start(); st.assume(r0 == 0, w0 == 0); orig = S.rely
    S.rely = lambda f, g, k: And(orig(f, g, k), f.status == S.ne, f.total == 0)                  # nobody holds it
    for s, r in ctx.run(e, st, UNLOCK, [S.p]):
        N, P = s.g['left'][-1], s.g['snap']; e.oblige(s, 'unlocking-a-free-lock-changes-nothing', And(Not(s.g['held']), *[x == y for x, y in zip(N.all(), P.all())]))
@unit('spin-lock')
def u_spin(ctx):
    S = UL(ctx); e, st = S.e, S.st; w = ptr(st, 'word', 8, 8); e.may_write = lambda st, a, n: And(a == w, n == 8); e.write_idx = lambda st, i: i == z3.Extract(63, 3, w)
    class L_:
        no_termination = True; force = True               # waits for another thread
        def cands(self, L): return []
    e.loopspec = L_(); e.havoc_ghost = None
    def y(e, st, a, ins): return [(st, C(0, 32))]
    y.pure = True; e.contracts['@sched_yield'] = y
    def acc(e, st, kind, addr, size, vol):
        if addr is None: return
        e.oblige(st, 'only-the-lock-word', And(addr == w, size == 8)); v = fresh('seen'); st.mem = st.mem.wr(w, v); st.g['seen'] = v; st.g['kind'] = kind
    def sto(e, st, addr, val, size, vol): e.oblige(st, 'takes-only-a-free-lock', And(addr == w, z3.BoolVal(st.g.get('kind') == 'rmw'), val == If(st.g['seen'] == 0, C(1), st.g['seen'])))
    e.on_access = acc; e.on_store = sto
    for s, r in ctx.run(e, st, SPIN, [w]): e.oblige(s, 'returns-only-after-taking-the-free-lock', And(z3.BoolVal(s.g.get('kind') == 'rmw'), s.g['seen'] == 0, s.mem.rd(w) == 1))
@unit('spin-unlock')
def u_unspin(ctx):
    S = UL(ctx); e, st = S.e, S.st; w = ptr(st, 'word', 8, 8); e.may_write = lambda st, a, n: And(a == w, n == 8)
    for fn in (UNSPIN, INITSPIN):
        for s, r in ctx.run(e, st.copy(), fn, [w]): e.oblige(s, 'lock-word-free', s.mem.rd(w) == 0)
@unit('sleep-and-wake')
def u_sleep(ctx):
    S = UL(ctx); e, st = S.e, S.st; ev, sem, lk = ptr(st, 'event', 4, 4), sym('sem'), sym('lk'); e.may_write = lambda st, a, n: z3.BoolVal(False)
    def log(k):
        def h(e, st, a, ins): st.g['ev'] = st.g.get('ev', []) + [(k, a[0])]; return [(st, None if k == 'spin' else C(0, 32))]
        return h
    e.contracts[UNSPIN] = log('spin'); e.contracts['@sem_wait'] = log('wait')
    for s, r in ctx.run(e, st.copy(), SLEEP, [S.p, ev, sem, S.R.a(S.p, 'data_lock')], name='sleep'):
        v = s.g.get('ev', []); e.oblige(s, 'releases-the-spin-lock-then-waits-on-the-semaphore', And(z3.BoolVal([x[0] for x in v] == ['spin', 'wait']), v[0][1] == S.R.a(S.p, 'data_lock'), v[-1][1] == sem) if v else z3.BoolVal(False))
    def post(e, st, a, ins): e.oblige(st, 'posts-that-semaphore', a[0] == sem); st.g['n'] = st.g['n'] + 1; return [(st, C(0, 32))]
    e.contracts['@sem_post'] = post; st.g['n'] = C(0); one = sym('one', 32); wn = e.rawload(st, st.mem, ev, 0, 4)
    class L_:
        force = True
        def cands(self, L):
            for i in L.ints:
                yield 'posts = %s' % i, lambda v, st, i=i: st.g['n'] == z3.SignExt(64 - v[i].size(), v[i])
                yield '%s >= 0' % i, lambda v, st, i=i: v[i] >= 0
                b = If(one != 0, C(1, 32), wn)
                if L.cur[i].size() == 32:
                    yield '%s <= waiters' % i, lambda v, st, i=i, b=b: v[i] <= If(b > 0, b, 0)
                    yield 'posts + %s = waiters' % i, lambda v, st, i=i, b=b: st.g['n'] + z3.SignExt(32, v[i]) == z3.SignExt(32, b)
        def measures(self, L):
            b = z3.SignExt(32, If(one != 0, C(1, 32), wn))
            yield 'waiters - posts', lambda v, st: b - st.g['n']
    e.loopspec = L_(); e.write_idx = lambda st, i: z3.BoolVal(False)
    def hg(e, st): st.g['n'] = fresh('posts')
    e.havoc_ghost = hg
    for s, r in ctx.run(e, st.copy(), WAKE, [S.p, ev, sem, one], name='wake'):
        e.oblige(s, 'one-post-or-one-for-each-waiter', s.g['n'] == If(one != 0, C(1), If(wn > 0, z3.SignExt(32, wn), C(0))))
@unit('construct')
def u_new(ctx):
    S = UL(ctx); e, st = S.e, S.st; e.unroll = 130; e.loopspec = None; e.havoc_ghost = None
    def si(e, st, a, ins): st.g['sems'] = st.g.get('sems', []) + [a]; S.put(st, a[0], 32); return [(st, C(0, 32))]
    e.contracts['@sem_init'] = si
    def sl(v):
        def h(e, st, a, ins): e.oblige(st, 'its-own-spin-lock', a[0] == S.R.a(S.p, 'data_lock')); st.mem = st.mem.wr(a[0], C(v)); return [(st, None)]
        return h
    e.contracts[SPIN] = sl(1); e.contracts[UNSPIN] = sl(0)
    for s, r in ctx.run(e, st, M_ + 'C2EPv', [S.p, S.K]):
        f = S.cur(s); q = s.g.get('sems', [])
        e.oblige(s, 'new-lock-is-free', And(s.mem.rd(S.R.a(S.p, 'data_lock')) == 0, f.status == S.ne, f.addr == S.K, *[getattr(f, k) == 0 for k in ('total', 'rw', 'ww', 'wtask', 'wtid', 'wcount')], *[x == 0 for t in f.slots for x in t]))
        want = [S.R.a(S.p, x) for x in ('readers_waiting_sem', 'writers_waiting_sem', 'readers_done_sem')]
        e.oblige(s, 'semaphores-are-made-once-and-shared-between-processes', And(z3.BoolVal(len(q) == 3), *[Or(*[a[0] == w for a in q]) for w in want], *[a[1] != 0 for a in q]))
@unit('queries')
def u_q(ctx):
    S = UL(ctx); e, st = S.e, S.st; f = S.cur(st); a = sym('a'); e.may_write = lambda st, a, n: z3.BoolVal(False)
    for s, r in ctx.run(e, st, M_ + 'eqEPv', [S.p, a], name='eq'): e.oblige(s, 'equal-exactly-for-its-address', (r != 0) == (f.addr == a))
    for s, r in ctx.run(e, st, M_ + '7waitersEv', [S.p], name='waiters'): e.oblige(s, 'waiters-exactly-when-someone-waits', (r != 0) == Or(f.rw != 0, f.ww != 0))
INFO = dict(assumptions=['at most ten threads hold or seek read locks on one address; a thread never asks for the write lock while it holds only a read lock; only a holder unlocks', 'thread ids are unique in the system (Linux); counters stay below 2^20', 'sem_wait may return at any time (spurious wakeups are allowed); sem_post/sem_init as POSIX; sequential consistency', 'that a woken thread eventually runs (scheduling, fairness) is not proved'])
