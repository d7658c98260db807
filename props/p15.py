"""The lock table (sasmlock.cpp, saslockl.cpp, saslock.cpp): an address is hashed to a slot, the slot's list holds at most one
lock object named by the address; locking names a free object or adds one, all under the list's own lock. The lock objects are
used through the contracts of P14."""
from common import *
HDR = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <semaphore.h>\n#include <pthread.h>\n#include <errno.h>\n#include <new>\n#include <iostream>\n#define private public\n'
TEXT = HDR + '#include "sasulock.cpp"\n#include "sasmlock.cpp"\n#include "saslock.cpp"\ntypedef SasLockList<SasUserLock, vm_address_t> VList; typedef SasLockListNode<SasUserLock, vm_address_t> VNode;\n' + layout(dict(SasUserLock=['address'], SasMasterLock=['tableSize', 'slots'], VList=['headPtr', 'count', 'lock'], VNode=['item', 'next'])) + consts(dict(rd='SasUserLock__READ', wr='SasUserLock__WRITE', size='__SAS_SHMAP_MAX', addr='__SAS_TEMP_ADDRESS', ty='SAS_RUNTIME_LOCKTABLE', eexist='EEXIST', kml='kMasterLockSize'))
W_ = 'w_mlock.cpp'
SOURCES = [(W_, TEXT)]
U_, L_, M_ = '@_ZN11SasUserLock', '@_ZN11SasLockListI11SasUserLockPvE', '@_ZN13SasMasterLock'
LOCKNODE, UNLOCKNODE = L_ + '8lockNodeES1_22sas_userlock_request_t', L_ + '10unlockNodeES1_'
class LT:
    def __init__(s, ctx):
        s.e = e = ctx.engine([W_]); s.st = st = State(); s.U, s.M, s.L, s.N = [Rec(e, x) for x in ('SasUserLock', 'SasMasterLock', 'VList', 'VNode')]
        s.c = lambda n: gconst(e, 'vc_' + n)
        e.may_write = lambda st, a, n: z3.BoolVal(False); e.write_idx = lambda st, i: z3.BoolVal(False)
    def fobj(s, st, name, n): return ptr(st, name, n, 16)
class LL(LT):
    """one list: node is the ghost set of its nodes, rk their rank, ow the node of an item"""
    def __init__(s, ctx):
        LT.__init__(s, ctx); e, st = s.e, s.st; k = next(EG._ctr)
        s.l = ptr(st, 'list', s.L.size(), 16); s.lk = ptr(st, 'listlock', s.U.size(), 16); st.mem = st.mem.wr(s.L.a(s.l, 'lock'), s.lk); s.K = sym('key'); s.m = m = st.mem; s.head = m.rd(s.L.a(s.l, 'headPtr')); st.assume(s.K != 0, disjoint(s.l, s.L.size(), s.lk, s.U.size()))
        nd = z3.Function('node!%d' % k, BV(64), z3.BoolSort()); s.node = lambda x: nd(x); s.rk = z3.Function('rank!%d' % k, BV(64), BV(32)); s.ow = z3.Function('ow!%d' % k, BV(64), BV(64)); s.cnt = sym('n', 32)
        nx, it, ad = s.nx, s.it, s.ad; nd2 = s.node
        sep = lambda a, n: And(UGE(a, C(0x10000)), ULT(a, C(1 << 46)), a & 7 == 0, disjoint(a, n, s.l, s.L.size()), disjoint(a, n, s.lk, s.U.size()), Or(ULE(a + n, C(GLOB)), UGE(a, C(GLOB + 0x1_0000_0000))))
        st.assume(Implies(s.head != 0, nd2(s.head)),
            Q(['node'], lambda x: Implies(nd2(x), And(ULT(s.rk(x), s.cnt), sep(x, s.N.size()), sep(it(m, x), s.U.size()), s.ow(it(m, x)) == x, s.head != 0, Implies(s.rk(x) == 0, x == s.head))), name='nodes'),
            Q(['node'], lambda x: Implies(And(nd2(x), nx(m, x) != 0), And(nd2(nx(m, x)), s.rk(nx(m, x)) == s.rk(x) + 1)), name='next', hints=lambda x: [('node', nx(m, x))]),
            Q(['node', 'node'], lambda x, y: Implies(And(nd2(x), nd2(y), ULT(s.rk(x), s.rk(y))), nx(m, x) != 0), name='complete'),
            Q(['node', 'node'], lambda x, y: Implies(And(nd2(x), nd2(y), s.rk(x) == s.rk(y)), x == y), name='one-node-per-rank'),
            Q(['node', 'node'], lambda x, y: Implies(And(nd2(x), nd2(y), ad(m, x) == ad(m, y), ad(m, x) != 0), x == y), name='one-lock-per-address'), Implies(s.head != 0, s.rk(s.head) == 0))
        st.pool('node', s.head)
        e.access_pool = ('node',); st.g.update(held=z3.BoolVal(False), ev=[])
        s.reqs = {}
        e.contracts[U_ + '10write_lockEPS_Pv'] = s.lock('W'); e.contracts[U_ + '9read_lockEPS_Pv'] = s.lock('R'); e.contracts[U_ + '6unlockEv'] = s.unlock; e.contracts[U_ + 'C2EPv'] = s.construct; e.contracts['@SASNearAlloc'] = s.alloc
        e.on_access = s.access; e.loopspec = s
    def nx(s, m, x): return m.rd(s.N.a(x, 'next'))
    def it(s, m, x): return m.rd(s.N.a(x, 'item'))
    def ad(s, m, x): return m.rd(s.U.a(s.it(m, x), 'address'))
    def islist(s, e, st, a):
        d = simp(a - s.lk)
        if z3.is_bv_value(d) and d.as_long() == 0: return True
        e.oblige(st, 'lock-objects-of-the-list-are-not-the-list-lock', a != s.lk); return False
    def lock(s, k):
        def h(e, st, a, ins):
            if s.islist(e, st, a[0]):
                e.oblige(st, 'list-lock-taken-for-writing-once', And(z3.BoolVal(k == 'W'), Not(st.g['held']), a[1] == 0)); st.g['held'] = z3.BoolVal(True); return [(st, None)]
            m = st.mem; o = s.ow(a[0]); st.pool('node', o)
            e.oblige(st, 'locks-an-object-under-the-list-lock-and-hands-the-list-lock-over', And(st.g['held'], a[1] == s.lk, a[2] == s.K))
            new = st.g.get('newitem'); old = And(s.node(o), s.it(s.m, o) == a[0], m.rd(s.U.a(a[0], 'address')) == s.ad(s.m, o)); isnew = a[0] == new if new is not None else z3.BoolVal(False); av = m.rd(s.U.a(a[0], 'address'))
            e.oblige(st, 'locks-the-object-of-the-address-or-a-free-one', Or(And(old, Or(av == s.K, av == 0)), And(isnew, av == 0)))
            e.oblige(st, 'takes-another-object-only-when-the-address-has-none', Q(['node'], lambda x: Implies(And(s.node(x), s.ad(s.m, x) == s.K), o == x)), extra=[('node', o)], assume=False)
            st.g['held'] = z3.BoolVal(False); st.g['ev'] = st.g['ev'] + [(k, a[0])]; return [(st, None)]
        return h
    def unlock(s, e, st, a, ins):
        if s.islist(e, st, a[0]): e.oblige(st, 'list-lock-released-once', st.g['held']); st.g['held'] = z3.BoolVal(False); return [(st, None)]
        o = s.ow(a[0]); st.pool('node', o)
        e.oblige(st, 'unlocks-the-object-of-the-address-under-the-list-lock', And(st.g['held'], s.node(o), s.it(s.m, o) == a[0], s.ad(s.m, o) == s.K)); st.g['ev'] = st.g['ev'] + [('U', a[0])]; return [(st, None)]
    def construct(s, e, st, a, ins):
        e.oblige(st, 'constructs-in-its-own-storage', Or(*[And(a[0] == x, UGE(C(n), C(s.U.size()))) for x, n in st.g.get('st', []) if isinstance(n, int)])); st.mem = st.mem.wr(s.U.a(a[0], 'address'), a[1]); st.g['newitem'] = a[0]; return [(st, None)]
    def alloc(s, e, st, a, ins):
        e.oblige(st, 'storage-in-the-block-of-the-list', a[0] == s.l); n = num(a[1]); b = ptr(st, 'storage', n, 16); st.g['st'] = st.g.get('st', []) + [(b, n)]
        st.assume(disjoint(b, n, s.l, s.L.size()), disjoint(b, n, s.lk, s.U.size()), *[disjoint(b, n, x, k) for x, k in st.g['st'][:-1]], Q(['node'], lambda x: Implies(s.node(x), And(disjoint(x, s.N.size(), b, n), disjoint(s.it(s.m, x), s.U.size(), b, n))))); st.g['mayw'] = st.g.get('mayw', []) + [(b, n)]; return [(st, b)]
    def access(s, e, st, kind, addr, size, vol):
        if addr is None: return
        e.oblige(st, 'list-is-used-under-its-lock', Or(st.g['held'], within(addr, size, s.L.a(s.l, 'lock'), 8)))
    def cands(s, L):
        m = s.m; nds = L.ptrs
        for p in nds:
            yield p + ' node or null', lambda v, st, p=p: Or(v[p] == 0, s.node(v[p]))
            yield 'passed before ' + p, lambda v, st, p=p: Q(['node'], lambda x: Implies(And(s.node(x), Or(v[p] == 0, ULT(s.rk(x), s.rk(v[p])))), s.ad(m, x) != s.K), hints=lambda x: [('node', v[p]), ('node', s.nx(m, v[p]))])
            yield p + ' a free object', lambda v, st, p=p: Or(v[p] == 0, And(s.node(s.ow(v[p])), s.it(m, s.ow(v[p])) == v[p], s.ad(m, s.ow(v[p])) == 0))
            for q in nds:
                if p != q: yield 'no free object before %s unless %s' % (p, q), lambda v, st, p=p, q=q: Q(['node'], lambda x: Implies(And(v[q] == 0, s.node(x), Or(v[p] == 0, ULT(s.rk(x), s.rk(v[p])))), s.ad(m, x) != 0), hints=lambda x: [('node', v[p]), ('node', s.nx(m, v[p]))])
    def pools(s, L, hs, cur):
        for p in L.ptrs: hs.pool('node', cur[p], s.nx(s.m, cur[p]), s.ow(cur[p]))
    def measures(s, L):
        for p in L.ptrs: yield 'left ' + p, lambda v, st, p=p: If(v[p] == 0, C(0), zx(s.cnt - s.rk(v[p])))
@unit('lock-node', weight=3)
def u_lock(ctx):
    S = LL(ctx); e, st, m = S.e, S.st, S.m; ty = sym('request', 32); st.assume(Or(ty == S.c('rd'), ty == S.c('wr')))
    e.may_write = lambda st, a, n: Or(S.L.at(S.l, 'headPtr', a, n), S.L.at(S.l, 'count', a, n), *[within(a, n, b, k) for b, k in st.g.get('mayw', [])])
    for s, r in ctx.run(e, st, LOCKNODE, [S.l, S.K, ty]):
        ev = s.g['ev']; m2 = s.mem; new = s.g.get('newitem'); h2 = m2.rd(S.L.a(S.l, 'headPtr')); c = lambda m: m.rd(S.L.a(S.l, 'count'))
        e.oblige(s, 'locks-exactly-one-object-as-asked', And(z3.BoolVal(len(ev) == 1), *[(ty == S.c('rd')) == z3.BoolVal(k == 'R') for k, a in ev])); e.oblige(s, 'list-lock-handed-over', Not(s.g['held']))
        if new is None: e.oblige(s, 'list-unchanged', And(h2 == S.head, c(m2) == c(m)))
        else:
            e.oblige(s, 'new-object-only-when-none-is-free', Q(['node'], lambda x: Implies(S.node(x), S.ad(m, x) != 0)), assume=False)
            e.oblige(s, 'new-object-is-listed-before-the-others', And(S.nx(m2, h2) == S.head, S.it(m2, h2) == new, c(m2) == c(m) + 1, z3.BoolVal(len(ev) == 1 and ev[0][1].eq(new)), Not(S.node(h2)), h2 != 0))
        e.oblige(s, 'listed-objects-stay', Q(['node'], lambda x, m2=m2: Implies(S.node(x), And(S.it(m2, x) == S.it(m, x), S.nx(m2, x) == S.nx(m, x), S.ad(m2, x) == S.ad(m, x)))), assume=False)
@unit('unlock-node', weight=3)
def u_unlock(ctx):
    S = LL(ctx); e, st, m = S.e, S.st, S.m
    for s, r in ctx.run(e, st, UNLOCKNODE, [S.l, S.K]):
        ev = s.g['ev']; e.oblige(s, 'list-lock-released', Not(s.g['held'])); e.oblige(s, 'unlocks-at-most-once', z3.BoolVal(len(ev) <= 1))
        e.oblige(s, 'unlocks-whenever-the-address-has-a-lock', Q(['node'], lambda x, n=len(ev): Implies(And(S.node(x), S.ad(m, x) == S.K), n == 1)), assume=False)
@unit('list-new')
def u_new(ctx):
    S = LT(ctx); e, st = S.e, S.st; l = ptr(st, 'list', S.L.size(), 16); lk = ptr(st, 'newlock', S.U.size(), 16); st.assume(disjoint(l, S.L.size(), lk, S.U.size())); e.may_write = lambda st, a, n: within(a, n, l, S.L.size())
    def al(e, st, a, ins): e.oblige(st, 'storage-for-a-lock-beside-the-list', And(a[0] == l, UGE(a[1], C(S.U.size())))); return [(st, lk)]
    def con(e, st, a, ins): e.oblige(st, 'list-lock-without-an-address', And(a[0] == lk, a[1] == 0)); st.g['con'] = True; return [(st, None)]
    e.contracts['@SASNearAlloc'] = al; e.contracts[U_ + 'C2EPv'] = con
    for s, r in ctx.run(e, st, L_ + 'C2Ev', [l]): e.oblige(s, 'new-list-is-empty-with-a-lock-of-its-own', And(s.mem.rd(S.L.a(l, 'headPtr')) == 0, s.mem.rd(S.L.a(l, 'count')) == 0, s.mem.rd(S.L.a(l, 'lock')) == lk, z3.BoolVal(s.g.get('con', False))))
@unit('hash')
def u_hash(ctx):
    S = LT(ctx); e, st = S.e, S.st; k = ptr(st, 'key', 8, 8); e.unroll = 20; t = [C(e.gaddr(e.modules[0], n)) for n, v in e.modules[0].globals.items() if 'XOMA1HASHTABLE' in n]
    def acc(e, st, kind, addr, size, vol): e.oblige(st, 'the-hash-depends-on-the-address-alone', And(z3.BoolVal(kind in ('load', 'store')), Or(within(addr, size, k, 8), UGE(addr, C(STACK)), *[within(addr, size, x, 256) for x in t])))
    e.on_access = acc; e.null_check = False
    for s, r in ctx.run(e, st, M_ + '4hashEPv', [sym('this'), k]): e.oblige(s, 'key-left-alone', s.mem.rd(k) == st.mem.rd(k))
@unit('master-lock')
def u_ml(ctx):
    S = LT(ctx); e, st = S.e, S.st; ml = ptr(st, 'master', S.M.size(), 16); sl = ptr(st, 'slots', 8 * 256, 16); st.mem = st.mem.wr(S.M.a(ml, 'slots'), sl); st.assume(disjoint(ml, S.M.size(), sl, 8 * 256)); m = st.mem; A, ty = sym('addr'), sym('request', 32); H = z3.Function('hash!%d' % next(EG._ctr), BV(64), BV(64))
    st.assume(Q(['ix'], lambda i: Implies(ULT(i, C(256)), m.rd(sl + 8 * i) != 0)))
    def hs(e, st, a, ins): return [(st, H(e.load(st, a[1], 8)))]
    hs.pure = True; e.contracts[M_ + '4hashEPv'] = hs
    def log(k, n):
        def h(e, st, a, ins):
            i = H(A) & 255; e.oblige(st, k + '-in-the-slot-of-the-address', And(a[0] == m.rd(sl + 8 * i), a[1] == A, *([a[2] == ty] if n > 2 else []))); st.g['ev'] = st.g.get('ev', []) + [k]; return [(st, None)]
        return h
    st.pool('ix', H(A) & 255); e.contracts[LOCKNODE] = log('lock', 3); e.contracts[UNLOCKNODE] = log('unlock', 2)
    for fn, a, w in ((M_ + '4lockEPv22sas_userlock_request_t', [ml, A, ty], 'lock'), (M_ + '6unlockEPv', [ml, A], 'unlock')):
        for s, r in ctx.run(e, st.copy(), fn, a, name=w): e.oblige(s, 'exactly-once', z3.BoolVal(s.g.get('ev') == [w]))
    g = C(e.gaddr(e.modules[0], '@_ZL2ml')); st.mem = m = st.mem.wr(g, ml)
    for fn, a, w in (('@SASLock', [A, ty], 'lock'), ('@SASUnlock', [A], 'unlock')):
        for s, r in ctx.run(e, st.copy(), fn, a, name=fn[1:]): e.oblige(s, 'exactly-once', z3.BoolVal(s.g.get('ev') == [w]))
@unit('table-new', weight=2)
def u_table(ctx):
    S = LT(ctx); e, st = S.e, S.st; ml = ptr(st, 'master', S.M.size(), 16); gtop = C((1 << 60) | 1, 61); g = lambda m: m.word(None, 0, gtop); T = S.c('kml')
    st.mem = st.mem.store(None, 0, gtop, C(0)); st.g['made'] = []; sl = ptr(st, 'slots', 8 * T, 16); st.assume(disjoint(ml, S.M.size(), sl, 8 * T)); lo = ptr(st, 'arena', 1 << 20, 16); st.assume(disjoint(lo, 1 << 20, ml, S.M.size()), disjoint(lo, 1 << 20, sl, 8 * T))
    done = z3.Function('constructed!%d' % next(EG._ctr), BV(64), z3.BoolSort()); sz = S.L.size()
    e.may_write = lambda st, a, n: Or(within(a, n, ml, S.M.size()), within(a, n, sl, 8 * T)); e.write_idx = lambda st, i: Or(i == gtop, And(UGE(i, z3.Extract(63, 3, sl)), ULT(i, z3.Extract(63, 3, sl) + T)))
    def al(e, st, a, ins):
        e.oblige(st, 'storage-beside-the-master-lock', a[0] == ml); n = num(simp(a[1]))
        if n is None or n >= 8 * T: e.oblige(st, 'table-fits', ULE(a[1], C(8 * T))); return [(st, sl)]
        k = g(st.mem); e.oblige(st, 'storage-for-a-list', UGE(a[1], C(sz))); b = simp(lo + k); st.mem = st.mem.store(None, 0, gtop, k + C(64)); st.assume(ULT(k, C(1 << 19))); return [(st, b)]
    def con(e, st, a, ins): st.assume(done(a[0])); e.oblige(st, 'constructs-the-list-just-allocated', a[0] == lo + g(st.mem) - 64); return [(st, None)]
    e.contracts['@SASNearAlloc'] = al; e.contracts[L_ + 'C2Ev'] = con
    class LS:
        def cands(self, L):
            for i in L.ints:
                x = lambda v, i=i: zx(v[i])
                yield 'lists so far %s' % i, lambda v, st, x=x: g(st.mem) == 64 * x(v)
                yield '%s <= size' % i, lambda v, st, x=x: ULE(x(v), C(T))
                yield 'slots before %s' % i, lambda v, st, x=x: Q(['ix'], lambda j, m=st.mem, n=x(v): Implies(ULT(j, n), And(m.rd(sl + 8 * j) == lo + 64 * j, done(lo + 64 * j))))
        def pools(self, L, hs, cur):
            for i in L.ints: hs.pool('ix', zx(cur[i]))
        def measures(self, L):
            for i in L.ints: yield 'left ' + i, lambda v, st, i=i: C(T) - zx(v[i])
    e.loopspec = LS(); sz_ = sym('size', 32); st.assume(sz_ == T)
    for s, r in ctx.run(e, st, M_ + 'C2Ej', [ml, C(T, 32)]):
        e.oblige(s, 'table-of-256-slots', And(s.mem.rd(S.M.a(ml, 'tableSize'), 4) == T, s.mem.rd(S.M.a(ml, 'slots')) == sl, T == 256))
        e.oblige(s, 'every-slot-has-a-list-of-its-own', Q(['ix'], lambda j, m=s.mem: Implies(ULT(j, C(T)), And(m.rd(sl + 8 * j) == lo + 64 * j, done(lo + 64 * j)))), assume=False)
@unit('init')
def u_init(ctx):
    S = LT(ctx); e, st = S.e, S.st; mod = e.modules[0]; g = C(e.gaddr(mod, '@_ZL2ml')); own = C(e.gaddr(mod, '@SasLockOwner')); idg = [C(e.gaddr(mod, n)) for n in mod.globals if 'SasLockMemID' in n]; mlp, special = ptr(st, 'newmaster', S.M.size(), 16), sym('special'); rc = sym('rc', 32); er = ptr(st, 'errno', 4, 8); 
    W = lambda a, n: Or(a == g, a == own, *[a == x for x in idg]); e.may_write = lambda st, a, n: W(a, n)
    ad = C(S.c('addr')); EE = S.c('eexist'); ev = lambda st, x: st.g.__setitem__('ev', st.g.get('ev', []) + [x])
    def shm(e, st, a, ins): e.oblige(st, 'attaches-the-lock-segment', And(a[2] == ad, a[3] == S.c('size'), a[1] == 76)); ev(st, 'shm'); return [(st, rc)]
    def errno(e, st, a, ins): return [(st, er)]
    errno.pure = True
    def heap(e, st, a, ins): e.oblige(st, 'heap-over-the-lock-segment', And(a[0] == ad, a[1] == S.c('ty'), a[2] == S.c('size'))); ev(st, 'heap'); return [(st, ad)]
    def al(e, st, a, ins): e.oblige(st, 'master-lock-in-the-segment', And(a[0] == ad, UGE(a[1], C(S.M.size())))); ev(st, 'new'); return [(st, mlp)]
    def con(e, st, a, ins): e.oblige(st, 'master-lock-of-that-size', And(a[0] == mlp, a[1] == S.c('kml'))); ev(st, 'con'); return [(st, None)]
    def sets(e, st, a, ins): e.oblige(st, 'master-lock-found-by-others', And(a[0] == ad, a[1] == mlp)); ev(st, 'set'); return [(st, None)]
    def gets(e, st, a, ins): e.oblige(st, 'master-lock-of-the-segment', a[0] == ad); ev(st, 'get'); return [(st, special)]
    for n, h in {'@__errno_location': errno, '@SASNearAlloc': al, M_ + 'C2Ej': con}.items(): e.contracts[n] = h
    for n in set(ins.a[0][1] for f in ('@SASLockInit', '@SASLockReset') for b in mod.fns[f].order for ins in mod.fns[f].blocks[b].ins if ins.op == 'call' and ins.a[0][0] == 'g'):
        for k, h in (('SASAllocateShmNameProj', shm), ('SASSimpleHeapInit', heap), ('setSASBlockSpecial', sets), ('getSASBlockSpecial', gets)):
            if k in n: e.contracts[n] = h
    for s, r in ctx.run(e, st.copy(), '@SASLockInit', [], name='init'):
        v = s.g.get('ev', []); er_ = e.rawload(s, s.mem, er, 0, 4); q = s.mem.rd(g)
        e.oblige(s, 'first-process-builds-the-table-others-find-it', If(rc == -1, z3.BoolVal(v == ['shm']), If(er_ != EE, And(z3.BoolVal(v == ['shm', 'heap', 'new', 'con', 'set']), q == mlp), And(z3.BoolVal(v == ['shm', 'get']), q == special))))
    st2 = st.copy(); st2.assume(st2.mem.rd(g) != 0)
    for s, r in ctx.run(e, st2, '@SASLockReset', [], name='reset'):
        e.oblige(s, 'reset-builds-a-new-table', And(z3.BoolVal(s.g.get('ev') == ['new', 'con', 'set']), s.mem.rd(g) == mlp))
INFO = dict(assumptions=['lock objects through their contracts (P14)', 'addresses locked are not NULL; storage for a lock object is available', 'SASNearAlloc returns storage disjoint from all storage in use (P03)', 'shared memory segment calls as documented'])
