"""Simple stacks and simple spaces: push-down allocation, popping, fixed subranges of a block."""
from common import *
SC = dict(BCONST, ty='SAS_RUNTIME_SIMPLESTACK', page='DEFAULT_PAGE')
PC = dict(BCONST, ty='SAS_RUNTIME_SIMPLESPACE', page='DEFAULT_PAGE')
T1 = '#include "sassimplestack.cpp"\n' + layout(dict(BLOCK, SASSimpleStackHeader=['next_stack', 'start_stack', 'end_stack', 'align_mask', 'headerFreeSpace'], FreeNode=['nextNode', 'nodeSize'])) + consts(SC)
T2 = '#include "sassimplespace.cpp"\n' + layout(dict(BLOCK, SASSimpleSpaceHeader=['start_space', 'end_space', 'end_alloc', 'align_mask', 'headerFreeSpace'], FreeNode=['nextNode', 'nodeSize'])) + consts(PC)
W1, W2 = 'w_stack.cpp', 'w_space.cpp'
SOURCES = [(W1, T1), (W2, T2), 'freenode.c', 'sasalloc.cpp']
def r16(x): return (x + 15) & C(~15)
class SK:
    def __init__(s, ctx, valid=False, space=False):
        s.space = space
        s.e = e = ctx.engine([W2 if space else W1, 'freenode.c', 'sasalloc.cpp']); s.st = st = State(); s.B = Rec(e, 'SASBlockHeader'); s.H = Rec(e, 'SASSimpleSpaceHeader' if space else 'SASSimpleStackHeader')
        s.size = sym('size'); st.assume(UGE(s.size, C(4096 + 512)), ULE(s.size, C(2**40)), (s.size & 255) == 0)
        s.b = ptr(st, 'block', s.size, 4096); m = s.m = st.mem
        s.ok = type_ok(e, m, s.b, 'ty'); s.ok2 = subtype_ok(e, m, s.b, 'ty'); st.assume(Implies(s.ok2, s.ok))
        if valid: st.assume(s.ok)
        st.assume(Implies(s.ok, s.bf(m, 'blockSize') == s.size))
        s.page = C(gconst(e, 'vc_page'))
        if space: st.assume(Implies(s.ok, And(*s.shape(m))))
        else: st.assume(Implies(s.ok, And(*s.inv(m))))
        lockstubs(e); s.locked = False
        cur = s.H.a(s.b, 'end_space' if space else 'next_stack')
        def acc(e, st, kind, addr, size, vol):
            if s.locked and kind != 'fence': e.oblige(st, 'stack-top-is-used-under-the-lock', Or(z3.BoolVal(s.held(st)), Not(And(UGE(addr, s.b + C(64)), ULT(addr, s.b + s.page)))))
        e.on_access = acc
        e.may_write = lambda st, a, n: z3.BoolVal(False)
    def held(s, st): return bool(st.g.get('locks')) and st.g['locks'][-1][0] == 'lock'
    def bf(s, m, n): return s.B.rd(m, s.b, n)
    def f(s, m, n): return s.H.rd(m, s.b, n)
    def inv(s, m):
        n, a, z = (s.f(m, k) for k in ('next_stack', 'start_stack', 'end_stack'))
        return [a == s.b + s.page, z == s.b + s.size, UGE(n, a), ULE(n, z), (n & 15) == 0, s.f(m, 'align_mask') == C(~15)]
    def shape(s, m):
        a, z, t = (s.f(m, k) for k in ('start_space', 'end_space', 'end_alloc'))
        return [a == s.b + s.page, t == s.b + s.size, UGE(z, a), ULE(z, t)]
    def locks(s, st, on):
        L = st.g.get('locks', [])
        s.e.oblige(st, 'lock-released-and-paired', And(z3.BoolVal([x[0] for x in L] == ['lock', 'unlock']), L[0][1] == s.b, L[1][1] == s.b, L[0][2] == 1) if L else Not(on))
def alloc(fn, locked=False, near=False):
    @unit('stack' + fn)
    def u(ctx):
        S = SK(ctx); e, st, m = S.e, S.st, S.m; S.locked = locked; n = sym('n'); a0 = S.b; found = z3.BoolVal(True)
        if near:
            a0 = sym('near'); found = z3.Bool('found')
            def find(e, st, args, ins): e.oblige(st, 'searches-from-the-object', args[0] == a0); return [(st, If(found, S.b, C(0)))]
            e.contracts['@SASFindHeader'] = find
        e.may_write = lambda s, a, k: And(a == S.H.a(S.b, 'next_stack'), k == 8)
        sp = S.f(m, 'next_stack'); on = And(found, S.ok); room = S.f(m, 'end_stack') - sp
        for s, r in ctx.run(e, st, fn, [a0, n]):
            fits = And(on, ULE(n, room), ULE(r16(n), room)); m2 = s.mem
            e.oblige(s, 'space-is-the-former-top-aligned-and-inside-the-stack', If(fits, And(r == sp, (r & 15) == 0, UGE(r, S.f(m, 'start_stack')), ULE(n, S.f(m, 'end_stack') - r)), r == 0))
            e.oblige(s, 'top-moves-by-exactly-the-aligned-size', S.f(m2, 'next_stack') == If(fits, sp + r16(n), sp))
            e.oblige(s, 'stack-stays-well-formed', Implies(S.ok, And(*S.inv(m2))))
            S.locks(s, on if locked else z3.BoolVal(False))
alloc('@SASSimpleStackAllocNoLock'); alloc('@SASSimpleStackAlloc', True); alloc('@SASSimpleStackNearAllocNoLock', False, True); alloc('@SASSimpleStackNearAlloc', True, True)
def dealloc(fn, locked):
    @unit('stack' + fn)
    def u(ctx):
        S = SK(ctx); e, st, m = S.e, S.st, S.m; S.locked = locked; p = sym('pointer')
        e.may_write = lambda s, a, k: And(a == S.H.a(S.b, 'next_stack'), k == 8)
        for s, r in ctx.run(e, st, fn, [S.b, p]):
            good = And(S.ok, UGE(p, S.f(m, 'start_stack')), ULE(p, S.f(m, 'end_stack')), (p & 15) == 0); m2 = s.mem
            e.oblige(s, 'pops-exactly-to-aligned-positions-inside-the-stack', And((r == 0) == good, S.f(m2, 'next_stack') == If(good, p, S.f(m, 'next_stack'))))
            e.oblige(s, 'stack-stays-well-formed', Implies(S.ok, And(*S.inv(m2))))
            S.locks(s, S.ok if locked else z3.BoolVal(False))
dealloc('@SASSimpleStackDeallocNoLock', False); dealloc('@SASSimpleStackDealloc', True)
def free(fn, locked, space):
    @unit('free' + fn)
    def u(ctx):
        S = SK(ctx, space=space); e, st, m = S.e, S.st, S.m; S.locked = locked
        for s, r in ctx.run(e, st, fn, [S.b]):
            e.oblige(s, 'free-space-is-what-is-left', r == If(S.ok, S.f(m, 'end_alloc') - S.f(m, 'end_space') if space else S.f(m, 'end_stack') - S.f(m, 'next_stack'), C(0)))
            S.locks(s, S.ok if locked else z3.BoolVal(False))
free('@SASSimpleStackFreeSpaceNoLock', False, False); free('@SASSimpleStackFreeSpace', True, False); free('@SASSimpleSpaceFreeSpaceNoLock', False, True); free('@SASSimpleSpaceFreeSpace', True, True)
@unit('destroy')
def u_destroy(ctx):
    for k in ('Stack', 'Space'):
        for nl in ('NoLock', ''):
            S = SK(ctx, space=k == 'Space'); e, st = S.e, S.st
            def dl(e, st, args, ins): st.g['ev'] = st.g.get('ev', []) + [args]; return [(st, None)]
            e.contracts['@SASBlockDealloc'] = dl
            for s, r in ctx.run(e, st, '@SASSimple%sDestroy%s' % (k, nl), [S.b], name=k + nl):
                d = s.g.get('ev', [])
                e.oblige(s, 'gives-back-exactly-the-block', If(S.ok2, And(r == 0, *([z3.BoolVal(len(d) == 1)] + ([d[0][0] == S.b, d[0][1] == S.size] if d else []))), And(r != 0, z3.BoolVal(not d))))
                S.locks(s, S.ok2 if not nl else z3.BoolVal(False))
@unit('init')
def u_init(ctx):
    for create in (False, True):
        S = SK(ctx); e, st = S.e, S.st; null = z3.Bool('null'); e.may_write = lambda s, a, n: within(a, n, S.b, 4096)
        if create:
            def al(e, st, args, ins): e.oblige(st, 'asks-for-a-block-of-that-size', args[0] == S.size); return [(st, If(null, C(0), S.b))]
            e.contracts['@SASBlockAlloc'] = al
        for s, r in ctx.run(e, st, '@SASSimpleStackCreate' if create else '@SASSimpleStackInit', [S.size] if create else [S.b, S.size], name='stack'):
            m2 = s.mem; ok = And(r == S.b, *S.inv(m2), S.f(m2, 'next_stack') == S.f(m2, 'start_stack'), type_ok(e, m2, S.b, 'ty'), subtype_ok(e, m2, S.b, 'ty'), S.bf(m2, 'blockSize') == S.size)
            e.oblige(s, 'new-stack-is-empty', If(null, r == 0, ok) if create else ok)
@unit('space-init')
def u_sinit(ctx):
    for create in (False, True):
        S = SK(ctx, space=True); e, st = S.e, S.st; null = z3.Bool('null'); n = sym('n'); asked = sym('asked')
        e.may_write = lambda s, a, k: within(a, k, S.b, 4096)
        if create:
            def al(e, st, args, ins):
                a = args[0]; st.g['asked'] = a
                e.oblige(st, 'asks-for-a-power-of-two-that-holds-the-space-and-its-header', And(a != 0, (a & (a - 1)) == 0, UGE(a, C(8192)), ULE(n, a), UGE(a - n, C(4096)), UGE(a >> 1, C(8192)) == And(UGE(a >> 1, C(8192)), UGT(n + 4096, a >> 1))))
                return [(st, If(And(a == S.size, Not(null)), S.b, C(0)))]
            e.contracts['@SASBlockAlloc'] = al
            class Pow2:
                def cands(s, L):
                    for k in L.ints:
                        yield ('%s is a power of two' % k, lambda v, st, k=k: And(v[k] != 0, (v[k] & (v[k] - 1)) == 0, UGE(v[k], C(8192))))
                        yield ('half of %s is too small' % k, lambda v, st, k=k: Or(v[k] == 8192, UGT(n + 4096, v[k] >> 1)))
                def measures(s, L):
                    for k in L.ints: yield ('room below 2^63 ' + k, lambda v, st, k=k: C(2**63) - v[k])
                def pools(s, L, hs, cur): pass
            e.loopspec = Pow2()
        else: st.assume(ULE(n, S.size - S.page))
        for s, r in ctx.run(e, st, '@SASSimpleSpaceCreate' if create else '@SASSimpleSpaceInit', [n] if create else [S.b, S.size, n], name='space'):
            m2 = s.mem; ok = And(r == S.b, *S.shape(m2), S.f(m2, 'end_space') == S.f(m2, 'start_space') + n, type_ok(e, m2, S.b, 'ty'), subtype_ok(e, m2, S.b, 'ty'), S.bf(m2, 'blockSize') == S.size)
            e.oblige(s, 'space-of-the-requested-size-behind-the-header', If(r == 0, z3.BoolVal(create), ok))
            if create:
                e.oblige(s, 'fails-only-without-a-block', Implies(ULE(n, C(2**40)), z3.BoolVal('asked' in s.g)))
                if 'asked' in s.g: e.oblige(s, 'fails-only-without-a-block-of-that-size', (r == 0) == Not(And(s.g['asked'] == S.size, Not(null))))
@unit('space-addresses')
def u_addr(ctx):
    S = SK(ctx, space=True); e, st = S.e, S.st
    for s, r in ctx.run(e, st, '@SASSimpleSpaceToAddr', [S.b]): e.oblige(s, 'address-of-the-space', r == If(S.ok, S.b + S.page, C(0)))
    S = SK(ctx, space=True); e, st = S.e, S.st
    for s, r in ctx.run(e, st, '@SASSimpleSpaceFromAddr', [S.b + S.page]): e.oblige(s, 'handle-of-the-space', r == If(S.ok, S.b, C(0)))
INFO = dict(assumptions=['blocks are multiples of 256 bytes larger than the 4 KB header page', 'callers of the NoLock variants serialise themselves, as documented', 'SASBlockAlloc, SASBlockDealloc, SASFindHeader, SASLock through their contracts (P02, P08, P14)'])
