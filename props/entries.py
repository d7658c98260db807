"""Field append / field read of event entries: shared by the log entry and queue entry APIs."""
from run import *
TYPES = [('Char', 'char', 1), ('Short', 'short', 2), ('Int', 'int', 4), ('Long', 'long', 8), ('Ptr', 'void *', 8), ('LongLong', 'long long', 8), ('Float', 'float', 4), ('Double', 'double', 8)]
def text(header, H, pre, pre2):
    t = '#include <stdlib.h>\n#include <string.h>\n#include "sasalloc.h"\n#include "%s"\n' % header
    for n, c, k in TYPES:
        t += 'int w_add%s (%s *h, %s v) { return %sAdd%s (h, v); }\n' % (n, H, c, pre2, n)
        t += '%s w_get%s (%s *h) { return %sGetNext%s (h); }\n' % (c, n, H, pre2, n)
    t += 'int w_addString (%s *h, const char *v) { return %sAddString (h, v); }\n' % (H, pre2)
    t += 'char *w_getString (%s *h) { return %sGetNextString (h); }\n' % (H, pre2)
    t += 'void *w_alloc (%s *h, unsigned long s, unsigned long a) { return %sAllocStruct (h, s, a); }\n' % (H, pre2)
    t += 'void *w_getst (%s *h, unsigned long s, unsigned long a) { return %sGetStructPtr (h, s, a); }\n' % (H, pre2)
    t += 'void *w_free (%s *h) { return %sGetFreePtr (h); }\n' % (H, pre)
    for f in ('StrongComplete', 'WeakComplete', 'Complete', 'IsComplete', 'IsTimestamped', 'Category', 'Subcat'):
        t += 'int w_%s (%s *h) { return %s%s (h); }\n' % (f, H, pre, f)
    t += 'unsigned long w_TimeStamp (%s *h) { return %sTimeStamp (h); }\n' % (H, pre)
    for f in ('PID', 'TID'): t += 'unsigned w_%s (%s *h) { return %s%s (h); }\n' % (f, H, pre, f)
    t += 'void *w_Header (%s *h) { return %sHeader (h); }\n' % (H, pre)
    return t

def build(fname, tag):
    def handle(e, st, name='h'):
        h = ptr(st, name, 24); return h
    def nxt(m, h): return m.rd(h + 8)
    def rem(m, h): return z3.ZeroExt(48, m.rd(h + 18, 2))
    def inv(st, m, h):
        """a handle on a well-formed entry: the free part ends at the entry's end, a multiple of 16"""
        n, r = nxt(m, h), rem(m, h)
        return And(UGE(n, C(0x10000)), ULT(n, C(USERTOP)), ((n + r) & 15) == 0, disjoint(n, r, h, 24))
    def unchanged(m, m2, h): return And(*[m2.rd(h + 8 * i) == m.rd(h + 8 * i) for i in range(3)])
    def adv(m, m2, h, p, size):
        """next/remaining describe the rest after the field at p; entry pointer and total size stay"""
        n, r = nxt(m, h), rem(m, h)
        return And(nxt(m2, h) == p + size, rem(m2, h) == n + r - (p + size), m2.rd(h) == m.rd(h), m2.rd(h + 16, 2) == m.rd(h + 16, 2))
    def align(n, k): return (n + (k - 1)) & C(~(k - 1))
    def fval(m, p, size):
        v = byte_at(m, p)
        for i in range(1, size): v = z3.Concat(byte_at(m, p + i), v)
        return v
    def base(ctx):
        e = ctx.engine([fname]); st = State(); h = handle(e, st)
        st.assume(inv(st, st.mem, h)); return e, st, h
    def frame(h, lo, n): return lambda s, p, k: Or(within(p, k, h + 8, 8), within(p, k, h + 18, 2), within(p, k, lo, n))

    for n, c, k in TYPES:
        def u_scalar(ctx, n=n, k=k):
            e, st, h = base(ctx); m = st.mem; v = sym('v', 8 * k)
            p = align(nxt(m, h), k); end = nxt(m, h) + rem(m, h); fits = ULE(p + k, end)
            e.may_write = frame(h, p, k)
            g = handle(e, st, 'g'); st.assume(disjoint(g, 24, h, 24), *[m.rd(g + 8*i) == m.rd(h + 8*i) for i in range(3)], disjoint(nxt(m, h), rem(m, h), g, 24))
            for s, r in ctx.run(e, st, '@w_add' + n, [h, v]):
                m2 = s.mem
                e.oblige(s, 'add-success-iff-fits', And(Implies(fits, r == 0), Implies(Not(fits), r == -1)))
                e.oblige(s, 'add-stored', Implies(fits, And(fval(m2, p, k) == v, adv(m, m2, h, p, k))))
                e.oblige(s, 'add-failure-changes-nothing', Implies(Not(fits), unchanged(m, m2, h)))
                # read back through a second handle on the same entry
                e.may_write = frame(g, g + 8, 0)
                for s2, w in ctx.run(e, s, '@w_get' + n, [g], cover=False):
                    e.oblige(s2, 'get-returns-what-add-stored', Implies(fits, And(w == v, nxt(s2.mem, g) == nxt(s2.mem, h), rem(s2.mem, g) == rem(s2.mem, h))))
                e.may_write = frame(h, p, k)
            e2, st, h = base(ctx); m = st.mem; p = align(nxt(m, h), k); end = nxt(m, h) + rem(m, h); fits = ULE(p + k, end)
            e2.may_write = frame(h, h + 8, 0)
            for s, r in ctx.run(e2, st, '@w_get' + n, [h]):
                e2.oblige(s, 'get', If(fits, And(r == fval(m, p, k), adv(m, s.mem, h, p, k)), And(r == 0, unchanged(m, s.mem, h))))
        unit(tag + '-scalar-' + n, 2)(u_scalar)

    @unit(tag + '-string', 4)
    def u_string(ctx):
        e, st, h = base(ctx); m = st.mem; v = ptr(st, 'v', 1, 1)
        n, r0 = nxt(m, h), rem(m, h); end = n + r0
        kk = sym('anyindex'); st.pool('sidx', kk); st.pool('baddr', h, h + 8)
        e.may_write = lambda s, p, k: Or(within(p, k, h + 8, 8), within(p, k, h + 18, 2), within(p, k, n, r0))
        for s, r in ctx.run(e, st, '@w_addString', [h, v]):
            ls = s.g.get('strlens', []); assert ls, 'no strlen'
            L = ls[0][1]; m2 = s.mem
            s.assume(disjoint(v, L + 1, n, r0), disjoint(v, L + 1, h, 24), disjoint(v, L + 1, C(GLOB), 2**32), ULT(v + L + 1, C(USERTOP)))
            fits = ULE(L + 1, r0)
            for q in range(24): s.pool('baddr', h + q)
            e.oblige(s, 'add-success-iff-fits', And(Implies(fits, r == 0), Implies(Not(fits), r == -1)))
            e.oblige(s, 'add-advances', Implies(fits, And(nxt(m2, h) == n + L + 1, rem(m2, h) == r0 - (L + 1), m2.rd(h) == m.rd(h), m2.rd(h + 16, 2) == m.rd(h + 16, 2))))
            e.oblige(s, 'add-stored', Implies(And(fits, ULE(kk, L)), byte_at(m2, n + kk) == byte_at(m, v + kk)))
            e.oblige(s, 'add-failure-changes-nothing', Implies(Not(fits), unchanged(m, m2, h)))
        e, st, h = base(ctx); m = st.mem; n, r0 = nxt(m, h), rem(m, h)
        e.may_write = frame(h, h + 8, 0)
        for s, r in ctx.run(e, st, '@w_getString', [h]):
            ls = s.g.get('strlens', []); L = ls[0][1] if ls else None
            if L is None: e.fail(s, 'get-string', 'length not taken'); continue
            fits = ULE(L + 1, r0)
            e.oblige(s, 'get', If(fits, And(r == n, adv(m, s.mem, h, n, L + 1)), And(r == 0, unchanged(m, s.mem, h))))

    for f in ('w_alloc', 'w_getst'):
        def u_struct(ctx, f=f):
            e, st, h = base(ctx); m = st.mem; size, al = sym('size'), sym('align')
            st.assume(al != 0, (al & (al - 1)) == 0, ULE(al, C(2**40)))
            n, r0 = nxt(m, h), rem(m, h)
            p = (n + (al - 1)) & ~(al - 1); end = n + r0; fits = And(ULE(p, end), ULE(size, end - p))
            e.may_write = frame(h, h + 8, 0)
            for s, r in ctx.run(e, st, '@' + f, [h, size, al]):
                e.oblige(s, 'struct-space', If(fits, And(r == p, nxt(s.mem, h) == p + size, rem(s.mem, h) == end - (p + size), s.mem.rd(h) == m.rd(h), s.mem.rd(h + 16, 2) == m.rd(h + 16, 2)),
                                               And(r == 0, unchanged(m, s.mem, h))))
        unit(tag + '-struct-' + f)(u_struct)

    @unit(tag + '-header')
    def u_header(ctx):
        e = ctx.engine([fname]); st = State(); h = handle(e, st); m = st.mem
        en = m.rd(h); st.assume(UGE(en, C(0x10000)), ULT(en, C(USERTOP)), (en & 7) == 0, disjoint(h, 24, en, 16), disjoint(en, 16, C(GLOB), 2**32))
        idu = m.rd(en, 4); valid = (idu & 1) == 1; ts = (idu & 2) == 2
        e.may_write = lambda s, p, k: within(p, k, en, 4)
        for f in ('StrongComplete', 'WeakComplete', 'Complete'):
            for s, r in ctx.run(e, st.copy(), '@w_' + f, [h]):
                e.oblige(s, f + '-sets-only-the-valid-flag', And(r == 0, s.mem.rd(en, 4) == idu | 1))
        e.may_write = lambda s, p, k: z3.BoolVal(False)
        for f, spec in (('IsComplete', lambda r: (r != 0) == valid), ('IsTimestamped', lambda r: (r != 0) == And(valid, ts)),
                        ('TimeStamp', lambda r: r == If(And(valid, ts), m.rd(en + 8), C(0))),
                        ('PID', lambda r: r == If(And(valid, ts), z3.ZeroExt(16, m.rd(en + 4, 2)), C(0, 32))),
                        ('TID', lambda r: r == If(And(valid, ts), z3.ZeroExt(16, m.rd(en + 6, 2)), C(0, 32))),
                        ('Header', lambda r: r == If(valid, en, C(0))),
                        ('Category', lambda r: r == If(valid, z3.ZeroExt(20, z3.Extract(15, 4, idu)), C(-1, 32))),
                        ('Subcat', lambda r: r == If(valid, z3.ZeroExt(24, z3.Extract(23, 16, idu)), C(-1, 32)))):
            for s, r in ctx.run(e, st.copy(), '@w_' + f, [h]): e.oblige(s, f, spec(r))
        for s, r in ctx.run(e, st.copy(), '@w_free', [h]): e.oblige(s, 'free-pointer', r == nxt(m, h))
