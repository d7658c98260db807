"""Bit vectors as bounded integers: a sound over-approximation used to *prove* obligations.

Every bit-vector term becomes an integer in [0, 2^n); sums carry an explicit multiple of 2^n, extracts and
constant shifts are quotients and remainders, everything else is an unconstrained integer of its own.
Each model of the original yields a model of the translation, so unsat here is unsat there."""
import z3
class Tr:
    def __init__(s): s.c = {}; s.side = []; s.fns = {}; s.n = 0; s.deps = {}
    def fresh(s, n, bits=None):
        s.n += 1; v = z3.Int('%s~%d' % (n, s.n)); return v
    def rng(s, v, bits): s.add(v >= 0, v < (1 << bits))
    def add(s, *fs): s.cur.extend(fs)
    def tr(s, e):
        """translation of e; side conditions of e and its subterms are collected per term"""
        k = e.get_id(); r = s.c.get(k)
        if r is not None: return r[1]
        # iterative post-order to keep recursion shallow
        st = [e]
        while st:
            x = st[-1]; kx = x.get_id()
            if kx in s.c: st.pop(); continue
            ch = [y for y in x.children() if y.get_id() not in s.c]
            if ch: st.extend(ch); continue
            st.pop(); s.cur = []
            v = s.node(x)
            s.c[kx] = (x, v, tuple(s.cur))
        return s.c[k][1]
    def g(s, x): return s.c[x.get_id()][1]
    def modular(s, val, n, lo, hi):
        """val in [lo, hi] reduced modulo 2^n"""
        M = 1 << n
        if lo >= 0 and hi < M: return val
        v = s.fresh('w'); q = s.fresh('k'); s.add(val == v + M * q, v >= 0, v < M, q >= lo // M, q <= hi // M); return v
    def ext(s, x, n, h, l):
        w = h - l + 1
        if w == n: return x
        v = s.fresh('x'); t = v
        s.add(v >= 0, v < (1 << w))
        if l > 0: lo = s.fresh('lo'); s.add(lo >= 0, lo < (1 << l)); t = v * (1 << l) + lo
        if h < n - 1: hi = s.fresh('hi'); s.add(hi >= 0, hi < (1 << (n - 1 - h))); t = hi * (1 << (h + 1)) + t
        s.add(x == t); return v
    def signed(s, x, n): return z3.If(x >= (1 << (n - 1)), x - (1 << n), x)
    def linear(s, e, n, c, out):
        """collect sum of coefficient*atom; returns the constant"""
        if z3.is_bv_value(e): return c * e.as_long()
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD: return sum(s.linear(x, n, c, out) for x in e.children())
        if k == z3.Z3_OP_BSUB:
            ch = e.children(); return s.linear(ch[0], n, c, out) + sum(s.linear(x, n, -c, out) for x in ch[1:])
        if k == z3.Z3_OP_BNEG: return s.linear(e.arg(0), n, -c, out)
        if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            m = e.arg(0).as_long()
            if m >= 1 << (n - 1): m -= 1 << n
            return s.linear(e.arg(1), n, c * m, out)
        out.append((c, e)); return 0
    def node(s, e):
        K = z3
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        if z3.is_true(e) or z3.is_false(e): return e
        k = e.decl().kind(); ch = e.children(); so = e.sort()
        if z3.is_bv_sort(so):
            n = so.size()
            if k in (K.Z3_OP_BADD, K.Z3_OP_BSUB, K.Z3_OP_BNEG) or (k == K.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0])):
                out = []; c = s.linear(e, n, 1, out); c %= 1 << n
                if c >= 1 << (n - 1): c -= 1 << n
                d = {}
                for a, t in out:
                    if t.get_id() in d: d[t.get_id()][0] += a
                    else: d[t.get_id()] = [a, t]
                lo = hi = c; v = z3.IntVal(c); M = (1 << n) - 1
                for a, t in d.values():
                    if a == 0: continue
                    b = min(M, s.ub(t)); v = v + a * s.g2(t)
                    if a > 0: hi += a * b
                    else: lo += a * b
                return s.modular(v, n, lo, hi)
            if k == K.Z3_OP_ITE: return z3.If(s.g(ch[0]), s.g(ch[1]), s.g(ch[2]))
            if k == K.Z3_OP_EXTRACT:
                h, l = e.params(); return s.ext(s.g(ch[0]), ch[0].size(), h, l)
            if k == K.Z3_OP_CONCAT:
                v = None
                for x in ch: v = s.g(x) if v is None else v * (1 << x.size()) + s.g(x)
                return v
            if k == K.Z3_OP_ZERO_EXT: return s.g(ch[0])
            if k == K.Z3_OP_SIGN_EXT:
                x, m = s.g(ch[0]), ch[0].size(); return z3.If(x >= (1 << (m - 1)), x + (1 << n) - (1 << m), x)
            if k == K.Z3_OP_BNOT: return (1 << n) - 1 - s.g(ch[0])
            if k in (K.Z3_OP_BLSHR, K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]):
                c = ch[1].as_long(); x = s.g(ch[0])
                if k == K.Z3_OP_BLSHR:
                    if c >= n: return z3.IntVal(0)
                    c = 1 << c
                if c:
                    v = s.fresh('q'); r = s.fresh('r'); s.add(x == v * c + r, r >= 0, r < c, v >= 0, v < (1 << n)); return v
            if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
                c = ch[1].as_long(); x = s.g(ch[0]); v = s.fresh('q'); r = s.fresh('r'); s.add(x == v * c + r, r >= 0, r < c, v >= 0, v < (1 << n)); return r
            if k == K.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < n:
                c = ch[1].as_long(); return s.modular(s.g(ch[0]) * (1 << c), n, 0, ((1 << n) - 1) << c)
            if k == K.Z3_OP_BAND and len(ch) == 2:
                for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if z3.is_bv_value(a):
                        m = a.as_long()
                        if m == 0: return z3.IntVal(0)
                        l = (m & -m).bit_length() - 1; w = m >> l
                        if w & (w + 1) == 0: return s.ext(s.g(b), n, l + w.bit_length() - 1, l) * (1 << l)
                v = s.fresh('and'); x, y = s.g(ch[0]), s.g(ch[1]); s.add(v >= 0, v <= x, v <= y); return v
            if k == K.Z3_OP_BOR and len(ch) == 2:
                v = s.fresh('or'); x, y = s.g(ch[0]), s.g(ch[1]); s.add(v >= x, v >= y, v <= x + y, v < (1 << n)); return v
            if k == K.Z3_OP_UNINTERPRETED:
                if not ch: v = s.fresh(str(e.decl()))
                else: v = s.app(e, ch)
                s.rng(v, n); return v
            v = s.fresh('t'); s.rng(v, n); return v
        if z3.is_bool(e):
            if k in (K.Z3_OP_EQ, K.Z3_OP_DISTINCT):
                a = [s.g(x) for x in ch]
                return a[0] == a[1] if k == K.Z3_OP_EQ else z3.Distinct(*a)
            cmpo = {K.Z3_OP_ULEQ: lambda a, b: a <= b, K.Z3_OP_ULT: lambda a, b: a < b, K.Z3_OP_UGEQ: lambda a, b: a >= b, K.Z3_OP_UGT: lambda a, b: a > b}
            if k in cmpo: return cmpo[k](s.g(ch[0]), s.g(ch[1]))
            scmp = {K.Z3_OP_SLEQ: lambda a, b: a <= b, K.Z3_OP_SLT: lambda a, b: a < b, K.Z3_OP_SGEQ: lambda a, b: a >= b, K.Z3_OP_SGT: lambda a, b: a > b}
            if k in scmp: return scmp[k](*[s.signed(s.g(x), x.size()) for x in ch])
            if k == K.Z3_OP_AND: return z3.And(*[s.g(x) for x in ch])
            if k == K.Z3_OP_OR: return z3.Or(*[s.g(x) for x in ch])
            if k == K.Z3_OP_NOT: return z3.Not(s.g(ch[0]))
            if k == K.Z3_OP_IMPLIES: return z3.Implies(s.g(ch[0]), s.g(ch[1]))
            if k == K.Z3_OP_XOR: return z3.Xor(s.g(ch[0]), s.g(ch[1]))
            if k == K.Z3_OP_ITE: return z3.If(s.g(ch[0]), s.g(ch[1]), s.g(ch[2]))
            if k == K.Z3_OP_UNINTERPRETED:
                if not ch: return e
                return s.app(e, ch)
            s.n += 1; return z3.Bool('b~%d' % s.n)
        if z3.is_int(e):
            if k in (K.Z3_OP_ADD, K.Z3_OP_SUB, K.Z3_OP_MUL, K.Z3_OP_UMINUS, K.Z3_OP_ANUM, K.Z3_OP_ITE) or k == K.Z3_OP_UNINTERPRETED and not ch:
                if z3.is_int_value(e) or not ch: return e
                a = [s.g(x) for x in ch]
                if k == K.Z3_OP_ADD: return z3.Sum(*a)
                if k == K.Z3_OP_SUB: r = a[0]; [None for _ in a]; return a[0] - z3.Sum(*a[1:])
                if k == K.Z3_OP_UMINUS: return -a[0]
                if k == K.Z3_OP_ITE: return z3.If(*a)
                if k == K.Z3_OP_MUL:
                    r = a[0]
                    for x in a[1:]: r = r * x
                    return r
            if k == K.Z3_OP_UNINTERPRETED: return s.app(e, ch)
            return s.fresh('i')
        s.n += 1; return z3.Const('o~%d' % s.n, so)
    def isort(s, so): return z3.IntSort() if z3.is_bv_sort(so) else so
    def app(s, e, ch):
        d = e.decl(); f = s.fns.get(d.get_id())
        if f is None:
            f = (d, z3.Function(str(d) + '~i', *([s.isort(x.sort()) for x in ch] + [s.isort(e.sort())]))); s.fns[d.get_id()] = f
        return f[1](*[s.g(x) for x in ch])
    def g2(s, t):
        # atoms inside a linear sum may sit below inner sums: all children are translated already
        return s.tr_cached(t)
    def tr_cached(s, t): return s.c[t.get_id()][1]
    def ub(s, t):
        k = t.decl().kind(); n = t.size()
        if k == z3.Z3_OP_ZERO_EXT: return (1 << t.arg(0).size()) - 1
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: return (1 << (n - t.arg(0).size())) - 1
        return (1 << n) - 1
    def sides(s, roots):
        """side conditions of every subterm of roots"""
        seen = set(); out = []; st = list(roots)
        while st:
            x = st.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k); out += s.c[k][2]; st += x.children()
        return out
T = Tr()
def solver(fs, timeout):
    roots = [z3.BoolVal(f) if isinstance(f, bool) else f for f in fs]
    ts = [T.tr(f) for f in roots]
    s = z3.Solver(); s.set('timeout', timeout)
    for x in T.sides(roots): s.add(x)
    for x in ts: s.add(x)
    return s
def check(fs, timeout):
    try: return solver(fs, timeout).check()
    except z3.Z3Exception: return z3.unknown
def unsat(fs, timeout): return check(fs, timeout) == z3.unsat
