"""Deductive verifier for LLVM IR: symbolic execution + loop invariants + modular contracts.

Every function under contract is executed symbolically from an arbitrary state satisfying
its precondition.  Loops are cut at their header by an inductive invariant: candidate
conjuncts come from templates over *all* loop-carried values (no source names), and the
strongest inductive subset is kept (Houdini).  Calls to functions with a contract use only
the contract; all other calls to functions with a body are inlined; a call to an external
function without a contract is a failed obligation.  Nothing is bounded: the memory is an
uninterpreted word map, quantified facts are instantiated explicitly at the terms a path
touches, goals are skolemised.
"""
import z3, re, time, itertools, sys, os
from llparse import loops, Ty
sys.setrecursionlimit(20000)

BV = z3.BitVecSort
W = 64
def C(v, n=64): return z3.BitVecVal(v & ((1 << n) - 1), n)
_ctr = itertools.count()
def fresh(name, sort=None):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort if sort is not None else BV(64))
def isb(x): return z3.is_bool(x)
def simp(x): return z3.simplify(x)
def U(op):
    return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op]
ULT, ULE, UGT, UGE = z3.ULT, z3.ULE, z3.UGT, z3.UGE
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
def bv(x, n=None):
    if isinstance(x, bool): return C(int(x), n or 1)
    if isinstance(x, int): return C(x, n or 64)
    if isb(x):
        return z3.If(x, C(1, n or 1), C(0, n or 1))
    return x
def tobool(x):
    if isb(x): return x
    return x != 0
def num(x):
    x = simp(x) if not z3.is_bv_value(x) else x
    return x.as_long() if z3.is_bv_value(x) else None

_lincache = {}
def lin(e):
    """(base term or None, constant offset)"""
    k = e.get_id()
    r = _lincache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    s = simp(e)
    if z3.is_bv_value(s): res = (None, s.as_long())
    elif z3.is_app_of(s, z3.Z3_OP_BADD):
        cs = s.children(); c = 0; rest = []
        for x in cs:
            if z3.is_bv_value(x): c += x.as_long()
            else: rest.append(x)
        if not rest: res = (None, c & (2**64 - 1))
        else:
            b = rest[0]
            for x in rest[1:]: b = b + x
            c &= 2**64 - 1
            if c >= 2**63: c -= 2**64
            b = simp(b) if len(rest) > 1 else b
            res = (b, c)
    else: res = (s, 0)
    _lincache[k] = (e, res)
    return res

class Q:
    """forall x1:k1 .. xn:kn . body ; kinds name instantiation pools; all sorts BV64 unless given"""
    def __init__(s, kinds, body, hints=None, name='', sorts=None):
        s.kinds = kinds; s.body = body; s.hints = hints; s.name = name
        s.sorts = sorts or [BV(64)] * len(kinds)
        s.cache = {}
    def inst(s, ts):
        k = tuple(t.get_id() for t in ts)
        r = s.cache.get(k)
        if r is None:
            r = (ts, simp(z3.simplify(s.body(*ts)))); s.cache[k] = r
        return r[1]

class Mem:
    """persistent word memory: index = byte address >> 3"""
    __slots__ = ('kind', 'par', 'f', 'base', 'off', 'idx', 'val', 'pred', 'memo', 'depth')
    def __init__(s, kind, par=None, f=None, base=None, off=None, idx=None, val=None, pred=None):
        s.kind, s.par, s.f, s.base, s.off, s.idx, s.val, s.pred = kind, par, f, base, off, idx, val, pred
        s.memo = {}
    @staticmethod
    def new(name='M'):
        return Mem('base', f=z3.Function('%s!%d' % (name, next(_ctr)), BV(61), BV(64)))
    def word(s, base, off, idx):
        """base/off: linear form of idx when known aligned (off in words), else base None"""
        key = idx.get_id()
        r = s.memo.get(key)
        if r is not None and r[0].eq(idx): return r[1]
        m = s; pend = []
        res = None
        while True:
            if m is not s:
                r2 = m.memo.get(key)
                if r2 is not None and r2[0].eq(idx): res = r2[1]; break
            if m.kind == 'base':
                res = m.f(idx); break
            if m.kind == 'store':
                if m.idx.eq(idx): res = m.val; break
                if base is not None and m.base is not None and m.base is not False and base is not False and m.base.eq(base):
                    if (m.off - off) % (1 << 61) == 0: res = m.val; break
                    m = m.par; continue
                c = simp(m.idx == idx)
                if z3.is_true(c): res = m.val; break
                if z3.is_false(c): m = m.par; continue
                pend.append((c, m.val)); m = m.par; continue
            if m.kind == 'havoc':
                c = simp(m.pred(idx))
                if z3.is_true(c): res = m.f(idx); break
                if z3.is_false(c): m = m.par; continue
                pend.append((c, m.f(idx))); m = m.par; continue
        for c, v in reversed(pend): res = z3.If(c, v, res)
        s.memo[key] = (idx, res)
        return res
    def store(s, base, off, idx, val):
        return Mem('store', s, base=base, off=off, idx=idx, val=val)
    def havoc(s, pred, name='H'):
        return Mem('havoc', s, f=z3.Function('%s!%d' % (name, next(_ctr)), BV(61), BV(64)), pred=pred)
    # ---- spec-level access (address assumed size-aligned) ----
    def rd(s, addr, size=8):
        b, c = lin(addr)
        if b is None:
            idx = C(c >> 3, 61); w = s.word(None, 0, idx); o = c & 7
        elif c % 8 == 0 and size == 8:
            i0 = ext3(b); w = s.word(b, c // 8, simp(i0 + C(c // 8, 61))); return w
        else:
            # alignment of base unknown here: specs use 8-aligned bases
            i0 = ext3(b); w = s.word(b, c // 8, simp(i0 + C(c // 8, 61))); o = c % 8
        if size == 8: return w
        return simp(z3.Extract(o * 8 + size * 8 - 1, o * 8, w))
    def wr(s, addr, val):
        """spec-level store of a word at an 8-aligned address"""
        b, c = lin(addr)
        if b is None:
            return s.store(None, 0, C(c >> 3, 61), val)
        return s.store(b, c // 8, simp(ext3(b) + C(c // 8, 61)), val)

_ext = {}
def ext3(b):
    k = b.get_id(); r = _ext.get(k)
    if r is None or not r[0].eq(b):
        r = (b, simp(z3.Extract(63, 3, b))); _ext[k] = r
    return r[1]
def idxof(addr):
    b, c = lin(addr)
    if b is None: return C((c >> 3), 61)
    return simp(ext3(b) + C(c // 8, 61)) if c % 8 == 0 else simp(z3.Extract(63, 3, addr))

class State:
    def __init__(s):
        s.mem = Mem.new(); s.pc = []; s.q = []; s.pools = {}; s.g = {}; s.al = {}; s.sp = 0; s.trace = []; s.lock = None
    def copy(s):
        n = State.__new__(State)
        n.mem = s.mem; n.pc = list(s.pc); n.q = list(s.q); n.pools = {k: dict(v) for k, v in s.pools.items()}
        n.g = dict(s.g); n.al = dict(s.al); n.sp = s.sp; n.trace = s.trace + []; n.lock = s.lock
        return n
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)): s.assume(*f); continue
            if isinstance(f, Q): s.q.append(f); continue
            f = simp(f) if not isinstance(f, bool) else z3.BoolVal(f)
            if z3.is_true(f): continue
            if z3.is_and(f):
                s.pc += f.children()
            else: s.pc.append(f)
    def pool(s, kind, *ts):
        d = s.pools.setdefault(kind, {})
        for t in ts:
            if isinstance(t, int): t = C(t)
            t = simp(t)
            d.setdefault(t.get_id(), t)
    def rd(s, a, size=8): return s.mem.rd(a, size)

STACK = 0x7ff0_0000_0000_0000
GLOB = 0x0000_0500_0000_0000

class Undecided(Exception): pass
class Infeasible(Exception): pass

class Obl:
    __slots__ = ('name', 'st', 'goal', 'res', 'model', 'time', 'extra', 'kind', 'backend')
    def __init__(s, name, st, goal, kind='assert', extra=None):
        s.name, s.st, s.goal, s.kind, s.extra = name, st, goal, kind, extra
        s.res = None; s.model = None; s.time = 0; s.backend = None

QT = 20000
class Engine:
    def __init__(self, modules, timeout=60000):
        self.modules = modules
        self.fns = {}
        for m in modules:
            for f in m.fns.values():
                if f.name not in self.fns or getattr(self.fns[f.name], 'internal', False):
                    self.fns[f.name] = f
        self.contracts = {}     # '@name' -> handler(engine, st, args, ins) -> [(st, ret)]
        self.obls = []
        self.timeout = timeout
        self.loopspec = None    # object with cands(L), measures(L)
        self.unroll = 0
        self.may_write = None   # fn(st, addr, size) -> formula
        self.write_idx = None   # fn(idx)-> formula (for loop havoc)
        self.on_access = None   # hook(st, kind, base+off term, size, volatile)
        self.on_store = None
        self.nq = 0; self.qtime = 0.0
        self.null_check = True
        self.globaddr = {}; self.inlined = set(); self.under_contract = set(); self.cur = '?'
        self.termination = True
        self.externals_used = set()
        self.maxpaths = 4000
        self.access_pool = ()
        self.closure = None
        self.havoc_ghost = None
        self.recursion = {}
        self.abstract_rem = False
        self.lia = 0            # after this many ms of bit-vector search, try the integer translation

    # ------------- solver ---------------
    def instances(self, st, extra_pool=None):
        pools = st.pools
        if extra_pool:
            pools = {k: dict(v) for k, v in pools.items()}
            for k, t in extra_pool:
                t = simp(t); pools.setdefault(k, {}).setdefault(t.get_id(), t)
        if self.closure:
            pools = {k: dict(v) for k, v in pools.items()}
            for k, t in self.closure(st, pools):
                t = simp(t); pools.setdefault(k, {}).setdefault(t.get_id(), t)
        out = []
        for q in st.q:
            ls = [list(pools.get(k, {}).values()) for k in q.kinds]
            for ts in itertools.product(*ls):
                r = q.inst(ts)
                if not z3.is_true(r): out.append(r)
        return out
    def solve(self, st, extra, extra_pool=None, timeout=None, model=False):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for f in st.pc: s.add(f)
        for f in self.instances(st, extra_pool): s.add(f)
        for f in extra: s.add(f)
        t = time.time()
        if self.lia:
            full = timeout or self.timeout
            s.set('timeout', min(full, self.lia)); r = s.check()
            if r == z3.unknown:
                import lia
                if lia.unsat(s.assertions(), full): r = z3.unsat
                else: s.set('timeout', full); r = s.check()
        else: r = s.check()
        self.qtime += time.time() - t; self.nq += 1
        if model: return r, (s.model() if r == z3.sat else None), s
        return r
    def feasible(self, st, c=None):
        """may over-approximate: a path explored in vain proves its obligations vacuously (covers are checked apart)"""
        if getattr(self, 'eager', False): return c is None or not z3.is_false(simp(c))
        if self.lia:
            import lia
            r = lia.check(st.pc + self.instances(st) + ([c] if c is not None else []), 4000); self.nq += 1
            if r == z3.unsat: return False
            if r == z3.sat: return True
        return self.solve(st, [c] if c is not None else [], timeout=QT) != z3.unsat
    def valid(self, st, c, timeout=None):
        if isb(c):
            c = simp(c)
            if z3.is_true(c): return True
        return self.prove(st, c, timeout)[0]
    def skolem(self, goal):
        if isinstance(goal, Q):
            ts = [fresh('sk_' + k, so) for k, so in zip(goal.kinds, goal.sorts)]
            ep = list(zip(goal.kinds, ts))
            if goal.hints: ep += list(goal.hints(*ts))
            return goal.body(*ts), ep
        return goal, []
    def prove(self, st, goal, timeout=None, extra=None):
        g, ep = self.skolem(goal)
        if extra: ep = list(ep) + list(extra)
        r, m, s = self.solve(st, [Not(g)], ep, timeout, model=True)
        return r == z3.unsat, m, r

    # ------------- obligations -----------
    def oblige(self, st, name, goal, assume=True, extra=None):
        if isb(goal):
            goal = simp(goal)
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obls.append(Obl(self.cur + '/' + name, st.copy(), goal, extra=extra))
        if assume: st.assume(goal)
    def fail(self, st, name, why):
        o = Obl(self.cur + '/' + name, st.copy(), z3.BoolVal(False)); o.extra = None; o.kind = 'reach:' + why
        self.obls.append(o)

    # ------------- memory ----------------
    def aligned(self, st, b, n):
        """is base term b provably a multiple of n (8/4/2)"""
        if n == 1: return True
        k = (b.get_id(), n)
        if k in st.al: return st.al[k][1]
        low = simp(z3.Extract({8: 2, 4: 1, 2: 0}[n], 0, b))
        if z3.is_bv_value(low): r = low.as_long() == 0
        else:
            r = self.solve(st, [low != 0], timeout=QT) == z3.unsat
        st.al[k] = (b, r)
        return r
    def touch(self, st, b, c):
        for k in self.access_pool: st.pool(k, b)
    def glob_const(self, c, size):
        for name, (a, sz, m, kind, ty, v) in self.globaddr.items():
            if a <= c and c + size <= a + sz and kind == 'constant' and v is not None:
                bs = getattr(self, '_gb', {})
                self._gb = bs
                if name not in bs: bs[name] = self.initbytes(m, ty, v)
                d = bs[name]
                if d is None: return None
                return int.from_bytes(bytes(d[c - a:c - a + size]), 'little')
        return None
    def initbytes(self, m, ty, v):
        ty = m.res(ty); n = m.size(ty)
        if v[0] in ('zero', 'undef'): return [0] * n
        if v[0] == 'c': return list((v[1] & (2**(8*n) - 1)).to_bytes(n, 'little'))
        if v[0] == 'str':
            s = v[1][2:-1]; out = []; i = 0
            while i < len(s):
                if s[i] == '\\': out.append(int(s[i+1:i+3], 16)); i += 3
                else: out.append(ord(s[i])); i += 1
            return out
        if v[0] == 'agg':
            out = [0] * n
            for j, (t, x) in enumerate(v[1]):
                o = j * m.size(ty.sub) if ty.k in ('arr', 'vec') else m.field(ty, j)[0]
                b = self.initbytes(m, t, x)
                if b is None: return None
                out[o:o + len(b)] = b
            return out
        if v[0] in ('g', 'gep', 'cast'):
            try:
                e = self.constexpr(m, v)
                return list(num(e).to_bytes(8, 'little'))
            except Exception: return None
        return None
    def load(self, st, addr, size, vol=False, ins=None):
        b, c = lin(addr)
        if self.on_access: self.on_access(self, st, 'load', addr, size, vol)
        if b is None:
            g = self.glob_const(c, size)
            if g is not None: return C(g, size * 8)
            if c < 4096:
                self.fail(st, 'null-dereference', 'load from %d' % c); raise Infeasible()
            w = st.mem.word(None, 0, C(c >> 3, 61)); o = c & 7
            if o + size <= 8: return simp(z3.Extract(o*8+size*8-1, o*8, w)) if size < 8 else w
            w2 = st.mem.word(None, 0, C((c >> 3) + 1, 61))
            return simp(z3.Extract(o*8+size*8-1, o*8, z3.Concat(w2, w)))
        # symbolic index into a constant table
        if c >= GLOB and c < GLOB + 0x1000_0000_0000 or (b is not None and c < 0 and False):
            for name, (a, sz, m, kind, ty, v) in self.globaddr.items():
                if a <= c < a + sz and kind == 'constant':
                    return self.table_load(st, name, a, sz, b, c, size)
        self.nonnull(st, b, c)
        self.touch(st, b, c)
        return self.rawload(st, st.mem, b, c, size)
    def table_load(self, st, name, a, sz, b, c, size):
        o0 = c - a; n = sz // size
        self.oblige(st, 'table-index-in-range:' + name, And(ULT(b + C(o0), C(sz - size + 1)), (b + C(o0)) & C(size - 1) == 0))
        res = C(0, size * 8)
        for k in range(n):
            v = self.glob_const(a + k * size, size)
            if v is None: return fresh('tab', BV(size * 8))
            res = If(b == C(k * size - o0), C(v, size * 8), res)
        r = fresh('tab', BV(size * 8)); st.assume(r == res)
        return r
    def nonnull(self, st, b, c):
        if not self.null_check: return
        k = ('nn', b.get_id())
        if k in st.al: return
        st.al[k] = (b, True)
        if -4096 < c < 4096:
            self.oblige(st, 'null-dereference', b != 0)
    def rawload(self, st, mem, b, c, size):
        if self.aligned(st, b, 8):
            o = c % 8; q = c // 8
            w = mem.word(b, q, simp(ext3(b) + C(q, 61)))
            if o == 0 and size == 8: return w
            if o + size <= 8: return simp(z3.Extract(o*8+size*8-1, o*8, w))
            w2 = mem.word(b, q + 1, simp(ext3(b) + C(q + 1, 61)))
            return simp(z3.Extract(o*8+size*8-1, o*8, z3.Concat(w2, w)))
        a = simp(b + C(c)); idx = simp(z3.Extract(63, 3, a)); sh = z3.Concat(C(0, 58), z3.Extract(2, 0, a), C(0, 3))
        w = mem.word(None, 0, idx)
        if size < 8 and self.aligned(st, a, size) or size == 1:
            return simp(z3.Extract(size*8-1, 0, z3.LShR(w, sh)))
        w2 = mem.word(None, 0, simp(idx + 1))
        return simp(z3.Extract(size*8-1, 0, z3.LShR(z3.Concat(w2, w), z3.ZeroExt(64, sh))))
    def store(self, st, addr, val, size, vol=False, ins=None):
        b, c = lin(addr)
        if self.on_store: self.on_store(self, st, addr, val, size, vol)
        if b is None:
            if c < 4096:
                self.fail(st, 'null-dereference', 'store to %d' % c); raise Infeasible()
            if c >= STACK or GLOB <= c < GLOB + 0x100_0000_0000: pass
            elif self.may_write is not None:
                self.oblige(st, 'frame', self.may_write(st, C(c), size))
            idx = C(c >> 3, 61); o = c & 7
            if o == 0 and size == 8: st.mem = st.mem.store(None, 0, idx, val); return
            if o + size > 8:
                w = z3.Concat(st.mem.word(None, 0, simp(idx+1)), st.mem.word(None, 0, idx))
                mask = ((1 << (size*8)) - 1) << (o*8)
                w = simp((w & C(~mask, 128)) | (z3.ZeroExt(128-size*8, val) << (o*8)))
                st.mem = st.mem.store(None, 0, idx, simp(z3.Extract(63, 0, w))).store(None, 0, simp(idx+1), simp(z3.Extract(127, 64, w))); return
            st.mem = st.mem.store(None, 0, idx, self.ins_word(st.mem.word(None, 0, idx), val, o, size)); return
        self.nonnull(st, b, c)
        self.touch(st, b, c)
        if self.may_write is not None:
            self.oblige(st, 'frame', self.may_write(st, addr, size))
        if self.aligned(st, b, 8):
            o = c % 8; q = c // 8; idx = simp(ext3(b) + C(q, 61))
            if o == 0 and size == 8: st.mem = st.mem.store(b, q, idx, val); return
            if o + size <= 8:
                st.mem = st.mem.store(b, q, idx, self.ins_word(st.mem.word(b, q, idx), val, o, size)); return
            a = simp(b + C(c))
        else: a = simp(b + C(c))
        idx = simp(z3.Extract(63, 3, a)); sh = z3.Concat(C(0, 58), z3.Extract(2, 0, a), C(0, 3))
        if size < 8 and self.aligned(st, a, size) or size == 1:
            w = st.mem.word(None, 0, idx)
            m = C((1 << (size*8)) - 1)
            w = simp((w & ~(m << sh)) | (z3.ZeroExt(64-size*8, val) << sh))
            st.mem = st.mem.store(None, 0, idx, w); return
        w = z3.Concat(st.mem.word(None, 0, simp(idx+1)), st.mem.word(None, 0, idx)); sh = z3.ZeroExt(64, sh)
        m = C((1 << (size*8)) - 1, 128)
        w = simp((w & ~(m << sh)) | (z3.ZeroExt(128-size*8, val) << sh))
        st.mem = st.mem.store(None, 0, idx, simp(z3.Extract(63, 0, w))).store(None, 0, simp(idx+1), simp(z3.Extract(127, 64, w)))
    def ins_word(self, w, val, o, size):
        parts = []
        if o + size < 8: parts.append(z3.Extract(63, (o+size)*8, w))
        parts.append(val)
        if o > 0: parts.append(z3.Extract(o*8-1, 0, w))
        return simp(z3.Concat(*parts)) if len(parts) > 1 else val

    # ------------- values ----------------
    def gaddr(self, m, name):
        name = m.aliases.get(name, name)
        key = name
        if key not in self.globaddr:
            if name in m.globals:
                kind, ty, v = m.globals[name]
                if v is None:
                    for m2 in self.modules:
                        if name in m2.globals and m2.globals[name][2] is not None:
                            kind, ty, v = m2.globals[name]; m = m2; break
                try: sz = m.size(ty)
                except Exception: sz = 8
            else: kind, ty, v, sz = 'fn', None, None, 16
            a = getattr(self, '_gnext', GLOB)
            self._gnext = a + ((sz + 63) // 64 + 1) * 64
            self.globaddr[key] = (a, sz, m, kind, ty, v)
        return self.globaddr[key][0]
    def constexpr(self, m, v):
        if v[0] == 'g': return C(self.gaddr(m, v[1]))
        if v[0] == 'c': return C(v[1])
        if v[0] == 'gep':
            bt, ops = v[1], v[2]
            a = self.constexpr(m, ops[0][1])
            return self.gep(m, bt, a, [self.constexpr(m, o[1]) for o in ops[1:]], [o[0] for o in ops[1:]])
        if v[0] == 'cast': return self.constexpr(m, v[3])
        raise Undecided('constexpr %r' % (v,))
    def val(self, f, env, ty, v):
        k = v[0]
        if k == 'l': return env[v[1]]
        if k == 'c':
            t = f.module.res(ty)
            if t.k == 'int' and t.n == 1: return z3.BoolVal(bool(v[1] & 1))
            return C(v[1], t.n if t.k == 'int' else 64)
        if k == 'undef':
            t = f.module.res(ty)
            if t.k == 'struct': return [None] * len(t.sub)
            return self.freshty(t, 'undef')
        if k == 'zero':
            t = f.module.res(ty)
            if t.k in ('int',): return C(0, t.n) if t.n > 1 else z3.BoolVal(False)
            return C(0)
        if k == 'fp':
            t = f.module.res(ty); x = v[1]
            import struct
            if x.startswith('0x'):
                d = int(x, 16)
                if t.k == 'float':
                    fl = struct.unpack('<d', struct.pack('<Q', d))[0]
                    return C(struct.unpack('<I', struct.pack('<f', fl))[0], 32)
                return C(d)
            fl = float(x)
            if t.k == 'float': return C(struct.unpack('<I', struct.pack('<f', fl))[0], 32)
            return C(struct.unpack('<Q', struct.pack('<d', fl))[0])
        return self.constexpr(f.module, v)
    def bits(self, m, ty):
        t = m.res(ty)
        return {'int': t.n, 'ptr': 64, 'double': 64, 'float': 32}.get(t.k)
    def udivrem(self, st, op, a, b):
        """division by a variable: uninterpreted quotient and remainder with their bounds; (a/b)*b is a - a%b"""
        n = a.size(); S = BV(n); q = z3.Function('udiv%d' % n, S, S, S)(a, b); r = z3.Function('urem%d' % n, S, S, S)(a, b)
        st.assume(Implies(b != 0, And(ULT(r, b), ULE(r, a), ULE(q, a))))
        return q if op == 'udiv' else r
    def mulq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if z3.is_app(x) and x.decl().name() == 'udiv%d' % x.size() and x.num_args() == 2 and simp(x.arg(1)).eq(simp(y)):
                return x.arg(0) - self.udivrem(st, 'urem', x.arg(0), x.arg(1))
        return None
    def freshty(self, t, name):
        if t.k == 'int' and t.n == 1: return fresh(name, z3.BoolSort())
        n = {'int': t.n, 'ptr': 64, 'double': 64, 'float': 32}.get(t.k)
        if n is None: raise Undecided('fresh of type ' + t.k)
        return fresh(name, BV(n))
    def gep(self, m, bt, a, idx, tys):
        t = bt
        for j, (i, ity) in enumerate(zip(idx, tys)):
            if not isb(i) and i.size() < 64: i = z3.SignExt(64 - i.size(), i)
            if j == 0:
                a = a + i * C(m.size(t)); continue
            rt = m.res(t)
            if rt.k in ('arr', 'vec'):
                t = rt.sub; a = a + i * C(m.size(t))
            else:
                o, t = m.field(rt, num(i)); a = a + C(o)
        return simp(a)

    # ------------- execution -------------
    def exec_fn(self, st, fn, args):
        env = {}
        for (t, n), a in zip(fn.params, args): env[n] = a
        self.inlined.add(fn.name)
        depth = self.recursion.get(fn.name, 0)
        if depth > 3: raise Undecided('recursion without contract: ' + fn.name)
        self.recursion[fn.name] = depth + 1
        sp = st.sp
        try:
            outs = self.run(st, fn, env, fn.order[0], None, None)
        finally: self.recursion[fn.name] = depth
        res = []
        for o in outs:
            assert o[0] == 'ret'
            res.append((o[1], o[2]))
        return res
    def run(self, st, fn, env, block, prev, loop):
        """returns outcomes: ('ret',st,val) ('back',st,env,prev) ('exit',st,env,block,prev)"""
        outs = []
        stack = [(st, env, block, prev, True)]
        lps = loops(fn)
        while stack:
            st, env, b, p, first = stack.pop()
            if loop is not None and not first:
                if b == loop[0]:
                    outs.append(('back', st, env, p)); continue
                if b not in loop[1]:
                    outs.append(('exit', st, env, b, p)); continue
            if b in lps and not (loop is not None and b == loop[0]):
                for o in self.do_loop(st, fn, env, b, p, lps[b]):
                    if o[0] == 'ret': outs.append(o)
                    else: stack.append((o[1], o[2], o[3], o[4], False))
                continue
            if len(outs) + len(stack) > self.maxpaths: raise Undecided('path explosion in ' + fn.name)
            self.exec_block(st, fn, env, b, p, stack, outs, skip_phi=(loop is not None and b == loop[0]))
        return outs
    def phivals(self, fn, env, b, p):
        r = {}
        for ins in fn.blocks[b].ins:
            if ins.op != 'phi': break
            for v, pb in ins.a:
                if pb == p:
                    r[ins.res] = self.val(fn, env, ins.ty, v); break
            else: raise Undecided('phi')
        return r
    def exec_block(self, st, fn, env, b, p, stack, outs, skip_phi=False, start=0):
        blk = fn.blocks[b]
        env = dict(env)
        if not skip_phi: env.update(self.phivals(fn, env, b, p))
        work = [(st, env, 0)]
        while work:
            st, env, i = work.pop()
            ins_list = blk.ins
            dead = False
            while i < len(ins_list):
                ins = ins_list[i]; op = ins.op
                if op == 'phi': i += 1; continue
                if op == 'ret':
                    v = None if ins.a is None else self.val(fn, env, ins.ty, ins.a)
                    outs.append(('ret', st, v)); break
                if op == 'br':
                    if ins.a[0] == 'u': stack.append((st, env, ins.a[1], b, False))
                    else:
                        c = simp(tobool(self.val(fn, env, Ty('int', 1), ins.a[1])))
                        self.branch(st, env, [(c, ins.a[2]), (simp(Not(c)), ins.a[3])], b, stack)
                    break
                if op == 'switch':
                    t, v, d, cs = ins.a
                    x = self.val(fn, env, t, v); brs = []; no = []
                    for cv, lb in cs:
                        cc = x == self.val(fn, env, t, cv); brs.append((simp(cc), lb)); no.append(Not(cc))
                    brs.append((simp(And(*no)) if no else z3.BoolVal(True), d))
                    self.branch(st, env, brs, b, stack); break
                if op == 'unreachable': break
                if op == 'call':
                    try: rs = self.call(st, fn, env, ins)
                    except Infeasible: break
                    if len(rs) == 1:
                        st = rs[0][0]
                        if ins.res: env[ins.res] = rs[0][1]
                        i += 1; continue
                    for s2, rv in rs:
                        e2 = dict(env)
                        if ins.res: e2[ins.res] = rv
                        work.append((s2, e2, i + 1))
                    break
                try: self.step(st, fn, env, ins)
                except Infeasible: break
                i += 1
    def branch(self, st, env, brs, b, stack):
        live = [(c, t) for c, t in brs if not z3.is_false(c)]
        if len(live) == 1:
            c, t = live[0]
            stack.append((st, env, t, b, False)); return
        # same target merge
        n = 0; todo = []
        for c, t in live:
            if self.feasible(st, c): todo.append((c, t))
        for k, (c, t) in enumerate(todo):
            s2 = st.copy() if k < len(todo) - 1 else st
            s2.assume(c); stack.append((s2, env, t, b, False))
    def step(self, st, fn, env, ins):
        op = ins.op; m = fn.module; V = lambda ty, v: self.val(fn, env, ty, v)
        if op == 'alloca':
            n = m.size(ins.ty)
            if ins.a: n *= num(V(ins.a[0], ins.a[1]))
            st.sp += ((n + 15) // 16 + 1) * 16
            env[ins.res] = C(STACK + 0x10_0000_0000 - st.sp); return
        if op == 'load':
            t = m.res(ins.ty); p = V(Ty('ptr'), ins.a[0])
            n = self.bits(m, t)
            if n is None: raise Undecided('aggregate load')
            sz = m.size(t)
            v = self.load(st, p, sz, bool(ins.a[1]), ins)
            if n == 1: v = simp(z3.Extract(0, 0, v) == 1)
            env[ins.res] = v; return
        if op == 'store':
            t = m.res(ins.ty); n = self.bits(m, t)
            if n is None: raise Undecided('aggregate store')
            v = V(ins.ty, ins.a[0]); sz = m.size(t)
            if isb(v): v = bv(v, 8)
            if v.size() < sz * 8: v = z3.ZeroExt(sz * 8 - v.size(), v)
            self.store(st, V(Ty('ptr'), ins.a[1]), v, sz, bool(ins.a[2]), ins); return
        if op == 'getelementptr':
            ops = ins.a; base = V(Ty('ptr'), ops[0][1])
            env[ins.res] = self.gep(m, ins.ty, base, [bv(V(t, v)) for t, v in ops[1:]], [t for t, v in ops[1:]]); return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if isb(a):
                r = {'and': lambda: And(a, b), 'or': lambda: Or(a, b), 'xor': lambda: a != b}[op]()
                env[ins.res] = simp(r); return
            n = a.size()
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                bn = num(b)
                if bn is None or bn == 0: self.oblige(st, 'division-by-zero', b != 0)
                if bn is None and self.abstract_rem and op in ('udiv', 'urem'): r = self.udivrem(st, op, a, b)
                elif op == 'udiv': r = z3.LShR(a, bn.bit_length()-1) if bn and bn & (bn-1) == 0 else z3.UDiv(a, b)
                elif op == 'urem': r = a & C(bn-1, n) if bn and bn & (bn-1) == 0 else z3.URem(a, b)
                elif op == 'sdiv': r = a / b
                else: r = z3.SRem(a, b)
            elif op in ('shl', 'lshr', 'ashr'):
                if num(b) is None or num(b) >= n: self.oblige(st, 'shift-amount-in-range', ULT(b, C(n, n)))
                r = a << b if op == 'shl' else z3.LShR(a, b) if op == 'lshr' else a >> b
            else:
                r = self.mulq(st, a, b) if op == 'mul' and self.abstract_rem else None
                if r is None: r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
            env[ins.res] = simp(r); return
        if op == 'icmp':
            a, b = bv(V(ins.ty, ins.a[1])), bv(V(ins.ty, ins.a[2])); p = ins.a[0]
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: UGT(a, b), 'uge': lambda: UGE(a, b), 'ult': lambda: ULT(a, b),
                 'ule': lambda: ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[p]()
            env[ins.res] = simp(r); return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            t, v = ins.a; x = V(t, v); d = m.res(ins.ty); n = self.bits(m, d)
            if n == 1: env[ins.res] = simp(z3.Extract(0, 0, bv(x)) == 1) if not isb(x) else x; return
            if isb(x):
                env[ins.res] = simp(If(x, C(1 if op != 'sext' else -1, n), C(0, n))); return
            k = x.size()
            if n > k: x = z3.SignExt(n - k, x) if op == 'sext' else z3.ZeroExt(n - k, x)
            elif n < k: x = z3.Extract(n - 1, 0, x)
            env[ins.res] = simp(x); return
        if op == 'select':
            c, x, y = V(Ty('int', 1), ins.a[0]), V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            env[ins.res] = simp(If(tobool(c), x, y)); return
        if op == 'freeze': env[ins.res] = V(ins.ty, ins.a); return
        if op == 'fence':
            if self.on_access: self.on_access(self, st, 'fence', None, 0, True)
            return
        if op == 'cmpxchg':
            p, o, n = V(Ty('ptr'), ins.a[0]), V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]); sz = m.size(ins.ty)
            if self.on_access: self.on_access(self, st, 'rmw', p, sz, True)
            h = self.on_access; self.on_access = None
            old = self.load(st, p, sz, True); self.on_access = h
            st.g['$rmw_old'] = old
            nv = simp(If(old == o, n, old))
            # a failing compare stores nothing
            st.g['$cas'] = simp(old == o)
            self.store(st, p, nv, sz, True)
            st.g.pop('$cas', None)
            env[ins.res] = [old, simp(old == o)]; return
        if op == 'atomicrmw':
            k, pp, v = ins.a; p, x = V(Ty('ptr'), pp), V(ins.ty, v); sz = m.size(ins.ty)
            if self.on_access: self.on_access(self, st, 'rmw', p, sz, True)
            h = self.on_access; self.on_access = None
            old = self.load(st, p, sz, True); self.on_access = h
            nv = {'add': lambda: old + x, 'sub': lambda: old - x, 'and': lambda: old & x, 'or': lambda: old | x, 'xor': lambda: old ^ x, 'xchg': lambda: x}[k]()
            self.store(st, p, simp(nv), sz, True)
            env[ins.res] = old; return
        if op == 'extractvalue':
            t, v, idx = ins.a; x = V(t, v)
            for j in idx: x = x[j]
            env[ins.res] = x; return
        if op == 'insertvalue':
            v, t2, e, idx = ins.a; x = list(V(ins.ty, v)); x[idx[0]] = V(t2, e); env[ins.res] = x; return
        if op == 'fcmp':
            n = self.bits(m, ins.ty); so = z3.Float64() if n == 64 else z3.Float32()
            a, b = [z3.fpBVToFP(V(ins.ty, z), so) for z in ins.a[1:]]; p = ins.a[0]
            un = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'ne': lambda x, y: Not(z3.fpEQ(x, y))}
            if p == 'ord': r = Not(un)
            elif p == 'uno': r = un
            elif p[0] == 'o': r = And(Not(un), base[p[1:]](a, b))
            else: r = Or(un, base[p[1:]](a, b))
            env[ins.res] = r; return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'fptoui', 'fptosi'):
            env[ins.res] = self.freshty(m.res(ins.ty), 'fp'); return
        raise Undecided('instruction not supported: ' + ins.text)

    def call(self, st, fn, env, ins):
        callee, cargs = ins.a
        args = [self.val(fn, env, t, v) if t.k != 'metadata' else None for t, v in cargs] if not (callee[0] == 'g' and callee[1].startswith('@llvm.dbg')) else []
        if callee[0] == 'asm':
            a = callee[1].strip().strip(';').strip()
            if a in ('', 'pause', 'mfence', 'lfence', 'sfence'):
                if self.on_access: self.on_access(self, st, 'fence', None, 0, True)
                return [(st, None)]
            if a.startswith('rdtsc'):
                return [(st, [fresh('tsc', BV(32)), fresh('tsc', BV(32))])]
            raise Undecided('inline asm: ' + callee[1])
        if callee[0] != 'g':
            h = self.contracts.get('*indirect')
            if h: return h(self, st, args, ins)
            raise Undecided('indirect call: ' + ins.text)
        name = callee[1]
        name = fn.module.aliases.get(name, name)
        h = self.contracts.get(name)
        if h is not None:
            return h(self, st, args, ins)
        if name.startswith('@llvm.'):
            return self.intrinsic(st, fn, name, args, ins)
        f = fn.module.fns.get(name) or self.fns.get(name)
        if f is not None:
            return self.exec_fn(st, f, args)
        h = EXTERN.get(name)
        if h:
            self.externals_used.add(name)
            return h(self, st, args, ins)
        raise Undecided('call to external function without a contract: ' + name)
    def intrinsic(self, st, fn, name, args, ins):
        if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.prefetch', '@llvm.assume', '@llvm.va_', '@llvm.experimental.noalias', '@llvm.stacksave', '@llvm.stackrestore')):
            return [(st, C(0))]
        if name.startswith('@llvm.threadlocal'): return [(st, args[0])]
        if name.startswith('@llvm.ctpop'): return [(st, simp(popcount(args[0])))]
        if name.startswith('@llvm.ctlz'): return [(st, simp(clz(args[0])))]
        if name.startswith('@llvm.cttz'): return [(st, simp(ctz(args[0])))]
        if name.startswith('@llvm.memset'):
            n = num(args[2])
            if n is None: return memset_enum(self, st, args, ins)
            b = args[1]; w = z3.Concat(*[b] * 8); o = 0; d = args[0]; pb, pc = lin(d)
            off = pc if pb is None or self.aligned(st, pb, 8) else 0
            while o < n:
                k = 4 if (off + o) % 8 == 4 and n - o >= 4 else 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                self.store(st, simp(d + C(o)), simp(z3.Extract(k*8-1, 0, w)), k); o += k
            return [(st, None)]
        if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
            n = num(args[2])
            if n is None: return memcpy_enum(self, st, args, ins)
            o = 0; vs = []
            while o < n:
                k = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                vs.append((o, k, self.load(st, simp(args[1] + C(o)), k))); o += k
            for o, k, v in vs: self.store(st, simp(args[0] + C(o)), v, k)
            return [(st, None)]
        if name.startswith('@llvm.expect'): return [(st, args[0])]
        mm = re.match(r'@llvm\.(umin|umax|smin|smax)\.', name)
        if mm:
            a, b = args[:2]
            c = {'umin': ULT(a, b), 'umax': UGT(a, b), 'smin': a < b, 'smax': a > b}[mm.group(1)]
            return [(st, simp(If(c, a, b)))]
        if name.startswith('@llvm.abs'): return [(st, simp(If(args[0] < 0, -args[0], args[0])))]
        if name.startswith('@llvm.bswap'):
            a = args[0]; n = a.size() // 8
            return [(st, simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, a) for i in range(n)])))]
        raise Undecided('intrinsic ' + name)

    # ------------- loops ------------------
    def loop_writes(self, fn, body, seen=None):
        seen = seen if seen is not None else set()
        for b in body:
            for ins in fn.blocks[b].ins:
                if ins.op in ('store', 'cmpxchg', 'atomicrmw'): return True
                if ins.op == 'call' and ins.a[0][0] == 'g':
                    n = ins.a[0][1]
                    if n.startswith(('@llvm.memset', '@llvm.memcpy', '@llvm.memmove')): return True
                    if n.startswith('@llvm.'): continue
                    h = self.contracts.get(n)
                    if h is not None:
                        if getattr(h, 'pure', False): continue
                        return True
                    f = fn.module.fns.get(n) or self.fns.get(n)
                    if f is None:
                        if n in EXTERN: continue
                        return True
                    if n in seen: continue
                    seen.add(n)
                    if self.loop_writes(f, f.order, seen): return True
        return False
    def calls_contract(self, fn, body, seen=None):
        """a function under contract (that is not pure) is called in these blocks"""
        seen = seen if seen is not None else set()
        for b in body:
            for ins in fn.blocks[b].ins:
                if ins.op != 'call' or ins.a[0][0] != 'g': continue
                n = ins.a[0][1]; h = self.contracts.get(n)
                if h is not None:
                    if not getattr(h, 'pure', False): return True
                    continue
                f = fn.module.fns.get(n) or self.fns.get(n)
                if f is None or n in seen: continue
                seen.add(n)
                if self.calls_contract(f, f.order, seen): return True
        return False
    def do_loop(self, st, fn, env, header, prev, body):
        fo = getattr(self.loopspec, 'force', False) if self.loopspec else False
        if self.unroll and not (fo(self, fn, body) if callable(fo) else fo):
            return self.do_unroll(st, fn, env, header, prev, body)
        entry = self.phivals(fn, env, header, prev)
        names = list(entry)
        tys = {i.res: i.ty for i in fn.blocks[header].ins if i.op == 'phi'}
        hs0 = st.copy()
        cur = {n: self.freshty(fn.module.res(tys[n]), 'L' + n.strip('%')) for n in names}
        writes = self.loop_writes(fn, body)
        if writes:
            wi = self.write_idx
            if wi is None and self.may_write is not None:
                raise Undecided('loop writes memory but no index frame given')
            if wi is None: hs0.mem = Mem.new('Mloop')
            else:
                s0 = st
                hs0.mem = st.mem.havoc(lambda i: Or(wi(s0, i), UGE(i, C(STACK >> 3, 61))), 'Hloop')
        if self.havoc_ghost and (writes or self.on_access): self.havoc_ghost(self, hs0)
        class L: pass
        L.names = names; L.tys = tys; L.entry = entry; L.cur = cur; L.st = st; L.fn = fn; L.header = header
        L.ptrs = [n for n in names if fn.module.res(tys[n]).k == 'ptr']
        L.ints = [n for n in names if fn.module.res(tys[n]).k == 'int' and not isb(entry[n])]
        L.env = env; L.engine = self; L.writes = writes
        cands = list(default_cands(L))
        if self.loopspec: cands += list(self.loopspec.cands(L))
        # hold at entry
        cands = self.filter(st, [(l, f, f(entry, st)) for l, f in cands])
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise Undecided('invariant inference does not converge')
            mark = len(self.obls)
            hs = hs0.copy()
            for l, f in cands: hs.assume(f(cur, hs))
            if self.loopspec and hasattr(self.loopspec, 'pools'): self.loopspec.pools(L, hs, cur)
            e2 = dict(env); e2.update(cur)
            hsnap = hs.copy()
            outs = self.run(hs, fn, e2, header, prev, (header, body))
            backs = [o for o in outs if o[0] == 'back']
            keep = cands
            for o in backs:
                nv = self.phivals(fn, o[2], header, o[3])
                keep2 = self.filter(o[1], [(l, f, f(nv, o[1])) for l, f in keep])
                keep = keep2
            if len(keep) == len(cands): break
            cands = keep
            del self.obls[mark:]
        self.inv_used = getattr(self, 'inv_used', {})
        self.inv_used[(fn.name, header)] = [l for l, f in cands]
        if writes and self.write_idx is not None:
            # an iteration that comes round again changes nothing outside the words forgotten at the loop head
            for o in backs:
                s, h = o[1], hsnap
                if s.mem is h.mem: continue
                x = z3.FreshConst(BV(61), 'fx')
                keep = simp(And(Not(wi(s0, x)), ULT(x, C(STACK >> 3, 61))))
                if z3.is_false(keep): continue
                self.oblige(s, 'loop-frame', Implies(keep, s.mem.word(None, 0, x) == h.mem.word(None, 0, x)), assume=False)
        if self.termination and backs:
            self.check_term(L, hsnap, backs, fn, header, cur)
        return [o for o in outs if o[0] != 'back']
    def check_term(self, L, hs, backs, fn, header, cur):
        ms = list(default_measures(L))
        if self.loopspec and hasattr(self.loopspec, 'measures'): ms = list(self.loopspec.measures(L)) + ms
        if self.loopspec and getattr(self.loopspec, 'no_termination', False): return
        rows = [(o[1], self.phivals(fn, o[2], header, o[3])) for o in backs]
        for l, f in ms:
            m0 = f(cur, hs)
            if all(self.valid(s, ULT(f(nv, s), m0), QT) for s, nv in rows):
                self.inv_used[(fn.name, header)].append('decreases ' + l)
                # record as a discharged obligation
                for s, nv in rows: self.oblige(s, 'loop-terminates', ULT(f(nv, s), m0), assume=False)
                return
        # lexicographic pairs
        for (l1, f1), (l2, f2) in itertools.permutations(ms, 2):
            if len(ms) > 14: break
            a0, b0 = f1(cur, hs), f2(cur, hs)
            lex = lambda s, nv: Or(ULT(f1(nv, s), a0), And(f1(nv, s) == a0, ULT(f2(nv, s), b0)))
            if all(self.valid(s, lex(s, nv), QT) for s, nv in rows):
                for s, nv in rows: self.oblige(s, 'loop-terminates', lex(s, nv), assume=False)
                return
        if ms:
            s, nv = rows[0]
            for s, nv in rows:
                self.oblige(s, 'loop-terminates', Or(*[ULT(f(nv, s), f(cur, hs)) for l, f in ms]) if False else ULT(ms[0][1](nv, s), ms[0][1](cur, hs)), assume=False)
        else:
            self.fail(rows[0][0], 'loop-terminates', 'no ranking function')
    def filter(self, st, items):
        """keep the candidates (label, fn, formula) valid in st; conjunctive elimination by models"""
        qs = [(l, f, g) for l, f, g in items if isinstance(g, Q)]
        ps = [(l, f, simp(g)) for l, f, g in items if not isinstance(g, Q)]
        keep = [(l, f) for l, f, g in ps if z3.is_true(g)]
        ps = [(l, f, g) for l, f, g in ps if not z3.is_true(g) and not z3.is_false(g)]
        if ps:
            s = z3.Solver(); s.set('timeout', QT)
            for c in st.pc: s.add(c)
            for c in self.instances(st): s.add(c)
            while ps:
                s.push(); s.add(Or(*[Not(g) for l, f, g in ps])); t = time.time(); r = s.check(); self.qtime += time.time() - t; self.nq += 1
                if r == z3.unsat: s.pop(); break
                if r == z3.unknown:
                    s.pop(); ps = [it for it in ps if self.solve(st, [Not(it[2])], timeout=QT) == z3.unsat]; break
                m = s.model(); s.pop()
                n = [it for it in ps if not z3.is_false(m.eval(it[2], model_completion=True))]
                if len(n) == len(ps):
                    out = []
                    for it in ps:
                        s.push(); s.add(Not(it[2])); r = s.check(); s.pop()
                        if r == z3.unsat: out.append(it)
                    ps = out; break
                ps = n
            keep += [(l, f) for l, f, g in ps]
        for l, f, g in qs:
            if self.prove(st, g, QT)[0]: keep.append((l, f))
        order = {id(f): k for k, (l, f, g) in enumerate(items)}
        keep.sort(key=lambda x: order[id(x[1])])
        return keep
    def do_unroll(self, st, fn, env, header, prev, body):
        """complete unwinding: every path must be infeasible after `unroll` iterations"""
        res = []
        work = [(st, env, prev, 0)]
        while work:
            st, env, prev, k = work.pop()
            if k > self.unroll:
                if self.feasible(st):
                    self.fail(st, 'loop-terminates', 'unwinding bound %d' % self.unroll)
                continue
            e2 = dict(env); e2.update(self.phivals(fn, env, header, prev))
            for o in self.run(st, fn, e2, header, prev, (header, body)):
                if o[0] == 'back': work.append((o[1], o[2], o[3], k + 1))
                else: res.append(o)
        return res

def default_cands(L):
    """templates over loop-carried values only"""
    for n in L.names:
        e = L.entry[n]
        yield ('%s == entry' % n, lambda v, s, n=n, e=e: v[n] == e)
    for n in L.ints:
        e = L.entry[n]
        yield ('%s <=s entry' % n, lambda v, s, n=n, e=e: v[n] <= e)
        yield ('%s >=s entry' % n, lambda v, s, n=n, e=e: v[n] >= e)
        yield ('%s <=u entry' % n, lambda v, s, n=n, e=e: ULE(v[n], e))
        yield ('%s >=u entry' % n, lambda v, s, n=n, e=e: UGE(v[n], e))
    for a, b in itertools.combinations(L.names, 2):
        if L.entry[a].sort() == L.entry[b].sort():
            yield ('%s == %s' % (a, b), lambda v, s, a=a, b=b: v[a] == v[b])
            if a in L.ints and b in L.ints:
                d = L.entry[a] - L.entry[b]; u = L.entry[a] + L.entry[b]
                yield ('%s - %s const' % (a, b), lambda v, s, a=a, b=b, d=d: v[a] - v[b] == d)
                yield ('%s + %s const' % (a, b), lambda v, s, a=a, b=b, d=u: v[a] + v[b] == d)

def default_measures(L):
    def ex(x): return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
    def sx(x): return z3.SignExt(64 - x.size(), x) if x.size() < 64 else x
    for n in L.ints:
        if L.entry[n].size() > 64: continue
        yield (n, lambda v, s, n=n: ex(v[n]))
        yield ('2^63-' + n, lambda v, s, n=n: C(2**63 - 1) - sx(v[n]))
        yield ('-' + n, lambda v, s, n=n: ~ex(v[n]))
        # an exit bound read from the loop: bound - n, for every loop-invariant operand compared with n
    for n, bnd in cmp_bounds(L):
        yield ('bound-' + n, lambda v, s, n=n, bnd=bnd: sx(bnd) - sx(v[n]))

def cmp_bounds(L):
    fn = L.fn; out = []
    lp = loops(fn)[L.header]
    for b in lp:
        for ins in fn.blocks[b].ins:
            if ins.op == 'icmp' and L.engine.bits(fn.module, ins.ty) == 64:
                x, y = ins.a[1], ins.a[2]
                for p, q in ((x, y), (y, x)):
                    if p[0] == 'l' and p[1] in L.ints and (q[0] == 'c' or (q[0] == 'l' and q[1] in L.env and q[1] not in L.cur)):
                        try: out.append((p[1], L.engine.val(fn, L.env, ins.ty, q)))
                        except Exception: pass
    return out

def popcount(x):
    n = x.size(); r = C(0, n)
    # SWAR form, easy for the bit-blaster
    if n == 64:
        x = x - (z3.LShR(x, 1) & C(0x5555555555555555))
        x = (x & C(0x3333333333333333)) + (z3.LShR(x, 2) & C(0x3333333333333333))
        x = (x + z3.LShR(x, 4)) & C(0x0f0f0f0f0f0f0f0f)
        x = x + z3.LShR(x, 8); x = x + z3.LShR(x, 16); x = x + z3.LShR(x, 32)
        return x & C(0x7f)
    for i in range(n): r = r + z3.ZeroExt(n-1, z3.Extract(i, i, x))
    return r
def clz(x):
    n = x.size(); r = C(n, n)
    for i in range(n): r = If(z3.Extract(i, i, x) == 1, C(n-1-i, n), r)
    return r
def ctz(x):
    n = x.size(); r = C(n, n)
    for i in reversed(range(n)): r = If(z3.Extract(i, i, x) == 1, C(i, n), r)
    return r

# ------------- trusted externals ----------------
def _noop(e, st, args, ins):
    if ins.res is None or ins.ty.k == 'void': return [(st, None)]
    return [(st, e.freshty(ins.fn.module.res(ins.ty), 'ext'))]
EXTERN = {}
for _n in ('printf', 'fprintf', 'sprintf', 'puts', 'putchar', 'fflush', 'perror', 'getpid', 'getppid', 'gettimeofday', 'time', 'clock_gettime', 'sched_yield',
           'usleep', 'nanosleep', 'getpagesize', '__assert_fail', 'vprintf', 'pthread_self', 'sphdeGetTID', 'sphdeGetPID', 'syscall', '__errno_location', 'strerror'):
    EXTERN['@' + _n] = _noop
def _noreturn(e, st, args, ins): raise Infeasible()
for _n in ('exit', 'abort', '__assert_fail', '_exit'):
    EXTERN['@' + _n] = _noreturn

USERTOP = 0x7f00_0000_0000
def sym(name, n=64): return fresh(name, BV(n))
def ptr(st, name, size, align=8, null=False):
    """a fresh pointer to `size` (int or term) addressable bytes in user memory"""
    p = fresh(name)
    sz = C(size) if isinstance(size, int) else size
    cs = [UGE(p, C(0x10000)), ULT(p, C(USERTOP)), ULE(sz, C(USERTOP)), ULE(p + sz, C(USERTOP)), (p & C(align - 1)) == 0]
    if null: st.assume(Or(p == 0, And(*cs)))
    else: st.assume(*cs)
    # globals of the program live in [GLOB, GLOB+2^32): user objects are elsewhere
    st.assume(Or(ULE(p + sz, C(GLOB)), UGE(p, C(GLOB + 0x1_0000_0000)), p == 0 if null else z3.BoolVal(False)))
    if align >= 8 and not null: st.al[(p.get_id(), 8)] = (p, True)
    return p
def disjoint(a, n, b, k):
    n = C(n) if isinstance(n, int) else n; k = C(k) if isinstance(k, int) else k
    return Or(ULE(a + n, b), ULE(b + k, a))
def inr(x, lo, size):
    """lo <= x < lo+size without wrap problems"""
    size = C(size) if isinstance(size, int) else size
    return ULT(x - lo, size)
def within(a, n, lo, size):
    """[a, a+n) inside [lo, lo+size)"""
    n = C(n) if isinstance(n, int) else n; size = C(size) if isinstance(size, int) else size
    return And(ULE(n, size), ULE(a - lo, size - n))

def enum_values(e, st, x, limit=40):
    """all values a term can take in this state (complete, or Undecided)"""
    v = num(x)
    if v is not None: return [v]
    s = z3.Solver(); s.set('timeout', QT)
    for f in st.pc: s.add(f)
    for f in e.instances(st): s.add(f)
    out = []
    while True:
        r = s.check()
        if r == z3.unsat: return sorted(out)
        if r != z3.sat or len(out) >= limit: raise Undecided('symbolic size is not bounded')
        k = s.model().eval(x, model_completion=True); out.append(k.as_long()); s.add(x != k)

def _copy(e, st, d, s_, n):
    o = 0; vs = []
    while o < n:
        k = 8 if n - o >= 8 else 4 if n - o >= 4 else 2 if n - o >= 2 else 1
        vs.append((o, k, e.load(st, simp(s_ + C(o)), k))); o += k
    for o, k, v in vs: e.store(st, simp(d + C(o)), v, k)
def memcpy_enum(e, st, args, ins):
    res = []
    vals = enum_values(e, st, args[2], 64)
    for n in vals:
        s2 = st.copy() if len(vals) > 1 else st
        if len(vals) > 1: s2.assume(args[2] == n)
        _copy(e, s2, args[0], args[1], n); res.append((s2, args[0]))
    return res
def memcmp_enum(e, st, args, ins):
    res = []
    vals = enum_values(e, st, args[2], 140)
    for n in vals:
        s2 = st.copy() if len(vals) > 1 else st
        if len(vals) > 1: s2.assume(args[2] == n)
        lt = z3.BoolVal(False); eq = z3.BoolVal(True); o = 0; xs = []
        while o < n:
            k = 8 if n - o >= 8 else 1
            a = e.load(s2, simp(args[0] + C(o)), k); b = e.load(s2, simp(args[1] + C(o)), k)
            if k == 8:
                f = lambda a: z3.Concat(*[z3.Extract(8*i+7, 8*i, a) for i in range(8)])
                a, b = f(a), f(b)
            xs.append((a, b)); o += k
        for a, b in reversed(xs):
            lt = Or(ULT(a, b), And(a == b, lt)); eq = And(a == b, eq)
        r = fresh('memcmp', BV(32))
        s2.assume(If(eq, r == 0, If(lt, r < 0, r > 0)))
        res.append((s2, r))
    return res
def memset_enum(e, st, args, ins):
    vals = enum_values(e, st, args[2], 64); res = []
    for n in vals:
        s2 = st.copy() if len(vals) > 1 else st
        if len(vals) > 1: s2.assume(args[2] == n)
        b = z3.Extract(7, 0, args[1]); w = z3.Concat(*[b] * 8); o = 0; pb, pc = lin(args[0])
        off = pc if pb is None or e.aligned(s2, pb, 8) else 0
        while o < n:
            k = 4 if (off + o) % 8 == 4 and n - o >= 4 else 8 if n - o >= 8 else 4 if n - o >= 4 else 1
            e.store(s2, simp(args[0] + C(o)), simp(z3.Extract(k*8-1, 0, w)), k); o += k
        res.append((s2, args[0]))
    return res
EXTERN['@memcpy'] = EXTERN['@memmove'] = memcpy_enum
EXTERN['@memcmp'] = memcmp_enum
EXTERN['@memset'] = memset_enum

# ---- byte-level contracts of string functions (trusted: libc) ----
def byte_at(m, a):
    i = simp(z3.Extract(63, 3, a)); sh = z3.Concat(C(0, 58), z3.Extract(2, 0, a), C(0, 3))
    return z3.Extract(7, 0, z3.LShR(m.word(None, 0, i), sh))
def strlen_c(e, st, args, ins):
    p = args[0]; n = fresh('strlen'); m = st.mem
    e.nonnull(st, p, 0)
    st.assume(byte_at(m, p + n) == 0, ULT(n, C(2**46)))
    st.q.append(Q(['sidx'], lambda k: Implies(ULT(k, n), byte_at(m, p + k) != 0), name='strlen'))
    st.pool('sidx', n)
    st.g.setdefault('strlens', []); st.g['strlens'] = st.g['strlens'] + [(p, n, m)]
    return [(st, n)]
strlen_c.pure = True
def copy_bytes(e, st, d, s, n):
    """bytes [d, d+n) become the bytes [s, s+n) (symbolic n)"""
    old = st.mem
    if e.may_write is not None: e.oblige(st, 'frame', Or(n == 0, e.may_write(st, d, n)))
    lo = z3.Extract(63, 3, d); hi = z3.Extract(63, 3, d + n - 1)
    new = old.havoc(lambda i: And(n != 0, UGE(i, lo), ULE(i, hi)), 'copy')
    st.mem = new
    st.q.append(Q(['sidx'], lambda k: Implies(ULT(k, n), byte_at(new, d + k) == byte_at(old, s + k)), name='copied'))
    st.q.append(Q(['baddr'], lambda a: Implies(UGE(a - d, n), byte_at(new, a) == byte_at(old, a)), name='copy-frame'))
def strcpy_c(e, st, args, ins):
    d, s = args[0], args[1]
    st, n = strlen_c(e, st, [s], ins)[0]
    copy_bytes(e, st, d, s, n + 1)
    return [(st, d)]
EXTERN['@strlen'] = strlen_c
EXTERN['@strcpy'] = strcpy_c
