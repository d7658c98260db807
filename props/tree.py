"""Vocabulary of the allocator's search trees: ghost set of nodes and the key interval each node is responsible for."""
from common import *
TEXT = '#include "ultree.cpp"\n' + '''
extern "C" { extern const unsigned long vo_key, vo_info, vo_left, vo_right, vz_node;
struct w_node { search_t key; info_t info; w_node *left; w_node *right; };
const unsigned long vo_key = 0, vo_info = 8, vo_left = 16, vo_right = 24, vz_node = sizeof (uLongTreeNode); }
'''
W_ = 'w_ultree.cpp'
MAX = C(2**64 - 1); B_ = z3.BoolSort()
def mk(n, *so): return z3.Function('%s!%d' % (n, next(EG._ctr)), *so)
def bst(key, L, R, rt, N, lo, hi, par, place=lambda x: z3.BoolVal(True), ykind=None, apartf=lambda x, y: Or(ULE(x + 32, y), ULE(y + 32, x)), hints=lambda x: ()):
    def one(x): return Implies(N(x), And(x != 0, place(x), ULE(lo(x), key(x)), ULE(key(x), hi(x)),
        Implies(L(x) != 0, And(N(L(x)), par(L(x)) == x, ULT(lo(x), key(x)), lo(L(x)) == lo(x), hi(L(x)) == key(x) - 1)),
        Implies(R(x) != 0, And(N(R(x)), par(R(x)) == x, ULT(key(x), hi(x)), lo(R(x)) == key(x) + 1, hi(R(x)) == hi(x)))))
    def apart(x, y): return Implies(And(N(x), N(y), x != y), apartf(x, y))
    def below(y, x): return Or(And(L(x) != 0, ULE(lo(x), lo(y)), ULT(hi(y), key(x))), And(R(x) != 0, ULT(key(x), lo(y)), ULE(hi(y), hi(x))))
    def cov(x, y): return Implies(And(N(x), N(y), x != y), Or(ULT(hi(x), lo(y)), ULT(hi(y), lo(x)), below(y, x), below(x, y)))
    h = lambda *xs: [('node', t) for x in xs for t in (x, L(x), R(x)) + tuple(hints(x))]
    return [('root-is-responsible-for-all-keys', Implies(rt != 0, And(N(rt), lo(rt) == 0, hi(rt) == MAX))), ('empty-tree-has-no-node', Q([ykind or 'node'], lambda x: Implies(rt == 0, Not(N(x))), name='empty')),
        ('children-split-the-interval-of-their-parent', Q(['node'], one, name='node', hints=h)), ('nodes-disjoint-and-keys-unique', Q(['node', 'node'], apart, name='apart', hints=h)),
        ('every-key-is-on-its-search-path', Q(['node', ykind or 'node'], cov, name='covered', hints=h))]
class Tree:
    def __init__(s, st, rp, m=None):
        s.st = st; s.rp = rp; s.N = mk('node', BV(64), B_); s.lo = mk('lo', BV(64), BV(64)); s.hi = mk('hi', BV(64), BV(64)); s.par = mk('parent', BV(64), BV(64)); s.m = m or st.mem
    def key(s, x, m=None): return (m or s.m).rd(x)
    def left(s, x, m=None): return (m or s.m).rd(x + 16)
    def right(s, x, m=None): return (m or s.m).rd(x + 24)
    def wf(s, m, ykind=None):
        """binary search tree: every node keeps its key, its children's intervals and no key twice"""
        return bst(lambda x: m.rd(x), lambda x: m.rd(x + 16), lambda x: m.rd(x + 24), m.rd(s.rp), s.N, s.lo, s.hi, s.par, s.place, ykind)
    def place(s, x): return And(UGE(x, C(65536)), ULE(x, C(1 << 46)), x & 15 == 0, Or(ULE(s.rp + 8, x), ULE(x + 32, s.rp)))
    def link(s, a): return Or(a == s.rp, s.N(a - 16), s.N(a - 24))
    def llo(s, a): return If(a == s.rp, C(0), If(s.N(a - 16), s.lo(a - 16), s.key(a - 24) + 1))
    def lhi(s, a): return If(a == s.rp, MAX, If(s.N(a - 16), s.key(a - 16) - 1, s.hi(a - 24)))
    def gap(s, a):
        """the link's interval is not empty"""
        return If(a == s.rp, z3.BoolVal(True), If(s.N(a - 16), ULT(s.lo(a - 16), s.key(a - 16)), ULT(s.key(a - 24), s.hi(a - 24))))
    def pool(s, st, *xs):
        for x in xs: st.pool('node', x)
