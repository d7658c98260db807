"""Shared specification vocabulary: structure layouts read from the real headers, block
headers, interference (rely/guarantee) on shared words, lock events."""
from run import *

def layout(specs):
    """C text that exports the offset and size of structure fields of the real sources"""
    t = '#ifdef __cplusplus\nextern "C" {\n#endif\n'
    for S, fs in specs.items():
        cname = S.replace(' ', '_')
        t += 'extern const unsigned long vz_%s; const unsigned long vz_%s = sizeof(%s);\n' % (cname, cname, S)
        for f in fs:
            v = '%s_%s' % (cname, f.replace('.', '_'))
            t += 'extern const unsigned long vo_%s, vs_%s; const unsigned long vo_%s = __builtin_offsetof(%s, %s), vs_%s = sizeof(((%s *)0)->%s);\n' % (v, v, v, S, f, v, S, f)
    return t + '#ifdef __cplusplus\n}\n#endif\n'
def consts(d):
    t = '#ifdef __cplusplus\nextern "C" {\n#endif\n'
    for n, e in d.items(): t += 'extern const unsigned long vc_%s; const unsigned long vc_%s = (unsigned long)(%s);\n' % (n, n, e)
    return t + '#ifdef __cplusplus\n}\n#endif\n'
def gconst(e, name):
    for m in e.modules:
        g = m.globals.get('@' + name)
        if g and g[2] is not None:
            return g[2][1] if g[2][0] == 'c' else 0
    raise frontend.ExtractError('constant %s is gone' % name)
class Rec:
    """field access of one structure type"""
    def __init__(s, e, S): s.e = e; s.S = S.replace(' ', '_')
    def off(s, f): return gconst(s.e, 'vo_%s_%s' % (s.S, f.replace('.', '_')))
    def size(s, f=None): return gconst(s.e, 'vz_' + s.S) if f is None else gconst(s.e, 'vs_%s_%s' % (s.S, f.replace('.', '_')))
    def a(s, p, f): return p + C(s.off(f))
    def rd(s, m, p, f, ext=True):
        """value (8-aligned structures); narrow fields zero-extended"""
        k = s.size(f); o = s.off(f)
        v = m.rd(p + C(o), k)
        return z3.ZeroExt(64 - 8 * k, v) if k < 8 and ext else v
    def at(s, p, f, a, n):
        """[a, a+n) is inside field f of p"""
        return within(a, n, p + C(s.off(f)), s.size(f))
BLOCK = {'SASBlockHeader': ['blockSig1', 'blockSig2', 'blockType', 'blockSize', 'blockFreeSpace', 'baseBlock', 'nextBlock', 'special']}
BCONST = {'sig1': 'block__Signature_1', 'sig2': 'block__Signature_2', 'typecheck': 'SAS_TYPE_CHECK_MASK', 'subtypecheck': 'SAS_SUBTYPE_CHECK_MASK', 'typemask': 'SAS_TYPE_MASK'}
def sig_ok(e, m, b):
    R = Rec(e, 'SASBlockHeader')
    return And(R.rd(m, b, 'blockSig1') == C(gconst(e, 'vc_sig1')), R.rd(m, b, 'blockSig2') == C(gconst(e, 'vc_sig2')))
def type_ok(e, m, b, t):
    """signature and type match (any subtype, no user-defined group bit unless asked)"""
    R = Rec(e, 'SASBlockHeader'); ty = R.rd(m, b, 'blockType'); t = gconst(e, 'vc_' + t)
    return And(sig_ok(e, m, b), (ty & C(gconst(e, 'vc_typecheck'))) == C(t & gconst(e, 'vc_typemask')))
def subtype_ok(e, m, b, t):
    R = Rec(e, 'SASBlockHeader'); ty = R.rd(m, b, 'blockType'); t = gconst(e, 'vc_' + t); k = gconst(e, 'vc_subtypecheck')
    return And(sig_ok(e, m, b), (ty & C(k)) == C(t & k))
def zx(x): return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
def lockstubs(e, log='locks'):
    """SASLock/SASUnlock under contract: events recorded in order"""
    def lock(e, st, args, ins):
        st.g[log] = st.g.get(log, []) + [('lock', args[0], args[1])]
        return [(st, e.freshty(ins.fn.module.res(ins.ty), 'lk') if ins.ty.k != 'void' else None)]
    def unlock(e, st, args, ins):
        st.g[log] = st.g.get(log, []) + [('unlock', args[0])]
        return [(st, e.freshty(ins.fn.module.res(ins.ty), 'lk') if ins.ty.k != 'void' else None)]
    e.contracts['@SASLock'] = lock; e.contracts['@SASUnlock'] = unlock
    e.contracts['@SASNLock'] = lock; e.contracts['@SASNUnlock'] = unlock
def rand_block(e, st, name='blk', size=None, align=4096):
    n = sym(name + '_size') if size is None else size
    if size is None: st.assume(UGE(n, C(512)), ULE(n, C(2**40)), (n & 255) == 0)
    b = ptr(st, name, n, align)
    return b, n
def unchanged(m, m2, p, n):
    return And(*[m2.rd(p + C(8 * i)) == m.rd(p + C(8 * i)) for i in range((n + 7) // 8)])
