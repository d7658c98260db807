"""Vocabulary of the event logger."""
from common import *
LF = ['blockHeader.blockSize', 'next_free', 'start_log_buf', 'end_log_buf', 'align_mask', 'options', 'default_entry_stride']
TEXT = '#include "sphlflogger.cpp"\n' + layout(dict(BLOCK, SASLFLoggerHeader=LF, SPHLFLoggerHandle_t=['entry', 'next', 'total_size', 'remaining'],
    SPHLFLogHeader_t=['entryID', 'PID', 'TID', 'timeStamp'], SPHLFLogIterator_t=['logger', 'current', 'free', 'start_log', 'end_log', 'options'])) + consts(dict(BCONST, lftype='SAS_RUNTIME_LOCKFREELOGGER', hdr='DEFAULT_PAGE',
    circ='SPHLFLOGGER_CIRCULAR', wrap='SPHLFLOGGER_CIRCULAR_WRAPED', notfirst='SPHLFLOGGER_CIRCULAR_NOTFIRST', pf0='SPHLFLOGGER_CACHE_PREFETCH0', pf1='SPHLFLOGGER_CACHE_PREFETCH1', reset='SPHLFLOGGER_CIRCULAR_RESETMASK'))
W_ = 'w_lflog.cpp'
def r16(x): return (x + 15) & C(~15)
class Log:
    def __init__(s, ctx, valid=True, extra=()):
        s.e = e = ctx.engine([W_, 'freenode.c', 'sasalloc.cpp'] + list(extra)); s.st = st = State()
        s.H = Rec(e, 'SASLFLoggerHeader'); s.HD = Rec(e, 'SPHLFLoggerHandle_t'); s.EN = Rec(e, 'SPHLFLogHeader_t'); s.IT = Rec(e, 'SPHLFLogIterator_t')
        k = lambda n: C(gconst(e, 'vc_' + n)); s.k = k
        s.size = sym('bufsize'); st.assume(UGE(s.size, C(512)), ULE(s.size, C(2**40)))
        s.log = ptr(st, 'log', s.size, 256); m = st.mem
        s.ok = type_ok(e, m, s.log, 'lftype')
        s.start = s.f(m, 'start_log_buf'); s.end = s.f(m, 'end_log_buf')
        st.assume(Implies(s.ok, And(s.f(m, 'align_mask') == C(~15), (s.start & 15) == 0, ULE(s.log + k('hdr'), s.start), ULE(s.start, s.end), ULE(s.end, s.log + s.size),
                  UGE(s.nf(m), s.start), ULT(s.nf(m), C(2**62)), (s.nf(m) & 15) == 0)))
        if valid: st.assume(s.ok)
        s.circ = (s.f(m, 'options') & k('circ')) != 0
        lockstubs(e)
    def f(s, m, n): return s.H.rd(m, s.log, n)
    def nf(s, m): return s.f(m, 'next_free')
    def handle(s, name='handle'):
        h = ptr(s.st, name, s.HD.size()); s.st.assume(disjoint(h, s.HD.size(), s.log, s.size)); return h
    def bits(s, w, lo, n): return z3.Extract(lo + n - 1, lo, w)
    def entry_ok(s, m, en, need, cat, sub):
        """header of a fresh, incomplete, timestamped entry"""
        w = s.EN.rd(m, en, 'entryID', False)
        return And(s.bits(w, 0, 1) == 0, s.bits(w, 1, 1) == 1, s.bits(w, 4, 12) == z3.Extract(11, 0, cat), s.bits(w, 16, 8) == z3.Extract(7, 0, sub), s.bits(w, 24, 8) == z3.Extract(11, 4, need))
    def handle_ok(s, m, h, en, need):
        hs = C(s.EN.size())
        return And(s.HD.rd(m, h, 'entry') == en, s.HD.rd(m, h, 'next') == en + hs, s.HD.rd(m, h, 'total_size', False) == z3.Extract(15, 0, need), s.HD.rd(m, h, 'remaining', False) == z3.Extract(15, 0, need - hs))
    def frame(s, h=None):
        """alloc functions write the cursor, the options, the handle, entries inside the buffer"""
        def fr(st, a, n):
            o = [s.H.at(s.log, 'next_free', a, n), s.H.at(s.log, 'options', a, n), within(a, n, s.start, s.end - s.start)]
            if h is not None: o.append(within(a, n, h, s.HD.size()))
            return Or(*o)
        s.e.may_write = fr
        def wi(st, i):
            a = z3.Concat(i, C(0, 3)); o = [a == s.H.a(s.log, 'next_free'), a == (s.H.a(s.log, 'options') & C(~7)), ULT(a - s.start, s.end - s.start)]
            if h is not None: o.append(ULT(a - h, C(s.HD.size())))
            return Or(*o)
        s.e.write_idx = wi
