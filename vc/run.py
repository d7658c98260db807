"""Check driver: python3-vt vc/run.py <property> [--tier quick|thorough] [-v] [--unit name]

Regenerates every proof obligation of the property from /repo's current sources, discharges
them, runs the vacuity checks, and reports."""
import sys, os, json, time, importlib, traceback, subprocess, multiprocessing, re, tempfile, argparse, resource
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'props'))
sys.setrecursionlimit(100000)
import z3
import frontend
from engine import *
import engine as EG
from llparse import parse_module

UNITS = []
class Unit:
    def __init__(s, name, f, weight=1, functions=()): s.name, s.f, s.weight, s.functions = name, f, weight, list(functions)
def unit(name, weight=1, functions=()):
    def deco(f):
        UNITS.append(Unit(name, f, weight, functions)); return f
    return deco
def clear_units(): del UNITS[:]

_mods = {}
def module(name, text=None):
    k = name
    if k not in _mods: _mods[k] = parse_module(frontend.compile_ll(name, text))
    return _mods[k]

class Ctx:
    """handed to a unit: builds engines, records covers"""
    def __init__(s, u, tier): s.u = u; s.tier = tier; s.engines = []; s.covers = []; s.notes = []; s.lemmas = []
    def engine(s, files, **kw):
        e = Engine([module(f) if isinstance(f, str) else f for f in files], **kw)
        e.cur = s.u.name; s.engines.append(e); e.ctx = s
        return e
    def run(s, e, st, fn, args, cover=True, name=None):
        """symbolically execute a function from st; returns [(st, ret)]"""
        f = e.fns.get(fn)
        if f is None:      # C++ linkage
            c = [x for x in e.fns if x.startswith('@_Z%d%s' % (len(fn) - 1, fn[1:]))]
            if len(c) == 1: fn = c[0]; f = e.fns[fn]
        if f is None: raise frontend.ExtractError('function %s is gone' % fn)
        e.cur = s.u.name + (':' + name if name else '')
        e.under_contract.add(fn)
        rs = e.exec_fn(st.copy(), f, args)
        if cover: s.covers.append((fn + (':' + name if name else ''), [x[0] for x in rs], e))
        return rs

def smt2(st, eng, goal, ep):
    s = z3.Solver()
    for f in st.pc: s.add(f)
    for f in eng.instances(st, ep): s.add(f)
    s.add(Not(goal))
    return s.to_smt2()

def cvc5_try(text, secs):
    p = tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=frontend.scratch(), delete=False)
    p.write('(set-logic ALL)\n' + text); p.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), p.name], capture_output=True, text=True, timeout=secs + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(p.name)

def conjuncts(g):
    if isinstance(g, bool): return [z3.BoolVal(g)]
    if z3.is_and(g): return [y for x in g.children() for y in conjuncts(x)]
    if z3.is_implies(g):
        return [Implies(g.arg(0), y) for y in conjuncts(g.arg(1))]
    return [g]
def discharge(eng, o, tmo):
    """an obligation is proved when each of its conjuncts is"""
    t = time.time()
    g, ep = eng.skolem(o.goal)
    ep = list(ep) + list(o.extra or [])
    gs = conjuncts(g) if eng.lia else [g]
    for x in gs:
        r, m, b = discharge1(eng, o, x, ep, tmo)
        if o.backend in (None, 'z3'): o.backend = b
        if r != z3.unsat: break
    o.time = time.time() - t
    if r == z3.unsat: o.res = 'proved'; return
    o.res = 'refuted' if r == z3.sat else 'unknown'
    if m is not None:
        try: o.model = {str(d): str(m[d])[:200] for d in m.decls() if d.arity() == 0 and ('!' not in str(d) or len(m.decls()) < 60)}
        except Exception: o.model = {}
def discharge1(eng, o, g, ep, tmo):
    r, m, s = eng.solve(o.st, [Not(g)], ep, min(tmo, 8000), model=True)
    backend = 'z3'
    if r == z3.unknown:
        # bit-vector strategy: eliminate definitions, ackermannize, bit-blast
        try:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()
            s2.set('timeout', tmo)
            for f in s.assertions(): s2.add(f)
            r = s2.check()
            if r == z3.sat: m = s2.model()
            elif r == z3.unsat: backend = 'z3-bitblast'
        except z3.Z3Exception: r = z3.unknown
    if r == z3.unknown:
        r, m, s = eng.solve(o.st, [Not(g)], ep, tmo, model=True)
    if r == z3.unknown:
        c = cvc5_try(smt2(o.st, eng, g, ep), tmo // 1000)
        if c == 'unsat': r = z3.unsat; backend = 'cvc5'
        elif c == 'sat': r = z3.sat; backend = 'cvc5'
    return r, m, backend

def run_unit(u, tier, tmo, conn, nproc):
    """in a child process: execute, discharge, send a summary"""
    t0 = time.time(); out = dict(unit=u.name, obls=[], error=None, covers=[], qtime=0, nq=0)
    ctx = Ctx(u, tier)
    try:
        u.f(ctx)
    except (Undecided, frontend.ExtractError) as ex:
        out['error'] = '%s: %s' % (type(ex).__name__, ex)
    except Infeasible:
        out['error'] = 'Infeasible escaped'
    except Exception as ex:
        out['error'] = 'internal: ' + traceback.format_exc()[-3000:]
    out['t_exec'] = time.time() - t0
    obls = [(e, o) for e in ctx.engines for o in e.obls]
    res = []
    if nproc > 1 and len(obls) > 12:
        res = par_discharge(obls, tmo, nproc)
    else:
        for e, o in obls:
            discharge(e, o, tmo); res.append((o.res, o.backend, o.time, o.model))
    for (e, o), (r, b, t, m) in zip(obls, res):
        d = dict(name=o.name, res=r, backend=b, time=round(t, 3))
        if o.kind != 'assert': d['kind'] = o.kind
        if r != 'proved': d['model'] = m; d['goal'] = str(o.goal)[:600] if not isinstance(o.goal, Q) else 'forall ' + o.goal.name
        out['obls'].append(d)
    # vacuity: every executed function must have a return state satisfiable together with its assumptions
    for name, sts, e in ctx.covers:
        ok = False
        for s in sts:
            r = e.solve(s, [], timeout=30000)
            if r != z3.unsat: ok = True; break
        out['covers'].append((name, ok, len(sts)))
    out['lemmas'] = ctx.lemmas
    for e in ctx.engines: out['qtime'] += e.qtime; out['nq'] += e.nq
    out['inlined'] = sorted(set().union(*[e.inlined for e in ctx.engines])) if ctx.engines else []
    out['contract'] = sorted(set().union(*[e.under_contract for e in ctx.engines])) if ctx.engines else []
    out['assumed'] = sorted(set().union(*[set(e.contracts) for e in ctx.engines])) if ctx.engines else []
    out['externals'] = sorted(set().union(*[e.externals_used for e in ctx.engines])) if ctx.engines else []
    out['invariants'] = {'%s %s' % k: v for e in ctx.engines for k, v in getattr(e, 'inv_used', {}).items()}
    out['t'] = time.time() - t0
    conn.send(out); conn.close()
    os._exit(0)

def par_discharge(obls, tmo, n):
    import select
    n = min(n, (len(obls) + 5) // 6)
    rd = []
    for k in range(n):
        a, b = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            a.close()
            try: import ctypes; ctypes.CDLL(None).prctl(1, 9)
            except Exception: pass
            try:
                o = [(i, discharge(*obls[i], tmo), obls[i][1]) for i in range(k, len(obls), n)]
                b.send([(i, x.res, x.backend, x.time, x.model) for i, _, x in o])
            except BaseException as ex:
                try: b.send(('err', traceback.format_exc()))
                except Exception: pass
            os._exit(0)
        b.close(); rd.append((a, pid))
    res = [('unknown', None, 0, None)] * len(obls)
    for a, pid in rd:
        try:
            v = a.recv()
            if isinstance(v, list):
                for i, r, b, t, m in v: res[i] = (r, b, t, m)
        except EOFError: pass
        os.waitpid(pid, 0)
    return res

def run_units(units, tier, tmo, deadline, NP=None):
    """run the units in parallel; results, and names of the units that died or did not finish"""
    NP = NP or os.cpu_count() or 4; results = []; late = []
    todo = sorted(units, key=lambda u: -u.weight); running = []
    while todo or running:
        while todo and len(running) < NP:
            u = todo.pop(0); r, w = multiprocessing.Pipe(False)
            pid_ = os.fork()
            if pid_ == 0:
                r.close()
                try: import ctypes; ctypes.CDLL(None).prctl(1, 9)   # end with the driver
                except Exception: pass
                try: os.setpgid(0, 0)
                except OSError: pass
                run_unit(u, tier, tmo, w, max(1, NP // max(1, min(len(units), NP)), min(NP, u.weight)))
                os._exit(0)
            w.close(); running.append((u, r, pid_))
        ready = multiprocessing.connection.wait([x[1] for x in running], 1.0)
        nr = []
        for x in running:
            u, r, p = x
            if r in ready:
                try: results.append(r.recv())
                except EOFError: late.append(u.name)
                os.waitpid(p, 0)
                try: os.killpg(p, 9)
                except OSError: pass
            elif time.time() > deadline:
                try: os.killpg(p, 9)
                except OSError: pass
                os.waitpid(p, 0); late.append(u.name)
            else: nr.append(x)
        running = nr
        if time.time() > deadline: late += [u.name for u in todo]; todo = []
    return results, late

def known_findings(pid):
    p = os.path.join(ROOT, 'known-findings'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true'); ap.add_argument('--unit'); ap.add_argument('--replay', action='store_true'); ap.add_argument('--dump', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    pid = a.prop; budget = 700 if tier == 'quick' else 3000
    tmo = 60000 if tier == 'quick' else 240000
    # property module
    sys.modules['run'] = sys.modules['__main__']
    errors = []; results = []
    try: mod = importlib.import_module(pid.lower())
    except frontend.ExtractError as ex:
        mod = None; errors.append('extraction: %s' % ex)
    except Exception: 
        mod = None; errors.append('internal: ' + traceback.format_exc())
    if mod is None:
        info = re.search(r'^INFO\s*=', open(os.path.join(ROOT, 'props', pid.lower() + '.py')).read(), re.M)
    units = [u for u in UNITS if not a.unit or re.search(a.unit, u.name)]
    # precompile in parallel
    if mod is not None:
        srcs = getattr(mod, 'SOURCES', [])
        from concurrent.futures import ThreadPoolExecutor
        frontend.srcdir()
        def comp(x):
            try: return x, frontend.compile_ll(*(x if isinstance(x, tuple) else (x,)))
            except frontend.ExtractError as ex: return x, ex
        with ThreadPoolExecutor(8) as tp:
            for x, r in tp.map(comp, srcs):
                if isinstance(r, Exception): errors.append('extraction: %s' % r)
                else:
                    try: _mods[x[0] if isinstance(x, tuple) else x] = parse_module(r)
                    except Exception as ex: errors.append('extraction: parse of %s: %r' % (x, ex))
    retried = []
    if not errors:
        results, late = run_units(units, tier, tmo, t0 + budget)
        # a solver limit hit on a loaded machine can lose an invariant or an obligation: units that failed are run
        # once more, with larger limits and fewer at a time, before anything is reported
        again = [u for u in units if any(r['unit'] == u.name and (r['error'] or any(o['res'] != 'proved' for o in r['obls'])) for r in results)]
        again += [u for u in units if u.name in late]
        end = t0 + (500 if tier == 'quick' else 2600)
        if again and time.time() < end - 30 and not os.environ.get('VC_NORETRY'):
            import engine
            engine.QT *= 4; retried = [u.name for u in again]
            r2, l2 = run_units(again, tier, tmo * 2, end, 4)
            for r in r2:
                bad1 = [x for x in results if x['unit'] == r['unit']]
                if not (r['error'] and bad1):
                    results = [x for x in results if x['unit'] != r['unit']] + [r]; late = [x for x in late if x != r['unit']]
        errors += ['unit %s: undecided within the time budget' % x for x in late]
    failed = []; nob = 0; nproved = 0; by = {}
    for r in sorted(results, key=lambda r: r['unit']):
        if r['error']: errors.append('%s: %s' % (r['unit'], r['error']))
        nob += len(r['obls'])
        for o in r['obls']:
            if o['res'] == 'proved': nproved += 1; by[o['backend']] = by.get(o['backend'], 0) + 1
            else: failed.append(o)
        if not r['error']:
            if not r['obls']: errors.append('%s: generated no obligation' % r['unit'])
            for n, ok, k in r['covers']:
                if not ok: errors.append('%s: vacuous: no return of %s is reachable under the precondition' % (r['unit'], n))
            if not r['covers'] and not r.get('lemmas'): errors.append('%s: no cover' % r['unit'])
        if a.v:
            print('unit %-40s %3d obls %3d failed  exec %.1fs total %.1fs queries %d' % (r['unit'], len(r['obls']), sum(o['res'] != 'proved' for o in r['obls']), r['t_exec'], r['t'], r['nq']), r['error'] or '')
            for o in r['obls']:
                if o['res'] != 'proved' or o['time'] > 5:
                    print('   ', o['name'], o['res'], o['backend'], o['time'], o.get('kind', ''), o.get('goal', '')[:300] if a.dump else '', o.get('model') if a.dump else '')
            if a.dump:
                for k, v in r['invariants'].items(): print('    inv', k, v)
    if a.unit and not a.replay:
        for e in errors: print('ERR', e)
        print('obligations %d discharged %d' % (nob, nproved)); sys.exit(0 if not failed and not errors else 1)
    bad = bool(failed or errors)
    rep = None; kf = known_findings(pid)
    kf_hit = []
    if kf and mod is not None and hasattr(mod, 'check_findings'):
        kf_hit = mod.check_findings(kf)
    nviol = 0
    if bad:
        rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        rep = os.path.join(rdir, pid + '.txt'); found = None; log = ''
        try:
            import replay as RP
            left = max(60, 840 - (time.time() - t0)) if tier == 'quick' else 1200
            m2 = mod
            found, log = RP.replay(pid, failed, errors, min(left, 240), mod)
        except Exception: log = 'replay driver: ' + traceback.format_exc()
        with open(rep, 'w') as f:
            f.write('property %s\n\n' % pid)
            if found: f.write('FAILING INPUT (replayed on the real code):\n%s\n\n' % found)
            for o in failed: f.write('failed obligation %s: %s (%s)\n  goal: %s\n  verifier model: %s\n' % (o['name'], o['res'], o.get('kind', 'assert'), o.get('goal'), json.dumps(o.get('model'))))
            for e in errors: f.write('undecided: %s\n' % e)
            f.write('\nreplay log:\n%s\n' % log)
        for o in failed[:20]: print('failed obligation: %s [%s]' % (o['name'], o['res']))
        for e in errors[:20]: print('undecided: %s' % e[:2000])
        nviol = 1
    info = getattr(mod, 'INFO', {}) if mod else {}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='proof',
              coverage=dict(obligations=nob, discharged=nproved, checker_cmd='/verif/check %s --tier %s' % (pid, tier),
                            trusted_base=TRUSTED + info.get('trusted', []),
                            by_backend=by, solver_s=round(sum(r['qtime'] for r in results) + sum(o['time'] for r in results for o in r['obls']), 2), queries=sum(r['nq'] for r in results),
                            functions_under_contract=sorted(set(x for r in results for x in r['contract'])),
                            functions_inlined=sorted(set(x for r in results for x in r['inlined'])),
                            contracts_used_at_calls=sorted(set(x for r in results for x in r['assumed'])),
                            trusted_externals=sorted(set(x for r in results for x in r['externals'])),
                            units={r['unit']: len(r['obls']) for r in results},
                            covers=sum(len(r['covers']) for r in results),
                            lemmas=[l for r in results for l in r.get('lemmas', [])],
                            bounded=info.get('bounded', []),
                            loop_invariants={k: v for r in results for k, v in r['invariants'].items()},
                            failed=[o['name'] for o in failed], undecided=errors, retried=retried),
              assumptions=info.get('assumptions', []) or ['see DESIGN.md'], wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1fs' % (pid, nob, nproved, len(ev['coverage']['functions_under_contract']), time.time() - t0))
    for i, what in kf_hit: print('KNOWN-FINDING: property=%s %s %s' % (pid, i, what))
    if bad:
        print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)

TRUSTED = ['z3 5.3.2 / cvc5 1.1.2 as decision procedures', 'clang-18 front end and opt-18 sroa/loop-simplify/lowerswitch (the shipped build uses gcc)',
           'the verification-condition generator in /verif/vc (symbolic execution of LLVM IR, invariant inference)',
           'memory model: flat 64-bit byte addressed memory, little endian, sequentially consistent']
if __name__ == '__main__': main()
