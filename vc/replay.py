"""Replays a failed contract on the real code: the contract of each property is also written
as an executable oracle (replay/<id>.cpp), compiled with gcc against /repo's unmodified sources
(same flags as the build) and driven over corner cases, small exhaustive ranges and seeded
random histories.  Only run when a proof fails; it never decides that a property holds."""
import os, subprocess, signal, shutil, tempfile, re
import frontend
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-g', '-O1', '-w', '-D__SASSIM__', '-DHAVE_CONFIG_H', '-pthread']

def realsrc():
    d = os.path.join(frontend.scratch(), 'rsrc')
    if not os.path.isdir(d):
        os.makedirs(d); s = os.path.join(frontend.REPO, 'src')
        for f in os.listdir(s):
            if f.endswith(('.c', '.cpp', '.h')): shutil.copy(os.path.join(s, f), d)
        os.makedirs(os.path.join(d, 'inc')); os.symlink(d, os.path.join(d, 'inc', 'sphde'))
        if not os.path.exists(os.path.join(d, 'config.h')):
            cfg = os.path.join(frontend.REPO, '_build', 'config.h')
            if os.path.exists(cfg): shutil.copy(cfg, d)
            else: open(os.path.join(d, 'config.h'), 'w').write('\n')
    return d

def library():
    d = realsrc(); lib = os.path.join(d, 'libsphde_replay.a')
    if os.path.exists(lib): return lib
    ps = []; objs = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(('.c', '.cpp')) or f in ('sasutil.c', 'saslockl.cpp', 'sasatom.c'): continue
        o = os.path.join(d, f + '.o'); cc = 'g++' if f.endswith('.cpp') else 'gcc'
        ps.append((f, o, subprocess.Popen([cc] + FLAGS + ['-I' + d, '-c', os.path.join(d, f), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    log = ''
    for f, o, p in ps:
        out = p.communicate()[0]
        if p.returncode: log += 'cannot compile %s:\n%s\n' % (f, out[:500])
        else: objs.append(o)
    subprocess.run(['ar', 'rcs', lib] + objs, check=True)
    return lib

def replay(pid, failed, errors, secs, mod):
    drv = getattr(mod, 'REPLAY', None) if mod is not None else None
    if drv is None:
        p = os.path.join(ROOT, 'replay', pid.lower() + '.cpp')
        drv = [p] if os.path.exists(p) else []
    else: drv = [os.path.join(ROOT, 'replay', x) for x in drv]
    if not drv: return None, 'no replay driver'
    d = realsrc(); log = ''
    lib = library()
    for src in drv:
        exe = os.path.join(d, os.path.basename(src) + '.exe')
        c = subprocess.run(['g++', '-std=gnu++17'] + FLAGS + ['-fpermissive', '-I' + d, '-I' + os.path.join(ROOT, 'replay'), src, lib, '-o', exe, '-lrt'], capture_output=True, text=True)
        if c.returncode:
            log += 'driver %s does not compile:\n%s\n' % (src, c.stderr[:3000]); continue
        run = tempfile.mkdtemp(dir=frontend.scratch())
        env = dict(os.environ, SASSTOREPATH=run, VERIF_SEED=os.environ.get('VERIF_SEED', '1') or '1')
        p = subprocess.Popen([exe], cwd=run, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        to = False
        try: out = p.communicate(timeout=secs)[0]
        except subprocess.TimeoutExpired:
            to = True
            os.killpg(p.pid, 9); out = p.communicate()[0]
        try: os.killpg(p.pid, 9)
        except OSError: pass
        shutil.rmtree(run, ignore_errors=True)
        log += '%s: exit %s%s\n%s\n' % (os.path.basename(src), p.returncode, ' (time limit)' if to else '', out[-3000:])
        m = re.search(r'^FAIL: .*$', out, re.M)
        if m: return m.group(0)[6:], log
    return None, log
