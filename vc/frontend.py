"""Mechanical extraction: /repo/src -> scratch copy -> clang-18 LLVM IR -> parsed module.

What the extraction changes (and nothing else):
  * the inline-asm idiom "lock; cmpxchg %2, %1; sete %0" in sasatom_x86_64.h, which clang
    rejects (8-bit output tied to a wider input), is rewritten token by token to the
    compiler builtin __atomic_compare_exchange_n with the same operands.  If the idiom is
    not textually recognised the compile fails and the check reports it.
  * clang is told to announce gcc's version (-fgnuc-version) so that the same
    preprocessor branches are compiled as in the shipped (gcc) build.
"""
import os, re, shutil, subprocess, tempfile, atexit, hashlib

REPO = os.environ.get('VC_REPO', '/repo')
_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vcx.')
        pid = os.getpid()
        def clean(p=_scratch, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(p, ignore_errors=True)
        atexit.register(clean)
    return _scratch

CAS = re.compile(
    r'__asm__\s+__volatile__\s*\(\s*"lock; cmpxchg %2, %1; sete %0"\s*'
    r':\s*"=a"\s*\((?P<ret>\w+)\)\s*,\s*"=m"\s*\(\*(?P<p>\w+)\)\s*'
    r':\s*"r"\s*\((?P<new>\w+)\)\s*,\s*"m"\s*\(\*(?P<p2>\w+)\)\s*,\s*"0"\s*\((?P<old>\w+)\)\s*'
    r':\s*"memory"\s*\)')

def srcdir():
    d = os.path.join(scratch(), 'src')
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    s = os.path.join(REPO, 'src')
    for f in os.listdir(s):
        if f.endswith(('.c', '.cpp', '.h')):
            shutil.copy(os.path.join(s, f), d)
    h = os.path.join(d, 'sasatom_x86_64.h')
    t = open(h).read()
    def sub(m):
        if m.group('p') != m.group('p2'):
            return m.group(0)
        return ('{ __typeof__(*(%(p)s) + 0) __vco = (%(old)s); %(ret)s = (char) '
                '__atomic_compare_exchange_n (%(p)s, &__vco, (%(new)s), 0, 5, 5); }'
                % m.groupdict())
    t = CAS.sub(sub, t)
    open(h, 'w').write(t)
    # configuration header: the build's own one when there is a build tree, else an empty one
    cfg = os.path.join(REPO, '_build', 'config.h')
    if os.path.exists(cfg):
        shutil.copy(cfg, d)
    else:
        open(os.path.join(d, 'config.h'), 'w').write('\n')
    return d

class ExtractError(Exception):
    pass

def compile_ll(name, text=None, passes='sroa,loop-simplify,lowerswitch,loop-simplify', extra=()):
    """name: file name in /repo/src, or a generated translation unit when text is given"""
    d = srcdir()
    src = os.path.join(d, name)
    if text is not None:
        open(src, 'w').write(text)
    if not os.path.exists(src):
        raise ExtractError('source file %s is gone' % name)
    out = os.path.join(scratch(), name + '.ll')
    o2 = os.path.join(scratch(), name + '.o.ll')
    cmd = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-strict-aliasing',
           '-fno-discard-value-names', '-fgnuc-version=9.4.0', '-D__SASSIM__', '-fno-exceptions',
           '-DHAVE_CONFIG_H', '-I' + d, '-w', '-S', '-emit-llvm', '-g0'] + list(extra) + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang cannot compile %s:\n%s' % (name, r.stderr[:3000]))
    r = subprocess.run(['opt-18', '-passes=' + passes, '-S', out, '-o', o2], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt failed on %s:\n%s' % (name, r.stderr[:3000]))
    return o2
