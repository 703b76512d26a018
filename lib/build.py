"""Content-addressed build of /repo sources and harnesses.

Every object is keyed by the hash of its preprocessed text and its flags, so a
check always reflects /repo's current working tree, and an unchanged unit is
never compiled twice.
"""
import hashlib, os, subprocess, sys, concurrent.futures as cf, tempfile, shutil, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
OBJ = os.path.join(BUILD, 'obj')
BIN = os.path.join(BUILD, 'bin')
CXX = 'g++'
BASE = ['-std=c++17', '-w', '-g0', '-pthread', '-I%s/include' % REPO, '-I%s/harness' % VERIF]

VARIANTS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    # instrumented for harness/fibers.cpp, which takes the place of the sanitizer's runtime
    'sched': ['-O1', '-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSCHED'],
}
# Units too expensive to instrument: always built plain (they may be mixed freely).
NEVER_INSTRUMENT = {'src/SyntaxTree.cpp'}


_locks, _locks_lock = {}, threading.Lock()


_serial = threading.Lock()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def _obj(src, flags):
    """Compile one translation unit; returns the object's path."""
    pre = run([CXX, *flags, '-E', '-P', src])
    if pre.returncode:
        raise BuildError('preprocess %s\n%s' % (src, pre.stderr.decode(errors='replace')[-4000:]))
    h = hashlib.sha256()
    h.update(' '.join(f for f in flags if not f.startswith('-I')).encode())
    h.update(b'\0')
    h.update(pre.stdout)
    out = os.path.join(OBJ, h.hexdigest()[:32] + '.o')
    with _locks_lock:
        lock = _locks.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            os.makedirs(OBJ, exist_ok=True)
            tmp = out + '.%d.tmp' % os.getpid()
            r = run([CXX, *flags, '-c', src, '-o', tmp])
            if r.returncode and (r.returncode < 0 or b'Killed' in r.stderr or b'cc1plus' in r.stderr and b'signal' in r.stderr):
                # the compiler was ended (memory), not the source refused: once more, one at a time
                with _serial:
                    r = run([CXX, *flags, '-c', src, '-o', tmp])
            if r.returncode:
                raise BuildError('compile %s\n%s' % (src, r.stderr.decode(errors='replace')[-4000:]))
            os.rename(tmp, out)
    return out


def objects(units, variant='plain'):
    """units: list of (source path, extra flags). Compiled in parallel."""
    jobs = []
    for u in units:
        src, extra = (u, []) if isinstance(u, str) else u
        full = src if os.path.isabs(src) else os.path.join(REPO, src)
        v = 'plain' if src in NEVER_INSTRUMENT else variant
        jobs.append((full, BASE + VARIANTS[v] + list(extra)))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda j: _obj(*j), jobs))


def link(name, units, variant='plain', libs=()):
    objs = objects(units, variant)
    h = hashlib.sha256(('\0'.join(objs) + '\0' + variant + '\0' + ' '.join(libs)).encode()).hexdigest()[:24]
    out = os.path.join(BIN, '%s-%s' % (name, h))
    if not os.path.exists(out):
        os.makedirs(BIN, exist_ok=True)
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        san = [f for f in VARIANTS[variant] if f.startswith('-fsanitize') and variant != 'sched']
        r = run([CXX, '-pthread', *san, *objs, *libs, '-o', tmp])
        if r.returncode:
            raise BuildError('link %s\n%s' % (name, r.stderr.decode(errors='replace')[-4000:]))
        os.rename(tmp, out)
    return out
