"""Builds qmeq from /repo's current working tree into a scratch package, in several variants.

plain   -O1 build, the directives exactly as in the sources
bounds  the same sources with bounds checking / None checking / wraparound checking switched on
asan    gcc -fsanitize=address,undefined, directives as in the sources
tsan    gcc -fsanitize=thread + pthread based OpenMP runtime (qmon/native/gompshim.c)

The result is cached under /verif/.cache by the hash of every source file of /repo/qmeq
(and of the builder itself), so a changed tree is always rebuilt.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('QMON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'


class BuildError(Exception):
    pass


def _sources():
    root = os.path.join(REPO, 'qmeq')
    out = []
    for dirpath, dirnames, filenames in os.walk(root):
        dirnames[:] = sorted(d for d in dirnames if d not in ('__pycache__', 'tests'))
        for f in sorted(filenames):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h')):
                p = os.path.join(dirpath, f)
                out.append((os.path.relpath(p, REPO), p))
    return out


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    h.update(sys.version.encode())
    with open(os.path.abspath(__file__), 'rb') as f:
        h.update(f.read())
    shim = os.path.join(VERIF, 'qmon', 'native', 'gompshim.c')
    if variant == 'tsan' and os.path.exists(shim):
        h.update(open(shim, 'rb').read())
    for rel, p in _sources():
        h.update(rel.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


BOUNDS_RE = re.compile(
    r'^(\s*)(?:@cython\.(?:boundscheck|wraparound|nonecheck|initializedcheck|overflowcheck)\s*\([^)]*\)\s*)$')
DIRECTIVE_RE = re.compile(r'^\s*#\s*cython\s*:\s*(?:boundscheck|wraparound|nonecheck|initializedcheck).*$')


def _strip_directives(path):
    """Remove the decorators that switch the run-time index checks off (bounds variant only)."""
    with open(path) as f:
        lines = f.read().split('\n')
    out = []
    for ln in lines:
        if BOUNDS_RE.match(ln) or DIRECTIVE_RE.match(ln):
            out.append('')
        else:
            out.append(ln)
    with open(path, 'w') as f:
        f.write('\n'.join(out))


def _run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def _build_into(dst, variant):
    for rel, p in _sources():
        q = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)
    pyx = sorted(glob.glob(os.path.join(dst, 'qmeq', '**', '*.pyx'), recursive=True))
    if variant == 'pure':
        for p in pyx:
            os.remove(p)
        return
    if variant == 'bounds':
        for p in pyx:
            _strip_directives(p)
    import numpy
    incs = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env['PYTHONDONTWRITEBYTECODE'] = '1'

    cflags = ['-shared', '-fPIC', '-DNDEBUG', '-fwrapv', '-w', '-fopenmp', '-O1']
    cy = []
    cc = 'gcc'
    if variant == 'bounds':
        cy = ['-X', 'boundscheck=True', '-X', 'wraparound=False', '-X', 'nonecheck=True',
              '-X', 'initializedcheck=True']
        cflags[-1] = '-O0'
    elif variant == 'asan':
        cflags = ['-shared', '-fPIC', '-DNDEBUG', '-w', '-fopenmp', '-O1', '-g1', '-fno-omit-frame-pointer',
                  '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function',
                  '-fno-sanitize-recover=undefined',
                  '-ftrivial-auto-var-init=pattern']
        cflags = [c for c in cflags if c != '-fno-sanitize=alignment,vptr,function'] + ['-fno-sanitize=alignment']
    elif variant == 'tsan':
        cflags = ['-shared', '-fPIC', '-DNDEBUG', '-w', '-fopenmp', '-O1', '-g1', '-fno-omit-frame-pointer',
                  '-fsanitize=thread',
                  # reference counts of array views must not order the threads
                  '-D__sync_fetch_and_add(p,v)=__atomic_fetch_add(p,v,__ATOMIC_RELAXED)',
                  '-D__sync_fetch_and_sub(p,v)=__atomic_fetch_sub(p,v,__ATOMIC_RELAXED)']

    def one(p):
        rel = os.path.relpath(p, dst)
        _run([PY, '-m', 'cython', '-2'] + cy + [rel], cwd=dst, env=env)
        c = rel[:-4] + '.c'
        _run([cc] + cflags + incs + [c, '-o', rel[:-4] + suffix], cwd=dst, env=env)

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        # the big translation units first
        pyx.sort(key=lambda p: -os.path.getsize(p))
        list(ex.map(one, pyx))
    if variant == 'tsan':
        _run(['gcc', '-shared', '-fPIC', '-O1', '-g1', '-w', '-fsanitize=thread',
              os.path.join(VERIF, 'qmon', 'native', 'gompshim.c'), '-o', os.path.join(dst, 'libgompshim.so'),
              '-lpthread', '-ldl'], env=env)


def ensure(variant='plain'):
    """Return the directory that holds a fresh build of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash(variant)
    final = os.path.join(CACHE, variant + '-' + h)
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, '.ok')):
            os.utime(final)
            return final
        # drop old builds of this variant
        olds = sorted(glob.glob(os.path.join(CACHE, variant + '-*')), key=os.path.getmtime)
        for o in olds[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = final + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            _build_into(tmp, variant)
            if tree_hash(variant) != h:
                raise BuildError('sources changed during the build')
            open(os.path.join(tmp, '.ok'), 'w').close()
            shutil.rmtree(final, ignore_errors=True)
            os.rename(tmp, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(v, ensure(v))
