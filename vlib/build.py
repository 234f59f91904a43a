"""Builds hermite_cpp.so from /repo's current working tree, outside /repo.

Every object is keyed by a hash of its own text, of every header of the
project and of the flags, so a change anywhere in the C++ tree is seen and an
unchanged file is not recompiled.  Nothing is written in /repo.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')

SRC = os.path.join(REPO, 'cpp', 'src')
LIBS = ['-lboost_python312', '-lboost_numpy312', '-lpython3.12', '-ldl']

COMMON = ['-fPIC', '-std=gnu++14', '-I' + SRC, '-w']
FLAVOURS = {
    # what the project's release build uses
    'release': {'cxx': 'g++', 'flags': ['-O3', '-DNDEBUG', '-Ofast'],
                # boost.python glue: the optimiser changes nothing there
                'glue': ['-O1', '-DNDEBUG', '-ffast-math'],
                'link': []},
    'asan': {'cxx': 'g++',
             'flags': ['-O1', '-g1', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
                       '-fno-omit-frame-pointer',
                       '-fsanitize=address,undefined',
                       '-fno-sanitize=vptr',
                       '-fno-sanitize-recover=undefined'],
             'glue': ['-O0', '-g1', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
                      '-fno-omit-frame-pointer',
                      '-fsanitize=address,undefined',
                      '-fno-sanitize=vptr',
                      '-fno-sanitize-recover=undefined'],
             'link': ['-fsanitize=address,undefined']},
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:32]


def _read(path):
    with open(path, 'rb') as fh:
        return fh.read()


def build(flavour='release', quiet=True):
    """Returns the directory that holds hermite_cpp.so."""
    fl = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, flavour + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavour, fl)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(flavour, fl):
    inc = sysconfig.get_paths()['include']
    common = COMMON + ['-I' + inc]
    srcs = sorted(glob.glob(os.path.join(SRC, 'hermite', '**', '*.cpp'),
                            recursive=True))
    hdrs = sorted(glob.glob(os.path.join(SRC, 'hermite', '**', '*.h*'),
                            recursive=True))
    if not srcs:
        raise BuildError('no C++ sources under ' + SRC)
    hkey = _sha(*[x for h in hdrs
                  for x in (os.path.relpath(h, SRC), _read(h))])
    odir = os.path.join(BUILD, flavour + '-obj')
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        rel = os.path.relpath(s, SRC)
        flags = fl['glue'] if rel.endswith(os.path.join('python', 'module.cpp')) \
            else fl['flags']
        key = _sha(rel, _read(s), hkey, ' '.join(flags + common), fl['cxx'])
        obj = os.path.join(odir, rel.replace('/', '_') + '-' + key + '.o')
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((s, flags, obj))

    def compile_one(job):
        s, flags, obj = job
        tmp = obj + '.tmp.%d' % os.getpid()
        cmd = [fl['cxx']] + flags + common + ['-c', s, '-o', tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError(' '.join(cmd) + '\n' +
                             r.stdout.decode(errors='replace'))
        os.replace(tmp, obj)

    # longest first
    jobs.sort(key=lambda j: (not j[0].endswith('module.cpp'),
                             not j[0].endswith('converters.cpp'),
                             not j[0].endswith('tensorize.cpp')))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(compile_one, jobs))

    lkey = _sha(*(objs + fl['link']))
    ldir = os.path.join(BUILD, flavour + '-' + lkey)
    so = os.path.join(ldir, 'hermite_cpp.so')
    if not os.path.exists(so):
        os.makedirs(ldir, exist_ok=True)
        tmp = so + '.tmp'
        cmd = [fl['cxx'], '-shared', '-o', tmp] + objs + fl['link'] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError(' '.join(cmd) + '\n' +
                             r.stdout.decode(errors='replace'))
        os.replace(tmp, so)
    return ldir


if __name__ == '__main__':
    for f in sys.argv[1:] or ['release']:
        print(build(f))
