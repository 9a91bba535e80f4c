#!/usr/bin/env python3
"""Builds check binaries from /repo's working tree.

usage: build.py P01 [P02 ...]   or   build.py --all

Objects are kept in build/obj under the hash of their preprocessed source, the compiler and the flags, so a
check only recompiles what a change in /repo (or here) really alters.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TINYMESH_REPO', '/repo')
OBJ = os.path.join(VERIF, 'build', 'obj')
BIN = os.path.join(VERIF, 'build', 'bin')
CXX = 'g++'

COMMON = ['-std=c++17', '-O1', '-g1', '-fopenmp', '-pthread', '-w',
          '-D_GLIBCXX_ASSERTIONS', '-DTINYMESH_PYTHON_MODULE',
          '-fno-omit-frame-pointer', '-fsanitize=address']
INC = ['-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'src', 'tinymesh'),
       '-I' + os.path.join(REPO, 'src'), '-isystem', '/usr/include/eigen3']
LINK = ['-fopenmp', '-pthread', '-fsanitize=address']

# Checks of the Python module: the library and src/pybind11.cpp compiled with the real pybind11, linked with Python
PYTHON = {'P29', 'P34', 'P35'}
# Checks of what the C++ library does outside Python, where reported errors end the process: the check is compiled
# that way and uses headers only
PLAIN = {'P30'}
# Checks that run the example programs, which are compiled the C++ way and put in build/bin/examples
EXAMPLES = {'P31'}
PYINC = os.path.join(VERIF, 'build', 'pyinc')
PYHEADERS = '/usr/include/pybind11'


def python_flags():
    """Copies the pybind11 headers, which look for the element size of an array and for its copying function where
    NumPy 2 no longer keeps them."""
    for d, _, files in os.walk(PYHEADERS):
        to = os.path.join(PYINC, 'pybind11', os.path.relpath(d, PYHEADERS))
        os.makedirs(to, exist_ok=True)
        for f in files:
            text = open(os.path.join(d, f)).read()
            if f == 'numpy.h':
                text = text.replace('detail::array_descriptor_proxy(m_ptr)->elsize', 'attr("itemsize").cast<ssize_t>()')
                text = text.replace('detail::array_descriptor_proxy(detail::array_proxy(m_ptr)->descr)->elsize',
                                    'attr("itemsize").cast<ssize_t>()')
                text = text.replace('API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50')
            path = os.path.join(to, f)
            if not os.path.exists(path) or open(path).read() != text:
                tmp = path + '.%d.tmp' % os.getpid()
                with open(tmp, 'w') as o:
                    o.write(text)
                os.replace(tmp, path)
    inc = subprocess.run(['python3-config', '--includes'], capture_output=True, text=True).stdout.split()
    if not inc:
        inc = ['-I/usr/include/python3.12']
    return ['-I' + PYINC] + inc


def python_link():
    r = subprocess.run(['python3-config', '--ldflags', '--embed'], capture_output=True, text=True)
    return r.stdout.split() if r.returncode == 0 and r.stdout else ['-lpython3.12']


def compiler_id():
    return subprocess.run([CXX, '--version'], capture_output=True, text=True).stdout.splitlines()[0]


CID = compiler_id()


def compile_one(job):
    src, flags = job
    pre = subprocess.run([CXX, '-E', '-P'] + flags + [src], capture_output=True)
    if pre.returncode != 0:
        return src, None, pre.stderr.decode(errors='replace')
    h = hashlib.sha256()
    h.update(CID.encode())
    h.update(' '.join(f for f in flags if not f.startswith('-I')).encode())
    h.update(pre.stdout)
    obj = os.path.join(OBJ, h.hexdigest()[:40] + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True)
        if r.returncode != 0:
            return src, None, r.stderr.decode(errors='replace')
        os.replace(tmp, obj)
    return src, obj, ''


def main():
    args = sys.argv[1:]
    names = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, 'checks', 'P*.cpp')))
    if args and args[0] != '--all':
        names = args
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    lib = sorted(p for p in glob.glob(os.path.join(REPO, 'src', 'tinymesh', '**', '*.cpp'), recursive=True)
                 if '/ext/' not in p)
    # The slowest files first
    lib.sort(key=lambda p: -os.path.getsize(p) - (10**6 if 'features' in p or 'completion' in p else 0))
    pylib = lib + [os.path.join(REPO, 'src', 'pybind11.cpp')]
    examples = sorted(glob.glob(os.path.join(REPO, 'examples', 'cpp', '*.cpp')))
    stub = COMMON + INC
    plain = [f for f in COMMON if f != '-DTINYMESH_PYTHON_MODULE'] + INC
    real = COMMON + python_flags() + INC if any(n in PYTHON for n in names) else None
    engine = ['-I' + os.path.join(VERIF, 'engine')]

    # What every binary is made of: (source, flags) pairs
    parts = {}
    for n in names:
        flags = real if n in PYTHON else plain if n in PLAIN else stub
        files = [] if n in PLAIN else pylib[-1:] + lib if n in PYTHON else lib
        parts[n] = [(os.path.join(VERIF, 'checks', n + '.cpp'), engine + flags)] + [(p, flags) for p in files]
        if n in EXAMPLES:
            os.makedirs(os.path.join(BIN, 'examples'), exist_ok=True)
            for e in examples:
                name = os.path.join('examples', os.path.splitext(os.path.basename(e))[0])
                parts[name] = [(p, plain) for p in [e] + lib]
    jobs = []
    for n in parts:
        jobs += [j for j in parts[n] if j not in jobs]
    if len(names) > 1:
        jobs.sort(key=lambda j: j[0].startswith(VERIF))
    objs = {}
    ok = True
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for job, (src, obj, err) in zip(jobs, ex.map(compile_one, jobs)):
            if obj is None:
                sys.stderr.write('cannot compile %s\n%s\n' % (src, err[:4000]))
                ok = False
            objs[src, ' '.join(job[1])] = obj
    if not ok:
        return 2
    for stale in glob.glob(os.path.join(BIN, 'examples', '*')):
        name = os.path.join('examples', os.path.basename(stale).split('.')[0])
        if any(n in EXAMPLES for n in names) and name not in parts:
            os.unlink(stale)

    def link(n):
        out = os.path.join(BIN, n)
        files = [objs[src, ' '.join(flags)] for src, flags in parts[n]]
        libs = python_link() if n in PYTHON else []
        key = hashlib.sha256(' '.join(files + LINK + libs).encode()).hexdigest()
        stamp = out + '.key'
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return 0, ''
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + LINK + files + libs + ['-o', tmp], capture_output=True)
        if r.returncode == 0:
            os.replace(tmp, out)
            with open(stamp, 'w') as f:
                f.write(key)
        return r.returncode, r.stderr.decode(errors='replace')

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for n, (rc, err) in zip(parts, ex.map(link, parts)):
            if rc != 0:
                sys.stderr.write('cannot link %s\n%s\n' % (n, err[:4000]))
                ok = False
    return 0 if ok else 2


if __name__ == '__main__':
    sys.exit(main())
