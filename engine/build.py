"""Produces the program representation of the current working tree of /repo (compile to IR, dump)."""
import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LBDD_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
FLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-mno-constructor-aliases', '-g',
         '-fstandalone-debug', '-fno-discard-value-names', '-w']
BUILD = os.path.join(ROOT, 'build')


class BuildError(Exception):
    pass


def sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(('.cpp', '.cc', '.cxx')))


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        out += [os.path.join(d, f) for f in fs]
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(d, f) for f in fs if not f.endswith(('.cpp', '.cc', '.cxx', '.txt'))]
    return sorted(out)


def tool():
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(ROOT, 'tools', 'irdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = subprocess.run([LLVM + '/llvm-config', '--cxxflags', '--ldflags', '--libs', 'core', 'irreader', 'support', 'analysis', 'demangle'],
                         capture_output=True, text=True, check=True).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    subprocess.run(['clang++', '-std=c++17', '-O1', src, '-o', tmp] + cfg + ['-frtti', '-fexceptions'], check=True)
    os.replace(tmp, exe)
    return exe


def flags(extra=()):
    return FLAGS + ['-include', os.path.join(ROOT, 'tools', 'shim.h'), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src')] + list(extra)


def digest(extra):
    h = hashlib.sha256()
    for f in sources() + headers() + sorted(os.path.join(ROOT, 'tools', x) for x in os.listdir(os.path.join(ROOT, 'tools'))):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    h.update(repr(extra).encode())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def dump(asserts=False):
    """path of the dump of the current working tree"""
    extra = [] if asserts else ['-DNDEBUG']
    t = tool()
    d = os.path.join(BUILD, 'ir-' + digest(extra))
    out = os.path.join(d, 'program.json')
    if os.path.exists(out):
        return out
    # keep the folder small
    if os.path.isdir(BUILD):
        old = []
        for x in os.listdir(BUILD):
            if x.startswith('ir-'):
                try:
                    old.append((os.path.getmtime(os.path.join(BUILD, x)), os.path.join(BUILD, x)))
                except OSError:     # removed by another process
                    pass
        for m, x in sorted(old)[:-6]:
            # another process may be at work in a young one
            if time.time() - m > 600:
                shutil.rmtree(x, ignore_errors=True)
    tmp = d + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    srcs = sources() + [os.path.join(ROOT, 'tools', 'driver.cpp')]

    def one(k):
        o = os.path.join(tmp, '%02d.bc' % k)
        p = subprocess.run(['clang++'] + flags(extra) + ['-c', '-emit-llvm', srcs[k], '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s\n%s' % (srcs[k], p.stderr[-3000:]))
        return o
    try:
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, range(len(srcs))))
        subprocess.run([t, os.path.join(tmp, 'program.json')] + lls, check=True, capture_output=True, text=True)
        for x in lls:
            os.unlink(x)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
        if not os.path.exists(out):
            raise BuildError('no dump')
    except subprocess.CalledProcessError as e:
        raise BuildError('irdump: %s' % (e.stderr or '')[-2000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'tool':
        print(tool())
    else:
        print(dump('asserts' in sys.argv))
