"""Build and run the bounded replay harness of a property against /repo's current sources."""
import os, subprocess, hashlib, tempfile, shutil, time, json, signal, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']
BASE = ['-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w', '-I/opt/vp/cmake/compat', '-include', 'compat.hpp',
        '-isystem', '/usr/include/eigen3']


class BuildError(Exception):
    pass


def compile_one(cc, src, obj, flags, cache):
    cmd = [cc] + flags
    key = None
    if cache:
        pre = subprocess.run(cmd + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if pre.returncode == 0:
            key = os.path.join(cache, hashlib.sha256(pre.stdout + ' '.join(flags).encode()).hexdigest() + '.o')
            if os.path.exists(key):
                os.utime(key)
                return key
    r = subprocess.run(cmd + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s: %s' % (src, r.stdout.decode(errors='replace')[:3000]))
    if key:
        shutil.copyfile(obj, key + '.tmp%d' % os.getpid())
        os.replace(key + '.tmp%d' % os.getpid(), key)
    return obj


def build(repo, harness, sources, out_dir, jobs=8, extra=(), san=True):
    cache = os.environ.get('VERIF_OBJ_CACHE')
    if cache:
        os.makedirs(cache, exist_ok=True)
    inc = ['-I%s/tu/stub' % VERIF, '-I%s/cppcore/include' % repo, '-I%s/cppcore/src' % repo, '-I%s/native' % VERIF]
    flags = BASE + (SAN if san else []) + inc + list(extra)
    todo = [(os.path.join(VERIF, harness), ['-std=c++14'])]
    todo += [(s if s.startswith('/') else os.path.join(repo, 'cppcore/src', s), ['-std=c++11']) for s in sources]
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda x: compile_one('clang++', x[1][0], os.path.join(out_dir, 'o%d.o' % x[0]), flags + x[1][1], cache),
                           enumerate(todo)))
    exe = os.path.join(out_dir, 'harness')
    r = subprocess.run(['clang++'] + (SAN if san else []) + objs + ['-o', exe, '-lfmt', '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('link: %s' % r.stdout.decode(errors='replace')[:3000])
    return exe


def execute(exe, args, timeout):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    t0 = time.time()
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        to = True
    return parse(o.decode(errors='replace'), e.decode(errors='replace'), p.returncode, to, time.time() - t0)


def parse(out, err, rc, timed_out, wall):
    r = dict(rc=rc, timeout=timed_out, wall=round(wall, 2), fails=[], findings=[], covers={}, cases=0, checks=0, distinct=0,
             samples=[], stderr=err[-4000:])
    for l in out.splitlines():
        if l.startswith('FAIL '):
            r['fails'].append(l[5:])
        elif l.startswith('FINDING '):
            k, rest = l[8:].split(' ', 1)
            r['findings'].append((k, rest))
        elif l.startswith('COVER '):
            _, kn = l.split(' ', 1); k, n = kn.rsplit(' ', 1)
            r['covers'][k] = int(n)
        elif l.startswith('SAMPLE '):
            r['samples'].append(l[7:][:400])
        elif l.startswith('CASES '):
            w = l.split()
            r['cases'], r['checks'], r['distinct'] = int(w[1]), int(w[3]), int(w[5])
    if not timed_out and rc not in (0, 1) and not r['fails']:
        r['fails'].append('?:-1 harness ended with status %s: %s' % (rc, err[-300:].replace('\n', ' ')))
    if rc == 1 and not r['fails']:
        r['fails'].append('?:-1 harness failed: %s' % err[-300:].replace('\n', ' '))
    return r
