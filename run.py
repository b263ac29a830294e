#!/usr/bin/env python3
"""Driver of the checks.

  run.py ID            run the check of property ID
  run.py ID --replay F replay a saved failing case
  run.py --list

Builds what the check needs from /repo's current working tree (in build/, which
git ignores), runs it, and writes evidence/ID.json. The exit code is 0 when the
property held on everything explored, 1 with a VIOLATION line when it did not,
and 2 for an error of the check itself.
"""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.environ.get('VH_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.environ.get('VH_EVIDENCE', os.path.join(VERIF, 'evidence'))
PY = '/opt/vp/venv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable

sys.path.insert(0, HARNESS)

SAN = {
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    'none': ['-O1', '-g1'],
}

LIB = ['protocol', 'synchronizer', 'debugger', 'poller', 'zmq', 'util', 'compress', 'directory', 'pipes']

DEFS = ['-DSTORED_DRAFT_API=1', '-DSTORED_HAVE_HEATSHRINK=1', '-DSTORED_HAVE_ZMQ=1', '-DSTORED_POLL_AUTO']


class BuildError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def file_hash(f, h):
    with open(f, 'rb') as fh:
        h.update(hashlib.sha256(fh.read()).digest())


_hash_cache = {}


def tree_hash(d, exts):
    key = (d, tuple(exts))
    if key not in _hash_cache:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(d):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if any(f.endswith(e) for e in exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    file_hash(p, h)
        _hash_cache[key] = h.hexdigest()
    return _hash_cache[key]


def repo_hash():
    return tree_hash(os.path.join(REPO, 'include'), ['']) + tree_hash(os.path.join(REPO, 'src'), [''])


def unique(f):
    return '%s.%d.%d' % (f, os.getpid(), threading.get_ident())


def atomic_copy(dst, content):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    try:
        with open(dst, 'rb') as f:
            if f.read() == content:
                return
    except OSError:
        pass
    tmp = unique(dst)
    with open(tmp, 'wb') as f:
        f.write(content)
    os.rename(tmp, dst)


def version_fallback():
    """version.h is generated by cmake, and ignored by git."""
    with open(os.path.join(REPO, 'include/libstored/version.h.in')) as f:
        t = f.read()
    for k, v in (('LIBSTORED_VERSION_MAJOR', '1'), ('LIBSTORED_VERSION_MINOR', '8'),
                 ('LIBSTORED_VERSION_PATCH', '1'), ('LIBSTORED_VERSION_SUFFIX', '-x'),
                 ('LIBSTORED_VERSION_HASH', '0'), ('GIT_HASH', '0')):
        t = t.replace('@' + k + '@', v)
    import re
    t = re.sub(r'@\w+@', '0', t)
    d = os.path.join(BUILD, 'fallback')
    atomic_copy(os.path.join(d, 'libstored/version.h'), t.encode())
    return d


def python_path():
    """The repo's python directory, with version.py."""
    p = os.path.join(REPO, 'python')
    if os.path.exists(os.path.join(p, 'libstored/version.py')):
        return p
    dst = os.path.join(BUILD, 'python-' + tree_hash(p, [''])[:16])
    if not os.path.exists(dst):
        tmp = unique(dst)
        shutil.copytree(p, tmp, ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(tmp, 'libstored/version.py'), 'w') as f:
            f.write("__version__ = '1.8.1.dev0'\nlibstored_version = '1.8.1-x'\n")
        # The generator locates its templates relative to the repository.
        os.rename(tmp, dst)
    return dst


def env_py():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = python_path()
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout


def generate(sts, big=False):
    """Generate a store, or several ('a.st+b.st') in one go; returns its directory."""
    sts = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in sts.split('+')]
    st = sts[-1]
    h = hashlib.sha256()
    for s in sts:
        file_hash(s, h)
    h.update(tree_hash(os.path.join(REPO, 'python'), ['']).encode())
    h.update(tree_hash(os.path.join(REPO, 'include'), ['']).encode())
    h.update(tree_hash(os.path.join(REPO, 'src'), ['']).encode())
    h.update(b'b' if big else b'l')
    dst = os.path.join(BUILD, 'gen', os.path.splitext(os.path.basename(st))[0] + ('-b-' if big else '-l-') + h.hexdigest()[:16])
    if not os.path.exists(dst):
        tmp = unique(dst)
        os.makedirs(tmp)
        run([PY, '-m', 'libstored.generator'] + (['-b'] if big else []) + ['-p', 'vh'] + sts + [tmp], env=env_py(), cwd=tmp)
        try:
            os.rename(tmp, dst)
        except OSError:
            # Generated concurrently.
            shutil.rmtree(tmp)
    return dst


def includes(gens=()):
    r = ['-I' + os.path.join(HARNESS, 'config'), '-I' + os.path.join(REPO, 'include')]
    for g in gens:
        r.append('-I' + os.path.join(g, 'include'))
    r += ['-I' + version_fallback(), '-I' + HARNESS, '-isystem', '/usr/include/heatshrink']
    return r


def compile_one(src, flags, dep_hash):
    h = hashlib.sha256()
    h.update(' '.join(flags).encode())
    h.update(dep_hash.encode())
    file_hash(src, h)
    o = os.path.join(BUILD, 'obj', os.path.basename(src) + '-' + h.hexdigest()[:20] + '.o')
    if os.path.exists(o):
        return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    tmp = unique(o) + '.o'
    run(['clang++', '-std=c++17', '-w'] + flags + ['-c', src, '-o', tmp])
    os.rename(tmp, o)
    return o


def build(name, src, lib=None, san='asan', defs=(), gens=(), big=False, link=(), fuzz=False, std=None, vh=True):
    """Build a harness binary."""
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        gdirs = list(ex.map(lambda s: generate(s, big), gens))
    flags = SAN[san] + DEFS + list(defs) + includes(gdirs)
    if fuzz:
        flags += ['-fsanitize=fuzzer-no-link', '-DVH_FUZZ']
    if big:
        flags.append('-DVH_BIG_ENDIAN_STORE')
    if std:
        flags.append('-std=' + std)
    hh = repo_hash() + tree_hash(HARNESS, ['.h']) + ''.join(gdirs)
    vflags = SAN[san] + ['-I' + HARNESS] + (['-DVH_FUZZ'] if fuzz else [])
    if lib is None:
        lib = LIB
    jobs = []
    for s in src:
        # A source file can have additional flags.
        s, extra = (s[0], list(s[1:])) if isinstance(s, (tuple, list)) else (s, [])
        jobs.append((os.path.join(HARNESS, s) if not os.path.isabs(s) else s, flags + extra, hh))
    for g in gdirs:
        for f in sorted(os.listdir(os.path.join(g, 'src'))):
            if f.endswith('.cpp'):
                jobs.append((os.path.join(g, 'src', f), flags, hh))
    for s in lib:
        jobs.append((os.path.join(REPO, 'src', s + '.cpp'), flags, repo_hash()))
    if vh:
        jobs.append((os.path.join(HARNESS, 'vh.cpp'), vflags, tree_hash(HARNESS, ['vh.h'])))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    h = hashlib.sha256(' '.join(objs + list(link) + SAN[san]).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, 'bin', name + '-' + h)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = unique(exe)
        run(['clang++'] + SAN[san] + (['-fsanitize=fuzzer'] if fuzz else []) + objs +
            ['-lzmq', '/usr/lib/x86_64-linux-gnu/libheatshrink_dynalloc.a', '-lpthread'] + list(link) + ['-o', tmp])
        os.rename(tmp, exe)
    log('built %s in %.1f s' % (name, time.time() - t0))
    return exe


class Result:
    """Accumulates what a check did."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.evaluations = 0
        self.nontrivial = 0
        self.rules = []
        self.samples = []
        self.details = []
        self.violations = []   # (sig, msg, replay)
        self.known = {}        # sig -> count
        self.assumptions = []
        self.dir = os.path.join(BUILD, 'run', '%s-%s-%s' % (pid, tier, seed))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.known_list = load_known(pid)
        self.t0 = time.time()

    def add(self, evaluations, nontrivial, rule, samples=(), detail=None):
        self.evaluations += evaluations
        self.nontrivial += nontrivial
        if rule and rule not in self.rules:
            self.rules.append(rule)
        self.samples += list(samples)
        if detail:
            self.details.append(detail)

    def violation(self, sig, msg, replay):
        self.violations.append((sig, msg, replay))


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh)['known'] if k['property'] == pid]


def run_harness(res, name, exe, only=None, scale=1.0, deadline=None, workers=8, args=(), env=None):
    """Run a vh-based harness, and collect the results."""
    d = os.path.join(res.dir, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out.json')
    cmd = [exe, '--seed', str(res.seed), '--workers', str(workers), '--out', out, '--dir', d,
           '--deadline', str(deadline or (1500 if res.thorough else 240)), '--scale', str(scale)]
    if only:
        cmd += ['--only', only]
    if res.thorough:
        cmd.append('--thorough')
    for k in res.known_list:
        cmd += ['--known', '%s:%s' % (k.get('prop', '*'), k['sig'])]
    cmd += list(args)
    e = dict(os.environ)
    if env:
        e.update(env)
    for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS'):
        e.pop(k, None)
    r = subprocess.run(cmd, env=e, cwd=d)
    return collect(res, name, r, out)


PYVT = '/usr/local/bin/python3-vt'


def python_env():
    e = env_py()
    e['PYTHONPATH'] = HARNESS + ':' + python_path() + ':' + '/opt/vp/venv/lib/python3.12/site-packages'
    for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS'):
        e.pop(k, None)
    return e


def run_python(res, name, script, exe='', only=None, scale=1.0, deadline=None, workers=8, args=()):
    """Run a pyvh-based harness, and collect the results."""
    d = os.path.join(res.dir, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out.json')
    cmd = [PYVT, os.path.join(HARNESS, script), '--seed', str(res.seed), '--workers', str(workers), '--out', out,
           '--dir', d, '--deadline', str(deadline or (1500 if res.thorough else 240)), '--scale', str(scale), '--exe', exe]
    if only:
        cmd += ['--only', only]
    if res.thorough:
        cmd.append('--thorough')
    for k in res.known_list:
        cmd += ['--known', '%s:%s' % (k.get('prop', '*'), k['sig'])]
    cmd += list(args)
    r = subprocess.run(cmd, env=python_env(), cwd=d)
    return collect(res, name, r, out)


def collect(res, name, r, out):
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise BuildError('harness %s: exit code %d' % (name, r.returncode))
    with open(out) as f:
        o = json.load(f)
    for p in o['properties']:
        detail = {k: p[k] for k in ('name', 'evaluations', 'discarded', 'distinct_nontrivial', 'classes', 'time_capped')}
        detail['harness'] = name
        res.add(p['evaluations'], p['distinct_nontrivial'], '%s: %s' % (p['name'], p['rule']),
                ['%s %s' % (p['name'], s) for s in p['samples'][:2]], detail)
        for s, n in p['known'].items():
            res.known[s] = res.known.get(s, 0) + n
        if p['evaluations'] == 0 and not o['violations']:
            raise BuildError('harness %s: no cases evaluated' % name)
    for v in o['violations']:
        final = os.path.join(EVIDENCE, 'replay', '%s-%s-%s.replay' % (res.pid, name, v['prop']))
        os.makedirs(os.path.dirname(final), exist_ok=True)
        with open(v['replay'], 'rb') as f:
            c = f.read()
        with open(final, 'wb') as f:
            f.write(b'harness ' + name.encode() + b'\n' + c)
        log('%s/%s: %s: %s\n%s' % (name, v['prop'], v['sig'], v['msg'], v['notes']))
        res.violation(v['sig'], v['msg'], final)
    return o


def finish(res):
    import checks
    ev = {
        'property': res.pid,
        'tier': res.tier,
        'seed': res.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': res.evaluations,
            'distinct_nontrivial': res.nontrivial,
            'rule': '; '.join(res.rules),
            'samples': [s[:1800] for s in res.samples[:8]],
            'parts': res.details,
            'known_findings_hit': res.known,
        },
        'assumptions': res.assumptions,
        'wall_s': round(time.time() - res.t0, 2),
        'violations': len(res.violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    f = os.path.join(EVIDENCE, res.pid + '.json')
    with open(f + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(f + '.tmp', f)
    for k in res.known_list:
        log('KNOWN-FINDING: property=%s %s' % (res.pid, k['what']))
    for sig, msg, replay in res.violations:
        log('VIOLATION property=%s replay=%s' % (res.pid, replay))
    log('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (
        res.pid, res.evaluations, res.nontrivial, len(res.violations), time.time() - res.t0))
    shutil.rmtree(res.dir, ignore_errors=True)
    return 1 if res.violations else 0


def main():
    import checks
    if len(sys.argv) < 2 or sys.argv[1] == '--list':
        for c in sorted(checks.CHECKS):
            print(c)
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay') + 1]
        return checks.replay(pid, os.path.abspath(f))
    res = Result(pid, tier, seed)
    try:
        checks.CHECKS[pid](res)
        if res.evaluations == 0 and not res.violations:
            raise BuildError('nothing was evaluated')
        return finish(res)
    except BuildError as e:
        log('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    sys.exit(main())
