"""Runner of Hypothesis-based properties in parallel processes.

A property is a strategy that generates a case (a literal: lists, tuples, ints,
bytes, ...), and a function that checks it. A failing case is shrunk by
Hypothesis, and saved as its repr(), such that it can be replayed.
"""
import argparse
import ast
import hashlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

import hypothesis
from hypothesis import strategies as st


class Failure(Exception):
    def __init__(self, sig, msg):
        super().__init__('%s: %s' % (sig, msg))
        self.sig = sig
        self.msg = msg


class Ctx:
    def __init__(self):
        self.nt = False
        self.classes = set()

    def nontrivial(self, x=True):
        if x:
            self.nt = True

    def cls(self, c):
        self.classes.add(c)


def check(cond, sig, msg=''):
    if not cond:
        raise Failure(sig, msg() if callable(msg) else msg)


class Tool:
    """A helper process; one line per request, response ends with a line with a dot."""

    def __init__(self, exe, args=()):
        self.exe = exe
        self.args = list(args)
        self.p = None

    def start(self):
        if self.p is None:
            self.err = open(os.path.join(os.getcwd(), 'tool-%d.err' % os.getpid()), 'w+')
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0'
            self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=self.err, env=env)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
            self.err.close()

    def crashed(self):
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.seek(0)
        e = self.err.read()[-3000:]
        rc = self.p.returncode
        self.p = None
        self.err.close()
        raise Failure('crash', 'helper exited with %s: %s' % (rc, e))

    def cmd(self, line):
        self.start()
        try:
            self.p.stdin.write(line.encode('latin1') + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.crashed()
        res = []
        while True:
            l = self.p.stdout.readline()
            if not l.endswith(b'\n'):
                self.crashed()
            l = l[:-1].decode('latin1')
            if l == '.':
                return res
            res.append(l)


class Prop:
    def __init__(self, name, strategy, func, quick, thorough, rule, timeout=60):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.timeout = timeout


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def run_one(prop, case):
    """Returns ctx, or raises Failure."""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(prop.timeout)
    try:
        prop.func(case, ctx)
    except Failure:
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except Timeout:
        raise Failure('hang', 'no result within %d s' % prop.timeout)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Failure('exception-%s-%s' % (type(e).__name__, tb.name), traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
    return ctx


def worker(prop, seed, n, deadline, known, q):
    r = {'evaluations': 0, 'nontrivial': set(), 'classes': {}, 'samples': [], 'known': {}, 'failure': None, 'capped': False}
    end = time.time() + deadline
    state = {'shrinking': None, 'shrinkend': 0, 'last': None}

    def body(case):
        if state['shrinking'] is None:
            if time.time() > end:
                r['capped'] = True
                return
            r['evaluations'] += 1
        elif time.time() > state['shrinkend']:
            # Hypothesis does not catch this one, so it stops.
            raise KeyboardInterrupt()
        try:
            ctx = run_one(prop, case)
        except Failure as f:
            if (prop.name, f.sig) in known or ('*', f.sig) in known:
                r['known'][f.sig] = r['known'].get(f.sig, 0) + 1
                return
            if state['shrinking'] is None:
                state['shrinking'] = f.sig
                state['shrinkend'] = time.time() + 30
            if f.sig == state['shrinking']:
                state['last'] = (f.sig, f.msg, repr(case))
                raise
            return
        if state['shrinking'] is None:
            if ctx.nt:
                h = hashlib.sha256(repr(case).encode()).digest()[:8]
                if h not in r['nontrivial'] and len(r['samples']) < 2:
                    r['samples'].append(repr(case)[:900])
                r['nontrivial'].add(h)
            for c in ctx.classes:
                r['classes'][c] = r['classes'].get(c, 0) + 1

    f = hypothesis.given(prop.strategy)(body)
    f = hypothesis.settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            suppress_health_check=list(hypothesis.HealthCheck), report_multiple_bugs=False,
                            print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                            phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink))(f)
    f = hypothesis.seed(seed)(f)
    try:
        f()
    except BaseException as e:
        if state['last'] is None:
            r['failure'] = ('harness-error', traceback.format_exc()[-3000:], '')
    if state['last'] is not None:
        r['failure'] = state['last']
    q.put(r)


def derive(seed, name, i):
    return int.from_bytes(hashlib.sha256(('%d/%s/%d' % (seed, name, i)).encode()).digest()[:6], 'little')


def main(props, setup=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--out')
    ap.add_argument('--dir', default='.')
    ap.add_argument('--deadline', type=float, default=240)
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--known', action='append', default=[])
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--exe', default='')
    a, _ = ap.parse_known_args()
    if setup:
        setup(a)
    if a.replay:
        with open(a.replay) as f:
            lines = f.read().split('\n', 3)
        name = lines[1].split()[1]
        case = ast.literal_eval(lines[3])
        for p in props:
            if p.name == name:
                try:
                    run_one(p, case)
                except Failure as e:
                    print('FAILED %s: %s' % (e.sig, e.msg))
                    return 1
                print('PASSED')
                return 0
        return 2

    os.makedirs(a.dir, exist_ok=True)
    os.chdir(a.dir)
    known = set(tuple(k.split(':', 1)) for k in a.known)
    out = {'properties': [], 'violations': []}
    todo = [p for p in props if not a.only or p.name == a.only]
    for p in todo:
        n = max(1, int((p.thorough if a.thorough else p.quick * a.scale) / a.workers))
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        ps = [ctx.Process(target=worker, args=(p, derive(a.seed, p.name, i), n, a.deadline / len(todo), known, q)) for i in range(a.workers)]
        for x in ps:
            x.start()
        res = []
        for _ in ps:
            while True:
                try:
                    res.append(q.get(timeout=5))
                    break
                except Exception:
                    if not any(x.is_alive() for x in ps) and q.empty():
                        res.append({'evaluations': 0, 'nontrivial': set(), 'classes': {}, 'samples': [], 'known': {},
                                    'failure': ('harness-error', 'worker died', ''), 'capped': False})
                        break
        for x in ps:
            x.join(10)
        nt = set()
        classes = {}
        kn = {}
        samples = []
        for r in res:
            nt |= r['nontrivial']
            samples += r['samples']
            for k, v in r['classes'].items():
                classes[k] = classes.get(k, 0) + v
            for k, v in r['known'].items():
                kn[k] = kn.get(k, 0) + v
        samples.sort(key=len, reverse=True)
        out['properties'].append({
            'name': p.name, 'rule': p.rule, 'evaluations': sum(r['evaluations'] for r in res), 'discarded': 0,
            'distinct_nontrivial': len(nt), 'classes': classes, 'time_capped': any(r['capped'] for r in res),
            'samples': samples[:3], 'known': kn})
        fails = {}
        for r in res:
            if r['failure']:
                f = r['failure']
                if f[0] not in fails or len(f[2]) < len(fails[f[0]][2]):
                    fails[f[0]] = f
        for f in fails.values():
            if f[0] == 'harness-error':
                print(f[1])
                return 3
            rp = os.path.join(a.dir, p.name + '.replay')
            with open(rp, 'w') as fh:
                fh.write('property %s\nsignature %s\n%s\n' % (p.name, f[0], f[2]))
            print('%s: %s: %s\ncase %s' % (p.name, f[0], f[1], f[2][:3000]), flush=True)
            out['violations'].append({'prop': p.name, 'sig': f[0], 'msg': f[1], 'notes': f[2][:3000], 'replay': rp})
            break
    if a.out:
        with open(a.out, 'w') as fh:
            json.dump(out, fh)
    return 1 if out['violations'] else 0
