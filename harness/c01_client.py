# C01: the Python client on a debug target.
#
# The client talks to a real target (clienttool) over a stand-in for the ZeroMQ
# socket, such that all timing (of responses, timers, and changes in the target)
# is controlled and reproducible.
import csv
import keyword
import logging
import math
import os
import struct
import sys

import zmq

import pyvh
from pyvh import st, check, Prop
from libstored import zmq_client as zc
from libstored import csv as lcsv

logging.disable(logging.CRITICAL)

tool = None
small = False


def setup(a):
    global tool, small
    tool = pyvh.Tool(a.exe)
    small = os.path.basename(a.exe).startswith('clienttool_s')


###############################
# Stand-ins


class Clock:
    now = 0.0

    def time(self):
        return self.now

    def __getattr__(self, x):
        import time
        return getattr(time, x)


class Sig:
    def __init__(self):
        self.fs = []

    def connect(self, f):
        self.fs.append(f)

    def disconnect(self, f=None):
        self.fs = [x for x in self.fs if f is not None and x != f]

    def emit(self, *a):
        for f in list(self.fs):
            f(*a)


class Timer:
    def __init__(self, parent=None):
        self.timeout = Sig()
        self.single = False
        self.ms = 0
        self.due = None

    def setSingleShot(self, s):
        self.single = s

    def setInterval(self, ms):
        self.ms = int(ms)
        if self.due is not None:
            self.start()

    def interval(self):
        return self.ms

    def setTimerType(self, t):
        pass

    def start(self, ms=None):
        if ms is not None:
            self.ms = int(ms)
        self.due = world.clock.now + max(self.ms, 1) / 1e3
        if self not in world.timers:
            world.timers.append(self)

    def stop(self):
        self.due = None
        if self in world.timers:
            world.timers.remove(self)

    def isActive(self):
        return self.due is not None

    @staticmethod
    def singleShot(ms, f):
        t = Timer()
        t.single = True
        t.timeout.connect(f)
        t.start(ms)


class Notifier:
    Read = 0

    def __init__(self, fd, t, parent=None):
        self.activated = Sig()
        self.enabled = True
        world.notifier = self

    def setEnabled(self, e):
        self.enabled = e


class App:
    def __init__(self):
        self.aboutToQuit = Sig()


class Core:
    @staticmethod
    def instance():
        return world.app

    @staticmethod
    def postEvent(obj, event, prio=0):
        world.posted.append((obj, event))


class Socket:
    def __init__(self):
        self.rep = None
        self.ready = False

    def setsockopt(self, *a):
        pass

    def connect(self, a):
        pass

    def fileno(self):
        return 0

    def close(self, *a):
        pass

    def send(self, msg, *a):
        if self.rep is not None:
            raise zmq.ZMQError(zmq.EFSM)
        self.rep = world.request(bytes(msg))
        self.ready = world.fast

    def poll(self, timeout=None, *a):
        self.ready = True
        return 1

    def recv_multipart(self, flags=0, *a):
        if self.rep is None:
            raise zmq.ZMQError(zmq.EFSM)
        if not self.ready:
            if not flags & zmq.NOBLOCK:
                return self.poll() and self.recv_multipart(flags)
            raise zmq.ZMQError(zmq.EAGAIN)
        r = self.rep
        self.rep = None
        if len(r) > 3 and world.reqs % 3 == 0:
            return [r[:2], r[2:]]
        return [r]

    def recv(self, flags=0, *a):
        return b''.join(self.recv_multipart(flags))


class Context:
    def socket(self, t):
        world.socket = Socket()
        return world.socket


world = None
zc.QTimer = Timer
zc.QSocketNotifier = Notifier
zc.QCoreApplication = Core

###############################
# Types

Obj = zc.Object
Int = {0x38: 1, 0x39: 2, 0x3b: 4, 0x3f: 8}
Uint = {0x30: 1, 0x31: 2, 0x33: 4, 0x37: 8}
FLOAT, DOUBLE, BOOL, PTR32, PTR64 = 0x2b, 0x2f, 0x20, 0x23, 0x27
BLOB, STRING = 1, 2


def decode(t, b):
    """Value of the bytes in the store."""
    t &= ~0x40
    if t in Int:
        return int.from_bytes(b, 'little', signed=True)
    if t in Uint or t == PTR64 or t == PTR32:
        return int.from_bytes(b, 'little')
    if t == FLOAT:
        return struct.unpack('<f', b)[0]
    if t == DOUBLE:
        return struct.unpack('<d', b)[0]
    if t == BOOL:
        return b[0] != 0
    if t == STRING:
        try:
            return b.partition(b'\0')[0].decode()
        except UnicodeDecodeError:
            return None
    return bytes(b)


def key(v):
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, float):
        return ('f', 'nan') if math.isnan(v) else ('f', struct.pack('<d', v))
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, (bytes, bytearray)):
        return ('x', bytes(v))
    return v


def value(t, size, d):
    """Some value to write, which fits."""
    t &= ~0x40
    b = bytes(d) + bytes(8)
    if t in Int:
        return int.from_bytes(b[:size], 'little', signed=True)
    if t in Uint or t in (PTR32, PTR64):
        return int.from_bytes(b[:size], 'little')
    if t == FLOAT:
        f = struct.unpack('<f', b[:4])[0]
        return 0.0 if math.isnan(f) and d[0] & 1 else f
    if t == DOUBLE:
        return struct.unpack('<d', b[:8])[0]
    if t == BOOL:
        return bool(d[0] & 1)
    if t == STRING:
        s = text(d)
        while len(s.encode()) > size:
            s = s[:-1]
        return s
    return (bytes(d) + bytes(range(1, size + 1)))[:size]


def text(d):
    return ''.join(chr(x % 0x5f + 0x20) if x < 0xd0 else 'é' if x < 0xe0 else '€' if x < 0xf0 else '\U0001f600' for x in d)


def encode(t, size, v):
    """The bytes in the store."""
    t &= ~0x40
    if t in Int or t in Uint or t in (PTR32, PTR64):
        return (v % (1 << (8 * size))).to_bytes(size, 'little')
    if t == FLOAT:
        return struct.pack('<f', v)
    if t == DOUBLE:
        return struct.pack('<d', v)
    if t == BOOL:
        return bytes([int(v)])
    if t == STRING:
        return v.encode()
    return bytes(v)


T0 = 1000.0


class World:
    def __init__(self, map, loop, fast):
        self.clock = Clock()
        self.clock.now = T0 + 0.5
        self.timers = []
        self.posted = []
        self.app = App() if loop else None
        self.notifier = None
        self.socket = None
        self.fast = fast
        self.reqs = 0
        self.seq = 0
        self.events = {}
        self.reqno = 0
        self.msgs = []
        self.pending = []  # async writes
        self.traced = {}  # t -> values
        self.streams = {}  # name -> (seq, byte) accepted
        self.reads = {}  # name -> seq of reading of it

        self.vars = []
        self.hist = []
        self.keys = []
        self.touched = set()
        self.at = 0
        for l in tool.cmd('new ' + map):
            t, size, name, v = (l.split(' ') + [''])[:4]
            self.vars.append((int(t), int(size), bytes.fromhex(name).decode()))
            v = bytes.fromhex(v)
            self.hist.append([(0, v)])
            self.keys.append({key(decode(int(t), v))})
        self.ts = [i for i, v in enumerate(self.vars) if v[2].endswith('/t (us)')]
        self.index = {v[2]: i for i, v in enumerate(self.vars)}
        # Make sure that most values are unique.
        for i, v in enumerate(self.vars):
            if '/many[' in v[2]:
                self.mutate(i, struct.pack('<H', 257 * (i + 1) & 0xffff))

    def run(self, line):
        r = tool.cmd(line)
        self.seq += 1
        return r[0].split(' ')

    def changes(self, words, allowed):
        """Process changes in the target. Only allowed ones may change."""
        for i, v in zip(words[1::2], words[2::2]):
            i = int(i)
            v = bytes.fromhex(v)
            self.hist[i].append((self.seq, v))
            self.keys[i].add(key(decode(self.vars[i][0], v)))
            if i in self.ts:
                continue
            check(i in allowed, 'other-object', lambda: 'object %s changed to %s' % (self.vars[i][2], v.hex()))
            if allowed[i] is not None:
                check(self.same(i, allowed[i], v), 'wrong-value', lambda: 'object %s changed to %s instead of %s' % (
                    self.vars[i][2], v.hex(), allowed[i].hex()))

    def same(self, i, a, b):
        t, size, _ = self.vars[i]
        t &= ~0x40
        if t in (FLOAT, DOUBLE):
            return key(decode(t, a)) == key(decode(t, b))
        if t == STRING:
            # May have been truncated to the size, at a character.
            return a.partition(b'\0')[0][:size].decode(errors='ignore').encode() == b.partition(b'\0')[0]
        return a == b

    def now(self, i):
        return self.hist[i][-1][1]

    def us(self):
        return int(round((self.clock.now - T0) * 1e6))

    def mutate(self, i, data):
        if i in self.ts:
            return
        t, size, _ = self.vars[i]
        t &= ~0x40
        if t == STRING:
            data = value(t, size, data).encode()
            data = data + bytes(size - len(data))
        elif t == BOOL:
            data = bytes([data[0] & 1 if data else 0])
        data = (bytes(data) + bytes(size))[:size]
        self.touched.add(i)
        self.changes(self.run('set %d %s' % (i, data.hex())), {i: data})

    def trace(self, n=1):
        self.clock.now += 0.001
        us = self.us()
        v = [h[-1][1] for h in self.hist]
        for i in range(n):
            self.traced[us + i * 1000] = v
        self.changes(self.run('trace %d %d' % (us, n)), {})
        # Nothing else happens at this moment.
        self.clock.now += 0.001 * (n - 1) + 0.00005

    def stream(self, s, data):
        if not data:
            return
        n = int(self.run('stream %s %s' % (s, data.hex()))[0][1:])
        check(n in (0, len(data)) or small, 'stream-partial', lambda: 'accepted %d of %d' % (n, len(data)))
        self.streams.setdefault(s, []).extend((self.seq, x) for x in data[:n])

    def event(self, e):
        kind, a, d = e
        if kind == 0:
            self.mutate(self.pick(a), d)
        elif kind == 1:
            self.trace()
        else:
            self.stream('xy'[a % 2], d * (1 + a % 5 * 12))

    def pick(self, a):
        return self.focus[a % len(self.focus)] % len(self.vars) if a < 100 else (a - 100) % len(self.vars)

    def request(self, msg):
        for e in self.events.get(self.reqno, []):
            self.event(e)
        self.reqno += 1
        self.reqs += 1
        self.clock.now += 0.0002
        self.msgs.append(msg)
        allowed = {}
        if msg[:1] == b'w' and self.pending:
            i, v = self.pending.pop(0)
            allowed = {i: v}
            self.touched.add(i)
        r = self.run('req %d %s' % (self.us(), msg.hex()))
        check(r[0][0] == '=', 'no-response', lambda: 'request %r' % msg)
        self.changes(r, allowed)
        for i in allowed:
            check(self.same(i, allowed[i], self.now(i)), 'not-written', lambda: 'write of %s: %s instead of %s' % (
                self.vars[i][2], self.now(i).hex(), allowed[i].hex()))
        if msg[:1] == b's' and len(msg) > 1:
            self.reads[chr(msg[1])] = self.seq
        return bytes.fromhex(r[0][1:])

    def peek(self, msg):
        r = self.run('req %d %s' % (self.us(), msg.hex()))
        self.changes(r, {})
        return bytes.fromhex(r[0][1:])

    def deliver(self, n=1000):
        """Handle events, responses."""
        while n > 0:
            n -= 1
            if self.posted:
                o, e = self.posted.pop(0)
                o.event(e)
            elif self.notifier and self.notifier.enabled and self.socket.rep is not None:
                self.socket.ready = True
                self.notifier.activated.emit()
            else:
                return
        raise pyvh.Failure('busy', 'does not become idle')

    def tick(self, dt):
        end = self.clock.now + dt
        for _ in range(1000):
            ts = [t for t in self.timers if t.due is not None and t.due <= end]
            if not ts:
                break
            t = min(ts, key=lambda t: t.due)
            self.clock.now = max(self.clock.now, t.due)
            if t.single:
                t.stop()
            else:
                t.start()
            t.timeout.emit()
        self.clock.now = max(self.clock.now, end)

    def allowed(self, i, start):
        """Possible values since the start."""
        h = self.hist[i]
        k = len(h) - 1
        while k > 0 and h[k][0] > start:
            k -= 1
        return [key(decode(self.vars[i][0], v)) for _, v in h[k:]]


class Case:
    def __init__(self, case, ctx):
        global world
        map, loop, fast, multi, csv_, focus, ops, time = case
        self.ctx = ctx
        world = self.w = World(map, loop, fast)
        world.focus = focus
        zc.time = world.clock
        lcsv.time = world.clock
        self.loop = loop
        self.csv = os.path.join(os.getcwd(), 'client-%d.csv' % os.getpid()) if csv_ else None
        self.state = os.path.join(os.getcwd(), 'client-%d.state' % os.getpid())
        self.time = world.vars[world.ts[time % len(world.ts)]][2] if time is not None and world.ts else None
        self.c = zc.ZmqClient(context=Context(), multi=multi, csv=self.csv, t=self.time)
        self.local = {}  # object index -> keys of local values
        self.streams = {}
        self.held = []
        self.macros = []
        self.saved = None
        self.failed = None
        self.multi = multi
        self.nt = set()

    def check(self, *a):
        check(*a)

    # The object at the given index
    def obj(self, i):
        o = self.c.find(self.w.vars[i][2])
        check(isinstance(o, Obj), 'find', lambda: 'found %r for %s' % (o, self.w.vars[i][2]))
        check(o.name == self.w.vars[i][2], 'find', lambda: 'found %s for %s' % (o.name, self.w.vars[i][2]))
        return o

    def step(self, op):
        kind, a, b, d, events = op
        w = self.w
        w.events = {}
        for k, *e in events:
            w.events.setdefault(k, []).append(e)
        w.reqno = 0
        w.touched = set()
        start = w.seq
        getattr(self, 'do_' + kind)(a, b, d, start)
        for k in sorted(w.events):
            if k >= w.reqno:
                for e in w.events[k]:
                    w.event(e)
        w.events = {}
        self.invariants()

    def invariants(self):
        check(self.failed is None, 'trace', lambda: self.failed)
        if self.c.socket is None:
            return
        for o in self.c.objects:
            i = self.w.index[o.name]
            if o.value is not None and i not in self.w.ts:
                k = key(o.value)
                check(k in self.local.get(i, ()) or k in self.w.keys[i], 'reported',
                      lambda: '%s is reported to be %r, which it never was; now %s' % (o.name, o.value, self.w.now(i).hex()))
            if o.alias is not None:
                check(len(o.alias) == 1, 'alias', lambda: repr(o.alias))
                v = self.w.peek(b'r' + o.name.encode())
                x = self.w.peek(b'r' + o.alias.encode())
                check(v == x, 'alias', lambda: 'alias %s of %s reads %r instead of %r' % (o.alias, o.name, x, v))

    def updated(self, o, i):
        """An object was updated."""
        w = self.w
        us = (o.t - T0) * 1e6
        k = int(round(us))
        if i not in w.ts and k in w.traced and abs(us - k) < 0.3:
            self.nt.add('trace')
            v = key(decode(w.vars[i][0], w.traced[k][i]))
            if key(o.value) != v and self.failed is None:
                self.failed = '%s traced as %r at %d us, expected %r' % (o.name, o.value, k, v)

    # Client operations

    def do_read(self, a, b, d, start):
        i = self.w.pick(a)
        o = self.obj(i)
        v = o.read(b % 4 != 0) if b % 3 else o.read()
        ok = self.w.allowed(i, start)
        check(key(v) in ok, 'read', lambda: '%s read as %r, expected one of %r' % (o.name, v, ok))
        if v is not None:
            check(key(o.value) == key(v), 'read-value', lambda: '%s read as %r, but has value %r' % (o.name, v, o.value))
        self.nt.add('read')

    def do_write(self, a, b, d, start):
        i = self.w.pick(a)
        if i in self.w.ts:
            return
        t, size, _ = self.w.vars[i]
        o = self.obj(i)
        old = key(o.value)
        v = value(t, size, d)
        base = t & ~0x40
        bad = False
        if b % 8 == 0 and (base in Int or base in Uint):
            # Wraps
            v += (1 << (8 * size)) if base in Int and v < 0 or base in Uint else 0
            if base in Uint:
                v -= 2 << (8 * size) if size < 8 else 1 << 64
            if base in Uint and v >= 0:
                v = -1
        elif b % 8 == 1:
            v = {STRING: 5, BLOB: 3.5}.get(base, 'abc')
            bad = base != BOOL
            if base == BOOL:
                v = True
        elif b % 8 == 2 and base == FLOAT:
            v = 1e300
            bad = True
        elif b % 8 == 3 and base == STRING:
            v = text(bytes(d) + b'abcdefghijklmnopqrstuvwxyz')
        if not bad:
            self.w.pending = self.w.pending + [(i, encode(t, size, v))]
        ok = o.write(v)
        if bad:
            check(ok is False, 'accepted', lambda: 'write of %r to %s' % (v, o.name))
            if i not in self.w.touched:
                check(key(o.value) == old, 'refused-value', lambda: 'write of %r to %s refused, but has value %r' % (v, o.name, o.value))
            return
        check(ok is True, 'refused', lambda: 'write of %r to %s' % (v, o.name))
        check(self.w.pending == [], 'not-sent', lambda: repr(self.w.pending))
        ks = self.w.allowed(i, start)
        check(key(o.value) in ks, 'written-value', lambda: '%s written as %r, value %r, expected %r' % (o.name, v, o.value, ks))
        self.nt.add('write')

    def do_aread(self, a, b, d, start):
        self.obj(self.w.pick(a)).asyncRead()
        self.nt.add('async')

    def do_awrite(self, a, b, d, start):
        i = self.w.pick(a)
        if i in self.w.ts:
            return
        t, size, _ = self.w.vars[i]
        o = self.obj(i)
        v = value(t, size, d)
        e = encode(t, size, v)
        self.w.pending = self.w.pending + [(i, e)]
        self.local.setdefault(i, set()).add(key(decode(t, e)))
        o.asyncWrite(v)
        self.nt.add('async')

    def do_edit(self, a, b, d, start):
        """Write a string, or what is shown by the GUI."""
        i = self.w.pick(a)
        if i in self.w.ts:
            return
        t, size, _ = self.w.vars[i]
        base = t & ~0x40
        o = self.obj(i)
        v = value(t, size, d)
        if base in Int or base in Uint:
            if b % 4 == 0:
                fs = o.formats
                o.format = fs[d[0] % len(fs)]
                if o.format == 'bytes':
                    return
                v = o.read()
                if v is None:
                    return
                s = o.valueString
                self.nt.add('format-' + o.format)
            else:
                s = [str, hex, bin][b % 3](v)
        elif base in (FLOAT, DOUBLE):
            if math.isnan(v) or math.isinf(v):
                return
            if abs(v) > 1e30 or 0 < abs(v) < 1e-30:
                v = 0.5
            s = '%.17g' % v
        elif base == BOOL:
            s = ['False', 'false', '0', 'True', 'true', '1'][b % 3 + 3 * v]
        elif base == STRING:
            s = v
        elif base in (PTR32, PTR64):
            s = hex(v)
        else:
            s = ''.join(chr(x & 0x7f) for x in v)
            v = s.encode()
        e = encode(t, size, v)
        self.w.pending = self.w.pending + [(i, e)]
        if self.loop:
            self.local.setdefault(i, set()).add(key(decode(t, e)))
        if b & 16:
            o.valueString = s
        else:
            o.value = s
        self.settle()
        check(self.w.pending == [], 'not-sent', lambda: '%s = %r' % (o.name, s))
        self.nt.add('edit')

    def do_poll(self, a, b, d, start):
        i = self.w.pick(a)
        o = self.obj(i)
        x = [None, 0, 0.01, 0.05, 0.005, 0.2, 0.5, 1, 2.5, 0.05, 0.01, float('nan'), 0.01, 0.02, 0.09, 0.3][b % 16]
        if d and d[0] & 1:
            o.polling = not o.polling
        else:
            o.poll(x)
            check(o.polling == (x is not None and not math.isnan(x)), 'polling', lambda: repr((o.polling, x)))
        if not d or d[0] & 6:
            o.valueUpdated.connect(lambda o=o, i=i: self.updated(o, i))
        self.nt.add('poll')

    def do_tick(self, a, b, d, start):
        if self.loop:
            self.w.tick((b + 1) / 50.0)
            if a % 2:
                self.w.deliver()
        else:
            self.c.traceProcess()

    def do_deliver(self, a, b, d, start):
        self.w.deliver()

    def do_set(self, a, b, d, start):
        self.w.mutate(self.w.pick(a), d)

    def do_trace(self, a, b, d, start):
        for _ in range(b % 8 + 1):
            if d:
                self.w.mutate(self.w.pick(a), d + bytes([_]))
            self.w.trace()

    def do_alias(self, a, b, d, start):
        i = self.w.pick(a)
        o = self.obj(i)
        prefer = chr(0x20 + d[0] % 0x5f) if d else None
        if prefer == '/':
            prefer = None
        if prefer is not None and self.c._availableAliases is None:
            # Not initialized yet
            self.c.acquireAlias(o)
        temporary = b % 2 == 0
        x = self.c.acquireAlias(o, prefer, temporary, self if b % 3 else None)
        if x is not None:
            check(o.alias == x, 'alias-object', lambda: repr((o.alias, x)))
            check(prefer is None or x == prefer, 'alias-prefer', lambda: repr((x, prefer)))
            if not temporary and b % 3:
                self.held.append(x)
            self.nt.add('alias')

    def do_unalias(self, a, b, d, start):
        if self.held:
            self.c.releaseAlias(self.held.pop(a % len(self.held)), self)

    def do_macro(self, a, b, d, start):
        if len(self.macros) > 3 or (self.macros and b % 4 == 0):
            m, _ = self.macros.pop(a % len(self.macros))
            self.c.releaseMacro(m)
            return
        if self.macros and b % 2:
            m, ids = self.macros[a % len(self.macros)]
            w = self.w
            r = self.c.req(m.encode()).split(b',')
            check(len(r) == len(ids) + 1, 'macro', lambda: repr((r, ids)))
            for i, x in zip(ids, r):
                o = self.obj(i)
                v = key(o.decodeReadRep(x))
                ok = w.allowed(i, start)
                check(v in ok, 'macro', lambda: '%s read as %r, expected one of %r' % (o.name, v, ok))
            self.nt.add('macro')
            return
        ids = [self.w.pick(a + x) for x in d[:3]]
        cmds = []
        for i in ids:
            cmds += [b'r' + self.w.vars[i][2].encode(), 'e,']
        m = self.c.acquireMacro(cmds, '\n' if b % 3 else '\t')
        if m is not None:
            self.macros.append((m, ids))

    def do_misc(self, a, b, d, start):
        c = self.c
        k = b % 8
        if k == 0:
            s = text(d)
            check(c.echo(s) == s, 'echo', lambda: repr(s))
        elif k == 1:
            check(c.identification() == 'target', 'identification')
            check(c.version().startswith('2 1.2 3.4'), 'version', lambda: c.version())
        elif k == 2:
            p, m = tool.cmd('mem')[0][1:].split(' ')
            m = bytes.fromhex(m)
            offset = a % 60
            data = bytes(d)[:64 - offset] or b'x'
            check(c.writeMem(int(p) + offset, data) is True, 'writeMem')
            m = m[:offset] + data + m[offset + len(data):]
            check(bytes.fromhex(tool.cmd('mem')[0][1:].split(' ')[1]) == m, 'writeMem', 'data differs')
            n = 1 + a % (64 - offset)
            r = c.readMem(int(p) + offset, n)
            check(r == m[offset:offset + n], 'readMem', lambda: '%r instead of %r' % (r, m[offset:offset + n]))
        elif k == 3:
            l = c.list()
            check([(o.name, o.type, o.size) for o in l] == [(v[2], v[0], v[1]) for v in self.w.vars] or
                  sorted((o.name, o.type, o.size) for o in l) == sorted((v[2], v[0], v[1]) for v in self.w.vars), 'list',
                  lambda: repr([o.name for o in l]))
        elif k == 4:
            i = self.w.pick(a)
            name = self.w.vars[i][2]
            check(c[name].name == name, 'getitem', lambda: repr(c[name].name))
            n = name[1:].replace('/', '__')
            if n.isidentifier() and not hasattr(zc.ZmqClient, n) and not keyword.iskeyword(n) and n not in vars(c):
                check(getattr(c, n).name == name, 'python-name', lambda: '%s is %s' % (n, getattr(c, n).name))
                check(c.obj(n).name == name, 'python-name', lambda: '%s is %s' % (n, c.obj(n).name))
        elif k == 5:
            i = self.w.pick(a)
            o = self.obj(i)
            fs = o.formats
            o.format = fs[(d[0] if d else 0) % len(fs)]
            check(isinstance(o.valueString, str), 'valueString')
        elif k == 6:
            t = c.time()
            if t is not None:
                check(self.w.index[t.name] in self.w.ts, 'time', lambda: t.name)
                check(self.time in (None, t.name), 'time', lambda: 'got %s instead of %s' % (t.name, self.time))
                v = t.read()
                x = c.timestampToTime(v)
                check(abs((x - T0) * 1e6 - v) < 1, 'time', lambda: '%r is %r' % (v, x))
        elif 't' in c.capabilities():
            c.traceDecimate(a % 4)

    def do_stream(self, a, b, d, start):
        if 's' not in self.c.capabilities():
            return
        w = self.w
        n = 'xy'[a % 2]
        compressed = 'f' in self.c.capabilities()
        if not w.streams.get(n) and compressed:
            # Flushing a stream that does not exist yet, has no effect.
            w.events = {}
        if n not in self.streams:
            s = self.c.stream(n, raw=True)
            self.settle()
            self.streams[n] = {'s': s, 'got': bytearray(), 'start': w.reads.get(n, -1) if compressed else -1, 'dead': False}
            return
        s = self.streams[n]
        k = b % 6
        if k < 3:
            w.stream(n, bytes(d) * (1 + b % 7))
            return
        if k == 3:
            self.settle()
            s['s'].flush()
            self.settle()
            upto = w.seq
            x = s['s'].poll()
            self.received(s, n, x)
            if compressed:
                exp = bytes(x for q, x in w.streams.get(n, []) if s['start'] < q)
                blk = bytes(x for q, x in w.streams.get(n, []) if s['start'] < q <= start)
                check(len(s['got']) >= len(blk), 'stream-flush', lambda: 'got %d bytes after flush, at least %d expected' % (len(s['got']), len(blk)))
                self.nt.add('flush')
        elif k == 4 and self.loop:
            s['s'].poll(callback=lambda x, s=s, n=n: self.received(s, n, x))
        else:
            self.received(s, n, s['s'].poll())

    def received(self, s, n, x):
        s['got'] += x
        exp = bytes(v for q, v in self.w.streams.get(n, []) if s['start'] < q)
        check(exp.startswith(bytes(s['got'])), 'stream', lambda: 'stream got %r, expected %r' % (bytes(s['got']), exp))
        if x:
            self.nt.add('stream')

    def do_state(self, a, b, d, start):
        if b % 2 == 0 or self.saved is None:
            self.c.list()
            self.c.saveState(self.state)
            self.saved = [(o.name, o.polling, o.pollInterval if o.polling else None, o.format) for o in self.c.objects]
        else:
            self.c.restoreState(self.state)
            for n, p, i, f in self.saved:
                o = self.c.find(n)
                if p:
                    check(o.polling, 'restore', lambda: n + ' is not polled')
                if f != 'default':
                    check(o.format == f, 'restore', lambda: n + ' has format ' + o.format)
            self.nt.add('state')

    def settle(self):
        if self.loop:
            self.w.tick(0)
            self.w.deliver()

    def finish(self):
        w = self.w
        self.settle()
        check(w.pending == [], 'not-sent', lambda: repr(w.pending))
        self.invariants()
        polled = [o for o in self.c.objects if o.polling]
        if self.loop and polled:
            for _ in range(40):
                w.trace()
                w.tick(0.15)
                w.deliver()
            # Compressed trace data is delayed.
            if 'f' in self.c.capabilities():
                w.trace(400)
            for _ in range(3):
                w.tick(0.3)
                w.deliver()
            for o in polled:
                i = w.index[o.name]
                if i in w.ts:
                    continue
                x = decode(w.vars[i][0], w.now(i))
                if x is None:
                    continue
                check(key(o.value) == key(x), 'stale', lambda: '%s is polled every %s s, has value %r instead of %r' % (
                    o.name, o.pollInterval, o.value, x))
            self.nt.add('polled')
        self.invariants()
        self.c.close()
        if self.csv:
            self.checkCsv()

    def checkCsv(self):
        with open(self.csv, newline='') as f:
            rows = list(csv.reader(f))
        check(len(rows) > 0 and rows[0][0] == 't', 'csv-header', lambda: repr(rows[:1]))
        h = rows[0]
        for r in rows[1:]:
            check(len(r) == len(h), 'csv-row', lambda: 'row %r for header %r' % (r, h))
            for n, x in zip(h[1:], r[1:]):
                i = self.w.index[n]
                if i in self.w.ts:
                    continue
                ks = list(self.w.keys[i]) + list(self.local.get(i, []))
                if x == '':
                    continue
                ok = [k for k in ks if self.csvKey(k) == x]
                check(ok, 'csv-value', lambda: '%s has %r' % (n, x))
            self.nt.add('csv')

    def csvKey(self, k):
        if not isinstance(k, tuple):
            return str(k)
        if k[0] == 'f':
            return 'nan' if k[1] == 'nan' else str(struct.unpack('<d', k[1])[0])
        if k[0] == 'x':
            return str(bytearray(k[1]))
        return str(k[1])

    def cleanup(self):
        w = self.w
        try:
            self.c.close()
        except Exception:
            pass
        for f in (self.csv, self.state):
            if f and os.path.exists(f):
                os.unlink(f)


def client(case, ctx):
    c = None
    try:
        c = Case(case, ctx)
        for op in case[6]:
            c.step(op)
        c.finish()
    finally:
        if c:
            c.cleanup()
    for x in c.nt:
        ctx.cls(x)
    ctx.nontrivial(len(c.nt) >= 3)


data = st.binary(min_size=1, max_size=12)
index = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(100, 250))
event = st.tuples(st.integers(0, 4), st.sampled_from([0, 0, 1, 2]), index, data)
time = st.one_of(st.none(), st.integers(0, 3))
kinds = ['read', 'read', 'write', 'write', 'aread', 'awrite', 'edit', 'poll', 'poll', 'poll', 'tick', 'tick', 'deliver', 'set', 'trace', 'alias', 'unalias',
         'macro', 'misc', 'stream', 'stream', 'state']
op = st.tuples(st.sampled_from(kinds), index, st.integers(0, 31), data, st.lists(event, max_size=3))
case = st.tuples(st.sampled_from(['one', 'two', 'other']), st.booleans(), st.booleans(), st.sampled_from([False] * 4 + [True]),
                 st.booleans(), st.lists(st.one_of(st.integers(0, 45), st.integers(0, 150)), min_size=1, max_size=6),
               st.one_of(st.lists(op, min_size=1, max_size=10), st.lists(op, min_size=8, max_size=40)), time)

# Mostly tracing
tkinds = ['poll'] * 6 + ['tick'] * 5 + ['trace'] * 5 + ['set', 'read', 'deliver', 'write', 'alias', 'misc', 'stream']
top = st.tuples(st.sampled_from(tkinds), st.integers(0, 4), st.sampled_from([2, 3, 4, 9, 10, 12, 14, 0, 4, 9, 5, 7]), data, st.lists(event, max_size=2))
tcase = st.tuples(st.sampled_from(['one', 'two', 'other']), st.sampled_from([True, True, True, False]), st.booleans(), st.just(False),
                  st.booleans(), st.lists(st.integers(0, 150), min_size=1, max_size=4),
                  st.one_of(st.lists(top, min_size=1, max_size=10), st.lists(top, min_size=8, max_size=40)), time)


def tracing(case, ctx):
    client(case, ctx)


PROPS = [
    Prop('client', case, client, 1500, 60000, 'at least three kinds of operations had a visible result'),
    Prop('tracing', tcase, tracing, 1000, 40000, 'at least three kinds of operations had a visible result'),
]

if __name__ == '__main__':
    sys.exit(pyvh.main(PROPS, setup))
