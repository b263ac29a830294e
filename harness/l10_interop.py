# L10: interoperability of the C++ and Python protocol layers.
import sys
import pyvh
from pyvh import st, check, Prop
from libstored import protocol

tool = None


def setup(a):
    global tool
    tool = pyvh.Tool(a.exe)


class Py:
    """Python stack with recorded output."""

    def __init__(self, spec, mtu):
        self.frames = []
        self.msgs = []
        self.nondebug = bytearray()
        self.layers = []
        for k, arg in spec:
            if k == 'ascii':
                l = protocol.AsciiEscapeLayer()
            elif k == 'term':
                l = protocol.TerminalLayer(fdout=self.nondebug.extend, ignoreEscapesTillFirstEncode=False)
            elif k == 'seg':
                l = protocol.SegmentationLayer() if arg == 0 else protocol.SegmentationLayer(str(arg))
            elif k == 'crc8':
                l = protocol.Crc8Layer()
            elif k == 'crc16':
                l = protocol.Crc16Layer()
            elif k == 'debugarq':
                l = protocol.DebugArqLayer()
            else:
                l = protocol.RawLayer()
            if self.layers:
                l.wrap(self.layers[-1])
            self.layers.append(l)
        class Bottom(protocol.ProtocolLayer):
            name = 'bottom'

            def encode(s, data):
                self.frames.append(bytes(data))

            @property
            def mtu(s):
                return mtu
        self.bottom = Bottom()
        self.bottom.wrap(self.layers[-1])
        self.layers.append(self.bottom)
        self.stack = protocol.ProtocolStack(self.layers)
        self.stack.up = lambda x: self.msgs.append(bytes(x))

    def take(self):
        f = self.frames
        self.frames = []
        return f

    def takeMsgs(self):
        m = self.msgs
        self.msgs = []
        return m


def legal(layers):
    """Make sure that the terminal layer gets escaped data."""
    res = []
    for k, arg in layers:
        if k == 'term' and not (res and res[-1][0] == 'ascii'):
            res.append(('ascii', 1))
        if k == 'ascii' and sum(1 for x in res if x[0] == 'ascii') >= 2:
            continue
        res.append((k, arg))
    if sum(1 for x in res if x[0] == 'ascii') > 2:
        res = [('ascii', 1), ('term', 0)]
    return res or [('plain', 0)]


layer = st.sampled_from(['ascii', 'term', 'seg', 'crc8', 'crc16', 'plain']).flatmap(
    lambda k: st.tuples(st.just(k), st.just(0) | st.integers(3, 60) if k == 'seg' else st.integers(0, 1) if k == 'ascii' else st.just(0)))
spec = st.lists(layer, min_size=1, max_size=6).map(legal)
special = st.lists(st.sampled_from(b'\x1b\\_\x7f\r\n\0\x10\x11\x13\x40\x80\xffEC\x3f\x5f'), max_size=60).map(bytes)
msg = st.one_of(special, st.binary(max_size=40), st.binary(min_size=40, max_size=400))
# direction, message, splits of the encode (C++), drop/chunk choices
step = st.tuples(st.booleans(), msg, st.lists(st.integers(0, 30), max_size=4), st.lists(st.integers(1, 20), max_size=6))
case = st.tuples(spec, st.sampled_from([0, 0, 0, 32, 50, 100, 257, 258, 300]), st.lists(step, min_size=1, max_size=6))


def streamlike(spec):
    """Only terminal framing allows chunking."""
    for k, _ in reversed(spec):
        if k == 'term':
            return True
        if k not in ('plain',):
            return False
    return False


def frames(lines):
    return [bytes.fromhex(l[2:].strip()) for l in lines if l.startswith('F')]


def msgs(lines):
    return [bytes.fromhex(l[2:].strip()) for l in lines if l.startswith('M')]


def mtuOk(py):
    return all(l.mtu == 0 or l.mtu >= 6 for l in py.layers)


def interop(case, ctx):
    spec, mtu, steps = case
    py = Py(spec, mtu)
    if not mtuOk(py):
        return
    tool.cmd('new %d %s' % (mtu, ' '.join('%s %d' % x for x in spec)))
    cppmtu = int(tool.cmd('mtu')[0])
    check(cppmtu == py.stack.mtu, 'mtu', 'C++ mtu %d, Python %d' % (cppmtu, py.stack.mtu))
    stream = streamlike(spec)
    dirs = set()
    for topy, m, splits, chunks in steps:
        if cppmtu:
            m = m[:cppmtu]
        if topy:
            r = tool.cmd('encode %s %s' % (m.hex() or '-', ' '.join(map(str, splits))))
            check('X' not in r, 'mtu-exceeded', 'C++ exceeds MTU')
            fs = frames(r)
            if stream:
                data = b''.join(fs)
                fs = []
                for c in chunks:
                    fs.append(data[:c])
                    data = data[c:]
                fs.append(data)
            for f in fs:
                if f or not stream:
                    py.stack.decode(bytearray(f) if len(m) % 2 else f)
            got = py.takeMsgs()
            check(py.take() == [], 'response', 'Python sends something')
        else:
            py.stack.encode(m)
            fs = py.take()
            if mtu:
                for f in fs:
                    check(len(f) <= mtu, 'py-mtu-exceeded', lambda: 'Python frame of %d bytes exceeds %d' % (len(f), mtu))
            if stream:
                data = b''.join(fs)
                fs = []
                for c in chunks:
                    fs.append(data[:c])
                    data = data[c:]
                fs.append(data)
            got = []
            for f in fs:
                got += msgs(tool.cmd('deliver %s' % f.hex()))
        check(got == [m], 'topy' if topy else 'tocpp', lambda: 'sent %s, got %s' % (m.hex(), [x.hex() for x in got]))
        dirs.add(topy)
    check(bytes(py.nondebug) == b'', 'nondebug', lambda: 'unexpected non-debug data %s' % bytes(py.nondebug).hex())
    ctx.nontrivial(len(dirs) == 2 and len(spec) >= 2)


# Debug ARQ: the Python client with a C++ target, over a lossy channel.
low = st.lists(st.sampled_from([('crc8', 0), ('crc16', 0), ('ascii', 1), ('term', 0), ('plain', 0)]), max_size=3).map(
    lambda x: [] if not x else legal(x))
arqstep = st.tuples(st.sampled_from(['req', 'req', 'req', 'req', 'req', 'reset']), st.binary(min_size=1, max_size=60),
                    st.lists(st.booleans(), max_size=30))
arqcase = st.tuples(st.booleans(), st.just(0) | st.integers(3, 40), st.just(0) | st.integers(1, 400), low, st.integers(1, 8), st.booleans(),
                    st.lists(st.integers(0, 40), max_size=4), st.sampled_from([0, 0, 40, 64, 300]),
                    st.lists(arqstep, min_size=1, max_size=8))


def arq(case, ctx):
    seg, segmtu, buffer, lower, repeat, purgeable, splits, mtu, steps = case
    spec = ([('seg', segmtu)] if seg else []) + [('debugarq', buffer)] + list(lower)
    if not seg:
        mtu = 0
    py = Py(spec, mtu)
    if not mtuOk(py):
        return
    tool.cmd('new %d %s' % (mtu, ' '.join('%s %d' % x for x in spec)))
    tool.cmd('auto %d %d %s' % (repeat, purgeable, ' '.join(map(str, splits))))
    limit = 0 if seg else min(x for x in (py.stack.mtu or 10000, int(tool.cmd('mtu')[0]) or 10000))
    count = 0
    lost = 0
    number = 0
    fresh = True
    for op, data, losses in steps:
        if op == 'reset':
            # The client restarts.
            py = Py(spec, mtu)
            ctx.cls('restart')
            continue
        losses = list(losses)
        number += 1
        req = b'%d:' % number + data
        if limit and (len(req) * repeat + 8 > limit):
            continue
        py.stack.encode(req)
        executed = []
        for attempt in range(100):
            if attempt:
                py.stack.timeout()
            for i in range(50):
                fs = py.take()
                if not fs:
                    break
                for f in fs:
                    if losses and losses.pop():
                        lost += 1
                        continue
                    r = tool.cmd('deliver %s' % f.hex())
                    check('X' not in r, 'mtu-exceeded', 'C++ exceeds MTU')
                    for m in msgs(r):
                        check(m == req, 'request', lambda: 'executed %s instead of %s' % (m.hex(), req.hex()))
                        count += 1
                        executed.append(count)
                    for x in frames(r):
                        if losses and losses.pop():
                            lost += 1
                            continue
                        py.stack.decode(x)
            if py.msgs:
                break
        got = py.takeMsgs()
        check(len(got) == 1, 'responses', lambda: '%d responses to %s' % (len(got), req.hex()))
        e = got[0].split(b'/', 1)
        check(len(e) == 2 and e[1] == req * repeat and int(e[0]) in executed, 'response', lambda: 'response %s to %s' % (got[0].hex(), req.hex()))
        if buffer == 0 and not purgeable:
            check(len(executed) == 1, 'executed', 'executed %d times' % len(executed))
    if lost:
        ctx.cls('loss')
    ctx.nontrivial(lost > 0 and number > 1)


# Long sessions, such that all lengths of sequence numbers are used.
longcase = st.tuples(st.sampled_from([60, 8300, 17000, 33000, 60000]), st.integers(0, 200), st.booleans(), st.integers(0, 9))


def long(case, ctx):
    size, extra, crc, lose = case
    n = size + extra
    # One byte of payload per frame.
    spec = [('seg', 2), ('debugarq', 0)] + ([('crc8', 0)] if crc else [])
    py = Py(spec, 0)
    tool.cmd('new 0 %s' % ' '.join('%s %d' % x for x in spec))
    tool.cmd('auto 1 0')
    for req in (bytes(i & 0xff for i in range(n)), b'end'):
        py.stack.encode(req)
        got = []
        for attempt in range(3):
            if attempt:
                py.stack.timeout()
            while True:
                fs = py.take()
                if not fs:
                    break
                if attempt == 0 and lose < 5 and len(fs) > 1:
                    del fs[len(fs) * (lose + 1) // 6]
                for f in fs:
                    r = tool.cmd('deliver %s' % f.hex())
                    for m in msgs(r):
                        check(m == req, 'long-request', lambda: 'executed %s' % m[:40].hex())
                    for x in frames(r):
                        py.stack.decode(x)
            got = py.takeMsgs()
            if got:
                break
        check(len(got) == 1 and got[0].split(b'/', 1)[1] == req, 'long-response', lambda: 'got %d responses' % len(got))
    ctx.nontrivial(n > 8192)


# Terminal data
term = st.tuples(st.integers(0, 1), st.lists(st.tuples(st.booleans(), st.binary(max_size=30), st.lists(st.integers(1, 12), max_size=6)), min_size=1, max_size=8))


def terminal(case, ctx):
    crc, steps = case
    spec = ([('crc8', 0)] if crc else []) + [('ascii', 1), ('term', 0)]
    py = Py(spec, 0)
    tool.cmd('new 0 %s' % ' '.join('%s %d' % x for x in spec))
    data = bytearray()
    expected = []
    plain = bytearray()
    chunks = []
    for dbg, b, ch in steps:
        chunks += ch
        if dbg:
            data += b''.join(frames(tool.cmd('encode %s' % (b.hex() or '-'))))
            expected.append(b)
        else:
            b = b.replace(b'\x1b', b'')
            if b:
                data += b''.join(frames(tool.cmd('inject %s' % b.hex())))
                plain += b
    for c in chunks + [len(data)]:
        if not data:
            break
        py.stack.decode(bytes(data[:c]))
        data = data[c:]
    got = py.takeMsgs()
    check(got == expected, 'messages', lambda: 'got %s instead of %s' % ([x.hex() for x in got], [x.hex() for x in expected]))
    check(py.nondebug == plain, 'nondebug', lambda: 'got %s instead of %s' % (bytes(py.nondebug).hex(), bytes(plain).hex()))
    ctx.nontrivial(len(plain) > 0 and len(expected) > 1)


sys.exit(pyvh.main([
    Prop('interop', case, interop, 2500, 40000,
         'random mirrored stacks of up to 6 layers in C++ and Python, messages in both directions, random splits and chunks; '
         'non-trivial: at least two layers, and messages in both directions'),
    Prop('arq', arqcase, arq, 2000, 40000,
         'Python client and C++ target over debug ARQ with random lower layers and losses, restarts of the client; '
         'non-trivial: frames lost and more than one request'),
    Prop('long', longcase, long, 16, 300,
         'Python client with requests and responses of up to 17200 frames, optionally with a lost frame; non-trivial: '
         'sequence numbers of at least three bytes'),
    Prop('terminal', term, terminal, 1000, 10000,
         'debug messages interleaved with terminal data, sent by C++, separated by Python; non-trivial: both present'),
], setup))
