# L08: the Python decoder decodes what the C++ layer encodes.
import sys
import pyvh
from pyvh import st, check, Prop
from libstored.heatshrink import HeatshrinkDecoder

tool = None


def setup(a):
    global tool
    tool = pyvh.Tool(a.exe)


piece = st.one_of(
    st.binary(max_size=60),
    st.tuples(st.binary(min_size=1, max_size=12), st.integers(1, 120)).map(lambda x: x[0] * x[1]),
    st.tuples(st.integers(0, 255), st.integers(1, 600)).map(lambda x: bytes([x[0]]) * x[1]))
message = st.lists(piece, min_size=1, max_size=6).map(b''.join).filter(lambda x: len(x) > 0)
case = st.lists(st.tuples(message, st.lists(st.integers(0, 200), max_size=5), st.lists(st.integers(0, 100), max_size=5)), min_size=1, max_size=4)


def roundtrip(case, ctx):
    tool.cmd('new 0 compress 0')
    d = HeatshrinkDecoder()
    reduced = False
    for m, split, fills in case:
        f = [x[2:] for x in tool.cmd('encode %s %s' % (m.hex(), ' '.join(map(str, split)))) if x.startswith('F ')]
        check(len(f) == 1, 'frames', '%d frames' % len(f))
        f = bytes.fromhex(f[0])
        out = bytearray()
        o = 0
        for s in fills:
            out += d.fill(f[o:o + s])
            o += s
        out += d.finish(f[o:])
        check(bytes(out) == m, 'content', lambda: 'decoded %s instead of %s' % (bytes(out).hex(), m.hex()))
        reduced = reduced or len(f) < len(m)
    ctx.nontrivial(reduced and len(case) > 1)


def garbage(case, ctx):
    d = HeatshrinkDecoder()
    for b, fin in case:
        if fin:
            d.finish(b)
        else:
            d.fill(b)
    # Still works afterwards.
    d.finish()
    tool.cmd('new 0 compress 0')
    f = tool.cmd('encode 616161616162')
    check(d.finish(bytes.fromhex(f[0][2:])) == b'aaaaab', 'recover', 'decoder does not recover')
    ctx.nontrivial(sum(len(x[0]) for x in case) > 4)


sys.exit(pyvh.main([
    Prop('py_decode', case, roundtrip, 1500, 30000,
         'messages with repetitions, encoded in random parts by the C++ layer, decoded in random parts by the Python decoder; '
         'non-trivial: more than one message, of which one was reduced in size'),
    Prop('py_garbage', st.lists(st.tuples(st.binary(max_size=100), st.booleans()), max_size=5), garbage, 800, 10000,
         'arbitrary bytes in the Python decoder, followed by a valid message; non-trivial: more than 4 bytes'),
], setup))
