# S01: lookup and listing in directories generated from random store descriptions.
import os
import re
import tempfile
import pyvh
from pyvh import st, check, Prop
from libstored.generator import __main__ as generator
from libstored.generator.dsl import types as gtypes

tool = None
count = 0


def setup(a):
    global tool
    tool = pyvh.Tool(a.exe)


# name -> (type id, size)
FIXED = {'bool': (0x20, 1), 'int8': (0x38, 1), 'uint8': (0x30, 1), 'int16': (0x39, 2), 'uint16': (0x31, 2),
         'int32': (0x3b, 4), 'uint32': (0x33, 4), 'int64': (0x3f, 8), 'uint64': (0x37, 8), 'float': (0x2b, 4),
         'double': (0x2f, 8)}

# Names over a small alphabet, such that there are many common prefixes.
comp = st.one_of(
    st.text(alphabet='ab', min_size=1, max_size=3),
    st.text(alphabet='ab', min_size=1, max_size=3),
    st.text(alphabet='abcdefgh', min_size=1, max_size=7),
    st.text(alphabet='ab.-0 A!z~[]_', min_size=1, max_size=5),
    st.sampled_from(['aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab',
                     'abbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc',
                     'abbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbd',
                     'abbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb']))
name = st.one_of(comp, comp, comp, st.tuples(comp, comp).map('/'.join), st.tuples(comp, comp, comp).map('/'.join))
kind = st.one_of(st.sampled_from(sorted(FIXED)), st.sampled_from(sorted(FIXED)),
                 st.tuples(st.sampled_from(['blob', 'string']), st.integers(1, 20) | st.integers(100, 70000)).map(lambda x: '%s:%d' % x))
leaf = st.tuples(st.sampled_from('vvf'), kind, st.sampled_from([0, 0, 0, 0, 1, 2, 3, 11]), name)
objs = st.recursive(st.lists(leaf, min_size=1, max_size=8),
                    lambda c: st.tuples(st.lists(leaf, max_size=5), st.lists(st.tuples(st.just('s'), c, st.sampled_from([0, 0, 0, 2]), name), min_size=1, max_size=4)).map(
                        lambda x: x[0] + x[1]), max_leaves=20)
# Random lookups: mutations of names, or anything.
mut = st.tuples(st.integers(0, 200), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 60), st.sampled_from('ab/ .0~z') | st.characters(min_codepoint=0, max_codepoint=255)), max_size=4))
text = st.one_of(st.text(alphabet='ab/.', max_size=12), st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255), max_size=20))
case = st.tuples(objs, st.lists(mut, max_size=8), st.lists(text, max_size=8), st.sampled_from(['', '/', 'pre', '/store', 'long prefix/with slash']),
                 st.lists(st.integers(0, 40), min_size=1, max_size=12), st.booleans())


def norm(n):
    return re.sub(r'\s+', ' ', n)


def legalName(n):
    # Leading and trailing spaces are not part of the name.
    n = n.strip(' ')
    n = re.sub(r'/+', '/', n).strip('/')
    n = n.strip(' ')
    if not n or not re.fullmatch(r'([ -.0-~]/?)*[!-.0-~]', n):
        return 'x'
    return n


def arr(n):
    return '[%d]' % n if n else ''


def expand(objs, prefix=''):
    """The declared objects, according to the documentation: (kind, type, name)"""
    res = []
    for o in objs:
        n = prefix + norm(legalName(o[3]))
        names = [n] if o[2] <= 1 else ['%s[%d]' % (n, i) for i in range(o[2])]
        for x in names:
            if o[0] == 's':
                res += expand(o[1], x + '/')
            else:
                res.append((o[0], o[1], x))
    return res


def dedup(objs):
    """Drop objects such that all names are unique."""
    while True:
        names = [x[2] for x in expand(objs)]
        if len(set(names)) == len(names):
            return objs

        def strip(os, prefix, seen):
            res = []
            for o in os:
                full = expand([o], prefix)
                ns = [f[2] for f in full]
                if len(set(ns)) == len(ns) and not any(n in seen for n in ns):
                    seen |= set(ns)
                    res.append(o)
                elif o[0] == 's':
                    inner = strip(o[1], prefix + norm(legalName(o[3])) + '/', seen) if o[2] <= 1 else []
                    if inner:
                        res.append((o[0], inner, o[2], o[3]))
            return res
        objs = strip(objs, '', set())


def source(objs, indent=''):
    s = ''
    for o in objs:
        n = legalName(o[3])
        if o[0] == 's':
            s += '%s{\n%s%s}%s %s\n' % (indent, source(o[1], indent + '\t'), indent, arr(o[2]), n)
        elif o[0] == 'f':
            s += '%s(%s)%s %s\n' % (indent, o[1], arr(o[2]), n)
        else:
            s += '%s%s%s %s\n' % (indent, o[1], arr(o[2]), n)
    return s


def model(src, big=False):
    """Let the generator process the description."""
    global count
    count += 1
    # The generator remembers all names it has ever seen; it is only meant to run once.
    for x in ('cnames', 'vhdlnames'):
        if hasattr(gtypes, x):
            getattr(gtypes, x).clear()
    f = os.path.join(os.getcwd(), 'S%dx%d.st' % (os.getpid(), count))
    with open(f, 'w') as fh:
        fh.write(src)
    try:
        return generator.load_model(f, not big)
    except SystemExit as e:
        raise pyvh.Failure('rejected', 'generator does not accept: %s\n%s' % (e, src))
    finally:
        os.unlink(f)


def tohex(s):
    return 'x' + s.encode('latin1').hex()


def expected(o):
    k, t, n = o
    if ':' in t:
        tt, size = t.split(':')
        tid, size = ({'blob': 0x01, 'string': 0x02}[tt], int(size))
    else:
        tid, size = FIXED[t]
    return (tid | (0x40 if k == 'f' else 0), size)


def check_directory(case, ctx):
    objs, muts, texts, prefix, cuts, useLong = case
    objs = dedup(objs)
    want = {o[2]: o for o in expand(objs)}
    if not want:
        return
    m = model(source(objs))
    src = source(objs)
    have = {o.name: o for o in m.objects}
    check(set(have) == set(want), 'objects', lambda: 'generator has %s, declared %s' % (sorted(have), sorted(want)))
    tool.cmd('buffer %d' % m.buffer.size)

    pos = None
    listed = []
    for short in (True, False):
        what = 'short' if short else 'long'
        tool.cmd('dir %s' % bytes(m.directory.data if short else m.directory.longdata).hex())

        # Listing.
        for mode, pre in ((0, prefix), (0, None), (1, prefix), (1, None), (3, None), (2, None)):
            lst = tool.cmd('list %d %s' % (mode, 'n' if pre is None else tohex(pre)))
            if mode == 2:
                check(len(lst) == len(want), 'list-count', lambda: '%d listed in %s directory, %d declared' % (len(lst), what, len(want)))
                continue
            listed.append((short, mode, pre, lst))
            if short:
                continue
            got = {}
            for l in lst:
                n, t, size, off = l.split()
                n = bytes.fromhex(n[1:]).decode('latin1')
                check(n not in got, 'list-twice', lambda: '"%s" is listed twice, %s' % (n, src))
                got[n] = (int(t), int(size), int(off))
            exp = {(pre or '') + '/' + n: expected(o) for n, o in want.items()}
            check(set(got) == set(exp), 'list-names', lambda: 'mode %d prefix %s listed %s, declared %s\n%s' % (mode, pre, sorted(got), sorted(exp), src))
            for n, e in exp.items():
                check(got[n][:2] == e, 'list-type', lambda: '%s: listed %s, declared %s' % (n, got[n], e))
            if pre is None:
                pos = {n[1:]: x[2] for n, x in got.items()}

    # Without full names, the names are listed up to where they are unambiguous, with ? for the characters that do not matter.
    where = {(expected(o)[0] & 0x40, pos[n]): n for n, o in want.items()}
    for short, mode, pre, lst in listed:
        if not short:
            continue
        seen = set()
        for l in lst:
            n, t, size, off = l.split()
            n = bytes.fromhex(n[1:]).decode('latin1')
            k = (int(t) & 0x40, int(off))
            check(k in where, 'list-abbrev', lambda: '"%s" is listed with offset %s\n%s' % (n, off, src))
            w = where[k]
            check(w not in seen, 'list-abbrev-twice', lambda: '"%s" is listed twice\n%s' % (w, src))
            seen.add(w)
            check((int(t), int(size)) == expected(want[w]), 'list-abbrev-type', lambda: '%s: listed %s' % (w, l))
            check(n.startswith((pre or '') + '/'), 'list-abbrev-prefix', lambda: '"%s" is listed with prefix "%s"' % (n, pre))
            a, b = n[len(pre or '') + 1:].split('/'), w.split('/')
            check(len(a) <= len(b) and all(len(x) <= len(y) and all(c in ('?', d) for c, d in zip(x, y)) for x, y in zip(a, b)), 'list-abbrev-name',
                  lambda: 'mode %d prefix %s listed "%s" for "%s"\n%s' % (mode, pre, n, w, src))
            if '?' in n:
                ctx.cls('listed with ?')
            if '??????????' in n:
                ctx.cls('listed with at least 10 ?')
        check(len(seen) == len(want), 'list-abbrev', lambda: '%d objects listed, %d declared\n%s' % (len(seen), len(want), src))

    # All variables are different objects.
    vs = sorted((pos[n], pos[n] + expected(o)[1] + (1 if o[1].startswith('string') else 0), n) for n, o in want.items() if o[0] == 'v')
    for a, b in zip(vs, vs[1:]):
        check(a[1] <= b[0], 'overlap', lambda: '%s and %s overlap' % (a, b))
    check(not vs or vs[-1][1] <= m.buffer.size, 'outside', 'outside of the buffer')
    fs = [pos[n] for n, o in want.items() if o[0] == 'f']
    check(len(set(fs)) == len(fs), 'function-id', 'functions have the same id')

    # Siblings per scope: (component, is a scope).
    scopes = {}
    for n in want:
        c = n.split('/')
        for i in range(len(c)):
            scopes.setdefault('/'.join(c[:i]), set()).add((c[i], i < len(c) - 1))
    depth = max(n.count('/') for n in want)
    if any(('/' in n) for n in want) and any(len(s) > 1 for s in scopes.values()):
        ctx.nontrivial()
    if any(len({x[0] for x in s}) < len(s) for s in scopes.values()):
        ctx.cls('object is also a scope')
    ctx.cls('depth %d' % min(depth, 5))
    ctx.cls('objects %s' % ('<10' if len(want) < 10 else '<50' if len(want) < 50 else '>=50'))

    def find(n):
        r = tool.cmd('find %s' % tohex(n))
        check(r[0] == r[1] == r[2], 'find-terminator', lambda: 'find "%s" with length: %s, terminated: %s, in longer text: %s\n%s' % (n, r[0], r[1], r[2], src))
        return r[0]

    def res(n):
        o = want[n]
        t, size = expected(o)
        return '%s %d %d %d' % ('F' if o[0] == 'f' else 'V', t, size, pos[n])

    ci = 0
    for short in (True, False):
        what = 'short' if short else 'long'
        tool.cmd('dir %s' % bytes(m.directory.data if short else m.directory.longdata).hex())
        # Full names
        for n in want:
            r = find('/' + n)
            check(r == res(n), 'find-full-' + what, lambda: '"/%s" finds %s, expected %s\n%s' % (n, r, res(n), src))
        if short:
            # Unambiguous abbreviations
            for n in want:
                c = n.split('/')
                for _ in range(3):
                    ab = []
                    for i in range(len(c)):
                        sib = scopes['/'.join(c[:i])]
                        cut = cuts[ci % len(cuts)]
                        ci += 1
                        opts = [c[i][:j] for j in range(1, len(c[i])) if sum(1 for s in sib if s[0].startswith(c[i][:j])) == 1]
                        if not opts or cut == 0:
                            ab.append(c[i])
                        elif cut == 1:
                            ab.append(opts[0])
                        else:
                            ab.append(opts[cut % len(opts)])
                    if ab == c:
                        continue
                    ctx.cls('abbreviated')
                    r = find('/' + '/'.join(ab))
                    check(r == res(n), 'find-abbrev', lambda: '"/%s" finds %s, expected %s of %s\n%s' % ('/'.join(ab), r, res(n), n, src))
        # Anything else
        valid = {res(n) for n in want} | {'N'}
        names = sorted(want)
        for i, edits in muts:
            s = list('/' + names[i % len(names)])
            for op, at, ch in edits:
                at = at % (len(s) + 1)
                if op == 0:
                    s[at:] = []
                elif op == 1:
                    s.insert(at, ch)
                elif op == 2:
                    s[at:at + 1] = ch
                else:
                    s[at:at + 1] = []
            n = ''.join(s).replace('\0', 'a')
            r = find(n)
            check(r in valid, 'find-other', lambda: '"%s" finds %s' % (n, r))
        for n in texts:
            r = find(n)
            check(r in valid, 'find-other', lambda: '"%s" finds %s' % (n, r))


props = [
    Prop('directory', case, check_directory, 1300, 60000,
         'at least one scope with siblings; distinct descriptions and lookups'),
]

if __name__ == '__main__':
    raise SystemExit(pyvh.main(props, setup))
