# S02: generate, compile, and inspect random stores.
import importlib.util
import itertools
import os
import re
import shutil
import struct
import subprocess
import sys
import pyvh
from pyvh import st, check, Prop
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run as R
from libstored.generator import __main__ as generator
from libstored.generator.dsl import types as gtypes

libs = {}
count = 0


def setup(a):
    # Precompile the sources of the library for both endiannesses.
    for big in (False, True):
        flags = R.SAN['asan'] + R.DEFS + R.includes() + (['-DVH_BIG_ENDIAN_STORE'] if big else [])
        libs[big] = [R.compile_one(os.path.join(R.REPO, 'src', s + '.cpp'), flags, R.repo_hash()) for s in ('directory', 'util')]


INTS = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q', 'uint64': 'Q', 'ptr64': 'Q'}
FMT = dict(INTS, bool='?', float='f', double='d')
TYPE = {'bool': 0x20, 'int8': 0x38, 'uint8': 0x30, 'int16': 0x39, 'uint16': 0x31, 'int32': 0x3b, 'uint32': 0x33,
        'int64': 0x3f, 'uint64': 0x37, 'float': 0x2b, 'double': 0x2f, 'ptr64': 0x27, 'blob': 0x01, 'string': 0x02}
CTYPE = {'bool': 'bool', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t',
         'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t', 'float': 'float', 'double': 'double', 'ptr64': 'void*'}


@st.composite
def fixedVar(draw):
    t = draw(st.sampled_from(sorted(FMT)))
    init = None
    value = 0
    if draw(st.booleans()):
        if t == 'bool':
            init, value = draw(st.sampled_from([('true', True), ('false', False), ('1', True), ('0', False)]))
        elif t in ('float', 'double'):
            k = draw(st.integers(0, 4))
            if k == 0:
                init, value = draw(st.sampled_from([('nan', float('nan')), ('NaN', float('nan')), ('inf', float('inf')), ('Inf', float('inf')),
                                                    ('-inf', -float('inf')), ('infinity', float('inf')), ('-Infinity', -float('inf'))]))
            elif k == 1:
                value = float(draw(st.integers(-1000, 100000)))
                init = '%d' % value
            else:
                value = draw(st.floats(width=32 if t == 'float' else 64, allow_nan=False, allow_infinity=False))
                init = repr(value)
        else:
            size = struct.calcsize(INTS[t])
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if INTS[t].islower() else (0, (1 << (8 * size)) - 1)
            value = draw(st.integers(lo, hi) | st.sampled_from([lo, hi, 0, 1, hi // 2 + 1]))
            k = draw(st.integers(0, 3))
            if k == 0 and value >= 0:
                init = draw(st.sampled_from(['0x%x', '0x%X', '0x%08x'])) % value
            elif k == 1 and value >= 0:
                init = '0b' + bin(value)[2:]
            else:
                init = '%d' % value
    return (t, struct.calcsize(FMT[t]), init, value)


@st.composite
def stringVar(draw):
    """Returns type, size, source of initializer, value (bytes)."""
    if not draw(st.booleans()):
        return ('string', draw(st.integers(0, 20)), None, b'')
    parts = draw(st.lists(st.one_of(
        st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='\\"'), max_size=5).map(lambda s: (s, s)),
        st.sampled_from([('\\n', '\n'), ('\\t', '\t'), ('\\"', '"'), ('\\x41', 'A'), ('\\\\', '\\'), ("\\'", "'"), ('\\r', '\r'), ('\\x01', '\x01'),
                         ('\\u20ac', '\u20ac'), ('\\\\n', '\\n'), ('\\x7f', '\x7f')]),
        st.text(alphabet='\u00e9\u20ac\u03b1', min_size=1, max_size=2).map(lambda s: (s, s))), max_size=5))
    value = ''.join(p[1] for p in parts).encode()
    return ('string', len(value) + draw(st.integers(0, 3)), '"' + ''.join(p[0] for p in parts) + '"', value)


blobVar = st.integers(0, 33).map(lambda n: ('blob', n, None, b''))
comp = st.one_of(st.text(alphabet='abc', min_size=1, max_size=3), st.text(alphabet='abcxyz012 _', min_size=1, max_size=6),
                 st.text(alphabet='ab.()~!#$%&*+,-:;<=>?@[]^_`{|}\\"\' 01', min_size=1, max_size=5))
# Names that look like array elements, which may be sparse.
indexed = st.tuples(st.sampled_from('ab'), st.integers(0, 3), st.one_of(st.just(''), st.integers(0, 2).map(lambda i: '/c[%d]' % i), st.integers(0, 1).map(lambda i: '[%d]' % i), st.just('/d'))).map(
    lambda x: '%s[%d]%s' % x)
name = st.one_of(comp, comp, indexed, st.tuples(comp, comp).map('/'.join))
arr = st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 5])
leaf = st.tuples(st.sampled_from('vvvf'), st.one_of(fixedVar(), fixedVar(), fixedVar(), stringVar(), blobVar), arr, name)
objs = st.recursive(st.lists(leaf, min_size=1, max_size=12),
                    lambda c: st.tuples(st.lists(leaf, max_size=8), st.lists(st.tuples(st.just('s'), c, arr, name), min_size=1, max_size=3)).map(
                        lambda x: x[0] + x[1]), max_leaves=15)
case = st.tuples(objs, st.booleans(), st.booleans())


def norm(n):
    return re.sub(r'\s+', ' ', n)


def legalName(n):
    n = n.strip(' ')
    n = re.sub(r' */+ *', '/', n).strip('/').strip(' ')
    if not n or not re.fullmatch(r'([ -.0-~]/?)*[!-.0-~]', n):
        return 'x'
    return n


def expand(objs, prefix=''):
    res = []
    for o in objs:
        n = prefix + norm(legalName(o[3]))
        for x in ([n] if o[2] <= 1 else ['%s[%d]' % (n, i) for i in range(o[2])]):
            if o[0] == 's':
                res += expand(o[1], x + '/')
            else:
                res.append((o[0], o[1], x))
    return res


def dedup(objs, prefix='', seen=None, limit=70):
    """Drop duplicates."""
    seen = {} if seen is None else seen
    res = []
    for o in objs:
        ns = [f[2] for f in expand([o], prefix)]
        if o[0] == 's' and (o[2] <= 1 or len(set(ns)) != len(ns) or any(n in seen for n in ns)):
            inner = dedup(o[1], prefix + norm(legalName(o[3])) + '/', seen)
            if inner:
                res.append((o[0], inner, 0, o[3]))
            continue
        if len(set(ns)) == len(ns) and not any(n in seen for n in ns) and len(seen) + len(ns) <= limit:
            for n in ns:
                seen[n] = True
            res.append(o)
    return res


def a_(n):
    return '[%d]' % n if n else ''


def source(objs, indent=''):
    s = ''
    for o in objs:
        n = legalName(o[3])
        if o[0] == 's':
            s += '%s{\n%s%s}%s %s\n' % (indent, source(o[1], indent + '\t'), indent, a_(o[2]), n)
            continue
        t, size, init, _ = o[1]
        tt = t if t in FMT else '%s:%d' % (t, size)
        if o[0] == 'f':
            s += '%s(%s)%s %s\n' % (indent, tt, a_(o[2]), n)
        else:
            s += '%s%s%s%s %s\n' % (indent, tt, a_(o[2]), '' if init is None else '=' + init, n)
    return s


def cstr(s):
    return '"' + ''.join('\\%03o' % b for b in s.encode()) + '"'


def meta(d, name):
    spec = importlib.util.spec_from_file_location('meta', os.path.join(d, 'doc', name + 'Meta.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return getattr(m, name + 'Meta')()


def generate(src, d, big, name):
    os.makedirs(d)
    f = os.path.join(d, name + '.st')
    with open(f, 'wb') as fh:
        fh.write(src.encode())
    r = subprocess.run([R.PY, '-m', 'libstored.generator'] + (['-b'] if big else []) + ['-p', 'vh', f, d], env=R.env_py(), cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    check(r.returncode == 0, 'rejected', lambda: 'not accepted: %s\n%s' % (src, r.stdout.decode()[-2000:]))
    return d


PRELUDE = r'''
#include "Rnd.h"
#include <cstdio>
#include <vector>
#include <type_traits>
struct Call { int f; bool set; size_t len; };
static std::vector<Call> calls;
struct S : public STORE_T(S, stored::RndBase) {
	STORE_CLASS(S, stored::RndBase)
public:
	S() is_default
	char* buf() { return buffer(); }
%s
};
static S* sp;
static void hex(void const* p, size_t n) {
	printf(" x");
	for(size_t i = 0; i < n; i++) printf("%%02x", ((unsigned char const*)p)[i]);
}
template <typename V> static void obj(char const* what, int i, V v) {
	if(!v.valid()) { printf("%%s %%d invalid\n", what, i); return; }
	printf("%%s %%d %%d %%zu", what, i, (int)v.type(), v.size());
	if(v.isFunction()) {
		calls.clear();
		std::vector<char> b(v.size() + 8);
		v.get(b.data(), v.size());
		printf(" f%%d %%zu\n", calls.size() == 1 ? calls[0].f : -1, calls.size());
	} else {
		printf(" %%ld", (long)((char*)v.buffer() - sp->buf()));
		hex(v.buffer(), v.size());
		std::vector<char> b(v.size() + 1);
		size_t n = v.get(b.data(), v.size());
		hex(b.data(), n);
		printf("\n");
	}
}
template <typename T, typename M> static void typed(int i, M& m) {
	static_assert(std::is_same<decltype(m.get()), T>::value, "");
	T v = m.get();
	printf("typed %%d", i);
	hex(&v, sizeof(v));
	printf("\n");
}
template <typename T, typename M> static void func(int i, M& m) {
	static_assert(std::is_same<decltype(m.get()), T>::value, "");
	calls.clear();
	T v = m.get();
	(void)v;
	m.set((T)0);
	m();
	printf("func %%d", i);
	for(auto& c : calls) printf(" %%d:%%d:%%zu", c.f, c.set, c.len);
	printf("\n");
}
'''


def program(want, cnames, arrays):
    cb = ''
    for i, (k, t, n) in enumerate(want):
        if k == 'f':
            if t[0] in FMT:
                cb += '\tvoid __%s(bool set, %s& v) { calls.push_back(Call{%d, set, sizeof(v)}); if(!set) v = (%s)0; }\n' % (cnames[n], CTYPE[t[0]], i, CTYPE[t[0]])
            else:
                cb += '\tsize_t __%s(bool set, %s* v, size_t len) { (void)v; calls.push_back(Call{%d, set, len}); return len; }\n' % (
                    cnames[n], 'char' if t[0] == 'string' else 'void', i)
    s = PRELUDE % cb
    s += 'int main() {\n\tsp = new S; S& s = *sp;\n'
    s += '\tprintf("size %d %zu\\n", (int)S::BufferSize, (size_t)((uintptr_t)s.buf() & 7u));\n'
    s += '\tprintf("counts %d %d %d\\n", (int)S::ObjectCount, (int)S::VariableCount, (int)S::FunctionCount);\n'
    s += '\tprintf("hash %s\\nname %s\\n", s.hash(), s.name());\n'
    for i, (k, t, n) in enumerate(want):
        full = cstr('/' + n)
        s += '\tobj("find", %d, s.find(%s));\n' % (i, full)
        c = cnames[n]
        if t[0] in FMT:
            s += '\tobj("member", %d, s.%s.variant());\n' % (i, c)
            ct = CTYPE[t[0]]
            if k == 'f':
                s += '\tfunc<%s>(%d, s.%s);\n' % (ct, i, c)
                s += '\tobj("free", %d, stored::Variant<S>(S::freeFunction<%s>(%s).apply(s)));\n' % (i, ct, full)
                s += '\tobj("bound", %d, stored::Variant<S>(s.function<%s>(%s)));\n' % (i, ct, full)
            else:
                s += '\ttyped<%s>(%d, s.%s);\n' % (ct, i, c)
                s += '\tobj("free", %d, stored::Variant<S>(S::freeVariable<%s>(%s).apply(s)));\n' % (i, ct, full)
                s += '\tobj("bound", %d, stored::Variant<S>(s.variable<%s>(%s)));\n' % (i, ct, full)
        else:
            s += '\tobj("member", %d, s.%s.variant());\n' % (i, c)
    for j, (cn, n, holes) in enumerate(arrays):
        dims = {0: [()], 1: [(x,) for x in range(-1, 7)], 2: list(itertools.product(range(-1, 6), repeat=2))}.get(
            holes, list(itertools.product(range(0, 4), repeat=holes))[:64])
        for d in dims:
            s += '\tprintf("A %d %s "); obj("array", 0, s.%s(%s));\n' % (j, ','.join(map(str, d)) or '-', cn, ', '.join(map(str, d)))
    s += '\ts.list([](void* c, char const* n, stored::Type::type t, void* b, size_t len, void*) {\n'
    s += '\t\tprintf("list %d ", c == sp); hex(n, strlen(n)); printf(" %d %zu %ld\\n", (int)t, len, stored::Type::isFunction(t) ? (long)(uintptr_t)b : (long)((char*)b - sp->buf()));\n\t}, nullptr);\n'
    s += '\tauto m = s.map(); printf("map %zu\\n", m.size()); for(auto& x : m) { hex(x.first.data(), x.first.size()); printf(" "); obj("mapped", 0, x.second); }\n'
    s += '\tdelete sp; return 0;\n}\n'
    return s


def check_store(case, ctx):
    global count
    objs, big, crlf = case
    objs = dedup(objs)
    want = expand(objs)
    if not want:
        return
    src = source(objs)
    count += 1
    d = os.path.join(os.getcwd(), 'work-%d-%d' % (os.getpid(), count))
    try:
        check_store_in(d, objs, want, src, big, crlf, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_store_in(d, objs, want, src, big, crlf, ctx):
    os.makedirs(d)
    name = 'Rnd'
    generate(src, d + '/g', big, name)
    m = meta(d + '/g', name)
    order = {o[2]: i for i, o in enumerate(want)}
    check(sorted(o.name for o in m.objects) == sorted(order), 'objects', lambda: 'generated %s, declared %s' % (sorted(o.name for o in m.objects), sorted(order)))
    cnames = {o.name: o.cname for o in m.objects}
    check(len(set(cnames.values())) == len(cnames), 'cname', lambda: 'ambiguous C++ names %s' % cnames)

    # The hash
    if crlf:
        generate(src.replace('\n', '\r\n'), d + '/crlf', not big, name)
        m2 = meta(d + '/crlf', name)
        check(m2.hash == m.hash, 'hash-line-endings', lambda: 'hash differs with other line endings or endianness\n%s' % src)
        check(sorted(o.name for o in m2.objects) == sorted(order), 'objects-crlf', lambda: 'generated %s, declared %s' % (sorted(o.name for o in m2.objects), sorted(order)))
        generate(src + 'bool extra object\n', d + '/other', big, name)
        check(meta(d + '/other', name).hash != m.hash, 'hash-same', 'different description has the same hash')

    # The array accessors.
    groups = {}
    for n in order:
        chunks = re.split(r'\[(\d+)\]', n)
        if len(chunks) > 1:
            groups.setdefault(tuple(chunks[0::2]), []).append(n)
    for x in ('cnames', 'vhdlnames', 'model_names', 'model_cnames'):
        for mod in (gtypes, generator):
            if hasattr(mod, x):
                getattr(mod, x).clear()
    model = generator.load_model(os.path.join(d, 'g', name + '.st'), not big)
    arrays = []
    for a in model.arrays:
        holes = len(re.findall(r'\[[a-zA-Z]\]', a.name))
        key = tuple(re.split(r'\[[a-zA-Z]\]', a.name))
        if key not in groups:
            # Ambiguous name.
            continue
        arrays.append((a.cname, key, len(key) - 1))
        del groups[key]
    if len({o[1][0] for o in want}) > 2:
        ctx.nontrivial()
    ctx.cls('big endian' if big else 'little endian')
    if arrays:
        ctx.cls('array accessor')
    if any(o[1][2] for o in want if o[0] == 'v'):
        ctx.cls('initializer')

    with open(d + '/test.cpp', 'w') as f:
        f.write(program(want, cnames, arrays))
    flags = R.SAN['asan'] + R.DEFS + R.includes([d + '/g']) + (['-DVH_BIG_ENDIAN_STORE'] if big else [])
    cmd = ['clang++', '-std=c++17'] + [f for f in flags if not f.startswith('-O') and not f.startswith('-g')] + ['-O0', '-w', d + '/test.cpp', d + '/g/src/%s.cpp' % name,
          os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nullvh.cpp')] + libs[big] + ['-o', d + '/test']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    check(r.returncode == 0, 'compile', lambda: 'generated code does not compile: %s\n%s' % (src, r.stdout.decode(errors='replace')[:3000]))
    r = subprocess.run([d + '/test'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
    check(r.returncode == 0, 'crash', lambda: 'exit code %d: %s\n%s' % (r.returncode, src, r.stderr.decode(errors='replace')[:3000]))
    out = r.stdout.decode().split('\n')
    found = {}
    listed = {}
    mapped = {}
    size = 0
    nmap = 0

    def data(o):
        """Expected bytes: in the store, and as the host sees it."""
        t, sz, init, value = o[1]
        if t == 'bool':
            return bytes([1 if value else 0]), bytes([1 if value else 0])
        if t in FMT:
            return struct.pack(('>' if big else '<') + FMT[t], value), struct.pack('<' + FMT[t], value)
        if t == 'string':
            return value + b'\0' * (sz - len(value)), value.split(b'\0')[0]
        return b'\0' * sz, b'\0' * sz

    def same(o, a, b):
        if o[1][0] in ('float', 'double'):
            fmt = '<' + FMT[o[1][0]]
            x, y = struct.unpack(fmt, a)[0], struct.unpack(fmt, b)[0]
            return x == y or (x != x and y != y)
        return a == b

    def checkObj(o, w, where):
        """type size offset raw host | type size fID calls"""
        t, sz, init, value = o[1]
        check(w[0] != 'invalid', where + '-invalid', lambda: '%s "%s" not found\n%s' % (where, o[2], src))
        tt = TYPE[t] | (0x40 if o[0] == 'f' else 0)
        check(int(w[0]) == tt, where + '-type', lambda: '%s "%s" has type %s, expected %d\n%s' % (where, o[2], w[0], tt, src))
        check(int(w[1]) == sz, where + '-size', lambda: '%s "%s" has size %s, expected %d\n%s' % (where, o[2], w[1], sz, src))
        if o[0] == 'f':
            check(w[2] == 'f%d' % order[o[2]] and w[3] == '1', where + '-function', lambda: '%s "%s" calls another function: %s\n%s' % (where, o[2], w, src))
        else:
            off = int(w[2])
            alloc = sz + (1 if t == 'string' else 0)
            check(off >= 0 and off + alloc <= size, where + '-outside', lambda: '%s "%s" at %d lies outside of the buffer of %d\n%s' % (where, o[2], off, size, src))
            if t in FMT:
                check(off % sz == 0, where + '-alignment', lambda: '%s "%s" at %d is not aligned\n%s' % (where, o[2], off, src))
            raw, host = data(o)
            b = bytes.fromhex(w[3][1:])
            h = bytes.fromhex(w[4][1:])
            check(same(o, b, raw) if not big or t not in FMT else same(o, b[::-1], raw[::-1]), where + '-init', lambda: '%s "%s" is initialized as %s, expected %s\n%s' % (where, o[2], b, raw, src))
            check(same(o, h, host), where + '-get', lambda: '%s "%s" reads %s, expected %s\n%s' % (where, o[2], h, host, src))
            check(o[2] not in found or found[o[2]] == off, where + '-other', lambda: '%s "%s" is at %d, not at %d\n%s' % (where, o[2], off, found.get(o[2]), src))
            found[o[2]] = off

    for l in out:
        w = l.split(' ')
        if w[0] == 'size':
            size = int(w[1])
            check(w[2] == '0', 'buffer-alignment', l)
        elif w[0] == 'counts':
            check(w[1:] == [str(len(want)), str(sum(1 for o in want if o[0] == 'v')), str(sum(1 for o in want if o[0] == 'f'))], 'counts', lambda: '%s\n%s' % (l, src))
        elif w[0] == 'hash':
            check(w[1] == m.hash, 'hash', l)
        elif w[0] == 'name':
            check(w[1] == '/' + name, 'name', l)
        elif w[0] in ('find', 'member', 'free', 'bound'):
            checkObj(want[int(w[1])], w[2:], w[0])
        elif w[0] == 'typed':
            o = want[int(w[1])]
            check(same(o, bytes.fromhex(w[2][1:]), data(o)[1]), 'typed-get', lambda: '%s reads %s, expected %s\n%s' % (o[2], w[2], data(o)[1], src))
        elif w[0] == 'func':
            o = want[int(w[1])]
            i = int(w[1])
            check(w[2:] == ['%d:0:%d' % (i, o[1][1]), '%d:1:%d' % (i, o[1][1]), '%d:0:%d' % (i, o[1][1])], 'func', lambda: 'calls of "%s": %s\n%s' % (o[2], w, src))
        elif w[0] == 'A':
            key = arrays[int(w[1])][1]
            idx = [] if w[2] == '-' else w[2].split(',')
            n = key[0] + ''.join('[%s]%s' % x for x in zip(idx, key[1:]))
            if n in order:
                checkObj(want[order[n]], w[5:], 'array')
            else:
                check(w[5] == 'invalid', 'array-index', lambda: 'accessor of "%s" with index %s gives %s\n%s' % (arrays[int(w[1])][0], idx, w, src))
        elif w[0] == 'list':
            check(w[1] == '1', 'list-container', l)
            n = bytes.fromhex(w[3][1:]).decode()
            check(n[:1] == '/' and n[1:] in order and n not in listed, 'list-name', lambda: 'unexpected "%s" in list\n%s' % (n, src))
            listed[n] = w[4:]
        elif w[0] == 'map':
            nmap = int(w[1])
        elif len(w) > 2 and w[2] == 'mapped':
            n = bytes.fromhex(w[1][1:]).decode()
            check(n[1:] in order, 'map-name', lambda: 'unexpected "%s" in map\n%s' % (n, src))
            checkObj(want[order[n[1:]]], w[4:], 'map')
    check(nmap == len(want), 'map-count', lambda: '%d of %d objects in map\n%s' % (nmap, len(want), src))
    check(len(listed) == len(want), 'list-count', lambda: '%d of %d objects listed\n%s' % (len(listed), len(want), src))
    for n, w in listed.items():
        o = want[order[n[1:]]]
        check(int(w[0]) == TYPE[o[1][0]] | (0x40 if o[0] == 'f' else 0) and int(w[1]) == o[1][1], 'list-type', lambda: 'list has %s for "%s"\n%s' % (w, n, src))
        check(o[0] == 'f' or int(w[2]) == found[o[2]], 'list-other', lambda: 'list has %s for "%s"\n%s' % (w, n, src))
    # No overlap.
    vs = sorted((found[o[2]], found[o[2]] + o[1][1] + (1 if o[1][0] == 'string' else 0), o[2]) for o in want if o[0] == 'v')
    for a, b in zip(vs, vs[1:]):
        check(a[1] <= b[0], 'overlap', lambda: '%s and %s overlap\n%s' % (a, b, src))
    # The meta data
    for x in m.objects:
        o = want[order[x.name]]
        check(x.type == o[1][0] and x.size == o[1][1] and x.isfunction == (o[0] == 'f'), 'meta-type', lambda: 'meta data of %s: %s\n%s' % (o[2], x, src))
        if o[0] == 'v':
            check(x.offset == found[o[2]], 'meta-offset', lambda: 'meta data of %s: %s\n%s' % (o[2], x, src))
            if o[1][0] == 'string':
                check((x.init or '').encode() == o[1][3], 'meta-init', lambda: 'meta data of %s: %s\n%s' % (o[2], x, src))
            elif o[1][0] in FMT:
                v = x.init or 0
                check(v == o[1][3] or v != v, 'meta-init', lambda: 'meta data of %s: %s\n%s' % (o[2], x, src))


props = [
    Prop('store', case, check_store, 48, 2400,
         'a generated and compiled description with more than two types', timeout=120),
]

if __name__ == '__main__':
    raise SystemExit(pyvh.main(props, setup))
