// U10: saturated_cast, byte order and string helpers.
#include "vh.h"
#include <stored>

#include <cmath>
#include <limits>
#include <memory>
#include <string>

using vh::Gen;

namespace {

// A buffer of exactly the given size, such that ASan detects access outside of it.
struct Exact {
	explicit Exact(std::string const& s)
		: n(s.size())
		, p(new char[s.size() ? s.size() : 1])
	{
		// NB. p is only used with n bytes; for n == 0, the single byte is never to be read.
		memcpy(p.get(), s.data(), n);
	}
	char* get() const { return n ? p.get() : p.get() + 1; }
	std::string str() const { return std::string(p.get(), n); }
	size_t n;
	std::unique_ptr<char[]> p;
};

template <typename T>
typename std::enable_if<std::is_integral<T>::value, T>::type value(Gen& g)
{
	uint64_t b = g.bits(sizeof(T) * 8);
	if(g.chance(1, 4)) // near powers of two of any type, both signs
	{
		uint64_t p = (uint64_t)1 << g.index(64);
		p += (uint64_t)g.range<int>(0, 4) - 2;
		b = g.chance() ? p : 0 - p;
	}
	if(std::is_same<T, bool>::value)
		return (T)(b & 1);
	return (T)b;
}

template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type value(Gen& g)
{
	switch(g.weighted({4, 4, 4, 3, 2, 2, 1})) {
	case 0: { // near powers of two
		T x = std::ldexp((T)1, (int)g.index(70));
		x += (T)((int)g.range<int>(0, 8) - 4) * (T)0.25;
		return g.chance() ? x : -x;
	}
	case 1: { // neighbours of powers of two
		T x = std::ldexp((T)1, (int)g.index(70));
		unsigned n = (unsigned)g.index(3);
		T to = g.chance() ? std::numeric_limits<T>::infinity() : (T)0;
		while(n--)
			x = std::nextafter(x, to);
		return g.chance() ? x : -x;
	}
	case 2: // small with fractions
		return (T)((int)g.range<int>(0, 4000) - 2000) / (T)8;
	case 3: { // any integer
		T x = (T)(int64_t)g.bits(64);
		return x;
	}
	case 4: // any exponent
		return std::ldexp((T)(int64_t)g.bits(53), (int)g.range<int>(0, 2000) - 1000);
	case 5: {
		T x[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(),
			 std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(),
			 (T)0, -(T)0, (T)0.5, (T)-0.5, (T)1e30, (T)-1e30};
		return x[g.index(10)];
	}
	default: {
		T x[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
			 std::numeric_limits<T>::quiet_NaN()};
		return x[g.index(3)];
	}
	}
}

template <typename R, typename T>
void cast1(Gen& g, char const* rn, char const* tn)
{
	T v = value<T>(g);
	R r = saturated_cast<R>(v);
	// long double represents all integers and floating point types exactly.
	long double x = (long double)v;
	g.note("%s <- %s %.21Lg (%La) = %.21Lg", rn, tn, x, x, (long double)r);

	if(std::is_floating_point<R>::value) {
		R e = (R)v;
		if(x != x)
			VH_CHECK(g, r != r, "float-nan", "NaN became a number");
		else if(std::isinf((long double)e) && !std::isinf(x))
			// Infinity or the saturated value are both acceptable.
			VH_CHECK(g, r == e || r == std::copysign(std::numeric_limits<R>::max(), e), "float-range",
				 "out of range");
		else
			VH_CHECK(g, r == e, "float-value", "wrong value");
		return;
	}

	if(x != x) {
		VH_CHECK(g, r == (R)0, "nan", "NaN becomes %.21Lg instead of 0", (long double)r);
		return;
	}

	long double e = std::is_floating_point<T>::value ? roundl(x) : x;
	long double lo = (long double)std::numeric_limits<R>::min();
	long double hi = (long double)std::numeric_limits<R>::max();
	if(std::is_same<R, bool>::value)
		e = e != 0 ? 1 : 0;
	bool sat = false;
	if(e < lo) {
		e = lo;
		sat = true;
	}
	if(e > hi) {
		e = hi;
		sat = true;
	}
	VH_CHECK(g, (long double)r == e, sat ? "saturate" : "convert", "%s <- %s %.21Lg: got %.21Lg, expected %.21Lg", rn, tn,
		 x, (long double)r, e);
	if(sat || std::is_floating_point<T>::value)
		g.nontrivial();
	g.cls(sat ? "saturated" : "in range");
}

#define TYPES(M)                                                                                   \
	M(bool) M(char) M(signed char) M(unsigned char) M(short) M(unsigned short) M(int)          \
	M(unsigned int) M(long) M(unsigned long) M(long long) M(unsigned long long) M(float)       \
	M(double) M(long double)

template <typename R>
void castTo(Gen& g, char const* rn)
{
	enum { BASE = __COUNTER__ + 1 };
	switch(g.index(15)) {
#define CASE(T) case __COUNTER__ - BASE: cast1<R, T>(g, rn, #T); break;
		TYPES(CASE)
#undef CASE
	default:
		break;
	}
}

} // namespace

VH_PROPERTY(saturated_cast, 400000, 6000000, "a saturated result, or a conversion from floating point")
{
	enum { BASE2 = __COUNTER__ + 1 };
	for(int k = 0; k < 4; k++)
	switch(g.index(15)) {
#define CASE(T) case __COUNTER__ - BASE2: castTo<T>(g, #T); break;
		TYPES(CASE)
#undef CASE
	default:
		break;
	}
}

namespace {
template <typename T>
void endianT(Gen& g)
{
	T v;
	std::string raw = g.bytes(sizeof(T));
	memcpy(&v, raw.data(), sizeof(T));
	std::string rev(raw.rbegin(), raw.rend());
	auto bytes = [](T x) { return std::string((char const*)&x, sizeof(T)); };
#define EQ(expr, e)                                                                                     \
	do {                                                                                            \
		auto got = bytes(expr);                                                                 \
		VH_CHECK(g, got == (e), "endian", "%s of %s gives %s", #expr, vh::hex(raw).c_str(),     \
			 vh::hex(got).c_str());                                                         \
	} while(0)
	// This is a little-endian machine.
	EQ(stored::swap_endian(v), rev);
	EQ(stored::swap_endian(stored::swap_endian(v)), raw);
	EQ(stored::endian_h2b(v), rev);
	EQ(stored::endian_h2n(v), rev);
	EQ(stored::endian_h2l(v), raw);
	EQ(stored::endian_b2h(v), rev);
	EQ(stored::endian_n2h(v), rev);
	EQ(stored::endian_l2h(v), raw);
	bool sl = stored::Config::StoreInLittleEndian;
	EQ(stored::endian_h2s(v), sl ? raw : rev);
	EQ(stored::endian_s2h(v), sl ? raw : rev);
	// From unaligned memory, of which only sizeof(T) bytes are to be used.
	size_t off = g.index(8);
	Exact e(std::string(off, 'x') + raw);
	char const* p = e.get() + off;
	EQ((stored::endian_l2h<T>(p)), raw);
	EQ((stored::endian_b2h<T>(p)), rev);
	EQ((stored::endian_n2h<T>(p)), rev);
	EQ((stored::endian_s2h<T>(p)), sl ? raw : rev);
	VH_CHECK(g, e.str().substr(off) == raw, "endian-src", "source changed");
	if(raw != rev)
		g.nontrivial();
}
} // namespace

VH_PROPERTY(endian, 60000, 1500000, "a value that is not a palindrome")
{
	switch(g.index(8)) {
	case 0: endianT<uint8_t>(g); break;
	case 1: endianT<uint16_t>(g); break;
	case 2: endianT<int16_t>(g); break;
	case 3: endianT<uint32_t>(g); break;
	case 4: endianT<int32_t>(g); break;
	case 5: endianT<uint64_t>(g); break;
	case 6: endianT<int64_t>(g); break;
	default: endianT<uint64_t>(g); break;
	}

	// Buffers of any length
	size_t len = g.size(70);
	std::string a = g.bytes(len);
	std::string ra(a.rbegin(), a.rend());
	size_t off = g.index(8);
	{
		Exact e(std::string(off, '\0') + a);
		stored::swap_endian(e.get() + off, len);
		VH_CHECK(g, e.str().substr(off) == ra, "swap-buffer", "swap_endian() of %zu bytes", len);
		VH_CHECK(g, e.str().substr(0, off) == std::string(off, '\0'), "swap-before", "wrote before the buffer");
	}
	{
		Exact s(a), d(std::string(off, '\0') + g.bytes(len));
		stored::memcpy_swap(d.get() + off, s.get(), len);
		VH_CHECK(g, d.str().substr(off) == ra, "memcpy_swap", "memcpy_swap() of %zu bytes", len);
		VH_CHECK(g, s.str() == a, "memcpy_swap-src", "source changed");
	}
	{
		std::string b = g.chance() ? ra : g.bytes(len);
		if(len && g.chance())
			b[g.index(len)] ^= (char)(1 << g.index(8));
		Exact x(a), y(b);
		int c = stored::memcmp_swap(x.get(), y.get(), len);
		std::string rb(b.rbegin(), b.rend());
		int e = len ? memcmp(a.data(), rb.data(), len) : 0;
		g.note("memcmp_swap(%s, %s) = %d", vh::hex(a).c_str(), vh::hex(b).c_str(), c);
		VH_CHECK(g, (c == 0) == (e == 0), "memcmp_swap", "gives %d, expected %d", c, e);
		VH_CHECK(g, (c < 0) == (e < 0), "memcmp_swap-order", "gives %d, expected %d", c, e);
	}
}

VH_PROPERTY(strings, 60000, 1500000, "strings of at least two characters with a common prefix, or with a terminator before their bound")
{
	auto gen = [&](size_t max) {
		size_t n = g.size(max);
		std::string s;
		unsigned alphabet = (unsigned)g.index(3);
		for(size_t i = 0; i < n; i++) {
			if(alphabet == 0)
				s += "ab"[g.index(2)];
			else if(alphabet == 1)
				s += "a\x80\0\x7f\xff"[g.index(5)];
			else
				s += (char)g.raw(256);
		}
		return s;
	};
	std::string a = gen(40);
	std::string b = gen(40);
	if(g.chance()) {
		b = a.substr(0, g.index(a.size() + 1)) + gen(6);
		if(a.size() > 1)
			g.nontrivial();
	}
	auto cstr = [](std::string const& s) { return s.substr(0, s.find('\0')); };
	auto sign = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };

	// strncpy
	{
		size_t l = g.index(a.size() + 1);
		std::string dst0 = g.bytes(l);
		Exact d(dst0);
		// src is only to be read up to its terminator or len.
		std::string src = g.chance() ? a.substr(0, l) : cstr(a) + std::string(1, '\0');
		Exact s(src);
		size_t r = stored::strncpy(d.get(), s.get(), l);
		std::string e = cstr(src.substr(0, l));
		g.note("strncpy(%s, %zu) = %zu", vh::hex(src).c_str(), l, r);
		VH_CHECK(g, r == e.size(), "strncpy-len", "returns %zu, expected %zu", r, e.size());
		VH_CHECK(g, d.str().substr(0, r) == e, "strncpy-data", "wrong data");
		VH_CHECK(g, d.str().substr(r) == dst0.substr(r), "strncpy-pad", "wrote more than the string");
		if(e.size() < l)
			g.nontrivial();
	}

	// strncmp
	{
		std::string x = a, y = b;
		// Either bounded by its length, or terminated; never read further.
		size_t lx = x.size(), ly = y.size();
		bool ty = false;
		if(g.chance(1, 4)) {
			ty = true;
			y = cstr(y) + std::string(1, '\0');
			ly = std::numeric_limits<size_t>::max();
		}
		if(g.chance(1, 4)) {
			x = cstr(x) + std::string(1, '\0');
			lx = x.size() + g.index(20);
		}
		Exact ex(x), ey(y);
		int c = ty ? stored::strncmp(ex.get(), lx, ey.get()) : stored::strncmp(ex.get(), lx, ey.get(), ly);
		// std::string compares as unsigned char, like strcmp().
		int e = cstr(x).compare(cstr(y));
		g.note("strncmp(%s, %zu, %s, %zu) = %d", vh::hex(x).c_str(), lx, vh::hex(y).c_str(), ly, c);
		VH_CHECK(g, sign(c) == sign(e), (c == 0) != (e == 0) ? "strncmp-equal" : "strncmp-order", "gives %d, expected %d", c, e);
	}

	// string_literal
	{
		Exact ex(a);
		std::string prefix = g.chance() ? gen(5) : "";
		prefix = cstr(prefix);
		char const* pfx = prefix.empty() && g.chance() ? nullptr : prefix.c_str();
		stored::String::type res_ = stored::string_literal(ex.get(), a.size(), pfx);
		std::string res(res_.data(), res_.size());
		g.note("string_literal(%s) = %s", vh::hex(a).c_str(), res.c_str());
		VH_CHECK(g, res.compare(0, prefix.size(), prefix) == 0, "literal-prefix", "prefix is missing");
		std::string d;
		for(size_t i = prefix.size(); i < res.size();) {
			unsigned char c = (unsigned char)res[i++];
			VH_CHECK(g, c >= 0x20 && c < 0x7f, "literal-ascii", "unescaped character 0x%02x", c);
			if(c != '\\') {
				d += (char)c;
				continue;
			}
			VH_CHECK(g, i < res.size(), "literal-escape", "incomplete escape");
			switch(res[i++]) {
			case '0': d += '\0'; break;
			case 'r': d += '\r'; break;
			case 'n': d += '\n'; break;
			case 't': d += '\t'; break;
			case '\\': d += '\\'; break;
			case 'x': {
				VH_CHECK(g, i + 2 <= res.size() && isxdigit(res[i]) && isxdigit(res[i + 1]), "literal-hex", "bad hex escape");
				d += (char)std::stoi(res.substr(i, 2), nullptr, 16);
				i += 2;
				break;
			}
			default:
				g.fail("literal-escape", "unknown escape");
			}
		}
		VH_CHECK(g, d == a, "literal-value", "literal %s does not represent the data", res.c_str());
	}
}
