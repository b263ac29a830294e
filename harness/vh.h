// Small property-based testing engine.
//
// A property is a function that draws all its choices from a Gen.  The choices
// are recorded as a sequence of integers, so any failing case can be replayed
// and shrunk by editing that sequence (as Hypothesis does).  Cases run in
// forked workers, such that sanitizer aborts, signals and hangs of the code
// under test are failures of a specific case, which are shrunk like any other.
//
// The case seeds only depend on VERIF_SEED, the property name, and the case
// number, hence the set of generated cases is a pure function of the seed.
#ifndef VH_H
#define VH_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace vh {

struct Fail {
	std::string sig;
	std::string msg;
};
struct Discard {};

// The choice log is in shared memory, such that it survives a crash.
struct Shared {
	volatile uint64_t caseIndex;
	volatile uint64_t caseStartMs;
	volatile uint64_t evaluations;
	volatile uint64_t discarded;
	volatile uint64_t n; // number of choices
	volatile uint32_t failed;
	volatile uint32_t pad;
	volatile uint32_t nontrivial;
	volatile uint32_t noteLen;
	char sig[128];
	char msg[8192];
	char notes[1 << 17];
	enum : uint64_t { Max = 1 << 20 };
	uint64_t v[Max];
};

class Gen {
public:
	explicit Gen(Shared* s, uint64_t seed)
		: m_s{s}
		, m_seed{seed}
	{
		m_s->n = 0;
		m_s->noteLen = 0;
		m_s->notes[0] = 0;
		m_s->nontrivial = 0;
		for(auto& x : m_r)
			x = splitmix();
	}

	Gen(Shared* s, std::vector<uint64_t> const* replay)
		: m_s{s}
		, m_replay{replay}
	{
		m_s->n = 0;
		m_s->noteLen = 0;
		m_s->notes[0] = 0;
		m_s->nontrivial = 0;
	}

	// For fuzzing: choices are taken from bytes.
	Gen(Shared* s, uint8_t const* data, size_t size)
		: m_s{s}
		, m_data{data}
		, m_size{size}
		, m_fuzz{true}
	{
		m_s->n = 0;
		m_s->noteLen = 0;
		m_s->notes[0] = 0;
		m_s->nontrivial = 0;
	}

	// Draw from [0,bound[, or any 64-bit value if bound is 0.
	uint64_t raw(uint64_t bound = 0)
	{
		uint64_t x = 0;
		if(m_replay) {
			uint64_t i = m_s->n;
			x = i < m_replay->size() ? (*m_replay)[i] : 0;
			if(bound && x >= bound)
				x = bound - 1;
		} else if(m_fuzz) {
			uint64_t b = bound ? bound - 1 : ~(uint64_t)0;
			while(b) {
				uint8_t c = m_pos < m_size ? m_data[m_pos] : (uint8_t)0;
				m_pos++;
				x = (x << 8) | c;
				b >>= 8;
			}
			if(bound)
				x %= bound;
		} else {
			x = next();
			if(bound)
				x = (uint64_t)(((unsigned __int128)x * bound) >> 64);
		}
		if(m_s->n >= Shared::Max)
			throw Discard{};
		m_s->v[m_s->n] = x;
		m_s->n = m_s->n + 1;
		return x;
	}

	// Exhausted the fuzz input?
	bool exhausted() const
	{
		return m_fuzz && m_pos >= m_size;
	}

	template <typename T>
	T range(T lo, T hi) // inclusive; shrinks to lo
	{
		return (T)(lo + (T)raw((uint64_t)((uint64_t)hi - (uint64_t)lo) + 1));
	}

	// Bool with probability num/den; shrinks to false
	bool chance(unsigned num = 1, unsigned den = 2)
	{
		return raw(den) >= den - num;
	}

	size_t index(size_t n)
	{
		return (size_t)raw(n);
	}

	template <typename C>
	auto pick(C const& c) -> decltype(c[0])
	{
		return c[index(c.size())];
	}

	template <typename T>
	T pick(std::initializer_list<T> c)
	{
		return *(c.begin() + index(c.size()));
	}

	// Weighted choice; returns the index.
	size_t weighted(std::initializer_list<unsigned> w)
	{
		unsigned sum = 0;
		for(auto x : w)
			sum += x;
		auto r = (unsigned)raw(sum);
		size_t i = 0;
		for(auto x : w) {
			if(r < x)
				return i;
			r -= x;
			i++;
		}
		return 0;
	}

	// A size that is usually small.
	size_t size(size_t max)
	{
		switch(weighted({4, 4, 2, 1})) {
		case 0:
			return (size_t)raw(std::min<uint64_t>(max, 4) + 1);
		case 1:
			return (size_t)raw(std::min<uint64_t>(max, 20) + 1);
		case 2:
			return (size_t)raw(std::min<uint64_t>(max, 100) + 1);
		default:
			return (size_t)raw(max + 1);
		}
	}

	// An integer bit pattern with emphasis on special values.
	uint64_t bits(unsigned width = 64)
	{
		uint64_t mask = width >= 64 ? ~(uint64_t)0 : (((uint64_t)1 << width) - 1);
		switch(raw(6)) {
		case 0:
			return raw(16) & mask;
		case 1:
			return ((uint64_t)1 << raw(width)) & mask;
		case 2:
			return (((uint64_t)1 << raw(width)) - 1) & mask;
		case 3:
			return (~(uint64_t)0 - raw(16)) & mask;
		case 4:
			return raw(256) & mask;
		default:
			return raw() & mask;
		}
	}

	std::string bytes(size_t len)
	{
		std::string s;
		s.reserve(len);
		if(len == 0)
			return s;
		switch(raw(5)) {
		case 0: // constant
			s.assign(len, (char)raw(256));
			break;
		case 1: // printable
			for(size_t i = 0; i < len; i++)
				s.push_back((char)range<int>(0x20, 0x7e));
			break;
		case 2: // special characters
			for(size_t i = 0; i < len; i++)
				s.push_back(
					"\x1b\\_\x7f\r\n\0\x10\x11\x13\x40\x80\xff\x1c\x5f" "CE"
						[raw(17)]);
			break;
		default: // anything
			for(size_t i = 0; i < len; i++)
				s.push_back((char)raw(256));
		}
		return s;
	}

	std::string bytesUpTo(size_t max)
	{
		return bytes(size(max));
	}

	// Split len in chunks; the sum of the returned vector is len. May contain zeros.
	std::vector<size_t> splits(size_t len, bool zeros = true)
	{
		std::vector<size_t> res;
		size_t todo = len;
		unsigned mode = (unsigned)raw(4);
		if(mode == 0) {
			res.push_back(len);
			return res;
		}
		while(todo) {
			size_t c = mode == 1 ? 1 : (size_t)raw((mode == 2 ? std::min<size_t>(todo, 8) : todo) + 1);
			if(c == 0) {
				if(zeros && chance(1, 4)) {
					res.push_back(0);
					continue;
				}
				c = 1;
			}
			res.push_back(c);
			todo -= c;
		}
		if(res.empty() || (zeros && chance(1, 8)))
			res.push_back(0);
		return res;
	}

	// Mark this case as non-trivial.
	void nontrivial(bool x = true)
	{
		if(x)
			m_s->nontrivial = 1;
	}

	// Count this case in a class.
	void cls(char const* name)
	{
		m_classes.insert(name);
	}

	bool verbose = false;

	__attribute__((format(printf, 2, 3))) void note(char const* fmt, ...)
	{
		va_list args;
		va_start(args, fmt);
		uint32_t l = m_s->noteLen;
		size_t room = sizeof(m_s->notes) - l;
		if(room > 512) {
			int w = vsnprintf(m_s->notes + l, room > 500 ? 500 : room, fmt, args);
			if(w > 0) {
				if(w > 499)
					w = 499;
				l += (uint32_t)w;
				m_s->notes[l++] = '\n';
				m_s->notes[l] = 0;
				m_s->noteLen = l;
			}
		}
		va_end(args);
	}

	[[noreturn]] __attribute__((format(printf, 3, 4))) void
	fail(char const* sig, char const* fmt, ...)
	{
		char buf[4096];
		va_list args;
		va_start(args, fmt);
		vsnprintf(buf, sizeof(buf), fmt, args);
		va_end(args);
		throw Fail{sig, buf};
	}

	std::set<std::string> const& classes() const
	{
		return m_classes;
	}

private:
	uint64_t splitmix()
	{
		uint64_t z = (m_seed += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31U);
	}

	static uint64_t rotl(uint64_t x, int k)
	{
		return (x << k) | (x >> (64 - k));
	}

	uint64_t next()
	{
		uint64_t result = rotl(m_r[1] * 5, 7) * 9;
		uint64_t t = m_r[1] << 17U;
		m_r[2] ^= m_r[0];
		m_r[3] ^= m_r[1];
		m_r[1] ^= m_r[2];
		m_r[0] ^= m_r[3];
		m_r[2] ^= t;
		m_r[3] = rotl(m_r[3], 45);
		return result;
	}

	Shared* m_s;
	uint64_t m_seed = 0;
	uint64_t m_r[4] = {};
	std::vector<uint64_t> const* m_replay = nullptr;
	uint8_t const* m_data = nullptr;
	size_t m_size = 0;
	size_t m_pos = 0;
	bool m_fuzz = false;
	std::set<std::string> m_classes;
};

#define VH_CHECK(g, cond, sig, ...)                  \
	do {                                         \
		if(!(cond))                          \
			(g).fail(sig, ##__VA_ARGS__); \
	} while(0)

typedef void(Prop)(Gen&);

struct Property {
	char const* name;
	uint64_t quick;
	uint64_t thorough;
	char const* rule;
	Prop* f;
	unsigned maxWorkers;
};

std::vector<Property>& properties();

struct Register {
	Register(char const* name, uint64_t quick, uint64_t thorough, char const* rule, Prop* f, unsigned maxWorkers = 64)
	{
		properties().push_back(Property{name, quick, thorough, rule, f, maxWorkers});
	}
};

// quick and thorough are the number of generated cases.
#define VH_PROPERTY(name, quick, thorough, rule)                                     \
	static void vh_prop_##name(::vh::Gen& g);                                    \
	static ::vh::Register vh_reg_##name(#name, quick, thorough, rule, &vh_prop_##name); \
	static void vh_prop_##name(::vh::Gen& g)

std::string hex(std::string const& s, size_t max = 64);
std::string hex(void const* p, size_t len, size_t max = 64);
// Printable, with escapes.
std::string quote(std::string const& s, size_t max = 300);
__attribute__((format(printf, 1, 2))) std::string format(char const* fmt, ...);

} // namespace vh
#endif
