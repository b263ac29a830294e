// U05: stored::Callable and stored::Cleanup.
#include "vh.h"
#include <libstored/allocator.h>
#include <stored>

#include <memory>
#include <string>

using vh::Gen;
using vhcfg::allocState;

namespace {

struct CopyError {};

struct Stats {
	long live;
	long invalid; // use/destruction of invalid objects
	int copyFail; // >=0: fail the copy when it hits 0
	long copyFailures;
	int lastId;
	size_t calls;
};
Stats st;

// A functor with an identity, and a tracked life time.
template <size_t Size, bool Moves>
struct Fun {
	uint32_t magic;
	int id;
	char pad[Size];

	explicit Fun(int i)
		: magic{0xa11fe}
		, id{i}
	{
		for(size_t k = 0; k < Size; k++)
			pad[k] = (char)(i + (int)k);
		st.live++;
	}
	Fun(Fun const& f)
	{
		if(st.copyFail >= 0 && st.copyFail-- == 0) {
			st.copyFailures++;
			throw CopyError{};
		}
		if(f.magic != 0xa11fe)
			st.invalid++;
		magic = 0xa11fe;
		id = f.id;
		memcpy(pad, f.pad, Size);
		st.live++;
	}
	Fun(Fun&& f) noexcept
	{
		if(f.magic != 0xa11fe)
			st.invalid++;
		magic = 0xa11fe;
		id = f.id;
		memcpy(pad, f.pad, Size);
		f.id = -1;
		st.live++;
	}
	Fun& operator=(Fun const&) = delete;
	~Fun()
	{
		if(magic != 0xa11fe)
			st.invalid++;
		magic = 0xdead;
		st.live--;
	}
	int operator()(int x, std::string const& s, int& out) const
	{
		if(magic != 0xa11fe)
			st.invalid++;
		for(size_t k = 0; k < Size; k++)
			if(pad[k] != (char)(id + (int)k))
				st.invalid++;
		st.calls++;
		st.lastId = id;
		out = x + id;
		return (int)s.size() * 3 + x;
	}
};

int fptr1(int x, std::string const& s, int& out)
{
	st.calls++;
	st.lastId = 1000001;
	out = x + 1000001;
	return (int)s.size() * 3 + x;
}
int fptr2(int x, std::string const& s, int& out)
{
	st.calls++;
	st.lastId = 1000002;
	out = x + 1000002;
	return (int)s.size() * 3 + x;
}

typedef stored::Callable<int(int, std::string const&, int&)>::type C;

typedef Fun<1, true> Small;
typedef Fun<16, true> Medium;
typedef Fun<200, true> Large;

struct Slot {
	std::unique_ptr<C> c;
	int id = 0;	 // 0: empty
	bool owns = false; // holds a functor by value
};

template <typename F>
void apply(Gen& g, F&& f)
{
	(void)g;
	f();
}

} // namespace

VH_PROPERTY(callable, 120000, 5000000, "histories of construct/copy/move/assign/invoke on Callables, with injected exceptions; non-trivial when an exception was injected and by-value functors were copied and moved")
{
	st = Stats{0, 0, -1, 0, 0, 0};
	long live0 = allocState.live;
	bool faults = g.chance(2, 3);
	bool threw = false, copied = false, moved = false;
	{
		// References to these may be taken.
		Small rs{2001};
		Large rl{2002};
		std::vector<Slot> slots(4);
		size_t ops = 1 + g.size(50);
		int nextId = 1;

		auto check = [&](char const* what) {
			long owns = 0;
			for(auto& s : slots) {
				if(!s.c)
					continue;
				VH_CHECK(g, (bool)*s.c == (s.id != 0), "bool", "%s: callable with id %d is %s", what, s.id, *s.c ? "set" : "empty");
				if(s.owns)
					owns++;
			}
			VH_CHECK(g, st.live == owns + 2, "count", "%s: %ld functors live, expected %ld", what, st.live, owns + 2);
			VH_CHECK(g, !st.invalid, "invalid", "%s: invalid functor used", what);
		};

		for(size_t op = 0; op < ops; op++) {
			size_t i = g.index(slots.size());
			size_t j = g.index(slots.size());
			Slot& a = slots[i];
			Slot& b = slots[j];
			allocState.failAfter = -1;
			st.copyFail = -1;
			if(faults && g.chance(1, 3)) {
				if(g.chance())
					allocState.failAfter = 0;
				else
					st.copyFail = 0;
				allocState.failOnce = true;
			}
			int what = (int)g.weighted({3, 8, 3, 4, 4, 4, 6, 1, 1});
			try {
				switch(what) {
				case 0: { // construct empty/destroy
					bool d = a.c && g.chance();
					g.note("%s %zu", d ? "destroy" : "default construct", i);
					a.c.reset();
					a.id = 0;
					a.owns = false;
					if(!d)
						a.c.reset(new C());
					break;
				}
				case 1: { // construct from or assign functor
					int kind = (int)g.range(0, 11);
					bool assign = a.c && g.chance(3, 4);
					int id = nextId++;
					g.note("%s %zu: kind %d, id %d%s%s", assign ? "assign" : "construct", i, kind, id,
					       st.copyFail >= 0 ? " failing copy" : "", allocState.failAfter >= 0 ? " failing alloc" : "");
					Small fs{id};
					Medium fm{id};
					Large fl{id};
					if(!assign) {
						a.c.reset();
						a.id = 0;
						a.owns = false;
					} else {
						// Upon exception
						a.id = 0;
						a.owns = false;
					}
#define DO(...)                                       \
	do {                                          \
		if(assign)                            \
			*a.c = __VA_ARGS__;           \
		else                                  \
			a.c.reset(new C(__VA_ARGS__)); \
	} while(0)
					switch(kind) {
					case 0:
					case 1:
						DO(std::move(fs));
						a.owns = true;
						break;
					case 2:
						DO(std::move(fm));
						a.owns = true;
						break;
					case 3:
					case 4:
						DO(std::move(fl));
						a.owns = true;
						break;
					case 5:
						// const rvalue requires a copy
						DO(static_cast<Small const&&>(fs));
						a.owns = true;
						break;
					case 6:
						DO(static_cast<Large const&&>(fl));
						a.owns = true;
						break;
					case 7:
						DO(rs);
						id = 2001;
						break;
					case 8:
						DO(rl);
						id = 2002;
						break;
					case 9:
						DO(&fptr1);
						id = 1000001;
						break;
					case 10:
						DO(fptr2);
						id = 1000002;
						break;
					default:
						if(assign)
							*a.c = nullptr;
						else
							a.c.reset(new C((int (*)(int, std::string const&, int&)) nullptr));
						id = 0;
					}
					a.id = id;
					break;
				}
				case 2: { // copy construct
					if(!b.c || i == j)
						break;
					g.note("copy construct %zu from %zu%s%s", i, j, st.copyFail >= 0 ? " failing copy" : "", allocState.failAfter >= 0 ? " failing alloc" : "");
					a.c.reset();
					a.id = 0;
					a.owns = false;
					a.c.reset(new C(static_cast<C const&>(*b.c)));
					a.id = b.id;
					a.owns = b.owns;
					copied |= a.owns;
					break;
				}
				case 3: { // copy assign
					if(!b.c || !a.c)
						break;
					g.note("copy assign %zu from %zu%s%s", i, j, st.copyFail >= 0 ? " failing copy" : "", allocState.failAfter >= 0 ? " failing alloc" : "");
					int id = b.id;
					bool owns = b.owns;
					if(i != j) {
						a.id = 0;
						a.owns = false;
					}
					*a.c = static_cast<C const&>(*b.c);
					a.id = id;
					a.owns = owns;
					copied |= a.owns;
					break;
				}
				case 4: { // move construct; cannot fail
					if(!b.c || i == j)
						break;
					g.note("move construct %zu from %zu", i, j);
					allocState.failAfter = -1;
					st.copyFail = -1;
					a.c.reset(new C(std::move(*b.c)));
					a.id = b.id;
					a.owns = b.owns;
					b.id = 0;
					b.owns = false;
					moved |= a.owns;
					break;
				}
				case 5: { // move assign
					if(!b.c || !a.c)
						break;
					g.note("move assign %zu from %zu", i, j);
					allocState.failAfter = -1;
					st.copyFail = -1;
					C& from = *b.c;
					*a.c = std::move(from);
					if(i == j) {
						// May be anything valid.
						if(!*a.c) {
							a.id = 0;
							a.owns = false;
						}
					} else {
						a.id = b.id;
						a.owns = b.owns;
						b.id = 0;
						b.owns = false;
						moved |= a.owns;
					}
					break;
				}
				case 6: { // invoke
					if(!a.c)
						break;
					g.note("invoke %zu", i);
					allocState.failAfter = -1;
					st.copyFail = -1;
					int x = (int)g.range(-1000, 1000);
					std::string s(g.index(40), 'x');
					int out = 0;
					size_t calls = st.calls;
					st.lastId = -1;
					try {
						int r = (*a.c)(x, s, out);
						VH_CHECK(g, a.id, "invoke", "empty callable invoked");
						VH_CHECK(g, st.lastId == a.id, "invoke", "invoked %d, expected %d", st.lastId, a.id);
						VH_CHECK(g, st.calls == calls + 1, "invoke", "%zu invocations", st.calls - calls);
						VH_CHECK(g, out == x + a.id && r == (int)s.size() * 3 + x, "arguments", "wrong arguments passed");
					} catch(std::bad_function_call const&) {
						VH_CHECK(g, !a.id, "invoke", "bad_function_call of %d", a.id);
						VH_CHECK(g, st.calls == calls, "invoke", "invoked anyway");
					}
					break;
				}
				case 7:
					// swap via moves
					if(!a.c || !b.c || i == j)
						break;
					g.note("swap %zu and %zu", i, j);
					allocState.failAfter = -1;
					st.copyFail = -1;
					std::swap(*a.c, *b.c);
					std::swap(a.id, b.id);
					std::swap(a.owns, b.owns);
					break;
				default:
					// in a vector
					if(!a.c)
						break;
					g.note("vector of %zu", i);
					allocState.failAfter = -1;
					st.copyFail = -1;
					std::vector<C> v;
					for(size_t k = 0; k < 3; k++)
						v.push_back(static_cast<C const&>(*a.c));
					for(auto& c : v)
						VH_CHECK(g, (bool)c == (a.id != 0), "bool", "vector element");
				}
			} catch(CopyError const&) {
				VH_CHECK(g, st.copyFailures, "exception", "unexpected CopyError");
				threw = true;
				g.note("  -> CopyError");
			} catch(std::bad_alloc const&) {
				VH_CHECK(g, allocState.failures, "exception", "unexpected bad_alloc");
				threw = true;
				g.note("  -> bad_alloc");
			}
			allocState.failAfter = -1;
			st.copyFail = -1;
			check("op");
		}
		// Invoke all.
		for(auto& s : slots)
			if(s.c && s.id) {
				int out = 0;
				(*s.c)(1, "", out);
				VH_CHECK(g, st.lastId == s.id, "invoke", "invoked %d, expected %d", st.lastId, s.id);
			}
		slots.clear();
		VH_CHECK(g, st.live == 2, "count", "%ld functors live after destruction", st.live);
		VH_CHECK(g, allocState.live == live0, "leak", "%ld allocations leaked", allocState.live - live0);
	}
	VH_CHECK(g, !st.invalid, "invalid", "invalid functor used");
	if(threw)
		g.cls("exception");
	g.nontrivial(threw && copied && moved);
}

VH_PROPERTY(arguments, 40000, 1000000, "invocations with arguments by value, (const) reference, and rvalue reference; always non-trivial")
{
	g.nontrivial();
	int captured = (int)g.range(-100, 100);
	std::string big(g.index(60), 'b');
	// rvalue reference passes ownership.
	{
		stored::Callable<int(std::unique_ptr<int>&&, std::string)>::type f;
		std::string seen;
		if(g.chance())
			f = [captured, &seen](std::unique_ptr<int>&& p, std::string const& s) {
				std::unique_ptr<int> q = std::move(p);
				seen = s;
				return *q + captured;
			};
		else
			f = [captured, &seen, big, x = std::string(100, 'x')](std::unique_ptr<int>&& p, std::string s) {
				std::unique_ptr<int> q = std::move(p);
				seen = s;
				return *q + captured;
			};
		auto g2 = f;
		int v = (int)g.range(-1000, 1000);
		std::unique_ptr<int> p(new int(v));
		std::string s(g.index(50), 's');
		std::string s2 = s;
		int r = (g.chance() ? f : g2)(std::move(p), s);
		VH_CHECK(g, r == v + captured, "result", "got %d", r);
		VH_CHECK(g, !p, "rvalue", "argument was not moved");
		VH_CHECK(g, seen == s && s == s2, "value", "string argument differs");
		g.note("rvalue argument %d, captured %d, string of %zu", v, captured, s.size());
	}
	// references are passed on as such
	{
		long a = (long)g.bits(40);
		long const b = (long)g.bits(40);
		long const* pb = nullptr;
		stored::Callable<long&(long&, long const&, double)>::type f{[&](long& x, long const& y, double d) -> long& {
			x += (long)d;
			pb = &y;
			return x;
		}};
		double d = (double)g.range(0, 1000);
		long a0 = a;
		long& r = f(a, b, d);
		VH_CHECK(g, &r == &a, "reference", "returned reference differs");
		VH_CHECK(g, a == a0 + (long)d, "reference", "value differs");
		VH_CHECK(g, pb == &b, "reference", "const reference to another object");
	}
	// void return type
	{
		unsigned cnt = 0;
		stored::Callable<void()>::type f;
		f = [&]() { cnt++; };
		unsigned n = (unsigned)g.index(5);
		for(unsigned i = 0; i < n; i++)
			f();
		VH_CHECK(g, cnt == n, "count", "%u calls, expected %u", cnt, n);
	}
}

namespace {
struct Counter {
	int* cnt = nullptr;
	Counter(int* c = nullptr)
		: cnt{c}
	{}
	Counter(Counter&& c) noexcept
		: cnt{c.cnt}
	{
		c.cnt = nullptr;
	}
	Counter& operator=(Counter&& c) noexcept
	{
		cnt = c.cnt;
		c.cnt = nullptr;
		return *this;
	}
	void operator()()
	{
		if(cnt)
			(*cnt)++;
		else
			st.invalid++;
	}
};
} // namespace

VH_PROPERTY(cleanup, 40000, 1000000, "histories of moves, explicit cleanup and destruction of Cleanup objects; non-trivial when something was moved over an active one")
{
	st = Stats{0, 0, -1, 0, 0, 0};
	typedef stored::Cleanup<Counter> Cl;
	std::vector<std::unique_ptr<int>> cnt;
	std::vector<bool> expect; // must have been run
	struct S {
		std::unique_ptr<Cl> c;
		int id = -1;
	};
	std::vector<S> slots(3);
	size_t ops = 1 + g.size(30);
	auto done = [&](S& s) {
		if(s.id >= 0)
			expect[(size_t)s.id] = true;
		s.id = -1;
	};
	for(size_t op = 0; op < ops; op++) {
		S& a = slots[g.index(3)];
		S& b = slots[g.index(3)];
		switch(g.range(0, 4)) {
		case 0:
			done(a);
			cnt.emplace_back(new int(0));
			expect.push_back(false);
			a.c.reset(new Cl(Counter(cnt.back().get())));
			a.id = (int)cnt.size() - 1;
			g.note("new");
			break;
		case 1:
			done(a);
			a.c.reset();
			g.note("destroy");
			break;
		case 2:
			if(!a.c)
				break;
			g.note("cleanup");
			a.c->cleanup();
			done(a);
			break;
		case 3: {
			if(&a == &b || !b.c)
				break;
			g.note("move construct");
			auto x = std::unique_ptr<Cl>(new Cl(std::move(*b.c)));
			done(a);
			a.c = std::move(x);
			a.id = b.id;
			b.id = -1;
			break;
		}
		default:
			if(&a == &b || !a.c || !b.c)
				break;
			g.note("move assign");
			g.nontrivial(a.id >= 0);
			*a.c = std::move(*b.c);
			done(a);
			a.id = b.id;
			b.id = -1;
		}
		for(size_t i = 0; i < cnt.size(); i++)
			VH_CHECK(g, *cnt[i] == (expect[i] ? 1 : 0), "cleanup", "cleanup %zu run %d times, expected %d", i, *cnt[i], (int)expect[i]);
	}
	slots.clear();
	for(size_t i = 0; i < cnt.size(); i++)
		VH_CHECK(g, *cnt[i] == 1, "cleanup", "cleanup %zu run %d times in total", i, *cnt[i]);
	VH_CHECK(g, !st.invalid, "invalid", "moved-from cleanup called");
}

VH_PROPERTY(allocators, 20000, 500000, "histories on the allocator-aware containers with injected allocation failures; non-trivial when an allocation failed")
{
	long live0 = allocState.live, bytes0 = allocState.liveBytes;
	long f0 = allocState.failures;
	{
		stored::Vector<int>::type v;
		stored::String::type s;
		stored::Map<int, stored::String::type>::type m;
		stored::Deque<int>::type d;
		stored::List<int>::type l;
		stored::Set<int>::type se;
		stored::UnorderedMap<int, int>::type u;
		size_t ops = g.size(40);
		size_t nv = 0;
		for(size_t i = 0; i < ops; i++) {
			if(g.chance(1, 5))
				allocState.failAfter = 0;
			allocState.failOnce = true;
			int x = (int)g.index(50);
			try {
				switch(g.range(0, 8)) {
				case 0: v.push_back(x); nv++; break;
				case 1: s.append((size_t)x, 'c'); break;
				case 2: m[x] = s; break;
				case 3: d.push_back(x); break;
				case 4: l.push_back(x); break;
				case 5: se.insert(x); break;
				case 6: u[x] = x; break;
				case 7: {
					long before = allocState.live;
					int* p = stored::allocate<int>((size_t)x + 1);
					VH_CHECK(g, allocState.live == before + 1, "allocate", "not via the configured allocator");
					p[x] = 1;
					stored::deallocate(p, (size_t)x + 1);
					VH_CHECK(g, allocState.live == before, "deallocate", "not via the configured allocator");
					break;
				}
				default: {
					auto* p = stored::allocate<std::string>();
					try {
						new(p) std::string((size_t)x, 'x');
					} catch(...) {
						stored::deallocate(p);
						throw;
					}
					stored::cleanup(p);
					stored::cleanup((std::string*)nullptr);
				}
				}
			} catch(std::bad_alloc const&) {
				VH_CHECK(g, allocState.failures > f0, "exception", "unexpected bad_alloc");
			}
			allocState.failAfter = -1;
		}
		g.note("%zu operations", ops);
		VH_CHECK(g, v.size() == nv, "vector", "size");
	}
	g.nontrivial(allocState.failures > f0);
	VH_CHECK(g, allocState.live == live0 && allocState.liveBytes == bytes0, "leak", "%ld allocations, %ld bytes", allocState.live - live0, allocState.liveBytes - bytes0);
}
