// U06: stored::Signal against a list of connections.
#include "vh.h"
#include <libstored/signal.h>
#include <stored>

#include <list>
#include <memory>
#include <string>

using vh::Gen;
using vhcfg::allocState;

namespace {

template <typename K>
struct KeyOf;
template <>
struct KeyOf<int> {
	static int make(unsigned i)
	{
		return (int)i; // 0 is a valid key
	}
};
template <>
struct KeyOf<void*> {
	static void* make(unsigned i)
	{
		return (void*)(uintptr_t)(i * 8U + 8U);
	}
};
template <>
struct KeyOf<std::string> {
	static std::string make(unsigned i)
	{
		return std::string(i + 1, 'k');
	}
};

template <typename K, typename T>
void test(Gen& g)
{
	typedef stored::Signal<K, T, int, std::string> S;
	long live0 = allocState.live;
	bool multi = false, discTok = false, faultSeen = false;
	{
		std::unique_ptr<S> sp(g.chance() ? new S() : new S(g.index(20)));
		S& s = *sp;
		struct Conn {
			bool any; // no key
			unsigned key;
			unsigned token; // 0 is NoToken
			int id;
		};
		std::list<Conn> m;
		std::map<int, int> called;
		bool badArgs = false;
		int wantInt = 0;
		std::string wantStr;
		int nextId = 1;
		unsigned keys = (unsigned)g.range(1, 12);
		size_t ops = 1 + g.size(60);
		auto tok = [](unsigned t) -> T { return t ? KeyOf<T>::make(t) : S::NoToken; };

		for(size_t op = 0; op < ops; op++) {
			unsigned k = (unsigned)g.index(keys);
			unsigned t = (unsigned)g.index(4);
			int id = nextId;
			bool fail = false;
			switch(g.weighted({8, 2, 2, 4, 1, 6, 4, 3, 1})) {
			case 0:
			case 1: {
				bool any = g.chance(1, 6);
				auto cb = [&, id](int a, std::string const& b) {
					called[id]++;
					if(a != wantInt || b != wantStr)
						badArgs = true;
				};
				if(g.chance(1, 10)) {
					fail = true;
					allocState.failAfter = (long)g.index(2);
					allocState.failOnce = true;
				}
				long f0 = allocState.failures;
				try {
					if(any) {
						g.note("connect any, token %u", t);
						if(t)
							s.connect(std::move(cb), tok(t));
						else
							s.connect(std::move(cb));
					} else {
						g.note("connect key %u token %u", k, t);
						if(t)
							s.connect(KeyOf<K>::make(k), std::move(cb), tok(t));
						else
							s.connect(KeyOf<K>::make(k), std::move(cb));
					}
					m.push_back(Conn{any, k, t, id});
					nextId++;
				} catch(std::bad_alloc const&) {
					VH_CHECK(g, allocState.failures > f0, "exception", "unexpected bad_alloc");
					g.note("  -> bad_alloc");
					faultSeen = true;
				}
				allocState.failAfter = -1;
				(void)fail;
				break;
			}
			case 2:
				g.note("disconnect key %u", k);
				s.disconnect(KeyOf<K>::make(k));
				m.remove_if([&](Conn const& c) { return !c.any && c.key == k; });
				break;
			case 3: {
				g.note("disconnect key %u, token %u", k, t);
				size_t n = m.size();
				s.disconnect(KeyOf<K>::make(k), tok(t));
				m.remove_if([&](Conn const& c) { return !c.any && c.key == k && c.token == t; });
				discTok |= m.size() < n;
				break;
			}
			case 4:
				g.note("disconnect all");
				s.disconnect();
				m.clear();
				break;
			case 5:
			case 6: {
				bool all = g.chance(1, 3);
				wantInt = (int)g.range(-5, 1000);
				wantStr = std::string(g.index(40), 's');
				called.clear();
				badArgs = false;
				g.note(all ? "call all" : "call key %u", k);
				if(all)
					g.chance() ? s.call(wantInt, wantStr) : s(wantInt, wantStr);
				else
					g.chance() ? s.call(KeyOf<K>::make(k), wantInt, wantStr)
						   : s(KeyOf<K>::make(k), wantInt, wantStr);
				size_t expect = 0;
				for(auto const& c : m) {
					bool e = all || (!c.any && c.key == k);
					int n = called.count(c.id) ? called[c.id] : 0;
					VH_CHECK(g, n == (e ? 1 : 0), "call", "callback %d called %d times, expected %d", c.id, n, (int)e);
					if(e)
						expect++;
				}
				VH_CHECK(g, called.size() == expect, "call", "%zu callbacks called, expected %zu", called.size(), expect);
				VH_CHECK(g, !badArgs, "arguments", "wrong arguments passed");
				multi |= expect > 1;
				break;
			}
			case 7:
				g.note("reserve");
				s.reserve(g.index(100));
				break;
			default:;
			}
			for(unsigned i = 0; i < keys; i++) {
				bool e = false;
				for(auto const& c : m)
					e |= !c.any && c.key == i;
				VH_CHECK(g, s.connected(KeyOf<K>::make(i)) == e, "connected", "connected(%u) is not %d", i, (int)e);
			}
			VH_CHECK(g, s.connected() == !m.empty(), "connected", "connected() is not %d", (int)!m.empty());
		}
	}
	VH_CHECK(g, allocState.live == live0, "leak", "%ld allocations leaked", allocState.live - live0);
	if(faultSeen)
		g.cls("allocation failure");
	if(discTok)
		g.cls("disconnect by token");
	g.nontrivial(multi && discTok);
}
} // namespace

VH_PROPERTY(signal, 100000, 4000000, "connect/disconnect/call histories on Signals with several key and token types; non-trivial when several callbacks were invoked by one call, and a token disconnected some callback")
{
	switch(g.range(0, 3)) {
	case 0: return test<int, int>(g);
	case 1: return test<void*, void*>(g);
	case 2: return test<void*, int>(g);
	default: return test<int, void*>(g);
	}
}
