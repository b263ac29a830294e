// U01: stored::Fifo against a std::deque.
#include "vh.h"
#include <libstored/fifo.h>
#include <stored>

#include <deque>
#include <memory>
#include <string>

using vh::Gen;

namespace {

struct Obj {
	static long live;
	uint32_t v;
	std::unique_ptr<uint32_t> p; // detects double destruction/use after destruction
	Obj(uint32_t x = 0)
		: v{x}
		, p{new uint32_t(x)}
	{
		live++;
	}
	Obj(Obj const& o)
		: v{o.v}
		, p{new uint32_t(*o.p)}
	{
		live++;
	}
	Obj& operator=(Obj const& o)
	{
		v = o.v;
		*p = *o.p;
		return *this;
	}
	~Obj()
	{
		live--;
	}
	bool operator==(Obj const& o) const
	{
		return v == o.v && *p == *o.p;
	}
};
long Obj::live = 0;

template <typename T>
struct Make {
	static T make(uint32_t x)
	{
		return (T)x;
	}
};
template <>
struct Make<std::string> {
	static std::string make(uint32_t x)
	{
		return std::to_string(x) + (x % 3 ? "" : " and some long string, beyond SSO");
	}
};

template <typename F, typename T>
void checkAll(Gen& g, F& f, std::deque<T> const& m, size_t capacity)
{
	F const& cf = f;
	size_t n = m.size();
	VH_CHECK(g, cf.available() == n, "available", "available %zu, expected %zu", cf.available(), n);
	VH_CHECK(g, cf.empty() == (n == 0), "empty", "empty %d with %zu", cf.empty(), n);
	if(capacity) {
		VH_CHECK(g, cf.bounded(), "bounded", "not bounded");
		VH_CHECK(g, cf.space() == capacity - n, "space", "space %zu, expected %zu", cf.space(),
			 capacity - n);
		VH_CHECK(g, cf.full() == (n == capacity), "full", "full %d with %zu", cf.full(), n);
	} else {
		VH_CHECK(g, !cf.bounded(), "bounded", "bounded");
		VH_CHECK(g, !cf.full(), "full", "unbounded is full");
		VH_CHECK(g, cf.space() > 1000000, "space", "space %zu", cf.space());
	}
	if(n) {
		VH_CHECK(g, cf.front() == m.front(), "front", "front differs");
		VH_CHECK(g, f.front() == m.front(), "front", "front differs");
		VH_CHECK(g, cf.peek(n - 1) == m.back(), "peek", "last differs");
		size_t chunk = cf.available_chunk();
		VH_CHECK(g, chunk > 0 && chunk <= n, "chunk", "chunk %zu of %zu", chunk, n);
		T const* c = &cf.front();
		for(size_t i = 0; i < chunk; i += 1 + chunk / 64)
			VH_CHECK(g, c[i] == m[i], "chunk", "chunk element %zu differs", i);
		VH_CHECK(g, c[chunk - 1] == m[chunk - 1], "chunk", "last chunk element differs");
		// Anything after the first chunk starts at a single second one.
		if(chunk < n)
			VH_CHECK(g, &cf.peek(chunk) + (n - chunk) == &cf.peek(n - 1) + 1, "chunk",
				 "remainder is not contiguous");
	} else {
		VH_CHECK(g, cf.available_chunk() == 0, "chunk", "chunk %zu of 0",
			 cf.available_chunk());
	}
	size_t step = 1 + n / 128;
	for(size_t i = 0; i < n; i += step) {
		VH_CHECK(g, cf.peek(i) == m[i], "peek", "peek(%zu) differs", i);
		VH_CHECK(g, f[i] == m[i], "index", "[%zu] differs", i);
	}

	auto v = cf.view();
	VH_CHECK(g, v.size() == n, "view", "view size %zu, expected %zu", v.size(), n);
	VH_CHECK(g, v.empty() == (n == 0), "view", "view empty");
	for(size_t i = 0; i < n; i += step)
		VH_CHECK(g, v[i] == m[i], "view", "view[%zu] differs", i);
}

template <typename V, typename T>
void checkView(Gen& g, V v, std::vector<T> m, int depth)
{
	size_t n = m.size();
	VH_CHECK(g, v.size() == n, "view", "subview size %zu, expected %zu", v.size(), n);
	VH_CHECK(g, v.empty() == (n == 0), "view", "view empty");
	size_t i = 0;
	for(auto const& x : v) {
		VH_CHECK(g, i < n, "view", "iterator yields too many");
		VH_CHECK(g, x == m[i], "view", "iterator element %zu differs", i);
		i++;
	}
	VH_CHECK(g, i == n, "view", "iterator yields %zu of %zu", i, n);
	std::vector<T> dst(n, T());
	v.copy(dst.data());
	VH_CHECK(g, dst == m, "view-copy", "copy differs");
	std::vector<T> sp(n, T());
	T const* c = v.contiguous(sp.data());
	for(i = 0; i < n; i++)
		VH_CHECK(g, c[i] == m[i], "view-contiguous", "contiguous element %zu differs", i);
	if(depth <= 0)
		return;
	switch(g.range(0, 3)) {
	case 0: {
		size_t o = g.index(n + 1);
		size_t l = g.index(n - o + 1);
		g.note("  subview(%zu,%zu) of %zu", o, l, n);
		checkView(g, v.subview(o, l), std::vector<T>(m.begin() + (long)o, m.begin() + (long)(o + l)), depth - 1);
		break;
	}
	case 1: {
		size_t o = g.index(n + 1);
		g.note("  subview(%zu) of %zu", o, n);
		checkView(g, v.subview(o), std::vector<T>(m.begin() + (long)o, m.end()), depth - 1);
		break;
	}
	case 2: {
		size_t o = g.index(n + 1);
		g.note("  lstrip(%zu) of %zu", o, n);
		v.lstrip(o);
		checkView(g, v, std::vector<T>(m.begin() + (long)o, m.end()), depth - 1);
		break;
	}
	default: {
		size_t o = g.index(n + 1);
		g.note("  rstrip(%zu) of %zu", o, n);
		v.rstrip(o);
		checkView(g, v, std::vector<T>(m.begin(), m.end() - (long)o), depth - 1);
	}
	}
}

template <typename T, size_t Capacity, bool TS = (Capacity > 0)>
void test(Gen& g)
{
	typedef stored::Fifo<T, Capacity, TS> F;
	std::unique_ptr<F> fp(new F());
	F& f = *fp;
	std::deque<T> m;
	uint32_t next = 1;
	auto make = [&]() { return Make<T>::make(next++); };
	size_t ops = 1 + g.size(80);
	size_t pushed = 0;
	bool bulk = false;
	bool fullSeen = false;
	size_t maxBulk = Capacity ? Capacity : 150;
	size_t bulkLimit = g.pick({(size_t)3, (size_t)20, maxBulk, maxBulk});
	g.note("Fifo<%s,%zu>", typeid(T).name(), Capacity);

	for(size_t op = 0; op < ops; op++) {
		size_t space = Capacity ? Capacity - m.size() : 100000;
		switch(g.weighted({6, 3, 4, 4, 4, 5, 5, 2, 1, 3, 2, 3})) {
		case 0:
			if(!space)
				break;
			m.push_back(make());
			g.note("push_back");
			f.push_back(m.back());
			pushed++;
			break;
		case 1:
			if(!space)
				break;
			m.push_back(Make<T>::make(next));
			g.note("emplace_back");
			f.emplace_back(Make<T>::make(next));
			next++;
			pushed++;
			break;
		case 2: {
			size_t cnt = g.index(std::min(space, bulkLimit) + 1);
			if(g.chance(1, 4))
				cnt = std::min(space, bulkLimit);
			std::vector<T> x;
			for(size_t i = 0; i < cnt; i++) {
				x.push_back(make());
				m.push_back(x.back());
			}
			g.note("push_back(ptr,%zu)", cnt);
			f.push_back(x.data(), x.size());
			pushed += cnt;
			bulk |= cnt > 1;
			break;
		}
		case 3: {
			size_t cnt = g.index(std::min(space, bulkLimit) + 1);
			std::deque<T> x;
			for(size_t i = 0; i < cnt; i++) {
				x.push_back(make());
				m.push_back(x.back());
			}
			g.note("push_back(it,it+%zu)", cnt);
			f.push_back(x.begin(), x.end());
			pushed += cnt;
			break;
		}
		case 4: {
			if(space < 5)
				break;
			T a = make(), b = make(), c = make();
			g.note("push_back({...})");
			switch(g.range(0, 3)) {
			case 0:
				f.push_back(std::initializer_list<T>{});
				break;
			case 1:
				f.push_back({a});
				m.push_back(a);
				pushed += 1;
				break;
			case 2:
				f.push_back({a, b, c});
				m.push_back(a);
				m.push_back(b);
				m.push_back(c);
				pushed += 3;
				break;
			default:
				f.push_back({a, b, c, a, b});
				m.push_back(a);
				m.push_back(b);
				m.push_back(c);
				m.push_back(a);
				m.push_back(b);
				pushed += 5;
			}
			bulk = true;
			break;
		}
		case 5:
			if(m.empty())
				break;
			g.note("pop_front");
			f.pop_front();
			m.pop_front();
			break;
		case 6: {
			size_t cnt = g.index(m.size() + 1);
			if(g.chance(1, 4))
				cnt = m.size();
			g.note("pop_front(%zu) of %zu", cnt, m.size());
			f.pop_front(cnt);
			m.erase(m.begin(), m.begin() + (long)cnt);
			bulk |= cnt > 1;
			break;
		}
		case 7: {
			g.note("iterate");
			size_t stop = g.chance() ? m.size() + 1 : g.index(m.size() + 1);
			size_t i = 0;
			auto it = f.begin();
			for(; it != f.end(); ++it) {
				VH_CHECK(g, !m.empty(), "iterate", "too many elements");
				if(i++ == stop)
					break;
				VH_CHECK(g, *it == m.front(), "iterate", "element differs");
				m.pop_front();
			}
			if(stop > i)
				VH_CHECK(g, m.empty(), "iterate", "stopped with %zu left", m.size());
			break;
		}
		case 8:
			g.note("clear");
			f.clear();
			m.clear();
			break;
		case 9:
			if(m.empty())
				break;
			{
				size_t i = g.index(m.size());
				g.note("modify %zu", i);
				m[i] = make();
				if(i == 0 && g.chance())
					f.front() = m[i];
				else if(g.chance())
					f.peek(i) = m[i];
				else
					f[i] = m[i];
			}
			break;
		case 10: {
			size_t cnt = 0;
			g.note("it++");
			auto it = f.begin();
			while(it != f.end() && cnt < 3) {
				auto w = it++;
				VH_CHECK(g, !m.empty() && *w == m.front(), "iterate", "element differs");
				m.pop_front();
				cnt++;
			}
			break;
		}
		default:
			if(m.size() > 4000)
				break;
			g.note("view");
			checkView(g, typename F::View(f), std::vector<T>(m.begin(), m.end()), 3);
		}
		checkAll(g, f, m, Capacity);
		fullSeen |= Capacity && m.size() == Capacity;
	}

	if(fullSeen)
		g.cls("full seen");
	if(Capacity && pushed > Capacity)
		g.cls("wrapped");
	if(!Capacity && pushed > 64)
		g.cls("unbounded, over the move threshold");
	g.nontrivial(bulk && (Capacity ? pushed > Capacity : pushed > 70));
	// Drain.
	while(!m.empty()) {
		VH_CHECK(g, f.front() == m.front(), "drain", "element differs");
		f.pop_front();
		m.pop_front();
	}
	VH_CHECK(g, f.empty(), "drain", "not empty");
}

} // namespace

#if PART == 1
VH_PROPERTY(small, 30000, 1500000, "operation histories on small FIFOs of several element types; non-trivial when bulk operations were used and the FIFO wrapped around")
{
	switch(g.range(0, 3)) {
	case 0: return test<int, 1>(g);
	case 1: return test<int, 3>(g);
	case 2: return test<uint64_t, 8>(g);
	default: return test<uint16_t, 15>(g);
	}
}
#endif

#if PART == 2
VH_PROPERTY(smallstr, 20000, 1000000, "as small; non-trivial idem")
{
	switch(g.range(0, 1)) {
	case 0: return test<std::string, 4>(g);
	default: return test<std::string, 9, false>(g);
	}
}
#endif

#if PART == 3
VH_PROPERTY(objects, 10000, 600000, "as small, with element types with tracked lifetime; non-trivial idem")
{
	Obj::live = 0;
	switch(g.range(0, 1)) {
	case 0: test<Obj, 6>(g); break;
	default: test<Obj, 0>(g); break;
	}
	VH_CHECK(g, Obj::live == 0, "lifetime", "%ld objects leaked", Obj::live);
}
#endif

#if PART == 4
VH_PROPERTY(unbounded, 15000, 600000, "histories on unbounded FIFOs; non-trivial when bulk operations were used and over 70 elements passed (moves the buffer)")
{
	switch(g.range(0, 1)) {
	case 0: return test<int, 0>(g);
	default: return test<std::string, 0>(g);
	}
}
#endif

#if PART == 5
VH_PROPERTY(boundary, 6000, 200000, "histories on FIFOs with a capacity near a limit of the index type; non-trivial when bulk operations were used and the FIFO wrapped around")
{
	switch(g.range(0, 3)) {
	case 0: return test<int, 127>(g);
	case 1: return test<uint8_t, 200>(g);
	case 2: return test<int, 255>(g);
	default: return test<uint16_t, 300>(g);
	}
}
#endif

#if PART == 6
VH_PROPERTY(boundary2, 6000, 200000, "as boundary; non-trivial idem")
{
	switch(g.range(0, 3)) {
	case 0: return test<int, 126>(g);
	case 1: return test<std::string, 253>(g);
	case 2: return test<int, 254>(g);
	default: return test<uint16_t, 256>(g);
	}
}
#endif

#if PART == 7
VH_PROPERTY(boundary16, 800, 40000, "histories on FIFOs with a capacity near the limit of 16-bit indices; non-trivial when bulk operations were used and the FIFO wrapped around")
{
	switch(g.range(0, 2)) {
	case 0: return test<uint16_t, 33000>(g);
	case 1: return test<uint16_t, 65534>(g);
	default: return test<uint16_t, 65535>(g);
	}
}
#endif
