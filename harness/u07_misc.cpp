// U07: pipe segments on their own, and the dynamic connection of pipes.
#include "vh.h"

#include <libstored/pipes.h>

#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <memory>

using namespace stored::pipes;
using vh::Gen;

namespace {

template <typename T>
T number(Gen& g)
{
	if constexpr(std::is_floating_point<T>::value) {
		switch(g.weighted({6, 2, 1, 1, 1, 1})) {
		case 0: return (T)g.range<int>(-100, 100) / (T)4;
		case 1: return (T)g.range<int>(-100000, 100000) / (T)7;
		case 2: return std::numeric_limits<T>::max() * (g.chance() ? 1 : -1);
		case 3: return std::numeric_limits<T>::infinity() * (g.chance() ? 1 : -1);
		case 4: return std::numeric_limits<T>::quiet_NaN();
		default: return std::numeric_limits<T>::denorm_min() * (T)g.range<int>(-5, 5);
		}
	} else {
		switch(g.weighted({6, 2, 2, 1})) {
		case 0: return (T)g.range<int>(-20, 20);
		case 1: return (T)(std::numeric_limits<T>::max() - (T)g.range<int>(0, 3));
		case 2: return (T)(std::numeric_limits<T>::min() + (T)g.range<int>(0, 3));
		default: return (T)g.bits(8 * sizeof(T));
		}
	}
}

template <typename T, unsigned order>
bool similarModel(T a, T b)
{
	if constexpr(std::is_floating_point<T>::value) {
		if(std::isnan(a) || std::isnan(b))
			return std::isnan(a) && std::isnan(b);
		if(std::isinf(a) || std::isinf(b))
			return a == b;
		long double d = std::fabs((long double)a - (long double)b);
		long double m = std::max(std::fabs((long double)a), std::fabs((long double)b));
		for(unsigned i = 0; i < order; i++)
			m /= 10;
		return d <= m;
	} else {
		auto abs = [](__int128 x) { return x < 0 ? -x : x; };
		__int128 m = std::max(abs(a), abs(b));
		for(unsigned i = 0; i < order; i++)
			m /= 10;
		return abs((__int128)a - (__int128)b) <= m;
	}
}

template <typename T, unsigned order>
void similar(Gen& g, char const* name)
{
	T a = number<T>(g);
	T b = number<T>(g);
	if(g.chance() && a == a) // close to each other
		b = saturated_cast<T>((double)a + (double)a * (double)g.range<int>(-20, 20) / 100.);
	if constexpr(std::is_floating_point<T>::value) {
		// Avoid rounding issues at the margin.
		if(std::isfinite(a) && std::isfinite(b)) {
			long double d = std::fabs((long double)a - (long double)b);
			long double m = std::max(std::fabs((long double)a), std::fabs((long double)b));
			for(unsigned i = 0; i < order; i++)
				m /= 10;
			if(std::fabs(d - m) <= m * 1e-5l)
				return;
			if(m < std::numeric_limits<T>::min())
				return;
		}
	}
	bool r = similar_to<T, order>{}(a, b);
	bool e = similarModel<T, order>(a, b);
	g.note("similar_to<%s, %u> %.20Lg %.20Lg\n", name, order, (long double)a, (long double)b);
	VH_CHECK(g, r == e, "similar_to", "similar_to<%s, %u>(%.20Lg, %.20Lg) gives %d", name, order, (long double)a,
		 (long double)b, r);
	if(!(a == b))
		g.nontrivial();

	// Changes with this comparison.
	std::vector<T> out;
	auto sink = Entry<T>{} >> Call<T, void(T)>{[&](T x) { out.push_back(x); }} >> Cap{};
	auto p = Entry<T>{} >> Changes<T, similar_to<T, order>>{sink, a} >> Cap{};
	T y = b >> p;
	VH_CHECK(g, y == b || (y != y && b != b), "changes-out", "Changes does not pass the value");
	VH_CHECK(g, out.size() == (e ? 0U : 1U), "changes", "%zu values forwarded, while similar is %d", out.size(), e);
}

} // namespace

VH_PROPERTY(similar, 20000, 400000, "different values")
{
	switch(g.index(9)) {
	case 0: similar<int, 1>(g, "int"); break;
	case 1: similar<int, 3>(g, "int"); break;
	case 2: similar<double, 2>(g, "double"); break;
	case 3: similar<double, 3>(g, "double"); break;
	case 4: similar<float, 1>(g, "float"); break;
	case 5: similar<int64_t, 2>(g, "int64_t"); break;
	case 6: similar<int8_t, 1>(g, "int8_t"); break;
	case 7: similar<int16_t, 2>(g, "int16_t"); break;
	default: similar<int64_t, 0>(g, "int64_t"); break;
	}
}

namespace {

// long double holds all values exactly.
template <typename In, typename Out>
void cast(Gen& g)
{
	In x = number<In>(g);
	Out y0 = number<Out>(g);
	auto check = [&](auto from, auto res, char const* what) {
		using R = decltype(res);
		long double v = (long double)from;
		g.note("%s %.20Lg\n", what, v);
		if(std::isnan(v)) {
			if(std::is_floating_point<R>::value)
				VH_CHECK(g, res != res, "cast-nan", "NaN becomes %.20Lg", (long double)res);
			return;
		}
		if constexpr(std::is_floating_point<R>::value) {
			long double r = (long double)(R)from;
			if(std::isfinite(v) && std::fabs(v) > (long double)std::numeric_limits<R>::max())
				return; // saturate or inf
			VH_CHECK(g, (long double)res == r, "cast", "%s of %.20Lg gives %.20Lg", what, v, (long double)res);
		} else {
			long double lo = (long double)std::numeric_limits<R>::lowest();
			long double hi = (long double)std::numeric_limits<R>::max();
			long double e = v <= lo ? lo : v >= hi ? hi : v;
			// The rounding mode is not part of this property.
			VH_CHECK(g, std::fabs((long double)res - e) < 1, "cast", "%s of %.20Lg gives %.20Lg", what, v, (long double)res);
		}
	};
	auto p = Entry<In>{} >> Cast<In, Out>{} >> Exit{};
	check(x, (Out)(x >> p).get(), "inject");
	check(x, (Out)p.exit_cast(x), "exit_cast");
	check(y0, (In)p.entry_cast(y0), "entry_cast");
	auto q = Entry<In>{} >> Buffer<In>{x} >> Cast<In, Out>{} >> Exit{};
	check(x, (Out)q.extract().get(), "extract");
	if(x != (In)0)
		g.nontrivial();
}

} // namespace

VH_PROPERTY(casts, 20000, 400000, "other than zero")
{
	switch(g.index(12)) {
	case 0: cast<int, int8_t>(g); break;
	case 1: cast<int64_t, int>(g); break;
	case 2: cast<uint32_t, int>(g); break;
	case 3: cast<int, uint64_t>(g); break;
	case 4: cast<double, int>(g); break;
	case 5: cast<float, int64_t>(g); break;
	case 6: cast<double, float>(g); break;
	case 7: cast<double, uint8_t>(g); break;
	case 8: cast<uint64_t, int64_t>(g); break;
	case 9: cast<uint8_t, int8_t>(g); break;
	case 10: cast<float, double>(g); break;
	default: cast<int16_t, uint16_t>(g);
	}
}

namespace {

template <typename T>
void bounded(Gen& g)
{
	T lo = number<T>(g), hi = number<T>(g);
	if(lo != lo || hi != hi)
		return;
	if(hi < lo)
		std::swap(lo, hi);
	T init = number<T>(g);
	auto p = Entry<T>{} >> Constrained<Bounded<T>>{Bounded<T>{lo, hi}} >> Buffer<T>{lo} >> Cap{};
	auto q = Entry<T>{} >> Buffer<T>{init} >> Constrained<Bounded<T>>{Bounded<T>{lo, hi}} >> Cap{};
	auto d = Entry<T>{} >> Constrained<Bounded<T>>{Bounded<T>{}} >> Cap{};
	size_t n = g.size(10);
	for(size_t i = 0; i <= n; i++) {
		T x = number<T>(g);
		g.note("inject %.20Lg in [%.20Lg,%.20Lg]\n", (long double)x, (long double)lo, (long double)hi);
		T y = x >> p;
		T e = x < lo ? lo : x > hi ? hi : x;
		VH_CHECK(g, y >= lo && y <= hi, "bounded", "%.20Lg outside of [%.20Lg,%.20Lg]", (long double)y, (long double)lo,
			 (long double)hi);
		VH_CHECK(g, x != x || y == e, "bounded-value", "%.20Lg; expected %.20Lg", (long double)y, (long double)e);
		T z = p.extract();
		VH_CHECK(g, z == y, "bounded-extract", "extract gives %.20Lg; expected %.20Lg", (long double)z, (long double)y);
		if(i) {
			T v = x >> q;
			VH_CHECK(g, v == y, "bounded-inject", "%.20Lg; expected %.20Lg", (long double)v, (long double)y);
		}
		T w = q.extract();
		VH_CHECK(g, w >= lo && w <= hi, "bounded-2", "%.20Lg outside of [%.20Lg,%.20Lg]", (long double)w, (long double)lo,
			 (long double)hi);
		if(x == x && x - x == 0) {
			T u = x >> d;
			VH_CHECK(g, u == x, "unbounded", "%.20Lg; expected %.20Lg", (long double)u, (long double)x);
		}
		if(e != x)
			g.nontrivial();
	}
}

} // namespace

VH_PROPERTY(bounds, 5000, 100000, "a value out of bounds")
{
	switch(g.index(5)) {
	case 0: bounded<int>(g); break;
	case 1: bounded<double>(g); break;
	case 2: bounded<float>(g); break;
	case 3: bounded<uint8_t>(g); break;
	default: bounded<int64_t>(g);
	}
}

namespace {

template <typename K, typename V, typename P>
void mapped(Gen& g, P& p, std::vector<std::pair<K, V>> const& m, std::vector<K> const& keys, std::vector<V> const& values)
{
	for(auto const& k : keys) {
		auto it = std::find_if(m.begin(), m.end(), [&](std::pair<K, V> const& x) { return x.first == k; });
		V e = it == m.end() ? m[0].second : it->second;
		V y = (V)(k >> p);
		VH_CHECK(g, y == e, "map", "map finds the wrong value");
		V z = p.exit_cast(k);
		VH_CHECK(g, z == e, "map-exit_cast", "map finds the wrong value");
		if(it != m.end()) {
			// Inverse lookup of what was found gives an equivalent key.
			V y2 = (V)((K)p.entry_cast(y) >> p);
			VH_CHECK(g, y2 == y, "map-inverse", "not an inverse");
		}
	}
	for(auto const& v : values) {
		auto it = std::find_if(m.begin(), m.end(), [&](std::pair<K, V> const& x) { return x.second == v; });
		K e = it == m.end() ? m[0].first : it->first;
		K k = (K)p.entry_cast(v);
		VH_CHECK(g, k == e, "map-rfind", "map finds the wrong key");
	}
}

template <size_t N>
void maps(Gen& g)
{
	// Index
	std::array<std::string, N> va;
	std::vector<std::pair<size_t, std::string>> vm;
	std::vector<std::string> values;
	for(size_t i = 0; i < N; i++) {
		va[i] = std::string(g.range<size_t>(0, 20), (char)('a' + g.index(3)));
		vm.emplace_back(i, va[i]);
	}
	values.assign(va.begin(), va.end());
	values.push_back("zz");
	std::vector<size_t> idx;
	for(size_t i = 0; i < N + 3; i++)
		idx.push_back(i);
	idx.push_back((size_t)-1);
	{
		using M = IndexMap<std::string, N>;
		auto p = Entry<size_t>{} >> Mapped<size_t, std::string, M>{M{va}} >> Cap{};
		mapped<size_t, std::string>(g, p, vm, idx, values);
	}
	// Ordered
	std::set<int> ks;
	while(ks.size() < N)
		ks.insert(number<int>(g) ^ (int)ks.size());
	std::array<std::pair<int, double>, N> oa;
	std::vector<std::pair<int, double>> om;
	std::vector<int> keys;
	std::vector<double> dv{0., 1e30};
	for(int k : ks) {
		double d = (double)g.range<int>(-5, 30) / 2;
		oa[om.size()] = {k, d};
		om.emplace_back(k, d);
		dv.push_back(d);
		keys.push_back(k);
		keys.push_back((int)((unsigned)k + 1));
		keys.push_back((int)((unsigned)k - 1));
	}
	keys.push_back(number<int>(g));
	{
		using M = OrderedMap<int, double, N>;
		auto p = Entry<int>{} >> Mapped<int, double, M>{M{oa}} >> Cap{};
		mapped<int, double>(g, p, om, keys, dv);
	}
	{
		std::pair<int, double> c[N];
		std::copy(oa.begin(), oa.end(), c);
		auto p = Entry<int>{} >> Map<int, double, N>(c) >> Cap{};
		mapped<int, double>(g, p, om, keys, dv);
	}
	// Random; the order matters for duplicate keys.
	for(size_t i = N; i > 1; i--)
		std::swap(oa[i - 1], oa[g.index(i)]);
	if(N > 1 && g.chance())
		oa[0].first = oa[N - 1].first;
	om.assign(oa.begin(), oa.end());
	{
		std::pair<int, double> c[N];
		std::copy(oa.begin(), oa.end(), c);
		auto m = make_random_map<int, double>(c);
		auto p = Entry<int>{} >> Mapped<int, double, decltype(m)>{m} >> Cap{};
		mapped<int, double>(g, p, om, keys, dv);
	}
	if(N > 2)
		g.nontrivial();
}

} // namespace

VH_PROPERTY(lookup, 3000, 50000, "maps with more than two elements")
{
	switch(g.index(6)) {
	case 0: maps<1>(g); break;
	case 1: maps<2>(g); break;
	case 2: maps<3>(g); break;
	case 3: maps<4>(g); break;
	case 4: maps<7>(g); break;
	default: maps<16>(g);
	}
}

VH_PROPERTY(scale, 3000, 50000, "not zero")
{
	double x = (double)g.range<int>(-1000, 1000) / 8;
	auto near = [](double a, double b) { return std::fabs(a - b) <= std::fabs(b) * 1e-12; };
	auto p0 = Entry<double>{} >> Convert<Scale<double, std::milli>>{} >> Buffer<double>{} >> Cap{};
	VH_CHECK(g, near((x >> p0).get(), x / 1000), "scale", "wrong scale");
	VH_CHECK(g, near(p0.entry_cast(x), x * 1000), "scale-entry", "wrong scale");
	VH_CHECK(g, near(p0.extract().get(), x / 1000), "scale-extract", "wrong scale");
	auto p1 = Entry<double>{} >> Buffer<double>{x} >> Convert<Scale<double, std::ratio<7, 3>>>{} >> Cap{};
	VH_CHECK(g, near(p1.extract().get(), x * 7 / 3), "scale-2", "wrong scale");
	VH_CHECK(g, near(p1.entry_cast(x), x * 3 / 7), "scale-2-entry", "wrong scale");
	VH_CHECK(g, near(p1.exit_cast(p1.entry_cast(x)), x), "scale-2-inverse", "wrong scale");
	if(x != 0)
		g.nontrivial();
}

namespace {

// A network of connected pipes, with groups.
struct Net {
	struct Node {
		Pipe<int, int>* p;
		bool buffer;
		int add;
		int value; // of buffer
		int next = -1;
		bool triggers;
		bool changed = false;
		bool open;
		std::set<int> groups;
	};
	Gen& g;
	std::vector<Node> n;
	std::vector<std::pair<int, int>> real, mdl;
	std::list<Group> groups;
	std::vector<std::unique_ptr<Pipe<int, int>>> own;

	explicit Net(Gen& gen)
		: g(gen)
		, groups(3)
	{}

	~Net() = default;

	// Does to lead to from?
	bool cyclic(int from, int to)
	{
		for(int i = to; i >= 0; i = n[(size_t)i].next)
			if(i == from)
				return true;
		return false;
	}

	int out(Node& x)
	{
		return x.buffer ? x.value + x.add : x.add;
	}

	void inject(int i, int x)
	{
		while(i >= 0) {
			Node& d = n[(size_t)i];
			mdl.emplace_back(i, x);
			if(d.buffer) {
				if(d.value != x)
					d.changed = true;
				d.value = x;
			}
			x += d.add;
			i = d.next;
		}
	}

	void check(char const* what)
	{
		VH_CHECK(g, real == mdl, "network", "%s: %zu injections; expected %zu, or other order or values", what, real.size(),
			 mdl.size());
		real.clear();
		mdl.clear();
	}

	// PipeExit::connect
	void connect(int i, int j)
	{
		Node& d = n[(size_t)i];
		d.next = j;
		if(d.buffer)
			inject(j, out(d));
	}

	struct Add {
		int add;
		int exit_cast(int x) const
		{
			return x + add;
		}
		int entry_cast(int x) const
		{
			return x - add;
		}
	};

	void create()
	{
		Node d{};
		int id = (int)n.size();
		Net* s = this;
		auto rec = [s, id](int x) { s->real.emplace_back(id, x); };
		d.add = g.range<int>(0, 5);
		Add c{d.add};
		d.value = g.range<int>(0, 9);
		d.open = true;
		switch(g.index(4)) {
		case 0: d.p = make(Entry<int>{} >> Call<int, void(int)>{rec} >> Convert<Add>{c} >> Exit{}); break;
		case 1:
			d.p = make(Entry<int>{} >> Call<int, void(int)>{rec} >> Buffer<int>{d.value} >> Convert<Add>{c} >> Exit{});
			d.buffer = true;
			break;
		case 2: {
			// Inject something, as a side effect of a trigger.
			auto* k = make(Entry<int>{} >> Call<int, void(int)>{[s, id](int x) { s->real.emplace_back(1000 + id, x); }} >> Cap{});
			d.p = make(Entry<int>{} >> Call<int, void(int)>{rec} >> Triggered<int>{d.value, (PipeEntry<int>&)*k}
				   >> Convert<Add>{c} >> Exit{});
			d.buffer = true;
			d.triggers = true;
			break;
		}
		default:
			d.p = make(Entry<int>{} >> Call<int, void(int)>{rec} >> Buffer<int>{d.value} >> Convert<Add>{c} >> Cap{});
			d.buffer = true;
			d.open = false;
		}
		n.push_back(d);
	}

	template <typename P>
	P* make(P&& p)
	{
		P* q = new P(std::move(p));
		own.emplace_back(q);
		return q;
	}

	// Trigger one.
	bool trigger(int i)
	{
		Node& d = n[(size_t)i];
		if(!d.triggers || !d.changed)
			return false;
		d.changed = false;
		mdl.emplace_back(1000 + i, d.value);
		if(d.next >= 0)
			inject(d.next, out(d));
		return true;
	}

	void run()
	{
		size_t c = g.range<size_t>(2, 7);
		for(size_t i = 0; i < c; i++)
			create();
		size_t steps = g.size(40);
		size_t links = 0, groupTriggers = 0;
		for(size_t k = 0; k < steps; k++) {
			int i = (int)g.index(n.size());
			Node& d = n[(size_t)i];
			switch(g.weighted({6, 4, 1, 3, 2, 2, 3, 2, 2})) {
			case 0: {
				int x = g.range<int>(0, 9);
				g.note("inject %d in %d\n", x, i);
				int y = x >> *d.p;
				inject(i, x);
				VH_CHECK(g, y == x + d.add, "net-inject", "inject gives %d; expected %d", y, x + d.add);
				check("inject");
				break;
			}
			case 1: {
				int j = (int)g.index(n.size());
				if(!d.open || cyclic(i, j))
					break;
				g.note("connect %d to %d\n", i, j);
				if(g.chance())
					d.p->connect(*n[(size_t)j].p);
				else
					(PipeExit<int>&)*d.p >> *n[(size_t)j].p;
				connect(i, j);
				check("connect");
				links++;
				break;
			}
			case 2:
				if(!d.open)
					break;
				g.note("disconnect %d\n", i);
				d.p->disconnect();
				d.next = -1;
				break;
			case 3: { // extend i by j
				int j = (int)g.index(n.size());
				Node& e = n[(size_t)j];
				if(!d.open || !e.open || j == i)
					break;
				// Must remain acyclic.
				if((d.next >= 0 && cyclic(j, d.next)))
					break;
				bool bad = false;
				for(int x = d.next; x >= 0; x = n[(size_t)x].next)
					if(x == i || x == j)
						bad = true;
				if(bad)
					break;
				g.note("extend %d by %d\n", i, j);
				d.p->extend(*e.p);
				int next = d.next;
				if(next >= 0)
					connect(j, next);
				else
					e.next = -1;
				connect(i, j);
				check("extend");
				links++;
				break;
			}
			case 4: {
				int x = d.p->extract();
				g.note("extract %d\n", i);
				VH_CHECK(g, !d.buffer || x == out(d), "net-extract", "extract gives %d; expected %d", x, out(d));
				check("extract");
				break;
			}
			case 5: {
				g.note("trigger %d\n", i);
				bool t = false;
				int x = 0;
				((PipeExit<int>&)*d.p).trigger(&t, x);
				int v = out(d);
				bool e = trigger(i);
				VH_CHECK(g, t == e && (!t || x == v), "net-trigger", "triggered %d; expected %d", t, e);
				check("trigger");
				break;
			}
			case 6: {
				size_t q = g.index(3);
				auto it = groups.begin();
				std::advance(it, q);
				bool add = g.chance();
				g.note("group %zu %s %d\n", q, add ? "add" : "remove", i);
				bool list = g.chance();
				if(add && list)
					it->add({*d.p, *d.p});
				else if(add)
					it->add(*d.p);
				else if(list)
					it->remove({*d.p});
				else
					it->remove(*d.p);
				if(add)
					d.groups.insert((int)q);
				else
					d.groups.erase((int)q);
				size_t e = 0;
				for(auto& x : n)
					e += x.groups.count((int)q);
				VH_CHECK(g, it->size() == e, "group-size", "group of %zu; expected %zu", it->size(), e);
				break;
			}
			case 7: {
				size_t q = g.index(3);
				auto it = groups.begin();
				std::advance(it, q);
				g.note("group %zu trigger\n", q);
				bool t = g.chance();
				bool have = g.chance(3, 4);
				// The order is not specified, so do it one by one.
				bool e = false;
				bool bad = false;
				std::vector<int> members;
				for(auto const* b : it->pipes()) {
					size_t x = 0;
					while(x < n.size() && (PipeBase const*)n[x].p != b)
						x++;
					VH_CHECK(g, x < n.size() && n[x].groups.count((int)q), "group-member", "unknown pipe in group");
					members.push_back((int)x);
				}
				it->trigger(have ? &t : nullptr);
				for(int m : members)
					if(trigger(m))
						e = true;
				(void)bad;
				VH_CHECK(g, !have || t == e, "group-triggered", "group triggered %d; expected %d", t, e);
				check("group trigger");
				groupTriggers += e;
				break;
			}
			default: {
				VH_CHECK(g, d.p->connected() == (d.next >= 0), "net-connected", "connected() is wrong");
				PipeEntry<int>* e = d.next >= 0 ? n[(size_t)d.next].p : nullptr;
				VH_CHECK(g, d.p->connection() == e, "net-connection", "connection() is wrong");
			}
			}
		}
		if(links > 1)
			g.nontrivial();
		g.cls(groupTriggers ? "group triggered" : "no group triggered");
	}
};

size_t alive = 0;

// A segment that counts its instances.
struct Counted {
	Counted()
	{
		alive++;
	}
	Counted(Counted const&)
	{
		alive++;
	}
	Counted(Counted&&)
	{
		alive++;
	}
	~Counted()
	{
		alive--;
	}
	int inject(int x)
	{
		return x;
	}
};

} // namespace

VH_PROPERTY(network, 4000, 80000, "at least two connections made")
{
	Net n(g);
	n.run();
}

VH_PROPERTY(ownership, 1000, 10000, "a pipe in a group")
{
	alive = 0;
	size_t expect = 0;
	{
		Group a, b;
		std::vector<PipeBase*> pa, pb;
		size_t n = g.size(20);
		for(size_t i = 0; i < n; i++)
			switch(g.index(6)) {
			case 0: pa.push_back(&(Entry<int>{} >> Counted{} >> Ref{a})); break;
			case 1: pb.push_back(&(Entry<int>{} >> Counted{} >> Ref{b})); break;
			case 2: Entry<int>{} >> Counted{} >> Ref{}; expect++; break;
			case 3:
				if(!pa.empty()) {
					a.destroy(*pa.back());
					pa.pop_back();
				}
				break;
			case 4:
				b.destroy();
				pb.clear();
				break;
			default:
				if(!pa.empty()) {
					// Move to other group.
					a.remove(*pa.back());
					b.add(*pa.back());
					pb.push_back(pa.back());
					pa.pop_back();
				}
			}
		VH_CHECK(g, alive == pa.size() + pb.size() + expect, "alive", "%zu pipes alive; expected %zu", alive,
			 pa.size() + pb.size() + expect);
		VH_CHECK(g, a.size() == pa.size() && b.size() == pb.size() && gc.size() == expect, "sizes", "wrong group size");
		if(!pa.empty() || !pb.empty())
			g.nontrivial();
		a.destroy();
		b.destroy();
		gc.destroy();
		VH_CHECK(g, alive == 0 && a.size() == 0 && gc.size() == 0, "destroyed", "%zu pipes alive", alive);
	}
}
