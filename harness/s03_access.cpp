// S03, S04, S05: access to variables and functions via all routes.
#include "rich.h"
#include "vh.h"
#include "Many.h"
#include "Rich.h"
#include <libstored/signal.h>
#include <stored>

#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

using stored::Type;
using vh::Gen;

namespace {

struct Hook {
	char kind; // X x R r (entry and exit), C (hookChanged), c (own callback)
	Type::type type;
	size_t offset;
	size_t len;
	bool changed;
	std::string content; // of the store at that moment
	char const* name;
};

struct Call {
	std::string name;
	bool set;
	std::string value;
	size_t len;
};

class Store : public STORE_T(Store, stored::Signalling, stored::RichBase) {
	STORE_CLASS(Store, stored::Signalling, stored::RichBase)
public:
	Store() is_default

	std::vector<Hook> hooks;
	mutable std::vector<Call> calls;
	std::map<std::string, std::string> fvalue; // what functions return
	size_t fret = 0;			   // bytes returned by blob functions
	bool log = true;

	char const* raw() const
	{
		return this->buffer();
	}

	std::string content() const
	{
		return std::string(raw(), (size_t)BufferSize);
	}

	void hook(char kind, Type::type type, void const* buffer, size_t len, bool changed = false, char const* name = "") noexcept
	{
		if(log)
			hooks.push_back(
				{kind, type, (size_t)((char const*)buffer - raw()), len, changed,
				 content(), name});
	}

	void __hookEntryX(Type::type type, void* buffer, size_t len) noexcept
	{
		base::__hookEntryX(type, buffer, len);
		hook('X', type, buffer, len);
	}

	void __hookExitX(Type::type type, void* buffer, size_t len, bool changed) noexcept
	{
		hook('x', type, buffer, len, changed);
		base::__hookExitX(type, buffer, len, changed);
	}

	void __hookEntryRO(Type::type type, void* buffer, size_t len) noexcept
	{
		base::__hookEntryRO(type, buffer, len);
		hook('R', type, buffer, len);
	}

	void __hookExitRO(Type::type type, void* buffer, size_t len) noexcept
	{
		hook('r', type, buffer, len);
		base::__hookExitRO(type, buffer, len);
	}

	void __hookChanged(Type::type type, void* buffer, size_t len) noexcept
	{
		hook('C', type, buffer, len);
		base::__hookChanged(type, buffer, len);
	}

#define X(m, n, ...)                                                                               \
	void __##m##__changed() noexcept                                                           \
	{                                                                                          \
		hook('c', Type::Invalid, raw(), 0, false, n);                                      \
	}
	FIXED(X)
	BLOBS(X)
#undef X

	template <typename T>
	void fcall(char const* name, bool set, T& value)
	{
		VALGRIND_ALIGN(&value, sizeof(T));
		if(!set)
			memcpy(&value, fvalue[name].data(), sizeof(T));
		calls.push_back({name, set, std::string((char const*)&value, sizeof(T)), sizeof(T)});
		if(set)
			fvalue[name] = calls.back().value;
	}

	bool misaligned = false;
	void VALGRIND_ALIGN(void const* p, size_t size)
	{
		if((uintptr_t)p & (std::min(sizeof(void*), size) - 1U))
			misaligned = true;
	}

#define X(m, n, t)                                                                                 \
	void __##m(bool set, t& value)                                                             \
	{                                                                                          \
		fcall<t>(n, set, value);                                                           \
	}
	FUNCTIONS(X)
#undef X

	size_t bcall(char const* name, bool set, void* value, size_t len)
	{
		size_t n = std::min(fret, len);
		if(!set && n)
			memcpy(value, fvalue[name].data(), n);
		calls.push_back({name, set, std::string((char const*)value, set ? len : n), len});
		return n;
	}

	size_t __fs(bool set, char* value, size_t len)
	{
		return bcall("/fs", set, value, len);
	}

	size_t __fbl(bool set, void* value, size_t len)
	{
		return bcall("/fbl", set, value, len);
	}
};

typedef std::map<std::string, stored::Variant<Store>> Map;

// A heap buffer of exactly the given size, optionally not aligned.
struct Exact {
	Exact(size_t n_, size_t off_)
		: n(n_)
		, off(off_)
		, p(new char[n + off ? n + off : 1])
	{
		memset(p.get(), 0xa5, n + off);
	}
	Exact(std::string const& s, size_t off_)
		: Exact(s.size(), off_)
	{
		memcpy(p.get() + off, s.data(), n);
	}
	char* get() const
	{
		return p.get() + off;
	}
	std::string str() const
	{
		return std::string(p.get() + off, n);
	}
	size_t n, off;
	std::unique_ptr<char[]> p;
};

template <typename T>
std::string bytesOf(T x)
{
	std::string s(sizeof(T), 0);
	memcpy(&s[0], &x, sizeof(T));
	return s;
}

template <typename T>
T valueOf(std::string const& s)
{
	T x;
	memcpy(&x, s.data(), sizeof(T));
	return x;
}

std::string cstr(std::string const& s)
{
	return s.substr(0, s.find('\0'));
}

struct Obj {
	std::string name;
	Type::type type;
	size_t size;
	bool fixed;

	virtual ~Obj() = default;
	virtual size_t offset(Store&)
	{
		return 0;
	}
	virtual stored::Variant<Store> variant(Store& s) = 0;
	// Set a value, given the bytes in host order.
	virtual void set(Gen& g, Store& s, Map& map, std::string const& v) = 0;
	// Get, in host order.
	virtual std::string get(Gen& g, Store& s, Map& map) = 0;
	virtual void connect(Store&, std::function<void()>, void*) {}
	virtual void disconnect(Gen&, Store&, void*) {}
	virtual bool as(Gen&, Store&, std::string const&)
	{
		return true;
	}
};

size_t misalign(Gen& g, bool fn)
{
#ifndef VH_NO_UNALIGNED
	// Function callbacks get the pointer as is, when unaligned access is supported.
	if(fn)
		return 0;
#else
	(void)fn;
#endif
	return g.chance(1, 2) ? g.index(8) : 0;
}

template <typename O>
std::string getVariant(Gen& g, O v, size_t size, bool fn)
{
	Exact e(size, misalign(g, fn));
	size_t l = v.get(e.get(), g.chance() ? size : 0);
	VH_CHECK(g, l == size, "get-len", "get() returns %zu, expected %zu", l, size);
	return e.str();
}

template <typename O>
void setVariant(Gen& g, O v, std::string const& x, bool fn)
{
	Exact e(x, misalign(g, fn));
	size_t l = v.set(e.get(), g.chance() ? x.size() : 0);
	VH_CHECK(g, l == x.size(), "set-len", "set() returns %zu, expected %zu", l, x.size());
	VH_CHECK(g, e.str() == x, "set-src", "set() changed the source");
}

template <typename T, typename U>
bool asSame(T v, U u)
{
	U e = saturated_cast<U>(v);
	return memcmp(&e, &u, sizeof(U)) == 0 || (e != e && u != u);
}

template <typename T>
struct As {
	template <typename O>
	static bool check(Gen& g, O& o, T v)
	{
		switch(g.index(8)) {
		case 0: return asSame(v, o.template as<bool>());
		case 1: return asSame(v, o.template as<int8_t>());
		case 2: return asSame(v, o.template as<uint16_t>());
		case 3: return asSame(v, o.template as<int32_t>());
		case 4: return asSame(v, o.template as<uint64_t>());
		case 5: return asSame(v, o.template as<int64_t>());
		case 6: return asSame(v, o.template as<float>());
		default: return asSame(v, o.template as<double>());
		}
	}
};
template <>
struct As<void*> {
	template <typename O>
	static bool check(Gen&, O&, void*)
	{
		return true;
	}
};

template <typename T, typename M>
struct FixedVar : Obj {
	M m;
	explicit FixedVar(char const* n, M m_)
		: m(m_)
	{
		name = n;
		type = stored::toType<T>::type;
		size = sizeof(T);
		fixed = true;
	}

	size_t offset(Store& s) override
	{
		return (size_t)m(s).key();
	}

	stored::Variant<Store> variant(Store& s) override
	{
		return m(s).variant();
	}

	void set(Gen& g, Store& s, Map& map, std::string const& x) override
	{
		T v = valueOf<T>(x);
		unsigned r = (unsigned)g.index(15);
		g.note("  %s set route %u: %s", name.c_str(), r, vh::hex(x).c_str());
		switch(r) {
		case 0: m(s).set(v); break;
		case 1: m(s) = v; break;
		case 2: m(s).variable().set(v); break;
		case 3: m(s).variable() = v; break;
		case 4: m(s).variant().template set<T>(v); break;
		case 5: setVariant(g, m(s).variant(), x, false); break;
		case 6: s.find(name.c_str()).template set<T>(v); break;
		case 7: s.find(name.c_str(), name.size()).template variable<T>().set(v); break;
		case 8: Store::freeVariable<T>(name.c_str()).apply(s).set(v); break;
		case 9: Store::freeVariable<T>(name.c_str()).apply_(s) = v; break;
		case 10: s.template variable<T>(name.c_str()).set(v); break;
		case 11: setVariant(g, map.at(name), x, false); break;
		case 12: {
			stored::Variable<T, Store> var = m(s);
			stored::Variable<T, Store> var2;
			var2 = var;
			var2.set(v);
			break;
		}
		case 13: {
			auto var = map.at(name).template variable<T>();
			stored::Variant<Store>(var).template set<T>(v);
			break;
		}
		case 14: {
			auto d = x;
			stored::Vector<char>::type vec(d.begin(), d.end());
			m(s).variant().set(vec);
			break;
		}
		}
	}

	std::string get(Gen& g, Store& s, Map& map) override
	{
		unsigned r = (unsigned)g.index(14);
		g.note("  %s get route %u", name.c_str(), r);
		switch(r) {
		case 0: return bytesOf<T>(m(s).get());
		case 1: return bytesOf<T>((T)m(s));
		case 2: return bytesOf<T>(m(s).variable().get());
		case 3: return bytesOf<T>((T)m(s).variable());
		case 4: return bytesOf<T>(m(s).variant().template get<T>());
		case 5: return getVariant(g, m(s).variant(), size, false);
		case 6: return bytesOf<T>(s.find(name.c_str()).template get<T>());
		case 7: return bytesOf<T>(s.find(name.c_str()).template variable<T>().get());
		case 8: return bytesOf<T>(Store::freeVariable<T>(name.c_str()).apply(s).get());
		case 9: return bytesOf<T>(s.template variable<T>(name.c_str(), name.size()).get());
		case 10: return getVariant(g, map.at(name), size, false);
		case 11: {
			stored::Variant<Store> var = m(s);
			return bytesOf<T>(var.template variable<T>().get());
		}
		case 12: {
			auto v = m(s).variant().get();
			return std::string(v.begin(), v.end());
		}
		default: {
			auto v = stored::find(s, s.shortDirectory(), name.c_str(), name.size());
			return bytesOf<T>(v.template get<T>());
		}
		}
	}

	bool as(Gen& g, Store& s, std::string const& x) override
	{
		T v = valueOf<T>(x);
		switch(g.index(2)) {
		case 0: return As<T>::check(g, m(s), v);
		default: {
			auto var = m(s).variable();
			return As<T>::check(g, var, v);
		}
		}
	}

	void connect(Store& s, std::function<void()> f, void* token) override
	{
		if(token)
			s.connect(m(s), std::move(f), token);
		else
			s.connect(m(s), std::move(f));
	}

	void disconnect(Gen&, Store& s, void* token) override
	{
		if(token)
			s.disconnect(m(s), token);
		else
			s.disconnect(m(s));
	}
};

// Strings are given and returned without terminator, blobs always have full size.
template <typename M>
struct BlobVar : Obj {
	M m;
	BlobVar(char const* n, Type::type t, size_t sz, M m_)
		: m(m_)
	{
		name = n;
		type = t;
		size = sz;
		fixed = false;
	}

	size_t offset(Store& s) override
	{
		return (size_t)m(s).key();
	}

	stored::Variant<Store> variant(Store& s) override
	{
		return m(s).variant();
	}

	// x may be of any size.
	void set(Gen& g, Store& s, Map& map, std::string const& x) override
	{
		unsigned r = (unsigned)g.index(6);
		g.note("  %s set route %u: %s", name.c_str(), r, vh::hex(x).c_str());
		Exact e(x, misalign(g, false));
		switch(r) {
		case 0: m(s).set(e.get(), x.size()); break;
		case 1: m(s).variant().set(e.get(), x.size()); break;
		case 2: s.find(name.c_str()).set(e.get(), x.size()); break;
		case 3: map.at(name).set(e.get(), x.size()); break;
		case 4: {
			stored::Vector<char>::type vec(x.begin(), x.end());
			vec.reserve(1); // has a valid data()
			m(s).variant().set(vec);
			break;
		}
		case 5:
			if(type == Type::String && x.find('\0') == x.npos) {
				Exact z(x + std::string(1, '\0'), 0);
				if(g.chance())
					m(s).set((char const*)z.get());
				else
					s.find(name.c_str()).set((char const*)z.get());
			} else
				m(s).variant().set(e.get(), x.size());
			break;
		}
		VH_CHECK(g, e.str() == x, "set-src", "set() changed the source");
	}

	std::string getn(Gen& g, Store& s, Map& map, size_t n)
	{
		unsigned r = (unsigned)g.index(4);
		g.note("  %s get route %u: %zu bytes", name.c_str(), r, n);
		Exact e(n, misalign(g, false));
		size_t l = 0;
		switch(r) {
		case 0: l = m(s).get(e.get(), n); break;
		case 1: l = m(s).variant().get(e.get(), n); break;
		case 2: l = s.find(name.c_str()).get(e.get(), n); break;
		default: l = map.at(name).get(e.get(), n); break;
		}
		VH_CHECK(g, l <= n && l <= size, "get-len", "get(%zu) returns %zu", n, l);
		std::string res = e.str();
		if(type == Type::String) {
			VH_CHECK(g, l == std::min(n, size) || res[l] == 0, "unterminated", "string is not terminated");
			VH_CHECK(g, res.find('\0') == res.npos || res.find('\0') == l, "get-len-string", "string of length %zu, but %zu returned",
				 res.find('\0'), l);
		}
		return res.substr(0, l);
	}

	std::string get(Gen& g, Store& s, Map& map) override
	{
		if(g.chance(1, 5)) {
			auto v = m(s).variant().get();
			VH_CHECK(g, v.size() == size, "get-vector", "wrong vector size");
			std::string res(v.begin(), v.end());
			return type == Type::String ? cstr(res) : res;
		}
		return getn(g, s, map, size + g.index(3));
	}

	void connect(Store& s, std::function<void()> f, void* token) override
	{
		if(token)
			s.connect(m(s), std::move(f), token);
		else
			s.connect(m(s), std::move(f));
	}

	void disconnect(Gen&, Store& s, void* token) override
	{
		if(token)
			s.disconnect(m(s), token);
		else
			s.disconnect(m(s));
	}
};

struct Dummy {};

template <typename T, typename M>
FixedVar<T, M>* newFixed(char const* n, M m)
{
	return new FixedVar<T, M>(n, m);
}
template <typename M>
BlobVar<M>* newBlob(char const* n, Type::type t, size_t s, M m)
{
	return new BlobVar<M>(n, t, s, m);
}

std::vector<Obj*> const& vars()
{
	static std::vector<Obj*> v;
	if(v.empty()) {
#define X(mm, n, t) v.push_back(newFixed<t>(n, [](Store& s) -> auto& { return s.mm; }));
		FIXED(X)
#undef X
#define X(mm, n, t, z)                                                                             \
	v.push_back(newBlob(n, Type::t, z, [](Store& s) -> auto& { return s.mm; }));
		BLOBS(X)
#undef X
	}
	return v;
}

// Reads a variable from the raw store.
std::string rawValue(Store& s, Obj& o, std::string const& content)
{
	size_t off = o.offset(s);
	std::string b = content.substr(off, o.size);
	if(o.type == Type::String)
		return cstr(content.substr(off, o.size + 1));
#ifdef VH_BIG_ENDIAN_STORE
	if(o.fixed)
		b = std::string(b.rbegin(), b.rend());
#endif
	return b;
}

std::string genValue(Gen& g, Obj& o, std::string const& current)
{
	std::string v;
	switch(g.weighted({6, 2, 2})) {
	case 1: // same
		return current;
	case 2: // a bit differs
		v = current;
		if(!v.empty() && o.type != Type::Bool) {
			v[g.index(v.size())] ^= (char)(1U << g.index(8));
			return v;
		}
		break;
	default:
		break;
	}
	if(o.type == Type::Bool)
		return std::string(1, (char)g.index(2));
	if(o.fixed) {
		if(g.chance(1, 6) && !Type::isInt(o.type) && o.type != Type::Pointer) {
			double x[] = {0, -0.0, 1, 1e30, -1e30, INFINITY, -INFINITY, NAN, 0.5, -0.5, 1e300};
			double y = x[g.index(11)];
			return o.type == Type::Float ? bytesOf<float>((float)y) : bytesOf<double>(y);
		}
		uint64_t b = g.bits((unsigned)o.size * 8);
		v.assign(o.size, 0);
		memcpy(&v[0], &b, o.size);
		return v;
	}
	// strings and blobs: any length, possibly with zeros within.
	size_t n = g.index(o.size + 4);
	if(g.chance(1, 3)) // differs only at the end
		v = current.substr(0, n);
	while(v.size() < n)
		v += g.chance(1, 8) ? '\0' : (char)("abcx\x80\xff"[g.index(6)]);
	return v;
}

// What the variable will hold, when v is written to it.
std::string applied(Obj& o, std::string const& current, std::string const& v)
{
	if(o.fixed)
		return v;
	std::string x = v.substr(0, std::min(v.size(), o.size));
	if(o.type == Type::String)
		return cstr(x);
	return x + current.substr(x.size());
}

void engine(Gen& g, bool values, bool hooks)
{
	// In a heap buffer of exactly the right size.
	std::unique_ptr<Store> stores[2];
	Map maps[2];
	std::vector<std::string> model[2];
	struct Conn {
		int store;
		size_t var;
		void* token;
		int id;
	};
	std::vector<Conn> conns;
	std::vector<int> called;
	bool calledEarly = false;
	std::string calledValue;

	auto& vs = vars();
	for(int i = 0; i < 2; i++) {
		stores[i].reset(new Store());
		Store& s = *stores[i];
		auto m = s.map();
		for(auto& x : m)
			maps[i].emplace(std::string(x.first.data(), x.first.size()), x.second);
		VH_CHECK(g, maps[i].size() == (size_t)Store::ObjectCount, "map-size", "map of %zu objects", maps[i].size());
		for(auto* o : vs) {
			auto v = rawValue(s, *o, s.content());
			model[i].push_back(v);
		}
	}

	int steps = (int)g.range<int>(1, 40);
	unsigned hot = (unsigned)g.index(vs.size());
	bool changes = false, sames = false;
	int nextId = 0;

	for(int step = 0; step < steps; step++) {
		int si = (int)g.index(2);
		Store& s = *stores[si];
		size_t vi = g.chance() ? hot : g.index(vs.size());
		Obj& o = *vs[vi];
		std::string& cur = model[si][vi];
		std::string before[2];
		for(int i = 0; i < 2; i++) {
			stores[i]->hooks.clear();
			stores[i]->calls.clear();
			before[i] = stores[i]->content();
		}
		called.clear();
		calledEarly = false;

		bool access = true, write = false, copy = false;
		std::string old = cur;
		switch(g.weighted({8, 6, 2, 2, hooks ? 4u : 0u, hooks ? 2u : 0u})) {
		case 0: {
			std::string v = genValue(g, o, cur);
			g.note("store %d", si);
			o.set(g, s, maps[si], v);
			cur = applied(o, cur, v);
			write = true;
			break;
		}
		case 1: {
			g.note("store %d", si);
			std::string v = o.get(g, s, maps[si]);
			if(values)
				VH_CHECK(g, v == cur, "get", "%s is %s, expected %s", o.name.c_str(), vh::hex(v).c_str(),
					 vh::hex(cur).c_str());
			break;
		}
		case 2: {
			if(o.fixed) {
				if(o.type == Type::Pointer) {
					access = false;
					break;
				}
				g.note("store %d %s as", si, o.name.c_str());
				bool ok = o.as(g, s, cur);
				if(values)
					VH_CHECK(g, ok, "as", "%s as another type, of %s", o.name.c_str(), vh::hex(cur).c_str());
			} else {
				// partial read
				size_t n = g.index(o.size + 3);
				g.note("store %d", si);
				auto e = Exact(n, misalign(g, false));
				size_t l = o.variant(s).get(e.get(), n);
				std::string v = e.str().substr(0, std::min(l, n));
				g.note("  %s get %zu bytes", o.name.c_str(), n);
				if(values) {
					VH_CHECK(g, l == std::min(n, cur.size()), "get-part-len", "%s get(%zu) returns %zu",
						 o.name.c_str(), n, l);
					VH_CHECK(g, v == cur.substr(0, l), "get-part", "%s is %s, expected the first %zu bytes of %s",
						 o.name.c_str(), vh::hex(v).c_str(), n, vh::hex(cur).c_str());
					if(o.type == Type::String && l < std::min(n, o.size))
						VH_CHECK(g, e.str()[l] == 0, "unterminated", "not terminated");
				}
			}
			break;
		}
		case 3: { // copy from the other store
			g.note("copy store %d to %d %s", 1 - si, si, o.name.c_str());
			auto dst = g.chance() ? o.variant(s) : maps[si].at(o.name);
			auto src = o.variant(*stores[1 - si]);
			dst.copy(src);
			cur = model[1 - si][vi];
			write = copy = true;
			break;
		}
		case 4: {
			access = false;
			int id = nextId++;
			void* token = (void*)(uintptr_t)g.index(3);
			g.note("connect %d to store %d %s token %p", id, si, o.name.c_str(), token);
			Obj* po = &o;
			o.connect(
				s,
				[&called, &calledValue, &s, id, po]() {
					called.push_back(id);
					// One would like to know the new value.
					bool l = s.log;
					s.log = false;
					auto var = po->variant(s);
					if(po->fixed) {
						calledValue.assign(po->size, 0);
						var.get(&calledValue[0], po->size);
					} else {
						calledValue.assign(po->size, 0);
						size_t n = var.get(&calledValue[0], po->size);
						calledValue.resize(n);
					}
					s.log = l;
				},
				token);
			conns.push_back({si, vi, token, id});
			break;
		}
		case 5: {
			access = false;
			if(conns.empty())
				break;
			auto c = conns[g.index(conns.size())];
			void* token = g.chance(1, 4) ? (void*)(uintptr_t)g.index(3) : c.token;
			g.note("disconnect store %d %s token %p", c.store, vs[c.var]->name.c_str(), token);
			vs[c.var]->disconnect(g, *stores[c.store], token);
			for(size_t i = conns.size(); i-- > 0;)
				if(conns[i].store == c.store && conns[i].var == c.var && conns[i].token == token)
					conns.erase(conns.begin() + (long)i);
			break;
		}
		}

		// Bookkeeping
		bool changed = cur != old;
		if(changed)
			changes = true;
		if(write && !changed)
			sames = true;

		if(values) {
			for(int i = 0; i < 2; i++) {
				auto c = stores[i]->content();
				for(size_t j = 0; j < vs.size(); j++) {
					auto v = rawValue(*stores[i], *vs[j], c);
					VH_CHECK(g, v == model[i][j], i == si && j == vi ? "set" : "other-changed",
						 "store %d %s is %s, expected %s", i, vs[j]->name.c_str(), vh::hex(v).c_str(),
						 vh::hex(model[i][j]).c_str());
				}
				VH_CHECK(g, stores[i]->calls.empty(), "function-called", "access to a variable called a function");
			}
		}

		if(hooks) {
			for(int i = 0; i < 2; i++) {
				auto& h = stores[i]->hooks;
				bool here = i == si && access;
				bool ro = copy && i != si;
				if(!here && !ro) {
					VH_CHECK(g, h.empty(), "spurious-hook", "hook %c of store %d", h[0].kind, i);
					continue;
				}
				char entry = here && write ? 'X' : 'R', exit = here && write ? 'x' : 'r';
				VH_CHECK(g, h.size() >= 2 && h[0].kind == entry && h[1].kind == exit, "hooks",
					 "store %d: %zu hooks: %c %c, expected %c %c", i, h.size(), h.empty() ? '-' : h[0].kind,
					 h.size() < 2 ? '-' : h[1].kind, entry, exit);
				for(size_t j = 0; j < h.size() && h[j].kind != 'c'; j++) {
					VH_CHECK(g, h[j].offset == o.offset(s), "hook-address", "hook %c is about offset %zu, but %s is at %zu",
						 h[j].kind, h[j].offset, o.name.c_str(), o.offset(s));
					VH_CHECK(g, h[j].type == o.type || h[j].type == Type::Invalid, "hook-type", "hook %c type 0x%02x, expected 0x%02x",
						 h[j].kind, (unsigned)h[j].type, (unsigned)o.type);
					if(o.fixed)
						VH_CHECK(g, h[j].len == o.size, "hook-len", "hook %c len %zu, expected %zu", h[j].kind, h[j].len,
							 o.size);
					else
						VH_CHECK(g, h[j].len <= o.size + (o.type == Type::String), "hook-len",
							 "hook %c len %zu exceeds %zu", h[j].kind, h[j].len, o.size);
				}
				VH_CHECK(g, h[0].content == before[i], "entry-late", "content changed before the entry hook");
				VH_CHECK(g, h[1].content == stores[i]->content(), "exit-early", "content changed after the exit hook");
				bool ch = here && write && changed;
				if(ch) {
					std::string now = stores[i]->content();
					for(size_t b = 0; b < now.size(); b++)
						if(now[b] != before[i][b])
							VH_CHECK(g, b >= h[1].offset && b < h[1].offset + h[1].len, "hook-range",
								 "byte %zu changed, but the hook is about %zu bytes at %zu", b, h[1].len, h[1].offset);
				}
				if(write && here)
					VH_CHECK(g, h[1].changed == ch, ch ? "change-not-reported" : "change-invented",
						 "%s from %s to %s: changed is %d", o.name.c_str(), vh::hex(old).c_str(), vh::hex(cur).c_str(),
						 h[1].changed);
				size_t nC = 0, nc = 0;
				for(size_t j = 2; j < h.size(); j++) {
					if(h[j].kind == 'C')
						nC++;
					else if(h[j].kind == 'c') {
						nc++;
						VH_CHECK(g, o.name == h[j].name, "changed-other", "%s reported as changed, instead of %s",
							 h[j].name, o.name.c_str());
					} else
						g.fail("hooks-more", "unexpected hook %c", h[j].kind);
				}
				VH_CHECK(g, nC == (ch ? 1u : 0u), "hookChanged", "%zu calls of hookChanged", nC);
				VH_CHECK(g, nc == (ch ? 1u : 0u), "own-changed", "%zu calls of changed()", nc);
			}
			std::vector<int> expect;
			if(access && write && changed)
				for(auto const& c : conns)
					if(c.store == si && c.var == vi)
						expect.push_back(c.id);
			std::vector<int> got = called;
			std::sort(got.begin(), got.end());
			std::sort(expect.begin(), expect.end());
			VH_CHECK(g, got == expect, "signals", "%zu signal callbacks, expected %zu", got.size(), expect.size());
			if(!expect.empty()) {
				g.cls("signalled");
				VH_CHECK(g, calledValue == cur, "signal-value", "callback sees %s, instead of %s", vh::hex(calledValue).c_str(),
					 vh::hex(cur).c_str());
			}
		}
	}
	g.nontrivial(changes && sames && steps > 4);
	g.cls(changes ? "changes" : "no changes");
}

} // namespace

VH_PROPERTY(access, 60000, 1500000, "more than four accesses, with writes that do and do not change a variable")
{
	engine(g, true, false);
}

VH_PROPERTY(hooks, 60000, 1500000, "more than four accesses, with writes that do and do not change a variable")
{
	engine(g, false, true);
}

namespace {

template <typename T, typename M>
struct FixedFn : Obj {
	M m;
	FixedFn(char const* n, M m_)
		: m(m_)
	{
		name = n;
		type = stored::toType<T>::type;
		size = sizeof(T);
		fixed = true;
	}

	stored::Variant<Store> variant(Store& s) override
	{
		return m(s).variant();
	}

	void set(Gen& g, Store& s, Map& map, std::string const& x) override
	{
		T v = valueOf<T>(x);
		unsigned r = (unsigned)g.index(18);
		g.note("  %s set route %u: %s", name.c_str(), r, vh::hex(x).c_str());
		Exact e(x, misalign(g, true));
		size_t l = size;
		switch(r) {
		case 0: m(s).set(v); break;
		case 1: m(s) = v; break;
		case 2: m(s)(v); break;
		case 3: l = m(s).set(e.get(), size); break;
		case 4: m(s).function().set(v); break;
		case 5: m(s).function() = v; break;
		case 6: m(s).function()(v); break;
		case 7: l = m(s).function().set(e.get(), size); break;
		case 8: m(s).variant().template set<T>(v); break;
		case 9: setVariant(g, m(s).variant(), x, true); break;
		case 10: s.find(name.c_str()).template set<T>(v); break;
		case 11: setVariant(g, s.find(name.c_str()), x, true); break;
		case 12: s.find(name.c_str()).template function<T>().set(v); break;
		case 13: Store::freeFunction<T>(name.c_str()).apply(s).set(v); break;
		case 14: Store::freeFunction<T>(name.c_str()).apply_(s)(v); break;
		case 15: s.template function<T>(name.c_str()).set(v); break;
		case 16: setVariant(g, map.at(name), x, true); break;
		case 17: {
			stored::Function<T, Store> f = m(s);
			stored::Variant<Store>(f).template set<T>(v);
			break;
		}
		}
		VH_CHECK(g, l == size, "fset-len", "set() returns %zu", l);
		VH_CHECK(g, e.str() == x, "fset-src", "set() changed the source");
	}

	std::string get(Gen& g, Store& s, Map& map) override
	{
		unsigned r = (unsigned)g.index(18);
		g.note("  %s get route %u", name.c_str(), r);
		Exact e(size, misalign(g, true));
		size_t l = size;
		std::string res;
		switch(r) {
		case 0: return bytesOf<T>(m(s).get());
		case 1: return bytesOf<T>((T)m(s));
		case 2: return bytesOf<T>(m(s)());
		case 3:
			l = m(s).get(e.get(), size);
			res = e.str();
			break;
		case 4: return bytesOf<T>(m(s).function().get());
		case 5: return bytesOf<T>((T)m(s).function());
		case 6: return bytesOf<T>(m(s).function()());
		case 7:
			l = m(s).function().get(e.get(), size);
			res = e.str();
			break;
		case 8: return bytesOf<T>(m(s).variant().template get<T>());
		case 9: return getVariant(g, m(s).variant(), size, true);
		case 10: return bytesOf<T>(s.find(name.c_str()).template get<T>());
		case 11: return getVariant(g, s.find(name.c_str()), size, true);
		case 12: return bytesOf<T>(s.find(name.c_str()).template function<T>().get());
		case 13: return bytesOf<T>(Store::freeFunction<T>(name.c_str()).apply(s).get());
		case 14: return bytesOf<T>(s.template function<T>(name.c_str(), name.size())());
		case 15: return getVariant(g, map.at(name), size, true);
		case 16: {
			auto v = m(s).variant().get();
			return std::string(v.begin(), v.end());
		}
		default: {
			stored::Variant<Store> v = m(s);
			return bytesOf<T>(v.template function<T>().get());
		}
		}
		VH_CHECK(g, l == size, "fget-len", "get() returns %zu", l);
		return res;
	}

	bool as(Gen& g, Store& s, std::string const& x) override
	{
		T v = valueOf<T>(x);
		if(g.chance())
			return As<T>::check(g, m(s), v);
		auto f = m(s).function();
		return As<T>::check(g, f, v);
	}
};

template <typename T, typename M>
FixedFn<T, M>* newFn(char const* n, M m)
{
	return new FixedFn<T, M>(n, m);
}

template <typename M>
struct BlobFn : Obj {
	M m;
	BlobFn(char const* n, Type::type t, size_t sz, M m_)
		: m(m_)
	{
		name = n;
		type = t;
		size = sz;
		fixed = false;
	}
	stored::Variant<Store> variant(Store& s) override
	{
		return m(s).variant();
	}
	void set(Gen& g, Store& s, Map& map, std::string const& x) override
	{
		unsigned r = (unsigned)g.index(5);
		g.note("  %s set route %u: %s", name.c_str(), r, vh::hex(x).c_str());
		Exact e(x, misalign(g, false));
		size_t l = 0;
		switch(r) {
		case 0: l = m(s).set(e.get(), x.size()); break;
		case 1: l = m(s).variant().set(e.get(), x.size()); break;
		case 2: l = s.find(name.c_str()).set(e.get(), x.size()); break;
		case 3: l = map.at(name).set(e.get(), x.size()); break;
		case 4: {
			stored::Vector<char>::type vec(x.begin(), x.end());
			vec.reserve(1);
			m(s).variant().set(vec);
			return;
		}
		}
		VH_CHECK(g, l == std::min(s.fret, std::min(x.size(), size)), "fset-len", "set() returns %zu", l);
		VH_CHECK(g, e.str() == x, "fset-src", "set() changed the source");
	}
	std::string getn(Gen& g, Store& s, Map& map, size_t n)
	{
		unsigned r = (unsigned)g.index(4);
		g.note("  %s get route %u: %zu", name.c_str(), r, n);
		Exact e(n, misalign(g, false));
		size_t l = 0;
		switch(r) {
		case 0: l = m(s).get(e.get(), n); break;
		case 1: l = m(s).variant().get(e.get(), n); break;
		case 2: l = s.find(name.c_str()).get(e.get(), n); break;
		default: l = map.at(name).get(e.get(), n); break;
		}
		VH_CHECK(g, l == std::min(s.fret, std::min(n, size)), "fget-len", "get(%zu) returns %zu", n, l);
		return e.str().substr(0, l);
	}
	std::string get(Gen& g, Store& s, Map& map) override
	{
		return getn(g, s, map, g.index(size + 4));
	}
};

template <typename M>
BlobFn<M>* newBlobFn(char const* n, Type::type t, size_t sz, M m)
{
	return new BlobFn<M>(n, t, sz, m);
}

std::vector<Obj*> const& fns()
{
	static std::vector<Obj*> v;
	if(v.empty()) {
#define X(mm, n, t) v.push_back(newFn<t>(n, [](Store& s) -> auto& { return s.mm; }));
		FUNCTIONS(X)
#undef X
		v.push_back(newBlobFn("/fs", Type::String, 9, [](Store& s) -> auto& { return s.fs; }));
		v.push_back(newBlobFn("/fbl", Type::Blob, 6, [](Store& s) -> auto& { return s.fbl; }));
	}
	return v;
}

// Many functions

class ManyStore : public STORE_T(ManyStore, stored::ManyDefaultFunctions, stored::ManyBase) {
	STORE_CLASS(ManyStore, stored::ManyDefaultFunctions, stored::ManyBase)
public:
	ManyStore() is_default

	std::vector<int> called;
	uint16_t value = 0;
	bool wasSet = false;

	void call(int i, bool set, uint16_t& v)
	{
		called.push_back(i);
		wasSet = set;
		if(set)
			value = v;
		else
			v = value;
	}

#define F(i)                                                                                       \
	void __f_##i(bool set, uint16_t& v)                                                        \
	{                                                                                          \
		call(i, set, v);                                                                   \
	}
	// clang-format off
	F(0) F(1) F(2) F(53) F(54) F(55) F(56) F(57) F(127) F(128) F(252) F(253) F(254) F(255)
	// clang-format on
#undef F
};

} // namespace

VH_PROPERTY(functions, 60000, 1500000, "more than four accesses, to at least two functions, with sets and gets")
{
	std::unique_ptr<Store> stores[2];
	Map maps[2];
	auto& fs = fns();
	for(int i = 0; i < 2; i++) {
		stores[i].reset(new Store());
		auto m = stores[i]->map();
		for(auto& x : m)
			maps[i].emplace(std::string(x.first.data(), x.first.size()), x.second);
		for(auto* f : fs)
			stores[i]->fvalue[f->name] = std::string(16, 0);
	}

	int steps = (int)g.range<int>(1, 30);
	bool sets = false, gets = false;
	std::set<size_t> used;
	for(int step = 0; step < steps; step++) {
		int si = (int)g.index(2);
		Store& s = *stores[si];
		size_t fi = g.index(fs.size());
		used.insert(fi);
		Obj& f = *fs[fi];
		std::string before[2];
		for(int i = 0; i < 2; i++) {
			stores[i]->hooks.clear();
			stores[i]->calls.clear();
			stores[i]->misaligned = false;
			before[i] = stores[i]->content();
		}
		s.fret = g.index(f.size + 3);
		bool set = g.chance();
		std::string expect;
		size_t len = f.size;
		g.note("store %d", si);
		if(set) {
			sets = true;
			std::string v = genValue(g, f, s.fvalue[f.name].substr(0, f.size));
			f.set(g, s, maps[si], v);
			expect = v.substr(0, std::min(v.size(), f.size));
			len = expect.size();
		} else {
			gets = true;
			std::string v = genValue(g, f, s.fvalue[f.name].substr(0, f.size));
			v.resize(std::max<size_t>(v.size(), 16));
			s.fvalue[f.name] = v;
			if(f.fixed && f.type != Type::Pointer && g.chance(1, 5)) {
				g.note("  %s as", f.name.c_str());
				VH_CHECK(g, f.as(g, s, v), "fas", "%s as another type, of %s", f.name.c_str(), vh::hex(v).c_str());
				expect = v.substr(0, f.size);
			} else {
				std::string got = f.get(g, s, maps[si]);
				expect = v.substr(0, f.fixed ? f.size : got.size());
				VH_CHECK(g, got == expect, "fget", "%s gives %s, expected %s", f.name.c_str(), vh::hex(got).c_str(),
					 vh::hex(expect).c_str());
			}
			if(!f.fixed)
				len = (size_t)-1;
		}

		auto& c = s.calls;
		VH_CHECK(g, c.size() == 1, "call-count", "%zu calls of the function", c.size());
		VH_CHECK(g, c[0].name == f.name, "call-other", "%s called instead of %s", c[0].name.c_str(), f.name.c_str());
		VH_CHECK(g, c[0].set == set, "call-direction", "set is %d, expected %d", c[0].set, set);
		VH_CHECK(g, c[0].value == expect, "call-value", "%s, expected %s", vh::hex(c[0].value).c_str(), vh::hex(expect).c_str());
		if(len != (size_t)-1)
			VH_CHECK(g, c[0].len == len, "call-len", "len is %zu, expected %zu", c[0].len, len);
		else
			VH_CHECK(g, c[0].len <= f.size, "call-len", "len is %zu, exceeding %zu", c[0].len, f.size);
		VH_CHECK(g, !s.misaligned, "call-align", "misaligned value");
		VH_CHECK(g, stores[1 - si]->calls.empty(), "call-store", "function of the other store called");
		for(int i = 0; i < 2; i++) {
			VH_CHECK(g, stores[i]->hooks.empty(), "fn-hooks", "hook %c", stores[i]->hooks[0].kind);
			VH_CHECK(g, stores[i]->content() == before[i], "fn-changes", "a function access changed the store");
		}
	}

	// A store with many functions
	static int const ids[] = {0, 1, 2, 53, 54, 55, 56, 57, 127, 128, 252, 253, 254, 255};
	std::unique_ptr<ManyStore> m(new ManyStore());
	for(int k = 0; k < 3; k++) {
		int id = ids[g.index(sizeof(ids) / sizeof(ids[0]))];
		char name[16];
		snprintf(name, sizeof(name), "/f[%d]", id);
		m->called.clear();
		uint16_t v = (uint16_t)g.bits(16);
		unsigned r = (unsigned)g.index(7);
		g.note("%s route %u %u", name, r, v);
		bool set = r < 4;
		uint16_t got = 0;
		if(!set)
			m->value = v;
		switch(r) {
		case 0: ManyStore::freeFunction<uint16_t>(name).apply(*m).set(v); break;
		case 1: m->function<uint16_t>(name).set(v); break;
		case 2: m->find(name).set<uint16_t>(v); break;
		case 3: m->find(name).function<uint16_t>()(v); break;
		case 4: got = ManyStore::freeFunction<uint16_t>(name).apply_(*m).get(); break;
		case 5: got = m->function<uint16_t>(name)(); break;
		case 6: got = m->find(name).get<uint16_t>(); break;
		}
		VH_CHECK(g, m->called.size() == 1 && m->called[0] == id, "many-call", "%zu calls, %s%d called instead of %d",
			 m->called.size(), m->called.empty() ? "none " : "", m->called.empty() ? 0 : m->called[0], id);
		VH_CHECK(g, m->wasSet == set && m->value == v && (set || got == v), "many-value", "wrong value");
	}
	g.nontrivial(steps > 4 && sets && gets && used.size() > 1);
}
