// Simulation of processes that synchronize stores.
#ifndef VH_SYNC_H
#define VH_SYNC_H
#include "SyncA.h"
#include "SyncB.h"
#include "SyncC.h"
#include "vh.h"
#include <stored>

#include <algorithm>
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace sim {

using stored::Type;
using vh::Gen;

#ifdef VH_BIG_ENDIAN_STORE
static char const cHello = 'H', cWelcome = 'W', cUpdate = 'U', cBye = 'B';
static bool const big = true;
#else
static char const cHello = 'h', cWelcome = 'w', cUpdate = 'u', cBye = 'b';
static bool const big = false;
#endif

inline uint64_t number(char const* p, size_t len)
{
	uint64_t x = 0;
	for(size_t i = 0; i < len; i++)
		x |= (uint64_t)(uint8_t)p[big ? len - 1 - i : i] << (8 * i);
	return x;
}

inline std::string bytes(uint64_t x, size_t len)
{
	std::string s;
	for(size_t i = 0; i < len; i++)
		s += (char)(x >> (8 * (big ? len - 1 - i : i)));
	return s;
}

struct Var {
	std::string name;
	Type::type type;
	size_t size;
	size_t offset;
};

struct HookEvent {
	char kind; // C, R, r
	size_t offset;
	size_t len;
};

struct Log {
	std::vector<HookEvent> hooks;
	size_t nested = 0;
	bool unbalanced = false;
};

#define SYNC_STORES(X) X(A) X(B) X(C)

#define STORE(n)                                                                                   \
	/* Without hooks */                                                                        \
	class S##n : public STORE_T(S##n, stored::Sync##n##DefaultFunctions, stored::Synchronizable, stored::Sync##n##Base) { \
		STORE_CLASS(S##n, stored::Sync##n##DefaultFunctions, stored::Synchronizable, stored::Sync##n##Base) \
	public:                                                                                    \
		S##n() is_default                                                                  \
		Log* log = nullptr;                                                                \
		char* raw()                                                                        \
		{                                                                                  \
			return (char*)this->buffer();                                              \
		}                                                                                  \
	};                                                                                         \
	/* With hooks */                                                                           \
	class H##n : public STORE_T(H##n, stored::Sync##n##DefaultFunctions, stored::Synchronizable, stored::Sync##n##Base) { \
		STORE_CLASS(H##n, stored::Sync##n##DefaultFunctions, stored::Synchronizable, stored::Sync##n##Base) \
	public:                                                                                    \
		H##n() is_default                                                                  \
		Log* log = nullptr;                                                                \
		char* raw()                                                                        \
		{                                                                                  \
			return (char*)this->buffer();                                              \
		}                                                                                  \
		void hook(char k, void* b, size_t len)                                             \
		{                                                                                  \
			if(log)                                                                    \
				log->hooks.push_back({k, (size_t)((char*)b - raw()), len});        \
		}                                                                                  \
		void __hookEntryRO(Type::type, void* b, size_t len) noexcept                       \
		{                                                                                  \
			hook('R', b, len);                                                         \
		}                                                                                  \
		void __hookExitRO(Type::type, void* b, size_t len) noexcept                        \
		{                                                                                  \
			hook('r', b, len);                                                         \
		}                                                                                  \
		void __hookChanged(Type::type type, void* b, size_t len) noexcept                  \
		{                                                                                  \
			hook('C', b, len);                                                         \
			base::__hookChanged(type, b, len);                                         \
		}                                                                                  \
	};
SYNC_STORES(STORE)
#undef STORE

struct Box {
	virtual ~Box() = default;
	std::vector<Var> vars;
	Log log;
	bool hooked = false;

	virtual char* raw() = 0;
	virtual size_t size() = 0;
	virtual char const* hash() = 0;
	virtual stored::StoreJournal& journal() = 0;
	virtual void set(size_t var, std::string const& v) = 0;
	virtual void map(stored::Synchronizer& s) = 0;
	virtual void unmap(stored::Synchronizer& s) = 0;
	virtual void syncFrom(stored::Synchronizer& s, stored::ProtocolLayer& l) = 0;
	virtual void process(stored::Synchronizer& s) = 0;
	virtual void process(stored::Synchronizer& s, stored::ProtocolLayer& l) = 0;

	size_t keySize()
	{
		size_t s = size();
		return s < 0x100 ? 1 : s < 0x10000 ? 2 : 4;
	}

	static std::string value(Var const& v, char const* buffer)
	{
		if(v.type == Type::String)
			return std::string(buffer + v.offset, strnlen(buffer + v.offset, v.size));
		return std::string(buffer + v.offset, v.size);
	}

	// In store order
	std::string value(size_t v)
	{
		return value(vars[v], raw());
	}

	std::string content()
	{
		return std::string(raw(), size());
	}
};

template <typename S, bool Hooked>
struct BoxT : Box {
	S s;
	std::vector<stored::Variant<S>> variants;

	BoxT()
	{
		hooked = Hooked;
		s.list([this](S* store, char const* n, Type::type type, void* buffer, size_t len) {
			if(Type::isFunction(type))
				return;
			vars.push_back({n, type, len, (size_t)((char*)buffer - s.raw())});
			variants.push_back(stored::Variant<S>(*store, type, buffer, len));
		});
		s.log = &log;
	}

	char* raw() override
	{
		return s.raw();
	}
	size_t size() override
	{
		return (size_t)S::BufferSize;
	}
	char const* hash() override
	{
		return s.hash();
	}
	stored::StoreJournal& journal() override
	{
		return s.journal();
	}
	void set(size_t var, std::string const& v) override
	{
		s.log = nullptr;
		variants[var].set(v.data(), v.size());
		s.log = &log;
	}
	void map(stored::Synchronizer& x) override
	{
		x.map(s);
	}
	void unmap(stored::Synchronizer& x) override
	{
		x.unmap(s);
	}
	void syncFrom(stored::Synchronizer& x, stored::ProtocolLayer& l) override
	{
		x.syncFrom(s, l);
	}
	void process(stored::Synchronizer& x) override
	{
		x.process(s);
	}
	void process(stored::Synchronizer& x, stored::ProtocolLayer& l) override
	{
		x.process(l, s);
	}
};

inline std::unique_ptr<Box> box(int kind, bool hooked)
{
	switch(kind) {
#define CASE(n, k)                                                                                 \
	case k:                                                                                    \
		if(hooked)                                                                         \
			return std::unique_ptr<Box>(new BoxT<H##n, true>());                       \
		return std::unique_ptr<Box>(new BoxT<S##n, false>());
		CASE(A, 0)
		CASE(B, 1)
	default:
		CASE(C, 2)
#undef CASE
	}
}

// One end of a connection
class Port : public stored::ProtocolLayer {
public:
	typedef stored::ProtocolLayer base;
	std::deque<std::string>* out = nullptr;
	std::string partial;
	size_t mtu_ = 0;
	bool tooLong = false;

	using base::encode;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		if(len)
			partial.append((char const*)buffer, len);
		if(mtu_ && partial.size() > mtu_)
			tooLong = true;
		if(last) {
			if(out)
				out->push_back(partial);
			partial.clear();
		}
	}
	size_t mtu() const override
	{
		return mtu_;
	}
};

// Deliver in a buffer of exactly this size, at any alignment
inline void deliver(stored::ProtocolLayer& p, std::string const& m, size_t shift)
{
	std::unique_ptr<char[]> b(new char[m.size() + shift]);
	memcpy(b.get() + shift, m.data(), m.size());
	p.decode(b.get() + shift, m.size());
}

struct Node;

struct Edge {
	int node[2]; // 0: the source of the stores
	bool up = false;
	size_t mtu = 0;
	std::unique_ptr<Port> port[2];
	std::unique_ptr<stored::SegmentationLayer> seg[2];
	bool connected[2] = {};
	stored::Synchronizer* sync[2] = {};
	std::deque<std::string> q[2]; // to this side
	std::vector<int> stores;      // indices of kind

	stored::ProtocolLayer& top(int side)
	{
		if(seg[side])
			return *seg[side];
		return *port[side];
	}

	void create(int side)
	{
		seg[side].reset();
		port[side].reset(new Port());
		port[side]->mtu_ = mtu;
		if(mtu) {
			seg[side].reset(new stored::SegmentationLayer());
			port[side]->wrap(*seg[side]);
		}
	}

	void plug()
	{
		for(int i = 0; i < 2; i++)
			port[i]->out = &q[1 - i];
	}
};

struct Node {
	std::vector<std::unique_ptr<Box>> stores; // by kind; may be nullptr
	std::vector<std::unique_ptr<stored::Synchronizer>> syncs;
};

// A tree of nodes
struct Tree {
	Gen& g;
	std::vector<std::unique_ptr<Node>> nodes;
	std::vector<std::unique_ptr<Edge>> edges; // edge i is from node i + 1 to its parent
	bool hooks = false;
	size_t messages = 0;

	explicit Tree(Gen& gen)
		: g(gen)
	{}

	~Tree()
	{
		for(auto& e : edges)
			for(int i = 0; i < 2; i++)
				if(e->port[i])
					e->port[i]->out = nullptr;
		for(auto& e : edges)
			for(int i = 0; i < 2; i++)
				disconnect(*e, i);
		edges.clear();
		nodes.clear();
	}

	Node& node(size_t i)
	{
		return *nodes[i];
	}

	void blank(size_t n, std::vector<int> const& kinds)
	{
		Node& nd = *nodes[n];
		nd.syncs.clear();
		nd.stores.clear();
		nd.stores.resize(3);
		for(int k : kinds)
			nd.stores[(size_t)k] = box(k, hooks && g.chance());
		size_t s = g.chance(1, 6) ? 2 : 1;
		for(size_t i = 0; i < s; i++) {
			nd.syncs.emplace_back(new stored::Synchronizer());
			for(auto& b : nd.stores)
				if(b)
					b->map(*nd.syncs.back());
		}
	}

	std::vector<int> kinds(size_t n)
	{
		std::vector<int> r;
		for(int k = 0; k < 3; k++)
			if(nodes[n]->stores[(size_t)k])
				r.push_back(k);
		return r;
	}

	void build(size_t maxNodes)
	{
		size_t n = g.range<size_t>(2, maxNodes);
		std::vector<int> all;
		if(g.chance(4, 5))
			all.push_back(0);
		if(all.empty() || g.chance(1, 3))
			all.push_back(1);
		if(g.chance(1, 16))
			all.push_back(2);
		for(size_t i = 0; i < n; i++) {
			nodes.emplace_back(new Node());
			std::vector<int> k = all;
			int p = -1;
			if(i) {
				p = (int)g.index(i);
				k = kinds((size_t)p);
				if(k.size() > 1 && g.chance(1, 5))
					k.erase(k.begin() + (long)g.index(k.size()));
			}
			blank(i, k);
			if(i) {
				edges.emplace_back(new Edge());
				Edge& e = *edges.back();
				e.node[0] = p;
				e.node[1] = (int)i;
				e.stores = k;
				e.mtu = g.chance(1, 4) ? g.range<size_t>(2, 64) : 0;
				if(std::count(k.begin(), k.end(), 2) && e.mtu)
					e.mtu += 500;
			}
			std::string d;
			for(int x : k)
				d += (char)('A' + x);
			g.note("node %zu: parent %d, stores %s%s", i, p, d.c_str(), nodes[i]->syncs.size() > 1 ? ", two synchronizers" : "");
		}
	}

	void connect(Edge& e, int side)
	{
		Node& n = *nodes[(size_t)e.node[side]];
		e.sync[side] = n.syncs[g.index(n.syncs.size())].get();
		e.create(side);
		e.connected[side] = true;
		if(e.up)
			for(int i = 0; i < 2; i++)
				if(e.port[i])
					e.port[i]->out = &e.q[1 - i];
		e.sync[side]->connect(e.top(side));
	}

	void disconnect(Edge& e, int side)
	{
		if(!e.connected[side])
			return;
		e.sync[side]->disconnect(e.top(side));
		e.connected[side] = false;
	}

	void syncFrom(Edge& e)
	{
		std::vector<int> k = e.stores;
		while(!k.empty()) {
			size_t i = g.index(k.size());
			nodes[(size_t)e.node[1]]->stores[(size_t)k[i]]->syncFrom(*e.sync[1], e.top(1));
			k.erase(k.begin() + (long)i);
		}
	}

	// Connect everything
	void start(Edge& e)
	{
		e.up = true;
		for(int i = 0; i < 2; i++)
			if(!e.connected[i])
				connect(e, i);
		e.plug();
		syncFrom(e);
	}

	void deliver(Edge& e, int side)
	{
		std::string m = e.q[side].front();
		e.q[side].pop_front();
		messages++;
		sim::deliver(*e.port[side], m, g.index(4));
	}

	struct Pending {
		Edge* e;
		int side;
	};

	std::vector<Pending> pending()
	{
		std::vector<Pending> r;
		for(auto& e : edges)
			for(int i = 0; i < 2; i++)
				if(!e->q[i].empty())
					r.push_back({e.get(), i});
		return r;
	}

	void process(size_t n)
	{
		for(auto& s : nodes[n]->syncs)
			s->process();
	}

	// Process all there is to process. Returns false when that does not end.
	template <typename F>
	bool quiesce(F f)
	{
		for(int round = 0; round < 100; round++) {
			size_t cnt = 0;
			while(true) {
				auto p = pending();
				if(p.empty())
					break;
				auto x = p[g.index(p.size())];
				f(*x.e, x.side);
				if(++cnt > 3000)
					return false;
			}
			for(size_t n = 0; n < nodes.size(); n++)
				process(n);
			if(pending().empty())
				return true;
		}
		return false;
	}

	bool quiesce()
	{
		return quiesce([this](Edge& e, int s) { deliver(e, s); });
	}

	std::string newValue(Box& b, size_t v)
	{
		Var const& x = b.vars[v];
		if(g.chance(1, 12)) { // the same
			std::string s = b.value(v);
			return big && Type::isFixed(x.type) ? std::string(s.rbegin(), s.rend()) : s;
		}
		if(x.type == Type::Bool)
			return std::string(1, (char)g.index(2));
		if(x.type == Type::String) {
			std::string s = g.bytesUpTo(x.size);
			for(auto& c : s)
				if(!c)
					c = 1;
			return s;
		}
		if(x.type == Type::Blob) {
			if(x.size > 1000) {
				std::string s(g.chance() ? x.size : g.index(x.size), (char)g.index(256));
				return s;
			}
			return g.chance() ? g.bytes(x.size) : g.bytesUpTo(x.size);
		}
		return g.bytes(x.size);
	}
};

} // namespace sim
#endif
