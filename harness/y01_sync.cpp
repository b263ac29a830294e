// Y01, Y02, Y03: synchronization of stores.
#include "sync.h"

using namespace sim;

namespace {

// All stores are equal over the whole tree. Returns an empty string when it is.
std::string different(Tree& t)
{
	for(auto& e : t.edges)
		for(int k : e->stores) {
			Box& a = *t.nodes[(size_t)e->node[0]]->stores[(size_t)k];
			Box& b = *t.nodes[(size_t)e->node[1]]->stores[(size_t)k];
			for(size_t v = 0; v < a.vars.size(); v++)
				if(a.value(v) != b.value(v))
					return vh::format("%s of store %c at nodes %d and %d: %s and %s", a.vars[v].name.c_str(), 'A' + k, e->node[0],
							  e->node[1], vh::hex(a.value(v)).c_str(), vh::hex(b.value(v)).c_str());
		}
	return "";
}

typedef std::pair<int, size_t> Key; // store kind, variable

struct Write {
	size_t node;
	size_t var;
	std::string value;
};

// What a process has seen of the writes of another one
struct View {
	size_t t = 0;
	std::map<size_t, std::string> state;
};

struct Sim {
	Gen& g;
	Tree t;
	bool ordered; // check order
	// current value
	std::map<Key, std::string> value;
	std::map<Key, size_t> owner;
	// writes per store
	std::vector<Write> log[3];
	// Node, store, writer
	std::map<std::tuple<size_t, int, size_t>, View> views;
	bool forward = false, backward = false;
	std::set<size_t> writers;
	size_t writes = 0, mixed = 0;

	Sim(Gen& gen, bool order)
		: g(gen)
		, t(gen)
		, ordered(order)
	{}

	void note(char const* what, Edge& e, int side)
	{
		std::string const& m = e.q[side].front();
		g.note("%s %d -> %d: %s", what, e.node[1 - side], e.node[side], vh::quote(m.substr(0, 12)).c_str());
	}

	std::vector<std::pair<size_t, int>> holders()
	{
		std::vector<std::pair<size_t, int>> r;
		for(size_t n = 0; n < t.nodes.size(); n++)
			for(int k : t.kinds(n))
				r.push_back({n, k});
		return r;
	}

	// After everything is equal
	void epoch()
	{
		owner.clear();
		for(auto& l : log)
			l.clear();
		views.clear();
		value.clear();
		for(auto const& h : holders()) {
			Box& b = *t.nodes[h.first]->stores[(size_t)h.second];
			for(size_t v = 0; v < b.vars.size(); v++)
				value[{h.second, v}] = b.value(v);
		}
	}

	void write(size_t n, int k)
	{
		Box& b = *t.nodes[n]->stores[(size_t)k];
		size_t v = g.index(b.vars.size());
		if(g.chance()) {
			// One that was written before
			auto const& l = log[k];
			if(!l.empty()) {
				auto const& w = l[g.index(l.size())];
				v = w.var;
			}
		}
		auto it = owner.find({k, v});
		if(it != owner.end() && it->second != n)
			return;
		owner[{k, v}] = n;
		b.set(v, t.newValue(b, v));
		std::string x = b.value(v);
		g.note("node %zu writes %c%s = %s", n, 'A' + k, b.vars[v].name.c_str(), vh::hex(x).c_str());
		value[{k, v}] = x;
		if(ordered)
			log[k].push_back({n, v, x});
		else if(log[k].size() < 50)
			log[k].push_back({n, v, ""});
		writes++;
		writers.insert(n);
		if(t.pending().size())
			mixed++;
	}

	void process(size_t n)
	{
		Node& nd = *t.nodes[n];
		auto& s = *nd.syncs[g.index(nd.syncs.size())];
		std::vector<Edge*> es;
		for(auto& e : t.edges)
			for(int i = 0; i < 2; i++)
				if(e->node[i] == (int)n && e->connected[i] && e->sync[i] == &s)
					es.push_back(e.get());
		g.note("node %zu processes", n);
		auto k = t.kinds(n);
		switch(g.weighted({4, 2, es.empty() ? 0u : 2u, es.empty() ? 0u : 2u})) {
		case 0: s.process(); break;
		case 1: nd.stores[(size_t)k[g.index(k.size())]]->process(s); break;
		case 2: {
			Edge& e = *es[g.index(es.size())];
			s.process(e.top(e.node[1] == (int)n));
			break;
		}
		default: {
			Edge& e = *es[g.index(es.size())];
			nd.stores[(size_t)k[g.index(k.size())]]->process(s, e.top(e.node[1] == (int)n));
		}
		}
		if(ordered)
			checkRO(n);
	}

	// Read accesses come in pairs
	void checkRO(size_t n)
	{
		for(auto& b : t.nodes[n]->stores)
			if(b && b->hooked) {
				std::map<size_t, int> cnt;
				for(auto const& h : b->log.hooks) {
					VH_CHECK(g, h.kind != 'C', "hook", "process() calls the changed hook");
					cnt[h.offset] += h.kind == 'R' ? 1 : -1;
					VH_CHECK(g, cnt[h.offset] == 0 || cnt[h.offset] == 1, "hook-ro", "unbalanced RO hooks");
				}
				for(auto const& c : cnt)
					VH_CHECK(g, c.second == 0, "hook-ro", "no exit RO hook");
				b->log.hooks.clear();
			}
	}

	// Values of all writers, as seen by this node.
	void checkOrder(size_t n)
	{
		for(int k : t.kinds(n)) {
			Box& b = *t.nodes[n]->stores[(size_t)k];
			auto const& l = log[k];
			std::map<size_t, std::vector<size_t>> vars; // of writer
			for(auto const& o : owner)
				if(o.first.first == k)
					vars[o.second].push_back(o.first.second);
			for(auto const& w : vars) {
				auto& view = views[std::make_tuple(n, k, w.first)];
				if(w.first == n)
					continue;
				size_t bad = 0;
				auto equal = [&]() {
					for(size_t v : w.second) {
						auto it = view.state.find(v);
						std::string const& x = it == view.state.end() ? initial[{k, v}] : it->second;
						if(b.value(v) != x) {
							bad = v;
							return false;
						}
					}
					return true;
				};
				size_t from = view.t;
				while(!equal()) {
					while(view.t < l.size() && l[view.t].node != w.first)
						view.t++;
					VH_CHECK(g, view.t < l.size(), "order",
						 "node %zu observes %c%s = %s, which does not match any state of the writer %zu after its first %zu writes", n, 'A' + k,
						 b.vars[bad].name.c_str(), vh::hex(b.value(bad)).c_str(), w.first, from);
					view.state[l[view.t].var] = l[view.t].value;
					view.t++;
				}
			}
		}
	}
	std::map<Key, std::string> initial;

	void deliver(Edge& e, int side)
	{
		size_t n = (size_t)e.node[side];
		if(side == 0)
			backward = true;
		else
			forward = true;
		note("deliver", e, side);
		if(!ordered) {
			t.deliver(e, side);
			return;
		}

		Node& nd = *t.nodes[n];
		std::vector<std::string> before(3);
		for(size_t k = 0; k < 3; k++)
			if(nd.stores[k]) {
				before[k] = nd.stores[k]->content();
				nd.stores[k]->log.hooks.clear();
			}
		std::string m = e.q[side].front();
		t.deliver(e, side);
		for(size_t k = 0; k < 3; k++) {
			if(!nd.stores[k])
				continue;
			Box& b = *nd.stores[k];
			std::set<size_t> diff;
			for(auto& v : b.vars)
				if(Box::value(v, before[k].data()) != Box::value(v, b.raw()))
					diff.insert(v.offset);
			if(!diff.empty())
				changes++;
			if(!b.hooked)
				continue;
			std::multiset<size_t> hooked;
			std::multimap<size_t, size_t> lens;
			for(auto const& h : b.log.hooks)
				if(h.kind == 'C') {
					hooked.insert(h.offset);
					lens.insert({h.offset, h.len});
				}
			for(auto& v : b.vars) {
				auto it = lens.find(v.offset);
				if(it == lens.end())
					continue;
				VH_CHECK(g, it->second <= v.size + (v.type == Type::String), "hook-len", "the hook of %s has length %zu", v.name.c_str(), it->second);
				for(size_t i = it->second; i < v.size; i++)
					VH_CHECK(g, before[k][v.offset + i] == b.raw()[v.offset + i], "hook-len",
						 "the hook of %s has length %zu, but byte %zu changed", v.name.c_str(), it->second, i);
			}
			for(size_t o : diff)
				VH_CHECK(g, hooked.count(o) == 1, "hook", "the variable at %zu has changed by a message, but the hook is called %zu times", o,
					 hooked.count(o));
			if(!e.mtu && !m.empty() && m[0] == cUpdate) {
				// Check against the message
				std::set<size_t> keys;
				size_t ks = b.keySize(), i = 3;
				if(!diff.empty() || !hooked.empty()) {
					while(i + 2 * ks <= m.size()) {
						keys.insert(number(&m[i], ks));
						auto it = lens.find(number(&m[i], ks));
						VH_CHECK(g, it == lens.end() || it->second == number(&m[i + ks], ks), "hook-len", "the hook has length %zu for an update of %zu bytes",
							 it->second, (size_t)number(&m[i + ks], ks));
						i += 2 * ks + number(&m[i + ks], ks);
					}
					VH_CHECK(g, i == m.size(), "update", "an update message has length %zu, which does not match its contents", m.size());
					VH_CHECK(g, std::set<size_t>(hooked.begin(), hooked.end()) == keys && hooked.size() == keys.size(), "hook",
						 "%zu hooks called, but the update has %zu variables", hooked.size(), keys.size());
				}
			} else if(!e.mtu && !m.empty() && m[0] != cWelcome)
				VH_CHECK(g, hooked.empty(), "hook", "hooks called without a change");
			b.log.hooks.clear();
		}
		checkOrder(n);
	}
	size_t changes = 0;

	void quiesce()
	{
		bool q = t.quiesce([this](Edge& e, int s) { deliver(e, s); });
		VH_CHECK(g, q, "quiescence", "synchronization does not end");
		for(auto& n : t.nodes)
			for(auto& b : n->stores)
				if(b)
					b->log.hooks.clear();
		std::string d = different(t);
		VH_CHECK(g, d.empty(), "different", "%s", d.c_str());
		for(auto& e : t.edges)
			for(int i = 0; i < 2; i++)
				VH_CHECK(g, !e->port[i] || !e->port[i]->tooLong, "mtu", "a message exceeds the MTU");
	}

	void check()
	{
		for(auto const& h : holders())
			for(size_t v = 0; v < t.nodes[h.first]->stores[(size_t)h.second]->vars.size(); v++) {
				Box& b = *t.nodes[h.first]->stores[(size_t)h.second];
				VH_CHECK(g, b.value(v) == (value[{h.second, v}]), "value", "node %zu has %c%s = %s, expected %s", h.first, 'A' + h.second,
					 b.vars[v].name.c_str(), vh::hex(b.value(v)).c_str(), vh::hex(value[{h.second, v}]).c_str());
			}
	}

	void setup(size_t maxNodes)
	{
		t.hooks = ordered || g.chance(1, 4);
		t.build(maxNodes);
		// The initial values come from the root.
		size_t w = g.index(10);
		for(size_t i = 0; i < w; i++) {
			auto k = t.kinds(0);
			write(0, k[g.index(k.size())]);
		}
		auto saved = value;
		bool all = g.chance();
		for(auto& e : t.edges) {
			g.note("connect %d to %d", e->node[1], e->node[0]);
			t.start(*e);
			if(!all)
				VH_CHECK(g, t.quiesce(), "quiescence", "synchronization does not end");
		}
		bool o = ordered;
		ordered = false;
		g.note("initial synchronization");
		quiesce();
		ordered = o;
		epoch();
		for(auto const& s : saved)
			VH_CHECK(g, value[s.first] == s.second, "initial", "the initial value of variable %zu of store %c is not the root's", s.first.second,
				 'A' + s.first.first);
		initial = value;
	}

	void run(size_t maxNodes, int maxSteps)
	{
		setup(maxNodes);
		int rounds = g.range<int>(1, 3);
		for(int r = 0; r < rounds; r++) {
			auto hs = holders();
			int steps = g.range<int>(1, maxSteps);
			for(int i = 0; i < steps; i++) {
				auto p = t.pending();
				switch(g.weighted({4, 4, p.empty() ? 0u : 6u})) {
				case 0: {
					auto h = hs[g.index(hs.size())];
					write(h.first, h.second);
					break;
				}
				case 1: process(g.index(t.nodes.size())); break;
				default: {
					auto x = p[g.index(p.size())];
					deliver(*x.e, x.side);
				}
				}
			}
			g.note("synchronize");
			quiesce();
			check();
			epoch();
			initial = value;
		}
	}
};

// Connections come and go
struct Rejoin : Sim {
	std::map<Key, std::set<std::string>> candidates;
	std::vector<bool> disturbedEdge, disturbedNode;
	size_t faults = 0, disturbedWrites = 0;

	explicit Rejoin(Gen& gen)
		: Sim(gen, false)
	{}

	Edge& edge(size_t i)
	{
		return *t.edges[i];
	}

	char const* name(Edge& e)
	{
		static std::string s;
		s = vh::format("%d-%d", e.node[0], e.node[1]);
		return s.c_str();
	}

	void reset()
	{
		disturbedEdge.assign(t.edges.size(), false);
		disturbedNode.assign(t.nodes.size(), false);
		epoch();
		candidates.clear();
		for(auto const& v : value)
			candidates[v.first].insert(v.second);
	}

	bool undisturbed(size_t n)
	{
		while(true) {
			if(disturbedNode[n])
				return false;
			if(n == 0)
				return true;
			if(disturbedEdge[n - 1])
				return false;
			n = (size_t)edge(n - 1).node[0];
		}
	}

	void clear(Edge& e)
	{
		for(auto& q : e.q)
			q.clear();
	}

	void cut(size_t i)
	{
		Edge& e = edge(i);
		disturbedEdge[i] = true;
		e.up = false;
		clear(e);
		for(auto& p : e.port)
			if(p)
				p->out = nullptr;
	}

	void leave(Edge& e, int side)
	{
		g.note("node %d leaves %s%s", e.node[side], name(e), e.up ? "" : ", which is down");
		t.disconnect(e, side);
	}

	void drain(Edge& e, int side)
	{
		while(!e.q[side].empty())
			t.deliver(e, side);
	}

	// Disconnect gracefully
	void goodbye(size_t i, int side)
	{
		Edge& e = edge(i);
		disturbedEdge[i] = true;
		e.q[side].clear();
		leave(e, side);
		drain(e, 1 - side);
		e.q[side].clear();
		if(side == 1) {
			// No state is left behind.
			t.process((size_t)e.node[0]);
			VH_CHECK(g, e.q[1].empty(), "bye", "node %d sends messages to %d, which said goodbye", e.node[0], e.node[1]);
		}
		cut(i);
	}

	void establish(size_t i)
	{
		Edge& e = edge(i);
		if(e.up)
			return;
		clear(e);
		e.up = true;
		if(e.seg[0]) {
			// State of the segmentation is lost.
			for(int s = 0; s < 2; s++)
				if(e.connected[s])
					leave(e, s);
		}

		int parent = 0; // new
		if(!e.connected[0])
			t.connect(e, 0);
		else if(g.chance()) {
			leave(e, 0);
			t.connect(e, 0);
		} else
			parent = 1; // old

		for(int s = 0; s < 2; s++)
			if(e.port[s])
				e.port[s]->out = &e.q[1 - s];

		int child = 0; // new
		if(!e.connected[1]) {
			t.connect(e, 1);
			e.plug();
		} else
			switch(g.index(3)) {
			case 0:
				leave(e, 1); // message is delivered
				t.connect(e, 1);
				break;
			case 1:
				e.port[1]->out = nullptr;
				leave(e, 1);
				t.connect(e, 1);
				break;
			default: child = 1;
			}
		e.plug();

		g.note("connect %s, the parent %s, the child %s", name(e), parent ? "keeps its connection" : "is new", child ? "resets" : "is new");
		if(child)
			e.top(1).up()->reset();
		else
			t.syncFrom(e);
		if(parent)
			// Make sure that the ids of the previous session are not used anymore.
			drain(e, 0);
		clearStale(e);
	}

	void clearStale(Edge&) {}

	void restart(size_t n)
	{
		g.note("restart node %zu", n);
		for(size_t i = 0; i < t.edges.size(); i++)
			for(int s = 0; s < 2; s++)
				if(edge(i).node[s] == (int)n) {
					cut(i);
					if(edge(i).connected[s])
						leave(edge(i), s);
				}
		disturbedNode[n] = true;
		t.blank(n, t.kinds(n));
		for(int k : t.kinds(n)) {
			Box& b = *t.nodes[n]->stores[(size_t)k];
			for(size_t v = 0; v < b.vars.size(); v++)
				candidates[{k, v}].insert(b.value(v));
		}
	}

	// Unmap the store, and add it again
	void remap(size_t n, int k)
	{
		// Not while there are still messages to be handled.
		for(auto& e : t.edges)
			for(int s = 0; s < 2; s++)
				if(e->node[s] == (int)n && !(e->q[0].empty() && e->q[1].empty()))
					return;
		g.note("remap %c at node %zu", 'A' + k, n);
		Node& nd = *t.nodes[n];
		for(size_t i = 0; i < t.edges.size(); i++)
			for(int s = 0; s < 2; s++)
				if(edge(i).node[s] == (int)n)
					disturbedEdge[i] = true;
		Box& b = *nd.stores[(size_t)k];
		for(auto& s : nd.syncs)
			b.unmap(*s);
		for(auto& s : nd.syncs)
			b.map(*s);
		for(auto& e : t.edges)
			if(e->node[0] == (int)n)
				drain(*e, 1);
		if(n) {
			Edge& e = edge(n - 1);
			if(e.connected[1])
				b.syncFrom(*e.sync[1], e.top(1));
		}
	}

	void fault()
	{
		size_t i = g.index(t.edges.size());
		Edge& e = edge(i);
		faults++;
		switch(g.weighted({4, 4, 3, 3, 1, 1})) {
		case 0:
			if(e.up) {
				g.note("cut %s", name(e));
				cut(i);
				for(int s = 0; s < 2; s++)
					if(g.chance(1, 3))
						leave(e, s);
			} else if(g.chance(1, 4)) {
				int s = (int)g.index(2);
				if(e.connected[s])
					leave(e, s);
			}
			break;
		case 1: establish(i); break;
		case 2:
			if(e.up && e.connected[0] && e.connected[1]) {
				int side = (int)g.index(2);
				if(e.mtu && !e.q[side].empty())
					drain(e, side);
				g.note("node %d resets %s", e.node[side], name(e));
				disturbedEdge[i] = true;
				e.top(side).up()->reset();
			}
			break;
		case 3:
			if(e.up && e.connected[0] && e.connected[1] && (!e.mtu || e.q[0].empty()))
				goodbye(i, (int)g.index(2));
			break;
		case 4: restart(g.index(t.nodes.size())); break;
		default: {
			size_t n = g.index(t.nodes.size());
			auto k = t.kinds(n);
			remap(n, k[g.index(k.size())]);
		}
		}
	}

	void run()
	{
		t.hooks = g.chance(1, 4);
		t.build(6);
		reset();
		if(g.chance())
			for(size_t i = 0; i < t.edges.size(); i++)
				establish(i);
		int rounds = g.range<int>(1, 3);
		for(int r = 0; r < rounds; r++) {
			for(size_t i = 0; i < t.edges.size(); i++)
				if(!edge(i).up || r == 0)
					disturbedEdge[i] = true;
			auto hs = holders();
			int steps = g.range<int>(1, 60);
			for(int i = 0; i < steps; i++) {
				auto p = t.pending();
				switch(g.weighted({4, 4, p.empty() ? 0u : 8u, 2})) {
				case 0: {
					auto h = hs[g.index(hs.size())];
					size_t w = writes;
					write(h.first, h.second);
					for(size_t v = 0; v < t.nodes[h.first]->stores[(size_t)h.second]->vars.size(); v++)
						candidates[{h.second, v}].insert(value[{h.second, v}]);
					if(writes != w && !undisturbed(h.first))
						disturbedWrites++;
					break;
				}
				case 1: process(g.index(t.nodes.size())); break;
				case 2: {
					auto x = p[g.index(p.size())];
					deliver(*x.e, x.side);
					break;
				}
				default: fault();
				}
			}
			// Repair everything, in any order
			std::vector<size_t> todo;
			for(size_t i = 0; i < t.edges.size(); i++)
				if(!edge(i).up)
					todo.push_back(i);
			while(!todo.empty()) {
				size_t i = g.index(todo.size());
				establish(todo[i]);
				todo.erase(todo.begin() + (long)i);
				auto p = t.pending();
				if(!p.empty() && g.chance()) {
					auto x = p[g.index(p.size())];
					deliver(*x.e, x.side);
				}
			}
			g.note("synchronize");
			quiesce();
			for(auto const& h : holders()) {
				Box& b = *t.nodes[h.first]->stores[(size_t)h.second];
				for(size_t v = 0; v < b.vars.size(); v++) {
					Key key{h.second, v};
					VH_CHECK(g, candidates[key].count(b.value(v)), "value", "node %zu has %c%s = %s, which was not written", h.first, 'A' + h.second,
						 b.vars[v].name.c_str(), vh::hex(b.value(v)).c_str());
					auto it = owner.find(key);
					if(it != owner.end() && undisturbed(it->second)) {
						stable++;
						VH_CHECK(g, b.value(v) == value[key], "stable",
							 "node %zu has %c%s = %s, but node %zu wrote %s, which was always connected to the root", h.first, 'A' + h.second,
							 b.vars[v].name.c_str(), vh::hex(b.value(v)).c_str(), it->second, vh::hex(value[key]).c_str());
					}
				}
			}
			reset();
		}
	}
	size_t stable = 0;
};

} // namespace

VH_PROPERTY(reconnect, 12000, 400000, "at least two faults, and writes by a process that is not always connected to the root, and messages in both directions")
{
	Rejoin s(g);
	s.run();
	g.nontrivial(s.faults >= 2 && s.disturbedWrites && s.forward && s.backward);
	if(s.stable)
		g.cls("undisturbed writes");
}

VH_PROPERTY(converge, 20000, 600000, "writes by at least two processes, of which one with messages pending, and messages in both directions")
{
	Sim s(g, false);
	s.run(6, 60);
	g.nontrivial(s.writers.size() >= 2 && s.mixed && s.forward && s.backward);
	if(s.t.nodes.size() > 3)
		g.cls("more than 3 nodes");
}

VH_PROPERTY(order, 15000, 500000, "at least 3 messages that change something, with at least two writers")
{
	Sim s(g, true);
	s.run(5, 60);
	g.nontrivial(s.changes >= 3 && s.writers.size() >= 2);
}
