// Y04: arbitrary synchronization messages.
#include "sync.h"

using namespace sim;

namespace {

struct Evil {
	Gen& g;
	Tree t;
	size_t v;		 // victim
	Edge e;			 // side 1 is the victim
	std::deque<std::string> sent; // by the victim

	// What the victim may know about this connection
	struct Info {
		bool source = false; // evil is the source
		uint64_t idOut = 0;
	};
	std::map<int, Info> reg;
	std::map<uint64_t, int> idIn;
	std::vector<std::string> valid; // messages to mutate

	// Variables that were part of updates by evil.
	std::set<std::pair<int, size_t>> tainted;
	// Variables written by others than the victim, which may be pending
	std::set<std::pair<int, size_t>> pending;
	size_t applied = 0, rejected = 0, partial = 0, hellos = 0, welcomes = 0;

	explicit Evil(Gen& gen)
		: g(gen)
		, t(gen)
	{}

	~Evil()
	{
		if(e.port[1]) {
			e.port[1]->out = nullptr;
			t.disconnect(e, 1);
		}
	}

	Box& box(int k)
	{
		return *t.nodes[v]->stores[(size_t)k];
	}

	int byHash(std::string const& h)
	{
		for(int k : t.kinds(v))
			if(h == box(k).hash())
				return k;
		return -1;
	}

	void quiesce()
	{
		VH_CHECK(g, t.quiesce(), "quiescence", "synchronization does not end");
		collectQuiet();
		pending.clear();
	}

	void collect()
	{
		while(!e.q[0].empty()) {
			sent.push_back(e.q[0].front());
			e.q[0].pop_front();
		}
	}

	void drop(int k)
	{
		reg.erase(k);
		for(auto it = idIn.begin(); it != idIn.end();)
			if(it->second == k)
				it = idIn.erase(it);
			else
				++it;
	}

	// Check what the victim sends. content is of the stores at that moment. Returns the messages of other types than updates.
	std::vector<std::string> check(std::vector<std::string> const& content)
	{
		std::vector<std::string> r;
		collect();
		for(auto const& m : sent) {
			g.note("  victim: %s", vh::quote(m.substr(0, 60)).c_str());
			VH_CHECK(g, !m.empty(), "reply", "empty message");
			if(m[0] == cUpdate) {
				VH_CHECK(g, m.size() >= 3, "reply", "truncated update");
				uint64_t id = number(&m[1], 2);
				if(!id)
					continue; // no Welcome received yet
				int k = -1;
				for(auto const& x : reg)
					if(x.second.idOut == id)
						k = x.first;
				VH_CHECK(g, k >= 0, "reply-id", "an update to unknown id %u", (unsigned)id);
				// Perhaps ambiguous
				size_t cnt = 0;
				for(auto const& x : reg)
					cnt += x.second.idOut == id;
				if(cnt > 1)
					continue;
				size_t ks = box(k).keySize();
				std::string const& c = content[(size_t)k];
				size_t i = 3;
				while(i < m.size()) {
					VH_CHECK(g, i + 2 * ks <= m.size(), "reply", "truncated update");
					uint64_t key = number(&m[i], ks), len = number(&m[i + ks], ks);
					i += 2 * ks;
					VH_CHECK(g, i + len <= m.size() && key + len <= c.size(), "reply", "update out of range");
					VH_CHECK(g, m.compare(i, len, c, key, len) == 0, "reply-data", "an update does not match the contents of the store");
					i += len;
				}
			} else
				r.push_back(m);
			if(m.size() < 20000)
				valid.push_back(m);
		}
		sent.clear();
		return r;
	}

	std::vector<std::string> contents()
	{
		std::vector<std::string> r(3);
		for(int k : t.kinds(v))
			r[(size_t)k] = box(k).content();
		return r;
	}

	void taint(int k, size_t key, size_t len)
	{
		// An empty update is still considered as a change.
		len = std::max<size_t>(len, 1);
		for(size_t i = 0; i < box(k).vars.size(); i++) {
			auto const& x = box(k).vars[i];
			if(x.offset < key + len && key < x.offset + x.size)
				tainted.insert({k, i});
		}
	}

	struct Applied {
		int k = -1;
		bool ok = true;
		bool welcome = false;
		std::vector<std::pair<size_t, size_t>> ranges;
	};

	// Expected effect of a message.
	Applied expect(std::string const& m, std::vector<std::string>& model)
	{
		Applied a;
		if(m.size() < 3)
			return a;
		auto it = idIn.find(number(&m[1], 2));
		if(it == idIn.end())
			return a;
		if(m[0] == cUpdate) {
			a.k = it->second;
			size_t ks = box(a.k).keySize(), i = 3;
			std::string& c = model[(size_t)a.k];
			while(i < m.size()) {
				a.ok = false;
				if(i + 2 * ks > m.size())
					break;
				uint64_t key = number(&m[i], ks), len = number(&m[i + ks], ks);
				i += 2 * ks;
				if(key >= c.size() || len > c.size() - key || len > m.size() - i)
					break;
				a.ok = true;
				c.replace(key, len, m, i, len);
				a.ranges.push_back({key, len});
				i += len;
			}
		} else if(m[0] == cWelcome) {
			a.k = it->second;
			a.welcome = true;
			std::string& c = model[(size_t)a.k];
			a.ok = reg[a.k].source && m.size() >= 5 + c.size() && number(&m[3], 2);
			if(a.ok) {
				c = m.substr(5, c.size());
				a.ranges.push_back({0, c.size()});
			}
		}
		return a;
	}

	void receive(std::string const& m)
	{
		auto before = contents();
		auto model = before;
		Applied a = expect(m, model);
		if(!a.ranges.empty()) {
			// Prevent races with other writers.
			bool race = !tainted.empty() || a.welcome;
			for(auto const& r : a.ranges)
				taint(a.k, r.first, r.second);
			for(auto const& p : pending)
				race = race || tainted.count(p);
			if(race) {
				quiesce();
				before = contents();
				model = before;
				expect(m, model);
			}
		}

		check(before);
		g.note("evil: %s", vh::quote(m.substr(0, 100)).c_str());
		sim::deliver(*e.port[1], m, g.index(4));

		auto now = contents();
		for(int k : t.kinds(v)) {
			if(now[(size_t)k] == model[(size_t)k])
				continue;
			size_t o = 0;
			while(now[(size_t)k][o] == model[(size_t)k][o])
				o++;
			g.fail("content", "store %c is wrong at offset %zu: was %02x, is %02x, expected %02x", 'A' + k, o, (unsigned)(uint8_t)before[(size_t)k][o],
			       (unsigned)(uint8_t)now[(size_t)k][o], (unsigned)(uint8_t)model[(size_t)k][o]);
		}
		if(a.ok && !a.ranges.empty())
			applied++;
		if(!a.ok)
			rejected++;
		if(!a.ok && !a.ranges.empty())
			partial++;

		// Registration, before the replies
		std::set<int> again;
		if(!m.empty() && m[0] == cHello) {
			size_t z = m.find('\0', 1);
			if(z != std::string::npos && m.size() >= z + 3 && number(&m[z + 1], 2)) {
				int k = byHash(m.substr(1, z - 1));
				if(k >= 0) {
					drop(k);
					reg[k].idOut = number(&m[z + 1], 2);
					hellos++;
					auto r = check(before);
					VH_CHECK(g, r.size() == 1 && r[0].size() == 5 + before[(size_t)k].size() && r[0][0] == cWelcome, "welcome", "no Welcome to Hello");
					VH_CHECK(g, number(&r[0][1], 2) == reg[k].idOut, "welcome", "wrong id in Welcome");
					VH_CHECK(g, r[0].compare(5, std::string::npos, before[(size_t)k]) == 0, "welcome-data", "the Welcome does not have the contents of the store");
					uint64_t id = number(&r[0][3], 2);
					VH_CHECK(g, id && !idIn.count(id), "welcome-id", "id %u is already in use", (unsigned)id);
					idIn[id] = k;
					return;
				}
			}
		} else if(!m.empty() && m[0] == cBye) {
			if(m.size() == 1) {
				for(int k = 0; k < 3; k++)
					if(reg.count(k)) {
						if(reg[k].source)
							again.insert(k);
						else
							drop(k);
					}
			} else if(m.size() == 3) {
				uint64_t id = number(&m[1], 2);
				if(id) {
					std::vector<int> x;
					for(auto const& r : reg)
						if(r.second.idOut == id)
							x.push_back(r.first);
					bool ambiguous = x.size() > 1;
					for(int k : x) {
						if(reg[k].source)
							again.insert(k);
						else
							drop(k);
					}
					if(ambiguous)
						// It is up to the victim
						throw vh::Discard{};
				}
			} else {
				size_t z = m.find('\0', 1);
				if(z != std::string::npos) {
					int k = byHash(m.substr(1, z - 1));
					if(k >= 0 && reg.count(k)) {
						if(reg[k].source && reg[k].idOut)
							again.insert(k);
						else
							drop(k);
					}
				}
			}
			for(int k : again)
				reg[k].idOut = 0;
		} else if(a.k >= 0 && a.welcome && a.ok) {
			reg[a.k].idOut = number(&m[3], 2);
			welcomes++;
		}

		for(auto const& r : check(before)) {
			if(r[0] == cHello) {
				size_t z = r.find('\0', 1);
				VH_CHECK(g, z != std::string::npos && r.size() == z + 3, "hello", "bad Hello");
				int k = byHash(r.substr(1, z - 1));
				uint64_t id = number(&r[z + 1], 2);
				VH_CHECK(g, again.count(k) && idIn.count(id) && idIn[id] == k, "hello", "unexpected Hello");
				again.erase(k);
			} else if(r[0] == cBye) {
				if(r.size() == 3) {
					auto it = idIn.find(number(&r[1], 2));
					if(it != idIn.end()) {
						VH_CHECK(g, a.k == it->second && !a.ok, "bye", "unexpected Bye");
						drop(it->second);
					}
				} else
					VH_CHECK(g, r.size() > 3 && r[r.size() - 1] == 0 && byHash(r.substr(1, r.size() - 2)) < 0, "bye", "unexpected Bye");
			} else
				g.fail("reply", "unexpected message");
		}
		VH_CHECK(g, again.empty(), "hello", "no new Hello after Bye of the source");
	}

	std::string id()
	{
		std::vector<uint64_t> ids;
		for(auto const& i : idIn) {
			ids.push_back(i.first);
			ids.push_back(i.first);
		}
		for(auto const& r : reg)
			ids.push_back(r.second.idOut);
		if(ids.empty() || g.chance(1, 8))
			return bytes(g.chance() ? g.index(8) : g.bits(16), 2);
		return bytes(g.pick(ids), 2);
	}

	std::string hash()
	{
		std::vector<std::string> h;
		for(int k = 0; k < 3; k++)
			h.push_back(sim::box(k, false)->hash());
		for(int k : t.kinds(v))
			h.push_back(box(k).hash());
		std::string s = g.pick(h);
		if(g.chance(1, 10))
			s = g.bytesUpTo(50);
		if(g.chance(7, 8))
			s += '\0';
		return s;
	}

	std::string update(std::string const& target)
	{
		auto it = idIn.find(number(target.data(), 2));
		int k = it == idIn.end() ? t.kinds(v)[0] : it->second;
		Box& b = box(k);
		size_t ks = b.keySize();
		uint64_t mask = ks == 4 ? 0xffffffffu : ((uint64_t)1 << (8 * ks)) - 1;
		std::string s;
		size_t n = g.weighted({1, 6, 4, 2, 1});
		if(g.chance(1, 12))
			n = 40;
		for(size_t i = 0; i < n; i++) {
			auto const& x = g.pick(b.vars);
			uint64_t key = x.offset, len = std::min<size_t>(x.size, 300);
			std::string data;
			switch(g.weighted({10, 3, 3, 2, 1, 1})) {
			case 0: break;
			case 1: // any range
				key = g.index(b.size());
				len = g.index(std::min<size_t>(b.size() - key, 300) + 1);
				break;
			case 2: // around the end
				key = b.size() - g.index(8);
				len = g.index(10);
				break;
			case 3: // overflow
				key = g.bits(ks * 8);
				len = (g.chance() ? 0 - key : g.bits(ks * 8)) & mask;
				break;
			case 4: // everything
				key = 0;
				len = b.size();
				break;
			default: len = 0; break;
			}
			size_t l = (size_t)std::min<uint64_t>(len, 5000);
			if(len > 2000)
				data = std::string(len == b.size() ? (size_t)len : l, (char)g.index(256));
			else
				data = g.bytes(l);
			if(x.type == Type::Bool)
				for(auto& c : data)
					c &= 1;
			s += bytes(key, ks) + bytes(len, ks) + data;
		}
		if(g.chance(1, 8))
			s += g.bytesUpTo(6);
		return s;
	}

	std::string message()
	{
		std::string m;
		if(idIn.empty() && g.chance(2, 3)) {
			auto k = t.kinds(v);
			return cHello + std::string(box(k[g.index(k.size())]).hash()) + '\0' + bytes(1 + g.index(4), 2);
		}
		for(auto const& r : reg)
			if(r.second.source && !r.second.idOut && g.chance(1, 4))
				for(auto const& i : idIn)
					if(i.second == r.first) {
						size_t len = box(r.first).size();
						return cWelcome + bytes(i.first, 2) + bytes(1 + g.index(4), 2)
						       + (len > 2000 ? std::string(len, (char)g.index(2)) : g.bytes(len));
					}
		switch(g.weighted({3, 3, 10, 2, 2, 4})) {
		case 0: m = cHello + hash() + (g.chance() ? bytes(1 + g.index(4), 2) : id()); break;
		case 1: {
			std::string i = id();
			auto it = idIn.find(number(i.data(), 2));
			size_t len = it == idIn.end() ? 10 : box(it->second).size();
			if(g.chance(1, 4))
				len = g.chance() ? len - 1 : g.index(len + 3);
			std::string d = len > 2000 ? std::string(len, (char)g.index(2)) : g.bytes(len);
			m = cWelcome + i + id() + d;
			break;
		}
		case 2: {
			std::string i = id();
			m = cUpdate + i + update(i);
			break;
		}
		case 3:
			m = cBye;
			switch(g.index(3)) {
			case 0: break;
			case 1: m += id(); break;
			default: m += hash();
			}
			break;
		case 4: m = g.bytesUpTo(40); break;
		default:
			if(valid.empty())
				m = g.bytesUpTo(5);
			else
				m = g.pick(valid);
		}
		if(g.chance(1, 4) && !m.empty())
			switch(g.index(4)) {
			case 0: m.resize(g.index(m.size())); break;
			case 1: m[g.index(m.size())] ^= (char)(1u << g.index(8)); break;
			case 2: m.insert(g.index(m.size() + 1), g.bytesUpTo(4)); break;
			default: m.erase(g.index(m.size()), 1 + g.index(4)); break;
			}
		return m;
	}

	void write(size_t n, int k)
	{
		Box& b = *t.nodes[n]->stores[(size_t)k];
		size_t x = g.index(b.vars.size());
		bool bad = tainted.count({k, x});
		if(!bad && pending.count({k, x}))
			bad = true;
		if(bad)
			quiesce();
		b.set(x, t.newValue(b, x));
		g.note("node %zu writes %c%s = %s", n, 'A' + k, b.vars[x].name.c_str(), vh::hex(b.value(x)).c_str());
		if(bad)
			quiesce();
		else
			pending.insert({k, x});
	}

	void run()
	{
		t.build(4);
		v = g.index(t.nodes.size());
		// A store that is not synchronized with its parent
		for(int k = 0; k < 2; k++)
			if(!t.nodes[v]->stores[(size_t)k] && g.chance()) {
				t.nodes[v]->stores[(size_t)k] = sim::box(k, g.chance());
				for(auto& s : t.nodes[v]->syncs)
					t.nodes[v]->stores[(size_t)k]->map(*s);
			}
		std::string kinds;
		for(int k : t.kinds(v))
			kinds += (char)('A' + k);
		g.note("victim is node %zu, with %s", v, kinds.c_str());
		// All connections and initial values
		for(auto& x : t.edges)
			t.start(*x);
		quiesce();

		e.node[0] = e.node[1] = (int)v;
		e.create(0);
		e.create(1);
		e.up = true;
		e.connected[1] = true;
		e.port[1]->out = &e.q[0];
		e.sync[1] = t.nodes[v]->syncs[g.index(t.nodes[v]->syncs.size())].get();
		e.sync[1]->connect(*e.port[1]);
		// Stores of which evil is the source
		for(int k : t.kinds(v)) {
			if(v) {
				auto const& s = t.edges[v - 1]->stores;
				if(std::find(s.begin(), s.end(), k) != s.end())
					continue;
			}
			if(g.chance(2, 3))
				continue;
			g.note("sync %c from evil", 'A' + k);
			box(k).syncFrom(*e.sync[1], *e.port[1]);
			collect();
			VH_CHECK(g, sent.size() == 1 && sent[0][0] == cHello, "hello", "no Hello");
			reg[k].source = true;
			idIn[number(&sent[0][sent[0].size() - 2], 2)] = k;
			valid.push_back(sent[0]);
			sent.clear();
		}

		int steps = g.range<int>(1, 60);
		for(int i = 0; i < steps; i++) {
			auto p = t.pending();
			switch(g.weighted({10, 3, 3, p.empty() ? 0u : 4u})) {
			case 0: receive(message()); break;
			case 1: {
				size_t n = g.chance() ? v : g.index(t.nodes.size());
				auto k = t.kinds(n);
				write(n, k[g.index(k.size())]);
				break;
			}
			case 2: {
				size_t n = g.chance() ? v : g.index(t.nodes.size());
				g.note("node %zu processes", n);
				check(contents());
				t.process(n);
				auto r = check(contents());
				// Only when the store was replaced
				VH_CHECK(g, byes(r), "reply", "unexpected message");
				break;
			}
			default: {
				auto x = p[g.index(p.size())];
				collectQuiet();
				t.deliver(*x.e, x.side);
				collectQuiet();
			}
			}
		}
		g.note("synchronize");
		quiesce();
		auto c = contents();
		for(auto& x : t.edges)
			for(int k : x->stores) {
				Box& a = *t.nodes[(size_t)x->node[0]]->stores[(size_t)k];
				Box& b = *t.nodes[(size_t)x->node[1]]->stores[(size_t)k];
				for(size_t i = 0; i < a.vars.size(); i++)
					VH_CHECK(g, a.value(i) == b.value(i), "different", "%s of store %c at nodes %d and %d: %s and %s", a.vars[i].name.c_str(), 'A' + k,
						 x->node[0], x->node[1], vh::hex(a.value(i)).c_str(), vh::hex(b.value(i)).c_str());
			}
	}

	// Handle Byes after a Welcome of another source
	bool byes(std::vector<std::string> const& r)
	{
		for(auto const& m : r) {
			if(m[0] != cBye || m.size() != 3)
				return false;
			auto it = idIn.find(number(&m[1], 2));
			if(it == idIn.end())
				return false;
			drop(it->second);
		}
		return true;
	}

	// Messages as result of other connections
	void collectQuiet()
	{
		collect();
		for(auto const& m : sent)
			if(m.size() == 3 && m[0] == cBye)
				byes({m});
		sent.clear();
	}
};

} // namespace

VH_PROPERTY(messages, 10000, 600000, "a message that changes a store, a message with a malformed part that is rejected, and a Hello or Welcome that is accepted")
{
	Evil s(g);
	s.run();
	g.nontrivial(s.applied && s.rejected && (s.hellos || s.welcomes));
	if(s.partial)
		g.cls("partially applied update");
	if(s.welcomes)
		g.cls("evil source");
	if(s.hellos)
		g.cls("evil sink");
}
