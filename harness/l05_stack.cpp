// L05: Random protocol stacks.
#include "stacks.h"
#include <libstored/fifo.h>

using namespace lay;

namespace {

std::string message(Gen& g, size_t mtu, bool large = true)
{
	size_t max = large && g.chance(1, 10) ? 3000 : 300;
	if(mtu)
		max = std::min(max, mtu);
	size_t len = 1 + g.index(g.chance() ? std::min<size_t>(max, 12) : max);
	return g.bytes(len);
}

bool waiting(Stack& s)
{
	for(auto& l : s.layers)
		if(auto* a = dynamic_cast<stored::ArqLayer*>(l.get()))
			if(a->waitingForAck())
				return true;
	return false;
}

struct Side {
	Stack stack;
	Wire wire;
	std::vector<std::string> sent, received;
	std::deque<std::string> channel; // from this side
	explicit Side(std::vector<Spec> const& s)
		: stack(s)
	{
		wire.wrap(stack.bottom());
	}
};

} // namespace

#if PART == 1
VH_PROPERTY(stack_channel, 20000, 500000,
	    "random mirrored stacks (up to 8 layers, random MTUs) over a lossless channel, random messages in both "
	    "directions, random splits and delivery order; non-trivial: at least 3 layers and 2 messages in both directions")
{
	auto spec = genSpec(g, 8, 1, false, true);
	size_t mtu = g.chance() ? 0 : g.range<size_t>(40, 400);
	fixCompress(spec, mtu);
	g.note("stack: %s wire mtu %zu", desc(spec).c_str(), mtu);

	Side a(spec), b(spec);
	a.wire.m_mtu = b.wire.m_mtu = mtu;
	if(!mtuOk(a.stack))
		throw vh::Discard{};
	bool arq = has(spec, Arq);
	bool stream = framing(spec) == Term && g.chance(2, 3);
	Side* s[2] = {&a, &b};

	size_t steps = 0;
	auto collect = [&](int i) {
		for(auto& f : s[i]->wire.take())
			if(stream && !s[i]->channel.empty() && s[i]->channel.size() > 1)
				s[i]->channel.back() += f;
			else
				s[i]->channel.push_back(f);
	};
	auto check = [&]() {
		for(int i = 0; i < 2; i++) {
			VH_CHECK(g, !s[i]->stack.exceeded, "mtu-exceeded", "a frame exceeds the MTU");
			collect(i);
			for(auto& m : s[i]->stack.top.take())
				s[i]->received.push_back(m);
			auto& r = s[i]->received;
			auto& w = s[1 - i]->sent;
			VH_CHECK(g, r.size() <= w.size(), "extra", "side %d received %zu messages of %zu: %s", i, r.size(), w.size(), vh::hex(r.back()).c_str());
			for(size_t k = 0; k < r.size(); k++)
				VH_CHECK(g, r[k] == w[k], "content", "side %d received %s instead of %s", i, vh::hex(r[k]).c_str(), vh::hex(w[k]).c_str());
		}
	};
	auto deliver = [&](int i) {
		auto& c = s[i]->channel;
		if(c.empty())
			return;
		std::string f = c.front();
		c.pop_front();
		VH_CHECK(g, ++steps < 20000, "livelock", "too many frames");
		if(stream && f.size() > 1 && g.chance()) {
			size_t o = 0;
			for(auto k : g.splits(f.size(), false)) {
				lay::decode(s[1 - i]->stack.bottom(), f.substr(o, k));
				o += k;
				check();
			}
		} else
			lay::decode(s[1 - i]->stack.bottom(), f);
		check();
	};

	if(arq) {
		// Establish the connection first. Messages may be duplicated while doing so.
		bool ok = false;
		for(int round = 0; round < 20 && !ok; round++) {
			for(int i = 0; i < 2; i++) {
				s[i]->stack.first().flush();
				check();
				while(!a.channel.empty() || !b.channel.empty()) {
					deliver(0);
					deliver(1);
				}
			}
			ok = !waiting(a.stack) && !waiting(b.stack);
		}
		VH_CHECK(g, ok, "connect", "connection is not established");
	}

	size_t n = g.range<size_t>(1, 12);
	for(size_t k = 0; k < n; k++) {
		int i = (int)g.index(2);
		if(g.chance(1, 4)) {
			s[i]->stack.first().flush();
			check();
		} else if(g.chance()) {
			deliver(i);
		} else {
			std::string m = message(g, s[i]->stack.first().mtu(), !arq);
			g.note("side %d sends [%zu] %s", i, m.size(), vh::hex(m).c_str());
			s[i]->sent.push_back(m);
			lay::encode(g, s[i]->stack.first(), m);
			check();
		}
	}
	// Wrap up.
	size_t progress = 0;
	for(size_t round = 0; round < progress + 10; round++) {
		bool done = true;
		size_t before = steps;
		for(int i = 0; i < 2; i++) {
			if(arq) {
				s[i]->stack.first().flush();
				check();
			}
			while(!s[i]->channel.empty())
				deliver(i);
			if(s[1 - i]->received.size() < s[i]->sent.size() || !s[0]->channel.empty() || !s[1]->channel.empty())
				done = false;
		}
		if(done && round > 4)
			break;
		if(!done && steps > before)
			progress = round;
	}
	for(int i = 0; i < 2; i++) {
		VH_CHECK(g, s[1 - i]->received.size() == s[i]->sent.size(), "lost", "side %d received %zu of %zu messages", 1 - i, s[1 - i]->received.size(), s[i]->sent.size());
		VH_CHECK(g, s[i]->stack.nonDebug.empty() || stream, "non-debug", "non-debug data %s", vh::hex(s[i]->stack.nonDebug).c_str());
	}
	g.nontrivial(spec.size() >= 3 && a.sent.size() >= 2 && b.sent.size() >= 2);
	if(arq)
		g.cls("arq");
	if(mtu)
		g.cls("mtu");
	if(stream)
		g.cls("stream");
	if(has(spec, Compress))
		g.cls("compress");
}

VH_PROPERTY(topology, 20000, 400000,
	    "random wrap()/stack()/destruction against a model of the order of layers; non-trivial: at least 4 layers and a destruction")
{
	typedef std::unique_ptr<Top> P;
	// Each chain is a list of layer numbers, top-down.
	std::vector<std::vector<size_t>> chains;
	std::vector<P> l;
	size_t n = g.range<size_t>(2, 7);
	for(size_t i = 0; i < n; i++) {
		l.emplace_back(new Top());
		chains.push_back({i});
	}
	auto find = [&](size_t x) {
		for(size_t c = 0; c < chains.size(); c++)
			for(auto y : chains[c])
				if(x == y)
					return c;
		return chains.size();
	};
	auto check = [&]() {
		for(auto& c : chains)
			for(size_t i = 0; i < c.size(); i++) {
				auto& x = *l[c[i]];
				VH_CHECK(g, x.up() == (i ? l[c[i - 1]].get() : nullptr), "up", "up of %zu", c[i]);
				VH_CHECK(g, x.down() == (i + 1 < c.size() ? l[c[i + 1]].get() : nullptr), "down", "down of %zu", c[i]);
				VH_CHECK(g, &x.top() == l[c.front()].get(), "top", "top of %zu", c[i]);
				VH_CHECK(g, &x.bottom() == l[c.back()].get(), "bottom", "bottom of %zu", c[i]);
			}
	};
	bool destr = false;
	for(size_t k = 0; k < 12; k++) {
		size_t x = g.index(n), y = g.index(n);
		if(!l[x] || !l[y])
			continue;
		size_t cx = find(x), cy = find(y);
		switch(g.index(3)) {
		case 0:
			// Wrap l[y] by l[x]: x's chain from x down goes directly below y.
			if(cx == cy || chains[cx].front() != x)
				continue;
			{
				g.note("%zu.wrap(%zu)", x, y);
				auto& b = l[x]->wrap(*l[y]);
				std::vector<size_t> r;
				for(auto i : chains[cy]) {
					r.push_back(i);
					if(i == y)
						r.insert(r.end(), chains[cx].begin(), chains[cx].end());
				}
				VH_CHECK(g, &b == l[r.back()].get(), "wrap", "wrap() does not return the bottom");
				chains[cy] = r;
				chains.erase(chains.begin() + (long)cx);
			}
			break;
		case 1:
			// Stack l[x] on top of l[y].
			if(cx == cy || chains[cx].back() != x)
				continue;
			{
				g.note("%zu.stack(%zu)", x, y);
				auto& t = l[x]->stack(*l[y]);
				std::vector<size_t> r;
				for(auto i : chains[cy]) {
					if(i == y)
						r.insert(r.end(), chains[cx].begin(), chains[cx].end());
					r.push_back(i);
				}
				VH_CHECK(g, &t == l[r.front()].get(), "stack", "stack() does not return the top");
				chains[cy] = r;
				chains.erase(chains.begin() + (long)cx);
			}
			break;
		default:
			if(!g.chance(1, 3))
				continue;
			g.note("delete %zu", x);
			l[x].reset();
			destr = true;
			auto& c = chains[cx];
			for(size_t i = 0; i < c.size(); i++)
				if(c[i] == x) {
					c.erase(c.begin() + (long)i);
					break;
				}
			if(c.empty())
				chains.erase(chains.begin() + (long)cx);
		}
		check();
	}
	size_t longest = 0;
	for(auto& c : chains)
		longest = std::max(longest, c.size());
	g.nontrivial(destr && longest >= 3);
}
#endif

#if PART == 2
VH_PROPERTY(stack_loopback, 10000, 300000,
	    "random mirrored stacks connected by a Loopback or FifoLoopback; non-trivial: at least 2 layers and 3 messages")
{
	bool fifo = g.chance();
	// ARQ over a Loopback recurses endlessly.
	auto spec = genSpec(g, 6, fifo, false, true);
	fixCompress(spec, fifo);
	bool arq = has(spec, Arq);
	g.note("%s: %s", fifo ? "FifoLoopback" : "Loopback", desc(spec).c_str());
	Stack a(spec), b(spec);
	if(!mtuOk(a))
		throw vh::Discard{};
	typedef stored::FifoLoopback<32768, 2048> F;
	std::unique_ptr<F> f;
	std::unique_ptr<stored::Loopback> l;
	if(fifo)
		f.reset(new F(a.bottom(), b.bottom()));
	else {
		l.reset(new stored::Loopback(a.bottom(), b.bottom()));
		if(g.chance())
			l->reserve(g.index(200));
	}
	Stack* s[2] = {&a, &b};
	std::vector<std::string> sent[2], received[2];
	// Let b reply to every message, within decode().
	bool reply = !arq && g.chance();
	if(reply)
		b.top.cb = [&](std::string const& m) {
			std::string r = m.substr(0, m.size() / 2) + "r";
			sent[1].push_back(r);
			lay::encode(g, b.first(), r);
		};
	auto pump = [&]() {
		if(fifo)
			for(int k = 0; k < 200; k++) {
				bool any = f->a2b().recv() == 0;
				any = f->b2a().recv() == 0 || any;
				if(!any)
					break;
			}
	};
	auto check = [&]() {
		for(int i = 0; i < 2; i++) {
			VH_CHECK(g, !s[i]->exceeded, "mtu-exceeded", "a frame exceeds the MTU");
			for(auto& m : s[i]->top.take())
				received[i].push_back(m);
			VH_CHECK(g, received[i].size() <= sent[1 - i].size(), "extra", "%zu received", received[i].size());
			for(size_t k = 0; k < received[i].size(); k++)
				VH_CHECK(g, received[i][k] == sent[1 - i][k], "content", "received %s", vh::hex(received[i][k]).c_str());
		}
	};
	if(arq) {
		bool ok = false;
		for(int round = 0; round < 20 && !ok; round++) {
			for(auto* x : s) {
				x->first().flush();
				pump();
				check();
			}
			ok = !waiting(a) && !waiting(b);
		}
		VH_CHECK(g, ok, "connect", "connection is not established");
	}

	size_t n = g.range<size_t>(1, 8);
	for(size_t k = 0; k < n; k++) {
		int i = reply ? 0 : (int)g.index(2);
		std::string m = message(g, s[i]->first().mtu(), !arq);
		g.note("side %d sends [%zu] %s", i, m.size(), vh::hex(m).c_str());
		sent[i].push_back(m);
		if(arq)
			// Every part triggers a retransmit, which may overflow the fifo.
			lay::encode(s[i]->first(), m, {m.size()});
		else
			lay::encode(g, s[i]->first(), m);
		if(m.size() > 300 || !g.chance(1, 4))
			pump();
		check();
	}
	for(int round = 0; round < 50; round++) {
		if(arq)
			for(auto* x : s)
				x->first().flush();
		pump();
		check();
	}
	for(int i = 0; i < 2; i++)
		VH_CHECK(g, received[1 - i].size() == sent[i].size(), "lost", "%zu of %zu received", received[1 - i].size(), sent[i].size());
	g.nontrivial(spec.size() >= 2 && n >= 3);
	if(arq)
		g.cls("arq");
}
#endif
