// L09: arbitrary bytes into random stacks.
#include "stacks.h"

using namespace lay;

namespace {

struct Side {
	Stack stack;
	Wire wire;
	explicit Side(std::vector<Spec> const& s)
		: stack(s)
	{
		wire.wrap(stack.bottom());
	}
};

// Frame-like garbage: valid bytes in odd places.
std::string garbage(Gen& g, std::vector<std::string> const& valid)
{
	std::string s;
	switch(g.weighted({3, 3, 4, 2})) {
	case 0:
		return g.bytesUpTo(300);
	case 1: { // tokens
		size_t n = g.range<size_t>(1, 12);
		for(size_t i = 0; i < n; i++) {
			static char const* t[] = {"\x1b_", "\x1b\\", "\x1b", "\x7f", "\x7f@", "C", "E", "\x80", "\xc0", "\x40", "\x01", "\x02", "\xff\xff\xff\xff", "\x7f\xff\xff\x7f", "\r"};
			size_t k = g.index(16);
			if(k == 15)
				s.push_back(0);
			else
				s += t[k];
			if(g.chance(1, 3))
				s += g.bytesUpTo(10);
		}
		return s;
	}
	case 2: { // mutated
		if(valid.empty())
			return g.bytesUpTo(20);
		s = g.pick(valid);
		size_t n = g.range<size_t>(1, 3);
		for(size_t i = 0; i < n; i++) {
			if(s.empty())
				break;
			size_t o = g.index(s.size());
			switch(g.index(5)) {
			case 0:
				s[o] = (char)(s[o] ^ (1 << g.index(8)));
				break;
			case 1:
				s.erase(o, 1 + g.index(8));
				break;
			case 2:
				s.insert(o, g.bytesUpTo(8));
				break;
			case 3:
				s.resize(o);
				break;
			default:
				s += g.pick(valid);
			}
		}
		return s;
	}
	default: // replay
		if(valid.empty())
			return g.bytesUpTo(20);
		return g.pick(valid);
	}
}

} // namespace

VH_PROPERTY(garbage, 30000, 1000000,
	    "random stacks (up to 8 layers, including ARQ and debug ARQ) that receive random, token-based, mutated and replayed "
	    "frames, while the application may respond and send; then both sides are reset and exchange messages; non-trivial: "
	    "at least 2 layers and 3 garbage frames, of which at least one passed up or triggered a frame down")
{
	auto spec = genSpec(g, 8, 1, true, true);
	bool dArq = has(spec, DArq);
	if(dArq) {
		// It is not to be combined with general-purpose ARQ, and only once.
		std::vector<Spec> s;
		bool one = false;
		for(auto const& x : spec) {
			if(x.kind == Arq || (x.kind == DArq && one))
				continue;
			one = one || x.kind == DArq;
			s.push_back(x);
		}
		spec = s;
	}
	size_t mtu = g.chance() ? 0 : g.range<size_t>(40, 400);
	fixCompress(spec, mtu);
	// Escaping may have been dropped
	g.note("stack: %s wire mtu %zu", desc(spec).c_str(), mtu);

	Side a(spec), b(spec);
	a.wire.m_mtu = b.wire.m_mtu = mtu;
	if(!mtuOk(a.stack))
		throw vh::Discard{};

	bool replies = g.chance(1, 2);
	size_t sizeLimit = a.stack.first().mtu();
	size_t up = 0, down = 0;
	a.stack.top.cb = [&](std::string const& m) {
		up++;
		if(dArq || (replies && g.chance(1, 3))) {
			// Debugger-like: one response per request
			std::string r = g.bytesUpTo(40);
			if(sizeLimit && r.size() > sizeLimit)
				r.resize(sizeLimit);
			if(dArq && g.chance(1, 4))
				a.stack.first().setPurgeableResponse();
			lay::encode(g, a.stack.first(), r);
			if(dArq && g.chance(1, 2))
				a.stack.first().setPurgeableResponse(false);
		}
		(void)m;
	};

	auto message = [&](size_t max) {
		if(sizeLimit && max > sizeLimit)
			max = sizeLimit;
		return g.bytes(1 + g.index(max));
	};

	// Valid frames from the other side.
	std::vector<std::string> valid;
	size_t nv = dArq ? 0 : g.index(4);
	for(size_t i = 0; i < nv; i++) {
		lay::encode(g, b.stack.first(), message(40));
		for(auto& f : b.wire.take())
			valid.push_back(f);
	}

	size_t n = g.range<size_t>(1, 20);
	for(size_t i = 0; i < n; i++) {
		std::string f = garbage(g, valid);
		g.note("garbage %s", vh::hex(f).c_str());
		lay::decode(a.wire, f);
		if(!dArq && g.chance(1, 10)) {
			std::string m = message(30);
			g.note("send %s", vh::hex(m).c_str());
			lay::encode(g, a.stack.first(), m);
		}
		if(g.chance(1, 10))
			a.stack.first().flush();
		auto o = a.wire.take();
		down += o.size();
		for(auto& x : o) {
			// ArqLayer may add an additional ack to the frame, when a peer sends several no-ops in one frame,
			// which a real peer never does.
			if(mtu && !has(spec, Arq))
				VH_CHECK(g, x.size() <= mtu, "mtu", "frame of %zu exceeds mtu %zu: %s", x.size(), mtu, vh::hex(x).c_str());
			if(valid.size() < 50)
				valid.push_back(x);
		}
	}
	g.nontrivial(spec.size() >= 2 && n >= 3 && (up || down));
	if(up)
		g.cls("passed up");
	if(down)
		g.cls("response");

	// Recover.
	a.stack.top.cb = nullptr;
	for(Side* s : {&a, &b})
		if(!dArq && g.chance(1, 6)) {
			// An unfinished message
			std::string m = message(30);
			g.note("send part %s", vh::hex(m).c_str());
			s->stack.first().encode(m.data(), m.size(), false);
		}
	a.stack.first().reset();
	b.stack.first().reset();
	a.stack.top.take();
	b.stack.top.take();
	a.wire.take();
	b.wire.take();
	a.wire.partial.clear();
	b.wire.partial.clear();

	auto shuttle = [&]() {
		for(int i = 0; i < 1000; i++) {
			auto fa = a.wire.take();
			auto fb = b.wire.take();
			if(fa.empty() && fb.empty())
				return;
			for(auto& f : fa)
				lay::decode(b.wire, f);
			for(auto& f : fb)
				lay::decode(a.wire, f);
		}
		g.fail("livelock", "frames keep being sent");
	};
	if(has(spec, Arq)) {
		for(int i = 0; i < 8; i++) {
			a.stack.first().flush();
			shuttle();
			b.stack.first().flush();
			shuttle();
		}
	}
	if(dArq) {
		// a is the target; and b cannot be the client. Only check a by a raw client.
		if(spec.size() == 1) {
			lay::decode(a.wire, "\x80");
			auto f = a.wire.take();
			VH_CHECK(g, f.size() == 1 && f[0] == "\x80", "recover-darq", "%zu responses to reset", f.size());
			lay::decode(a.wire, "\x01hello");
			auto m = a.stack.top.take();
			VH_CHECK(g, m.size() == 1 && m[0] == "hello", "recover-darq", "got %zu messages", m.size());
		}
		return;
	}
	size_t k = g.range<size_t>(1, 3);
	for(size_t i = 0; i < k; i++) {
		Side* s[2] = {&a, &b};
		int from = (int)g.index(2);
		std::string m = message(100);
		lay::encode(g, s[from]->stack.first(), m);
		s[from]->stack.first().flush();
		shuttle();
		auto r = s[1 - from]->stack.top.take();
		VH_CHECK(g, r.size() == 1 && r[0] == m, "recover", "after reset, message %s is received as %zu messages: %s", vh::hex(m).c_str(), r.size(), r.empty() ? "" : vh::hex(r[0]).c_str());
	}
}
