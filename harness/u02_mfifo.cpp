// U02: stored::MessageFifo and FifoLoopback1 against a queue of strings.
#include "vh.h"
#include <libstored/fifo.h>
#include <stored>

#include <deque>
#include <memory>
#include <string>

using vh::Gen;

namespace {

std::string msgBytes(Gen& g, size_t len, uint32_t& tag)
{
	// Cheap, unique content.
	std::string s;
	uint32_t t = ++tag;
	for(size_t i = 0; i < len; i++)
		s.push_back((char)(t * 37U + i * 11U + (i >> 5U)));
	(void)g;
	return s;
}

template <typename F>
void checkAll(Gen& g, F& f, std::deque<std::string> const& m, std::string const& partial, size_t Capacity, size_t Messages)
{
	F const& cf = f;
	VH_CHECK(g, cf.available() == m.size(), "available", "available %zu, expected %zu", cf.available(), m.size());
	VH_CHECK(g, cf.empty() == m.empty(), "empty", "empty %d with %zu", (int)cf.empty(), m.size());
	size_t used = partial.size();
	for(auto const& x : m)
		used += x.size();
	if(Capacity) {
		size_t space = cf.space();
		VH_CHECK(g, space <= cf.capacity() - used, "space", "space %zu, capacity %zu, used %zu", space, cf.capacity(), used);
		VH_CHECK(g, m.size() <= Messages, "limit", "too many messages");
		VH_CHECK(g, cf.full() == (m.size() == Messages || space == 0), "full", "full %d with %zu messages, space %zu", cf.full(), m.size(), space);
		if(m.size() == Messages)
			VH_CHECK(g, space == 0, "space", "space with max messages");
	} else {
		VH_CHECK(g, !cf.full(), "full", "unbounded is full");
	}
	if(!m.empty()) {
		auto a = cf.front();
		VH_CHECK(g, a.size() == m.front().size(), "front", "front size %zu, expected %zu", a.size(), m.front().size());
		VH_CHECK(g, std::string(a.data(), a.size()) == m.front(), "front", "front differs: %s, expected %s",
			 vh::hex(a.data(), a.size()).c_str(), vh::hex(m.front()).c_str());
		auto b = f.front();
		VH_CHECK(g, std::string(b.data(), b.size()) == m.front(), "front", "front differs");
	}
}

template <size_t Capacity, size_t Messages, bool TS>
void test(Gen& g)
{
	typedef stored::MessageFifo<Capacity, Messages, TS> F;
	std::unique_ptr<F> fp(new F());
	F& f = *fp;
	std::deque<std::string> m;
	std::string partial;
	uint32_t tag = (uint32_t)g.raw(256);
	size_t ops = 1 + g.size(100);
	size_t limit = Capacity ? Capacity - 1 : 200;
	size_t lim = g.pick({limit, std::min<size_t>(limit, 8), std::min<size_t>(limit, std::max<size_t>(1, limit / 3))});
	size_t total = 0;
	bool zero = false;
	bool appended = false;
	unsigned refused = 0;
	g.note("MessageFifo<%zu,%zu,%d>", Capacity, Messages, TS);

	auto len = [&]() -> size_t {
		switch(g.weighted({2, 6, 2, 1, 2})) {
		case 0:
			zero = true;
			return 0;
		case 1:
			return g.index(lim + 1);
		case 2:
			return Capacity ? std::min<size_t>(f.space(), 1000) : lim;
		case 3:
			return Capacity ? std::min<size_t>(f.space() + 1, 1000) : lim;
		default:
			return g.index(5);
		}
	};

	// Expect acceptance of l more bytes
	auto must = [&](size_t l) {
		if(!Capacity)
			return true;
		if(m.size() == Messages)
			return false;
		if(l <= f.space())
			return true;
		if(m.empty() && partial.empty() && l <= f.capacity())
			return true;
		return false;
	};
	auto tooLarge = [&](size_t l) { return Capacity && l + partial.size() > Capacity; };

	for(size_t op = 0; op < ops; op++) {
		switch(g.weighted({8, 5, 3, 2, 8, 1, 2, 2, 2, 2})) {
		case 0: {
			std::string s = msgBytes(g, len(), tag);
			bool mst = must(s.size());
			g.note("push_back(%zu)%s, space %zu", s.size(), mst ? "" : " may fail", f.space());
			bool res = false;
			bool ex = false;
			try {
				res = g.chance() ? f.push_back(s.data(), s.size()) : f.push_back(typename F::const_type(s.data(), s.size()));
			} catch(std::bad_alloc const&) {
				ex = true;
			}
			if(ex) {
				VH_CHECK(g, tooLarge(s.size()), "exception", "exception for %zu", s.size());
			} else if(res) {
				VH_CHECK(g, !Capacity || m.size() < Messages, "limit", "accepted too many");
				m.push_back(partial + s);
				total += m.back().size();
				partial.clear();
			} else {
				VH_CHECK(g, !mst, "refused", "refused %zu bytes", s.size());
				refused++;
			}
			break;
		}
		case 1: {
			std::string s = msgBytes(g, len(), tag);
			bool mst = must(s.size()) || s.empty();
			g.note("append_back(%zu)%s, space %zu", s.size(), mst ? "" : " may fail", f.space());
			bool res = false;
			bool ex = false;
			try {
				res = g.chance() ? f.append_back(s.data(), s.size()) : f.append_back(typename F::const_type(s.data(), s.size()));
			} catch(std::bad_alloc const&) {
				ex = true;
			}
			if(ex) {
				VH_CHECK(g, tooLarge(s.size()), "exception", "exception for %zu", s.size());
			} else if(res) {
				partial += s;
				appended = true;
			} else {
				VH_CHECK(g, !mst, "refused", "refused append of %zu bytes", s.size());
				refused++;
			}
			break;
		}
		case 2: {
			g.note("push_back()");
			bool res = f.push_back();
			VH_CHECK(g, res == (!Capacity || m.size() < Messages), "commit", "push_back() returns %d", res);
			if(res) {
				m.push_back(partial);
				if(partial.empty())
					zero = true;
				total += partial.size();
				partial.clear();
			}
			break;
		}
		case 3:
			g.note("reset_back");
			g.chance() ? f.reset_back() : f.pop_back();
			partial.clear();
			break;
		case 4:
			if(m.empty())
				break;
			g.note("pop_front");
			f.pop_front();
			m.pop_front();
			break;
		case 5:
			g.note("clear");
			f.clear();
			m.clear();
			partial.clear();
			break;
		case 6: {
			g.note("iterate");
			size_t stop = g.chance() ? m.size() + 1 : g.index(m.size() + 1);
			size_t i = 0;
			for(auto it = f.begin(); it != f.end(); ++it) {
				VH_CHECK(g, !m.empty(), "iterate", "too many");
				if(i++ == stop)
					break;
				auto x = *it;
				VH_CHECK(g, std::string(x.data(), x.size()) == m.front(), "iterate", "differs");
				m.pop_front();
			}
			if(stop > i)
				VH_CHECK(g, m.empty(), "iterate", "stopped too early");
			break;
		}
		case 7: {
			// Modify in place.
			if(m.empty() || m.front().empty())
				break;
			size_t i = g.index(m.front().size());
			g.note("modify [%zu]", i);
			m.front()[i] = (char)++tag;
			f.front().data()[i] = m.front()[i];
			break;
		}
		case 8: {
			if(!partial.empty())
				break;
			std::vector<std::string> v;
			size_t cnt = g.index(4);
			for(size_t i = 0; i < cnt; i++)
				v.push_back(msgBytes(g, Capacity ? g.index(std::min<size_t>(Capacity - 1, 12) + 1) : g.index(12), tag));
			g.note("push_back(it,it+%zu)", cnt);
			size_t r = f.push_back(v.begin(), v.end());
			VH_CHECK(g, r <= cnt, "multi", "accepted %zu of %zu", r, cnt);
			for(size_t i = 0; i < r; i++) {
				m.push_back(v[i]);
				total += v[i].size();
			}
			if(r < cnt)
				VH_CHECK(g, !must(v[r].size()), "refused", "refused %zu bytes", v[r].size());
			break;
		}
		default: {
			if(!partial.empty() || (Capacity && Capacity < 8))
				break;
			std::string a = msgBytes(g, 3, tag), b = msgBytes(g, 0, tag), c = msgBytes(g, 6, tag);
			g.note("push_back({3,0,6})");
			size_t r = f.push_back({typename F::const_type(a.data(), a.size()), typename F::const_type(b.data(), b.size()), typename F::const_type(c.data(), c.size())});
			std::string const* x[] = {&a, &b, &c};
			for(size_t i = 0; i < r && i < 3; i++) {
				m.push_back(*x[i]);
				total += x[i]->size();
			}
			zero |= r >= 2;
			if(r < 3)
				VH_CHECK(g, !must(x[r]->size()), "refused", "refused %zu bytes", x[r]->size());
		}
		}
		checkAll(g, f, m, partial, Capacity, Messages);
	}
	if(refused)
		g.cls("refused a message");
	if(zero)
		g.cls("zero-length messages");
	if(appended)
		g.cls("partial messages");
	bool wrapped = Capacity && total > Capacity;
	if(wrapped)
		g.cls("wrapped");
	g.nontrivial(Capacity ? wrapped && refused : total > 20);
	while(!m.empty()) {
		auto b = f.front();
		VH_CHECK(g, std::string(b.data(), b.size()) == m.front(), "drain", "front differs");
		f.pop_front();
		m.pop_front();
	}
	VH_CHECK(g, f.empty(), "drain", "not empty");
	if(Capacity) {
		// When empty, any message up to the capacity fits.
		f.reset_back();
		std::string s = msgBytes(g, f.capacity(), tag);
		VH_CHECK(g, f.push_back(s.data(), s.size()), "capacity", "refused message of capacity() bytes when empty");
		auto b = f.front();
		VH_CHECK(g, std::string(b.data(), b.size()) == s, "capacity", "differs");
	}
}

// Receives what is decoded.
class Sink : public stored::ProtocolLayer {
public:
	std::deque<std::string> msgs;
	void decode(void* buffer, size_t len) override
	{
		msgs.emplace_back((char const*)buffer, len);
	}
};

class Bottom : public stored::ProtocolLayer {
public:
	std::string data;
	unsigned last = 0;
	void encode(void const* buffer, size_t len, bool l = true) override
	{
		data.append((char const*)buffer, len);
		if(l)
			last++;
	}
	using stored::ProtocolLayer::encode;
};

template <size_t Capacity, size_t Messages>
void testLoopback(Gen& g)
{
	Sink sink;
	stored::FifoLoopback1<Capacity, Messages> lb(&sink);
	std::deque<std::string> m;	 // in fifo
	std::deque<std::string> received; // expected
	std::string partial;
	bool dropping = false;
	bool unsure = false; // current message may be accepted or dropped
	uint32_t tag = 0;
	size_t ops = 1 + g.size(60);
	bool handler = g.chance();
	unsigned overflows = 0;
	unsigned lost = 0;
	unsigned resolves = 0;
	if(handler)
		lb.setOverflowHandler([&]() {
			overflows++;
			if(resolves && !m.empty()) {
				resolves--;
				// The other side pops one.
				received.push_back(m.front());
				m.pop_front();
				lb.recv();
				return true;
			}
			return false;
		});
	g.note("FifoLoopback1<%zu,%zu> handler=%d", Capacity, Messages, handler);
	VH_CHECK(g, lb.mtu() > 0 && lb.mtu() <= Capacity, "mtu", "mtu %zu", lb.mtu());
	size_t mtu = lb.mtu();

	for(size_t op = 0; op < ops; op++) {
		if(g.weighted({3, 2}) == 0) {
			size_t len = g.index(std::min<size_t>(mtu, g.chance() ? mtu : 5) + 1);
			auto s = msgBytes(g, len, tag);
			// Pass in parts, as the layers above do.
			auto parts = g.splits(len);
			if(g.chance(1, 3))
				parts.push_back(0);
			resolves = handler ? (unsigned)g.index(3) : 0;
			size_t o = 0;
			size_t msgsBefore = m.size();
			unsigned ovBefore = overflows;
			lb.reset();
			bool wasEmpty = m.empty();
			size_t space = lb.space();
			for(size_t i = 0; i < parts.size(); i++) {
				lb.encode(s.data() + o, parts[i], i + 1 == parts.size());
				o += parts[i];
			}
			bool dropped = handler ? false : lb.lastError() == ENOMEM;
			if(handler) {
				// When any overflow invocation was not resolved, it is lost.
				dropped = lb.available() == m.size();
				if(dropped)
					VH_CHECK(g, overflows > ovBefore, "silent-drop", "message of %zu bytes dropped without overflow", len);
			}
			g.note("encode(%zu in %zu parts), space %zu, %zu messages%s", len, parts.size(), space, msgsBefore, dropped ? ": dropped" : "");
			if(!dropped)
				m.push_back(s);
			else {
				lost++;
				if(!handler)
					VH_CHECK(g, !(wasEmpty || (msgsBefore < Messages && len <= space && parts.size() == 1)), "refused",
						 "message of %zu bytes was dropped, with space %zu, %zu messages", len, space, msgsBefore);
			}
		} else if(g.chance(3, 4)) {
			g.note("recv");
			int r = lb.recv();
			VH_CHECK(g, r == (m.empty() ? EAGAIN : 0), "recv", "recv returns %d with %zu messages", r, m.size());
			if(!m.empty()) {
				received.push_back(m.front());
				m.pop_front();
			}
		} else {
			g.note("recvAll");
			lb.recvAll();
			while(!m.empty()) {
				received.push_back(m.front());
				m.pop_front();
			}
		}
		VH_CHECK(g, lb.available() == m.size(), "available", "%zu available, expected %zu", lb.available(), m.size());
		VH_CHECK(g, lb.empty() == m.empty(), "empty", "empty");
		VH_CHECK(g, sink.msgs == received, "received", "received %zu messages, expected %zu, or contents differ: last %s, expected %s",
			 sink.msgs.size(), received.size(),
			 sink.msgs.empty() ? "-" : vh::hex(sink.msgs.back()).c_str(),
			 received.empty() ? "-" : vh::hex(received.back()).c_str());
	}
	(void)dropping;
	(void)unsure;
	(void)partial;
	if(lost)
		g.cls("overflow");
	g.nontrivial(lost && received.size() > 1);
}

} // namespace

#if PART == 1
VH_PROPERTY(small, 80000, 4000000, "operation histories on small message FIFOs; non-trivial when the buffer wrapped around and a message was refused")
{
	switch(g.range(0, 4)) {
	case 0: return test<2, 2, true>(g);
	case 1: return test<5, 3, true>(g);
	case 2: return test<8, 4, true>(g);
	case 3: return test<16, 100, false>(g);
	default: return test<33, 5, true>(g);
	}
}
#endif
#if PART == 2
VH_PROPERTY(boundary, 30000, 1000000, "histories on message FIFOs with capacities at limits of the index type; non-trivial idem")
{
	switch(g.range(0, 3)) {
	case 0: return test<127, 31, true>(g);
	case 1: return test<255, 254, true>(g);
	case 2: return test<256, 130, true>(g);
	default: return test<600, 10, true>(g);
	}
}
#endif
#if PART == 3
VH_PROPERTY(unbounded, 20000, 800000, "histories on unbounded message FIFOs; non-trivial when over 20 bytes passed")
{
	test<0, 0, false>(g);
}

VH_PROPERTY(loopback, 40000, 2000000, "encode (in parts)/recv histories over a FifoLoopback1; non-trivial when a message was dropped because of an overflow and others were received")
{
	switch(g.range(0, 2)) {
	case 0: return testLoopback<8, 2>(g);
	case 1: return testLoopback<20, 10>(g);
	default: return testLoopback<64, 8>(g);
	}
}
#endif
