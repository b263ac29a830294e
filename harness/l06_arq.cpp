// L06: ArqLayer over a lossy channel.
#include "stacks.h"
#include <algorithm>

using namespace lay;

namespace {

struct Msg {
	std::string data;
	unsigned epoch; // number of own resets before this message was sent
};

struct Side {
	std::unique_ptr<Top> top;
	std::unique_ptr<stored::ArqLayer> arq;
	std::unique_ptr<stored::ProtocolLayer> seg; // below or above
	std::unique_ptr<stored::ProtocolLayer> crc;
	std::unique_ptr<Wire> wire;
	std::deque<std::string> channel; // from this side
	std::vector<Msg> sent;
	std::vector<std::string> received;
	unsigned epoch = 0;
	unsigned reconnects = 0;
	unsigned overflows = 0;
	unsigned retransmitEvents = 0;
	unsigned connects() const { return top->connects; }
	unsigned connectsAtReset = 0;
	std::string partial; // message under construction
	bool encoding = false;

	stored::ProtocolLayer& first()
	{
		return *top;
	}
};

struct Config {
	size_t maxBuffer = 0;
	int seg = 0; // 0: none, 1: above, 2: below
	int crc = 0; // 0: none, 1: crc8, 2: crc16
	size_t mtu = 0;
	size_t segMtu = 0;
};

void construct(Side& s, Config const& c)
{
	// Tear down from the top; layers untie themselves.
	s.top.reset();
	s.arq.reset();
	s.seg.reset();
	s.crc.reset();
	s.wire.reset();

	s.top.reset(new Top());
	s.arq.reset(new stored::ArqLayer(c.maxBuffer));
	s.wire.reset(new Wire());
	s.wire->m_mtu = c.mtu;
	stored::ProtocolLayer* up = s.top.get();
	if(c.seg == 1) {
		s.seg.reset(new stored::SegmentationLayer(c.segMtu));
		s.seg->wrap(*up);
		up = s.seg.get();
	}
	s.arq->wrap(*up);
	up = s.arq.get();
	if(c.seg == 2) {
		s.seg.reset(new stored::SegmentationLayer(c.segMtu));
		s.seg->wrap(*up);
		up = s.seg.get();
	}
	if(c.crc) {
		if(c.crc == 1)
			s.crc.reset(new stored::Crc8Layer());
		else
			s.crc.reset(new stored::Crc16Layer());
		s.crc->wrap(*up);
		up = s.crc.get();
	}
	s.wire->wrap(*up);

	auto* sp = &s;
	s.arq->setEventCallback([sp](stored::ArqLayer&, stored::ArqLayer::Event e) {
		switch(e) {
		case stored::ArqLayer::EventReconnect:
			sp->reconnects++;
			break;
		case stored::ArqLayer::EventEncodeBufferOverflow:
			sp->overflows++;
			break;
		case stored::ArqLayer::EventRetransmit:
			sp->retransmitEvents++;
			break;
		default:;
		}
	});
	s.top->connects = 0;
}

// Channel with both sides.
struct World {
	Gen& g;
	Config c;
	Side s[2];
	size_t steps = 0;
	size_t lost = 0;
	bool resetUsed = false;
	// Messages from this index on must be delivered exactly once.
	size_t exactFrom[2] = {0, 0};
	size_t replies = 0;
	unsigned replyChance = 0;
	uint64_t counter = 0;
	size_t matched[2] = {0, 0}; // received messages already matched against sent[peer] (strict mode)

	World(Gen& g_, Config const& c_)
		: g(g_)
		, c(c_)
	{
		for(int i = 0; i < 2; i++) {
			construct(s[i], c);
			install(i);
		}
	}

	void install(int i)
	{
		s[i].top->cb = [this, i](std::string const& m) {
			s[i].received.push_back(m);
			if(replyChance && !s[i].encoding && replies < 300 && g.chance(replyChance, 10)) {
				replies++;
				send(i, newMessage(i), false);
			}
		};
	}

	std::string newMessage(int i)
	{
		size_t mtu = s[i].top->down()->mtu();
		size_t max = mtu ? std::min<size_t>(mtu, 60) : 60;
		// All messages are unique.
		char id[16];
		size_t l = (size_t)snprintf(id, sizeof(id), "%c%x", 'A' + i, (unsigned)counter++);
		std::string m(id, l);
		if(m.size() < max && g.chance())
			m += g.bytes(g.index(max - m.size() + 1));
		return m;
	}

	// Bytes that are certainly in the encode queue.
	size_t pendingBytes(int i)
	{
		if(c.seg == 1)
			return 0;
		size_t n = 0;
		for(size_t k = deliveredCount(i); k < s[i].sent.size(); k++)
			if(s[i].sent[k].epoch == s[i].epoch)
				n += s[i].sent[k].data.size() + 1;
		return n;
	}

	// Number of messages that were delivered for sure (only without resets)
	size_t deliveredCount(int i)
	{
		if(resetUsed)
			return s[i].sent.size();
		return s[1 - i].received.size();
	}

	void send(int i, std::string const& m, bool log = true)
	{
		if(log)
			g.note("side %d sends %s", i, vh::hex(m).c_str());
		size_t before = pendingBytes(i);
		unsigned o = s[i].overflows;
		bool idle = !s[i].arq->waitingForAck();
		s[i].sent.push_back({m, s[i].epoch});
		lay::encode(g, *s[i].top->down(), m);
		checkOverflow(i, before, m, o, idle);
	}

	void checkOverflow(int i, size_t before, std::string const& m, unsigned o, bool idle)
	{
		if(c.maxBuffer && c.seg != 1) {
			if(before + m.size() + 1 > c.maxBuffer)
				VH_CHECK(g, s[i].overflows > o, "overflow-missed", "queue holds at least %zu bytes, adding %zu, bound %zu, without event", before, m.size() + 1, c.maxBuffer);
			// One byte tolerance, as parts are accounted for individually.
			if(idle && m.size() + 2 <= c.maxBuffer)
				VH_CHECK(g, s[i].overflows == o, "overflow-false", "overflow event for a message of %zu in an empty queue of %zu", m.size(), c.maxBuffer);
		}
		if(!c.maxBuffer)
			VH_CHECK(g, s[i].overflows == o, "overflow-false", "overflow event without bound");
	}

	void collect(int i)
	{
		for(auto& f : s[i].wire->take()) {
			if(c.mtu)
				VH_CHECK(g, f.size() <= c.mtu, "mtu", "frame of %zu exceeds MTU %zu", f.size(), c.mtu);
			s[i].channel.push_back(f);
		}
	}

	void deliver(int i)
	{
		collect(i);
		if(s[i].channel.empty())
			return;
		std::string f = s[i].channel.front();
		s[i].channel.pop_front();
		VH_CHECK(g, ++steps < 30000, "livelock", "too many frames");
		if(log)
			g.note("  %d -> %d: %s", i, 1 - i, vh::hex(f).c_str());
		lay::decode(*s[1 - i].wire, f);
		collect(1 - i);
		check();
	}

	bool log = false;

	// Corrupt and deliver.
	void corrupt(int i)
	{
		if(s[i].channel.empty())
			return;
		std::string f = s[i].channel.front();
		s[i].channel.pop_front();
		lost++;
		if(f.empty())
			return;
		if(f.size() > 15 && c.crc == 1)
			return; // known finding of L04
		size_t n = g.range<size_t>(1, 2);
		size_t a = g.index(f.size() * 8);
		f[a / 8] = (char)(f[a / 8] ^ (1 << (a % 8)));
		if(n == 2) {
			size_t b = g.index(f.size() * 8);
			if(b != a)
				f[b / 8] = (char)(f[b / 8] ^ (1 << (b % 8)));
		}
		size_t before = s[1 - i].received.size();
		lay::decode(*s[1 - i].wire, f);
		VH_CHECK(g, s[1 - i].received.size() == before, "corrupted-accepted", "a corrupted frame was accepted");
		check();
	}

	void check()
	{
		for(int i = 0; i < 2; i++) {
			auto& r = s[i].received;
			auto& w = s[1 - i].sent;
			if(!resetUsed) {
				VH_CHECK(g, r.size() <= w.size(), "duplicate", "side %d received %zu messages of %zu: %s", i, r.size(), w.size(), vh::hex(r.back()).c_str());
				for(; matched[i] < r.size(); matched[i]++)
					VH_CHECK(g, r[matched[i]] == w[matched[i]].data, "order", "side %d received %s instead of %s", i, vh::hex(r[matched[i]]).c_str(), vh::hex(w[matched[i]].data).c_str());
			}
		}
	}

	// Lossless delivery of everything, until there is nothing more to do.
	bool settle(int rounds = 2000)
	{
		for(int round = 0; round < rounds; round++) {
			collect(0);
			collect(1);
			while(!s[0].channel.empty() || !s[1].channel.empty()) {
				deliver(0);
				deliver(1);
			}
			if(!s[0].arq->waitingForAck() && !s[1].arq->waitingForAck())
				return true;
			s[0].top->flush();
			if(g.chance())
				deliver(0);
			s[1].top->flush();
		}
		return false;
	}

	// With resets in the history.
	void finalCheck(int i)
	{
		auto& r = s[i].received;
		auto& w = s[1 - i].sent;
		size_t k = 0; // next expected
		unsigned last = s[1 - i].epoch;
		for(size_t n = 0; n < r.size(); n++) {
			if(k > 0 && r[n] == w[k - 1].data && k - 1 < exactFrom[1 - i])
				continue; // duplicate because of the reset
			// Messages of an epoch that ended may have been dropped, in which case the remainder of the epoch is dropped.
			size_t m = k;
			if(m < w.size() && r[n] != w[m].data && w[m].epoch < last) {
				unsigned e = w[m].epoch;
				while(m < w.size() && w[m].epoch == e)
					m++;
				// More epochs may have been dropped.
				while(m < w.size() && w[m].epoch < last && w[m].data != r[n])
					m++;
			}
			VH_CHECK(g, m < w.size() && r[n] == w[m].data, "order-reset", "side %d received %s unexpectedly", i, vh::hex(r[n]).c_str());
			k = m + 1;
		}
		while(k < w.size() && w[k].epoch < last)
			k++;
		VH_CHECK(g, k == w.size(), "lost", "side %d did not receive %zu messages, starting with %s", i, w.size() - k, vh::hex(w[k].data).c_str());
	}
};

Config genConfig(Gen& g)
{
	Config c;
	c.maxBuffer = g.chance(1, 3) ? g.range<size_t>(1, 200) : 0;
	c.crc = (int)g.index(3);
	c.seg = (int)g.index(2); // below the ARQ, segmentation is only allowed on lossless channels
	c.mtu = g.chance() ? 0 : g.range<size_t>(8, 60);
	// Segmentation below ARQ amplifies losses.
	c.segMtu = g.chance() ? 0 : g.range<size_t>(8, 60);
	return c;
}

void establish(World& w)
{
	w.s[0].top->flush();
	w.s[1].top->flush();
	if(!w.settle())
		w.g.fail("connect", "connection could not be established");
	for(int i = 0; i < 2; i++)
		VH_CHECK(w.g, w.s[i].connects() >= 1, "no-connected", "side %d did not get connected()", i);
}

// A reset or restart of side i.
void reset(World& w, int i)
{
	auto& s = w.s[i];
	w.resetUsed = true;
	s.epoch++;
	if(w.g.chance()) {
		w.g.note("reset side %d", i);
		s.top->down()->reset();
		s.top->connects = 0;
	} else {
		w.g.note("restart side %d", i);
		construct(s, w.c);
		w.install(i);
	}
	s.encoding = false;
	s.partial.clear();
	w.collect(i);
	// If there was segmentation, the other side must also reset, as documented for EventReconnect.
}

void history(Gen& g, bool resets)
{
	Config c = genConfig(g);
	if(resets) {
		// Segmentation on top of ARQ requires reinitialization of the stack by the application.
		c.seg = 0;
		c.maxBuffer = 0;
	}
	g.note("bound %zu crc %d seg %d mtu %zu segmtu %zu", c.maxBuffer, c.crc, c.seg, c.mtu, c.segMtu);
	World w(g, c);
	if(w.s[0].top->down()->mtu() && w.s[0].top->down()->mtu() < 6)
		throw vh::Discard{};
	if(c.seg == 2 && w.s[0].arq->mtu() == 0 && c.mtu && c.mtu < 16)
		throw vh::Discard{};
	establish(w);
	w.log = true;

	bool longRun = g.chance(1, 8);
	unsigned lossy = longRun ? 1 : (unsigned)g.index(4);
	w.replyChance = longRun ? 0 : g.chance() ? 0 : (unsigned)g.range(1, 6);
	size_t n = longRun ? g.range<size_t>(200, 700) : g.range<size_t>(3, 60);
	unsigned resetsDone = 0;
	bool resetOpen[2] = {false, false};
	unsigned reconnectsBefore[2] = {0, 0};
	bool bothDirs[2] = {false, false};
	unsigned both = 0;

	for(size_t k = 0; k < n; k++) {
		int i = (int)g.index(2);
		auto& s = w.s[i];
		// Retransmitting a reset (which also happens for every encode()), while the previous one or its ack is
		// under way, confuses the other side when subsequent frames are lost.
		bool patient = !(resetOpen[0] || resetOpen[1]) || (w.s[0].channel.empty() && w.s[1].channel.empty());
		switch(g.weighted({6, 2, 1, (unsigned)(longRun ? 24 : 8), lossy * 2, 2, (unsigned)(resets ? 1 : 0), (unsigned)(resets ? 1 : 0), 1})) {
		case 0:
			if(s.encoding || !patient)
				break;
			bothDirs[i] = true;
			w.send(i, w.newMessage(i));
			w.collect(i);
			break;
		case 1:
			if(!patient)
				break;
			s.top->flush();
			w.collect(i);
			break;
		case 2:
			if(!patient)
				break;
			s.arq->keepAlive();
			w.collect(i);
			break;
		case 3:
			w.deliver(i);
			break;
		case 4:
			if(w.s[i].channel.empty())
				break;
			if(c.crc && g.chance())
				w.corrupt(i);
			else {
				w.s[i].channel.pop_front();
				w.lost++;
			}
			break;
		case 5: { // partial encode, with other things in between
			if(!patient)
				break;
			std::string m;
			if(!s.encoding) {
				s.partial = w.newMessage(i);
				s.encoding = true;
				size_t l = g.index(s.partial.size() + 1);
				g.note("side %d starts with %s (%zu)", i, vh::hex(s.partial).c_str(), l);
				if(c.seg == 1) {
					// Segments are sent individually.
					s.encoding = false;
					break;
				}
				s.top->down()->encode(s.partial.data(), l, false);
				m = s.partial.substr(l);
				s.sent.push_back({s.partial, s.epoch});
				s.partial = m;
			} else {
				g.note("side %d completes %zu", i, s.partial.size());
				s.top->down()->encode(s.partial.data(), s.partial.size(), true);
				s.encoding = false;
			}
			w.collect(i);
			break;
		}
		case 6:
			// While a reset is in progress, another one may not be detected; see arq_double_reset.
			if(resetOpen[0] || resetOpen[1] || resetsDone >= 6)
				break;
			w.exactFrom[0] = w.exactFrom[1] = ~(size_t)0;
			reconnectsBefore[1 - i] = w.s[1 - i].reconnects;
			resetOpen[i] = true;
			resetsDone++;
			reset(w, i);
			// As a normal send could be part of the retransmission, replies are not allowed now.
			w.replyChance = 0;
			if(g.chance(1, 4)) {
				// Both
				both++;
				resetOpen[1 - i] = true;
				reset(w, 1 - i);
			}
			break;
		case 7: { // settle, after which duplicates are not allowed
			bool enc = w.s[0].encoding || w.s[1].encoding;
			if(enc)
				break;
			VH_CHECK(g, w.settle(), "no-recovery", "connection does not recover");
			for(int j = 0; j < 2; j++) {
				if(resetOpen[j]) {
					// When both sides are reset, both expect the reset of the other.
					VH_CHECK(g, (resetOpen[0] && resetOpen[1]) || w.s[1 - j].reconnects > reconnectsBefore[1 - j], "no-reconnect", "reset of side %d not reported to the other side", j);
					VH_CHECK(g, w.s[j].connects() >= 1, "no-connected", "reset of side %d not reported as connected", j);
				}
			}
			resetOpen[0] = resetOpen[1] = false;
			g.note("settled");
			// Check everything up to now.
			for(int j = 0; j < 2; j++)
				w.finalCheck(j);
			for(int j = 0; j < 2; j++) {
				w.s[j].received.clear();
				w.s[1 - j].sent.clear();
			}
			w.exactFrom[0] = w.exactFrom[1] = 0;
			w.resetUsed = false;
			w.matched[0] = w.matched[1] = 0;
			break;
		}
		default: // retransmission counter
			if(s.arq->waitingForAck() && !resetOpen[0] && !resetOpen[1]) {
				size_t r = s.arq->retransmits();
				unsigned ev = s.retransmitEvents;
				size_t c2 = g.range<size_t>(1, 14);
				for(size_t j = 0; j < c2; j++) {
					size_t before = s.wire->frames.size();
					s.top->flush();
					VH_CHECK(g, s.wire->frames.size() > before, "no-retransmit", "flush did not retransmit");
				}
				VH_CHECK(g, s.arq->retransmits() == std::min<size_t>(r + c2, 254) || (r == 0 && s.arq->retransmits() == c2 - 1), "retransmits", "%zu retransmits, after %zu + %zu", s.arq->retransmits(), r, c2);
				if(s.arq->retransmits() >= stored::ArqLayer::RetransmitCallbackThreshold)
					VH_CHECK(g, s.retransmitEvents > ev, "no-retransmit-event", "no EventRetransmit after %zu retransmits", s.arq->retransmits());
				if(s.arq->retransmits() + 1 < stored::ArqLayer::RetransmitCallbackThreshold)
					VH_CHECK(g, s.retransmitEvents == ev, "false-retransmit-event", "EventRetransmit after %zu retransmits", s.arq->retransmits());
				w.collect(i);
				// Drop most of these.
				while(s.channel.size() > 2)
					s.channel.pop_back();
			}
		}
	}

	for(int i = 0; i < 2; i++)
		if(w.s[i].encoding) {
			w.s[i].top->down()->encode(w.s[i].partial.data(), w.s[i].partial.size(), true);
			w.s[i].encoding = false;
			w.collect(i);
		}
	w.replyChance = 0;
	VH_CHECK(g, w.settle(), "no-recovery", "connection does not recover");
	for(int i = 0; i < 2; i++)
		w.finalCheck(i);
	g.nontrivial((resets ? resetsDone > 0 : w.lost > 0) && bothDirs[0] && bothDirs[1]);
	if(longRun)
		g.cls("long");
	if(w.replies)
		g.cls("replies");
	if(resetsDone)
		g.cls("reset");
	if(w.lost)
		g.cls("loss");
}

} // namespace

VH_PROPERTY(arq_lossy, 20000, 500000,
	    "two ArqLayers (with random CRC, segmentation and MTU) over FIFO channels that drop or corrupt frames; random "
	    "sends in both directions, partial encodes, replies from within decode, flushes and keep-alives; non-trivial: "
	    "frames were lost and both sides sent messages")
{
	history(g, false);
}

VH_PROPERTY(arq_reset, 15000, 400000,
	    "as arq_lossy, with resets and restarts of either side at any moment; non-trivial: at least one reset and both "
	    "sides sent messages")
{
	history(g, true);
}



// Start or restart of a connection, where everything can happen in any order.
static void startup(Gen& g, bool restart)
{
	Config c;
	World w(g, c);
	w.log = true;
	w.resetUsed = true;
	w.exactFrom[0] = w.exactFrom[1] = ~(size_t)0;
	bool early[2] = {false, false};
	if(restart) {
		establish(w);
		size_t before = g.range<size_t>(0, 10);
		for(size_t i = 0; i < before; i++) {
			int k = (int)g.index(2);
			if(g.chance())
				w.send(k, w.newMessage(0));
			else
				w.deliver(k);
		}
		// Data may be under way, but no resets or acks to it.
		size_t sides = g.index(3);
		for(int i = 0; i < 2; i++)
			if(sides == 2 || (int)sides == i)
				reset(w, i);
	}
	size_t n = g.range<size_t>(2, 40);
	for(size_t k = 0; k < n; k++) {
		int i = (int)g.index(2);
		switch(g.weighted({3, 2, 1, 6})) {
		case 0:
			if(!w.s[i].connects())
				early[i] = true;
			w.send(i, w.newMessage(i));
			break;
		case 1:
			w.s[i].top->flush();
			break;
		case 2:
			w.s[i].arq->keepAlive();
			break;
		default:
			w.deliver(i);
		}
		w.collect(i);
	}
	VH_CHECK(g, w.settle(), "no-connection", "no connection");
	for(int i = 0; i < 2; i++)
		w.finalCheck(i);
	g.nontrivial(restart || (early[0] && early[1]));
}

VH_PROPERTY(arq_startup, 10000, 300000,
	    "two new ArqLayers, sends, retransmits and deliveries in any order, over a lossless channel; non-trivial: both "
	    "sides sent messages before the connection was established")
{
	startup(g, false);
}

VH_PROPERTY(arq_restart, 10000, 300000,
	    "as arq_startup, while one or both sides restart an established connection, with data under way; non-trivial: always")
{
	startup(g, true);
}

VH_PROPERTY(arq_double_reset, 300, 3000,
	    "a side restarts again while the acknowledgement of its previous (retransmitted) reset is still under way, and the "
	    "second reset message is lost; non-trivial: always")
{
	Config c;
	World w(g, c);
	establish(w);
	size_t before = g.range<size_t>(0, 5);
	for(size_t i = 0; i < before; i++) {
		int k = (int)g.index(2);
		w.send(k, w.newMessage(k));
	}
	VH_CHECK(g, w.settle(), "no-recovery", "connection does not recover");
	w.resetUsed = true;
	w.log = true;
	w.exactFrom[0] = w.exactFrom[1] = ~(size_t)0;

	reset(w, 1);
	w.s[1].top->flush();
	w.s[1].top->flush();
	w.deliver(1);
	w.deliver(1); // Two reset responses under way.
	w.deliver(0);
	std::string first = w.newMessage(1);
	w.send(1, first);
	while(w.s[1].channel.size())
		w.deliver(1);
	// The stale reset response is still under way.
	reset(w, 1);
	w.s[1].top->flush();
	w.collect(1);
	w.s[1].channel.clear();
	w.deliver(0);
	size_t n = g.range<size_t>(1, 4);
	for(size_t i = 0; i < n; i++)
		w.send(1, w.newMessage(1));
	g.nontrivial();
	if(!w.settle())
		g.fail("double-reset", "connection does not recover");
	auto& r = w.s[0].received;
	for(size_t i = 0; i < n; i++) {
		auto const& m = w.s[1].sent[w.s[1].sent.size() - n + i].data;
		if(std::find(r.begin(), r.end(), m) == r.end())
			g.fail("double-reset", "message %s sent after the second reset is lost", vh::hex(m).c_str());
	}
}
