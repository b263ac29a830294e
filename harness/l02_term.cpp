// L02: TerminalLayer
#include "layers.h"

using namespace lay;

namespace {

std::string noEsc(std::string s)
{
	for(auto& c : s)
		if(c == '\x1b')
			c = '_';
	return s;
}

struct Event {
	bool msg;
	std::string s;
};

class Rx : public stored::TerminalLayer {
public:
	typedef stored::TerminalLayer base;
	std::vector<Event>* ev = nullptr;
	Rx() = default;

protected:
	void nonDebugDecode(void* buffer, size_t len) override
	{
		ev->push_back({false, std::string((char const*)buffer, len)});
	}
};

// Match got against want, in which the positions in optEsc may have an additional ESC.
bool match(std::string const& got, std::string const& want, bool optionalEscAtEnd)
{
	if(got == want)
		return true;
	return optionalEscAtEnd && got == want + "\x1b";
}

} // namespace

VH_PROPERTY(terminal_stream, 60000, 2000000,
	    "random interleavings of messages (without ESC, encoded in parts) and terminal data (any bytes but no start "
	    "sequence), arbitrarily chunked; non-trivial: at least two messages and terminal data, and more than one chunk")
{
	stored::TerminalLayer tx;
	Wire w;
	w.wrap(tx);
	w.m_mtu = g.chance(3, 4) ? 0 : g.range<size_t>(5, 300);
	size_t maxMsg = w.m_mtu ? tx.mtu() : 2000;
	VH_CHECK(g, !w.m_mtu || (tx.mtu() >= 1 && tx.mtu() + 4 <= w.m_mtu), "mtu", "mtu %zu lower %zu", tx.mtu(), w.m_mtu);

	std::vector<Event> want; // data is merged
	std::string stream;
	// Positions in the stream of the start sequence's '_'.
	std::set<size_t> cuts;
	size_t n = g.range<size_t>(1, 10);
	size_t nm = 0, nd = 0;
	for(size_t i = 0; i < n; i++) {
		if(g.chance()) {
			std::string m = noEsc(g.bytes(g.chance(1, 30) ? g.index(std::min<size_t>(maxMsg, 2000) + 1) : g.index(std::min<size_t>(maxMsg, 20) + 1)));
			g.note("message %s", vh::hex(m).c_str());
			if(w.m_mtu)
				(void)0;
			lay::encode(g, tx, m);
			auto f = w.take();
			VH_CHECK(g, f.size() == 1 && w.partial.empty(), "frames", "%zu frames for a message", f.size());
			VH_CHECK(g, !w.m_mtu || f[0].size() <= w.m_mtu, "mtu-exceeded", "%zu > %zu", f[0].size(), w.m_mtu);
			VH_CHECK(g, f[0] == "\x1b_" + m + "\x1b\\", "encode", "encoded %s", vh::hex(f[0]).c_str());
			cuts.insert(stream.size() + 1);
			stream += f[0];
			want.push_back({true, m});
			nm++;
		} else {
			std::string d = g.bytes(g.index(20));
			if(g.chance(1, 3) && !d.empty())
				d.back() = '\x1b';
			std::string prev = !want.empty() && !want.back().msg ? want.back().s : "";
			// No start sequence in the plain data.
			for(size_t k = 0; k < d.size(); k++)
				if(d[k] == '_' && (k ? d[k - 1] : prev.empty() ? 0 : prev.back()) == '\x1b')
					d[k] = '-';
			g.note("data %s", vh::hex(d).c_str());
			tx.nonDebugEncode(d.data(), d.size());
			std::string f = w.takeAll();
			VH_CHECK(g, w.partial.empty() && f == d, "encode-data", "encoded %s", vh::hex(f).c_str());
			stream += f;
			if(!d.empty()) {
				nd++;
				if(!want.empty() && !want.back().msg)
					want.back().s += d;
				else
					want.push_back({false, d});
			}
		}
	}

	std::vector<Event> ev;
	Rx rx;
	rx.ev = &ev;
	Top t;
	rx.wrap(t);
	t.cb = [&](std::string const& s) { ev.push_back({true, s}); };
	auto chunks = g.splits(stream.size());
	g.note("stream %s chunks %s", vh::hex(stream, 300).c_str(), desc(chunks).c_str());
	g.nontrivial(nm >= 2 && nd && chunks.size() > 1);
	size_t o = 0;
	std::set<size_t> cutAt;
	for(auto c : chunks) {
		lay::decode(rx, stream.substr(o, c));
		o += c;
		if(cuts.count(o))
			cutAt.insert(o);
	}

	// Merge the data events.
	std::vector<Event> got;
	for(auto& e : ev)
		if(!e.msg && !got.empty() && !got.back().msg)
			got.back().s += e.s;
		else
			got.push_back(e);

	// Compare; a start sequence that is cut may have its ESC reported as data.
	size_t gi = 0;
	std::vector<size_t> starts(cuts.begin(), cuts.end());
	size_t mi = 0;
	for(size_t wi = 0; wi < want.size(); wi++) {
		if(want[wi].msg) {
			bool cut = cutAt.count(starts[mi]);
			bool dataBefore = wi && !want[wi - 1].msg;
			if(!dataBefore && cut && gi < got.size() && !got[gi].msg && got[gi].s == "\x1b")
				gi++;
			mi++;
			VH_CHECK(g, gi < got.size(), "lost", "message %zu is missing", mi);
			VH_CHECK(g, got[gi].msg, "order", "got data %s instead of message", vh::hex(got[gi].s).c_str());
			VH_CHECK(g, got[gi].s == want[wi].s, "message", "got message %s", vh::hex(got[gi].s).c_str());
			gi++;
		} else {
			bool cut = wi + 1 < want.size() && cutAt.count(starts[mi]);
			VH_CHECK(g, gi < got.size(), "lost", "data is missing");
			VH_CHECK(g, !got[gi].msg, "order", "got message %s instead of data", vh::hex(got[gi].s).c_str());
			VH_CHECK(g, match(got[gi].s, want[wi].s, cut), "data", "got data %s", vh::hex(got[gi].s).c_str());
			gi++;
		}
	}
	VH_CHECK(g, gi == got.size(), "extra", "got extra %s %s", got[gi].msg ? "message" : "data", vh::hex(got[gi].s).c_str());
}

VH_PROPERTY(terminal_callback, 10000, 300000,
	    "as terminal_stream, but with the callback constructor and one chunk; data events exact; non-trivial: all")
{
	std::string data, m = noEsc(g.bytesUpTo(40)), d1 = noEsc(g.bytesUpTo(40)), d2 = noEsc(g.bytesUpTo(40));
	stored::TerminalLayer rx{[&](void* b, size_t l) { data.append((char const*)b, l); }};
	Top t;
	rx.wrap(t);
	g.nontrivial();
	lay::decode(rx, d1 + "\x1b_" + m + "\x1b\\" + d2);
	VH_CHECK(g, t.msgs.size() == 1 && t.msgs[0] == m, "message", "%zu messages", t.msgs.size());
	VH_CHECK(g, data == d1 + d2, "data", "got %s", vh::hex(data).c_str());
	// After a reset within a message, the partial message is gone.
	t.take();
	data.clear();
	bool inmsg = g.chance();
	lay::decode(rx, (inmsg ? "\x1b_" : "") + m);
	rx.reset();
	lay::decode(rx, d1 + "\x1b_" + d2 + "\x1b\\");
	VH_CHECK(g, t.msgs.size() == 1 && t.msgs[0] == d2, "reset", "%zu messages", t.msgs.size());
	VH_CHECK(g, data == (inmsg ? "" : m) + d1, "reset-data", "got %s", vh::hex(data).c_str());
}
