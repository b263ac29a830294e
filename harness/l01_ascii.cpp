// L01: AsciiEscapeLayer
#include "layers.h"

using namespace lay;

namespace {
bool allowed(uint8_t c, bool all)
{
	if(c >= 0x20 && c != 0x7f)
		return true;
	if(c == 0x7f)
		return true; // the escape character itself
	if(all)
		return false;
	return !(c == 0 || c == 0x11 || c == 0x13 || c == 0x1b || c == '\r');
}

// Documented decoding.
std::string refDecode(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i < s.size(); i++) {
		if(s[i] == 0x7f) {
			if(i + 1 >= s.size())
				return r + "\x7f"; // incomplete
			i++;
			r += s[i] == 0x7f ? s[i] : (char)(s[i] & 0x1f);
		} else if(s[i] != '\r')
			r += s[i];
	}
	return r;
}

std::string message(Gen& g, size_t max)
{
	size_t len = g.size(max);
	std::string s = g.bytes(len);
	if(g.chance(1, 3))
		for(auto& c : s)
			if(g.chance(1, 3))
				c = "\x7f\r\n\x1b\0\x11\x13\x40\x20\x1f"[g.index(10)];
	return s;
}
} // namespace

VH_PROPERTY(ascii_roundtrip, 60000, 2000000,
	    "random messages and splits in both modes; encoded form is printable, within twice the size, decodes to the "
	    "message, also with injected CRs; non-trivial: the message has characters that are escaped")
{
	bool all = g.chance();
	std::string m = message(g, g.chance(1, 20) ? 3000 : 100);
	size_t mtu = g.chance() ? 0 : g.range<size_t>(2, 64);

	stored::AsciiEscapeLayer e{all};
	Wire w;
	w.m_mtu = mtu;
	w.wrap(e);
	VH_CHECK(g, (e.mtu() == 0) == (mtu == 0), "mtu", "mtu %zu of lower %zu", e.mtu(), mtu);
	if(mtu) {
		VH_CHECK(g, e.mtu() >= 1 && e.mtu() <= mtu, "mtu", "mtu %zu of lower %zu", e.mtu(), mtu);
		if(m.size() > e.mtu())
			m.resize(e.mtu());
	}
	auto parts = g.splits(m.size());
	g.note("all=%d mtu=%zu msg[%zu]=%s parts=%s", all, mtu, m.size(), vh::hex(m).c_str(), desc(parts).c_str());

	unsigned n = 1 + (unsigned)g.index(3);
	for(unsigned k = 0; k < n; k++) {
		// Successive messages do not influence each other.
		lay::encode(e, m, parts, true, g.chance(1, 4));
		auto f = w.take();
		VH_CHECK(g, f.size() == 1, "frames", "%zu frames", f.size());
		VH_CHECK(g, w.partial.empty(), "frames", "incomplete frame");
		for(char c : f[0])
			VH_CHECK(g, allowed((uint8_t)c, all), "control-char", "0x%02x in encoded data", (uint8_t)c);
		VH_CHECK(g, f[0].size() <= 2 * m.size(), "size", "%zu bytes encoded to %zu", m.size(), f[0].size());
		if(mtu)
			VH_CHECK(g, f[0].size() <= mtu, "mtu-exceeded", "%zu bytes > mtu %zu", f[0].size(), mtu);
		if(!all)
			VH_CHECK(g, f[0].find('\r') == std::string::npos, "cr", "CR in encoded data");
		VH_CHECK(g, refDecode(f[0]) == m, "encode", "encoded is %s", vh::hex(f[0]).c_str());
		g.nontrivial(f[0].size() > m.size());

		std::string rx;
		bool inj = g.chance();
		for(size_t i = 0; i < f[0].size(); i++) {
			// Not within an escape sequence.
			if(inj && g.chance(1, 4))
				rx += '\r';
			if(f[0][i] == 0x7f)
				rx += f[0][i++];
			rx += f[0][i];
		}
		if(inj && g.chance(1, 4))
			rx += '\r';

		Top t;
		stored::AsciiEscapeLayer d{g.chance()};
		d.wrap(t);
		lay::decode(d, rx);
		VH_CHECK(g, t.msgs.size() == 1, "decoded", "%zu messages", t.msgs.size());
		VH_CHECK(g, t.msgs[0] == m, "roundtrip", "decoded %s from %s", vh::hex(t.msgs[0]).c_str(), vh::hex(rx).c_str());
		m = message(g, mtu ? e.mtu() : 100);
		parts = g.splits(m.size());
	}
}

VH_PROPERTY(ascii_decode, 60000, 2000000,
	    "arbitrary bytes; decoded as documented, within bounds; non-trivial: there is an escape character")
{
	std::string rx = message(g, 60);
	g.note("rx=%s", vh::hex(rx).c_str());
	g.nontrivial(rx.find('\x7f') != std::string::npos);
	Top t;
	stored::AsciiEscapeLayer d{g.chance()};
	d.wrap(t);
	lay::decode(d, rx);
	VH_CHECK(g, t.msgs.size() <= 1, "decoded", "%zu messages", t.msgs.size());
	std::string r = refDecode(rx);
	bool incomplete = !r.empty() && refDecode(rx + "A") != r + "A";
	if(incomplete) {
		if(t.msgs.size())
			VH_CHECK(g, t.msgs[0].size() <= rx.size(), "size", "decoded %zu bytes", t.msgs[0].size());
	} else {
		VH_CHECK(g, t.msgs.size() == 1, "decoded", "nothing decoded");
		VH_CHECK(g, t.msgs[0] == r, "decode", "decoded %s, expected %s", vh::hex(t.msgs[0]).c_str(), vh::hex(r).c_str());
	}
}
