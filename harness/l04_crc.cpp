// L04: CRC layers
#include "layers.h"

using namespace lay;

namespace {
// Bitwise reference, normal (non-reflected) representation.
uint32_t refCrc(std::string const& s, unsigned width, uint32_t poly, uint32_t init)
{
	uint32_t crc = init;
	uint32_t top = 1U << (width - 1), mask = (top << 1U) - 1;
	for(char c : s)
		for(int b = 7; b >= 0; b--) {
			bool bit = ((uint8_t)c >> b) & 1;
			bool t = crc & top;
			crc = (crc << 1) & mask;
			if(t != bit)
				crc ^= poly;
		}
	return crc;
}

template <typename L, unsigned Width>
void test(Gen& g, uint32_t poly, uint32_t init)
{
	Wire w;
	w.m_mtu = g.chance() ? 0 : g.range<size_t>(4, 300);
	L tx, rx;
	w.wrap(tx);
	Top t;
	rx.wrap(t);
	size_t C = Width / 8;
	VH_CHECK(g, tx.mtu() >= 1 && tx.mtu() <= 256, "mtu", "mtu %zu", tx.mtu());
	VH_CHECK(g, !w.m_mtu || tx.mtu() + C <= w.m_mtu, "mtu", "mtu %zu of lower %zu", tx.mtu(), w.m_mtu);

	size_t n = g.range<size_t>(1, 3);
	for(size_t i = 0; i < n; i++) {
		std::string m = g.bytes(g.chance(1, 4) ? g.index(tx.mtu() + 1) : g.index(std::min<size_t>(tx.mtu(), 24) + 1));
		auto parts = g.splits(m.size());
		g.note("message[%zu]=%s parts %s", m.size(), vh::hex(m).c_str(), desc(parts).c_str());
		if(g.chance(1, 8)) {
			// Partial message, aborted by reset.
			lay::encode(tx, m, parts, false);
			tx.reset();
			w.partial.clear();
			w.take();
			continue;
		}
		lay::encode(tx, m, parts, true, g.chance(1, 4));
		auto f = w.take();
		VH_CHECK(g, f.size() == 1 && w.partial.empty(), "frames", "%zu frames", f.size());
		uint32_t crc = refCrc(m, Width, poly, init);
		std::string want = m;
		for(size_t k = C; k-- > 0;)
			want += (char)(crc >> (8 * k));
		VH_CHECK(g, f[0] == want, "checksum", "encoded %s, expected %s", vh::hex(f[0], 300).c_str(), vh::hex(want, 300).c_str());
		lay::decode(rx, f[0]);
		auto r = t.take();
		VH_CHECK(g, r.size() == 1 && r[0] == m, "roundtrip", "%zu messages, %s", r.size(), r.empty() ? "" : vh::hex(r[0]).c_str());

		// Corrupt
		size_t bits = f[0].size() * 8;
		for(int k = 0; k < 6; k++) {
			std::string c = f[0];
			size_t b1 = g.index(bits);
			c[b1 / 8] = (char)(c[b1 / 8] ^ (0x80 >> (b1 % 8)));
			bool two = g.chance(2, 3);
			size_t b2 = b1;
			if(two) {
				b2 = g.chance() ? g.index(bits) : std::min(bits - 1, b1 + 1 + g.index(20));
				if(b2 == b1)
					two = false;
				else
					c[b2 / 8] = (char)(c[b2 / 8] ^ (0x80 >> (b2 % 8)));
			}
			lay::decode(rx, c);
			r = t.take();
			if(r.empty())
				continue;
			size_t dist = b2 > b1 ? b2 - b1 : b1 - b2;
			if(Width == 8 && two && dist % 127 == 0)
				// The polynomial is a multiple of x; its order is only 127.
				g.fail("crc8-two-bits-127-apart", "frame of %zu bytes with bits %zu and %zu flipped is accepted", f[0].size(), b1, b2);
			g.fail("corrupt-accepted", "frame %s with bits %zu and %zu flipped is accepted", vh::hex(f[0], 300).c_str(), b1, b2);
		}
		g.nontrivial();

		// Still accepts intact frames afterwards.
		lay::decode(rx, f[0]);
		r = t.take();
		VH_CHECK(g, r.size() == 1 && r[0] == m, "after-corrupt", "%zu messages", r.size());

		// Short frames
		for(size_t l = 0; l < C; l++) {
			lay::decode(rx, g.bytes(l));
			VH_CHECK(g, t.take().empty(), "short", "frame of %zu bytes is accepted", l);
		}
	}
}
} // namespace

VH_PROPERTY(crc8, 20000, 600000, "random messages, splits, and 1/2-bit errors; checksum equals a bitwise reference; non-trivial: errors were injected")
{
	test<stored::Crc8Layer, 8>(g, 0xa6, 0xff);
}

VH_PROPERTY(crc16, 20000, 600000, "random messages, splits, and 1/2-bit errors; checksum equals a bitwise reference; non-trivial: errors were injected")
{
	test<stored::Crc16Layer, 16>(g, 0xbaad, 0xffff);
}

VH_PROPERTY(crc_random, 30000, 1000000, "random frames; accepted iff the last bytes equal the reference checksum; non-trivial: accepted")
{
	std::string m = g.bytesUpTo(40);
	if(g.chance() && m.size() < 40)
		m += (char)refCrc(m, 8, 0xa6, 0xff);
	else if(g.chance()) {
		auto c = refCrc(m, 16, 0xbaad, 0xffff);
		m += (char)(c >> 8);
		m += (char)c;
	}
	stored::Crc8Layer c8;
	stored::Crc16Layer c16;
	Top t8, t16;
	c8.wrap(t8);
	c16.wrap(t16);
	lay::decode(c8, m);
	lay::decode(c16, m);
	bool ok8 = m.size() >= 1 && refCrc(m.substr(0, m.size() - 1), 8, 0xa6, 0xff) == (uint8_t)m.back();
	bool ok16 = m.size() >= 2
		    && refCrc(m.substr(0, m.size() - 2), 16, 0xbaad, 0xffff)
			       == (uint32_t)((uint8_t)m[m.size() - 2] << 8 | (uint8_t)m.back());
	g.note("%s", vh::hex(m).c_str());
	VH_CHECK(g, t8.msgs.size() == ok8, "crc8", "accepted %zu", t8.msgs.size());
	VH_CHECK(g, t16.msgs.size() == ok16, "crc16", "accepted %zu", t16.msgs.size());
	VH_CHECK(g, !ok8 || t8.msgs[0] == m.substr(0, m.size() - 1), "crc8", "content");
	VH_CHECK(g, !ok16 || t16.msgs[0] == m.substr(0, m.size() - 2), "crc16", "content");
	g.nontrivial(ok8 || ok16);
}
