// L08: CompressLayer.
#include "layers.h"
#include <libstored/compress.h>

extern "C" {
#include <heatshrink_decoder.h>
}

using namespace lay;

namespace {

std::string message(Gen& g)
{
	std::string s;
	size_t parts = g.range<size_t>(1, 6);
	for(size_t i = 0; i < parts; i++) {
		switch(g.index(4)) {
		case 0: // compressible
			s.append(g.size(600), (char)g.index(256));
			break;
		case 1: { // repeat
			std::string r = g.bytesUpTo(20);
			size_t n = g.size(40);
			for(size_t k = 0; k < n; k++)
				s += r;
			break;
		}
		case 2:
			if(!s.empty()) {
				size_t o = g.index(s.size());
				s += s.substr(o, g.size(300));
			}
			break;
		default:
			s += g.bytesUpTo(400);
		}
	}
	if(s.empty())
		s = "x";
	return s;
}

// The reference is the heatshrink library itself, with the documented parameters.
std::string reference(std::string const& in)
{
	heatshrink_decoder* d = heatshrink_decoder_alloc(256, 8, 4);
	std::string out;
	size_t o = 0;
	uint8_t buf[64];
	auto poll = [&]() {
		while(true) {
			size_t n = 0;
			auto r = heatshrink_decoder_poll(d, buf, sizeof(buf), &n);
			out.append((char*)buf, n);
			if(r != HSDR_POLL_MORE)
				break;
		}
	};
	while(o < in.size()) {
		size_t n = 0;
		heatshrink_decoder_sink(d, (uint8_t*)const_cast<char*>(in.data()) + o, in.size() - o, &n);
		o += n;
		poll();
	}
	while(heatshrink_decoder_finish(d) == HSDR_FINISH_MORE)
		poll();
	heatshrink_decoder_free(d);
	return out;
}

} // namespace

VH_PROPERTY(compress, 10000, 200000,
	    "messages with repetitions of up to 3000 bytes in random parts, with resets halfway messages, decoded by another "
	    "CompressLayer and by the heatshrink library; non-trivial: at least 2 messages, of which one was reduced in size")
{
	Top top;
	stored::CompressLayer tx, rx;
	Wire wire;
	wire.wrap(tx);
	rx.wrap(top);
	size_t n = g.range<size_t>(1, 6);
	bool reduced = false;
	size_t count = 0;
	for(size_t k = 0; k < n; k++) {
		if(g.chance(1, 8)) {
			// Abort a message.
			std::string m = message(g);
			tx.encode(m.data(), m.size(), false);
			VH_CHECK(g, !tx.idle(), "idle", "idle during encode");
			wire.partial.clear();
			tx.reset();
			wire.partial.clear();
			rx.reset();
			g.cls("aborted");
		}
		if(g.chance(1, 8)) {
			// Garbage in the decoder.
			std::string b = g.bytesUpTo(300);
			lay::decode(rx, b);
			top.take();
			if(g.chance())
				rx.reset();
			g.cls("garbage");
		}
		std::string m = message(g);
		if(g.chance(1, 60)) {
			// A large one
			size_t size = g.range<size_t>(4000, 140000);
			for(size_t l = m.size(); m.size() < size;)
				m += g.chance() ? m.substr(m.size() - l) : g.bytes(g.range<size_t>(1, 200));
			g.cls(size < 0x10000 ? "large" : "larger than 64 kB");
		}
		VH_CHECK(g, tx.idle() && rx.idle(), "idle", "not idle in between of messages");
		lay::encode(g, tx, m);
		VH_CHECK(g, tx.idle(), "idle", "not idle after encode");
		auto f = wire.take();
		VH_CHECK(g, f.size() == 1, "frames", "%zu frames", f.size());
		g.note("message [%zu] %s -> %zu", m.size(), vh::hex(m).c_str(), f[0].size());
		VH_CHECK(g, reference(f[0]) == m, "reference", "heatshrink decodes it differently");
		lay::decode(rx, f[0]);
		auto r = top.take();
		VH_CHECK(g, r.size() == 1, "count", "decoded %zu messages", r.size());
		VH_CHECK(g, r[0] == m, "content", "decoded %s instead of %s", vh::hex(r[0]).c_str(), vh::hex(m).c_str());
		reduced = reduced || f[0].size() < m.size();
		count++;
	}
	g.nontrivial(count >= 2 && reduced);
}
