// L03: SegmentationLayer
#include "layers.h"

using namespace lay;

VH_PROPERTY(segmentation, 60000, 2000000,
	    "random MTUs, messages around multiples of the MTU, and splits in parts, with resets in between; "
	    "non-trivial: some message takes at least two frames")
{
	size_t own = g.chance(1, 4) ? 0 : g.range<size_t>(2, g.chance(1, 4) ? 300 : 12);
	size_t lower = g.chance() ? 0 : g.range<size_t>(2, g.chance(1, 4) ? 300 : 12);
	size_t mtu = own && lower ? std::min(own, lower) : own ? own : lower;
	stored::SegmentationLayer tx{own}, rx{g.chance() ? own : 0};
	Wire w;
	w.m_mtu = lower;
	w.wrap(tx);
	Top t;
	rx.wrap(t);
	VH_CHECK(g, tx.mtu() == 0, "mtu", "mtu %zu", tx.mtu());
	VH_CHECK(g, tx.lowerMtu() == mtu, "lowerMtu", "lowerMtu %zu", tx.lowerMtu());
	g.note("own mtu=%zu lower=%zu", own, lower);

	size_t n = g.range<size_t>(1, 6);
	for(size_t i = 0; i < n; i++) {
		size_t len;
		if(mtu && g.chance(2, 3)) {
			size_t base = (mtu - 1) * g.index(5);
			len = base + g.index(3);
			if(len && g.chance(1, 3))
				len--;
		} else
			len = g.size(600);
		std::string m = g.bytes(len);
		if(g.chance(1, 3))
			for(auto& c : m)
				c = "CE"[g.index(2)];
		auto parts = g.splits(len);
		bool abort = g.chance(1, 8);
		g.note("message[%zu]=%s parts=%s%s", len, vh::hex(m).c_str(), desc(parts).c_str(), abort ? " aborted" : "");
		if(abort) {
			// Only send part of a message, and reset both sides.
			lay::encode(tx, m, parts, false);
			auto f = w.take();
			size_t k = f.empty() ? 0 : g.index(f.size() + 1);
			for(size_t j = 0; j < k; j++)
				lay::decode(rx, f[j]);
			VH_CHECK(g, t.take().empty(), "early", "message received without final frame");
			w.partial.clear();
			tx.reset();
			rx.reset();
			continue;
		}
		lay::encode(tx, m, parts, true, g.chance(1, 4));
		VH_CHECK(g, w.partial.empty(), "partial", "frame not finished");
		auto f = w.take();
		VH_CHECK(g, !f.empty(), "frames", "no frames");
		g.nontrivial(f.size() >= 2);
		for(size_t j = 0; j < f.size(); j++) {
			VH_CHECK(g, !f[j].empty(), "empty-frame", "empty frame");
			VH_CHECK(g, !mtu || f[j].size() <= mtu, "mtu-exceeded", "frame %zu of %zu bytes", j, f[j].size());
			bool final = f[j].back() == stored::SegmentationLayer::EndMarker;
			VH_CHECK(g, final || f[j].back() == stored::SegmentationLayer::ContinueMarker, "marker", "frame %zu ends with 0x%02x", j, (uint8_t)f[j].back());
			VH_CHECK(g, final == (j + 1 == f.size()), "final", "frame %zu/%zu final=%d", j, f.size(), final);
			VH_CHECK(g, t.msgs.empty(), "early", "message received before the last frame");
			lay::decode(rx, f[j]);
		}
		auto r = t.take();
		VH_CHECK(g, r.size() == 1, "received", "%zu messages received", r.size());
		VH_CHECK(g, r[0] == m, "content", "received[%zu] %s", r[0].size(), vh::hex(r[0]).c_str());
	}
}
