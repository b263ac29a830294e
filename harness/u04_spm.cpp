// U04: stored::ScratchPad against a model of live allocations.
#include "vh.h"
#include <libstored/spm.h>
#include <stored>

#include <list>
#include <memory>
#include <string>

using vh::Gen;
using vhcfg::allocState;

namespace {

struct Three {
	char c[3];
};
struct Twelve {
	uint32_t x[3];
};
struct Big {
	uint64_t x[5];
};

struct A {
	char* p;
	size_t len;
	uint8_t fill;
};

void fillIt(A const& a)
{
	for(size_t i = 0; i < a.len; i++)
		a.p[i] = (char)(a.fill + i);
}

template <size_t Max>
void test(Gen& g, bool faults)
{
	typedef stored::ScratchPad<Max> Spm;
	typedef typename Spm::Snapshot Snapshot;
	long live0 = allocState.live;
	bool multi = false, rolled = false, failed = false, full = false;
	{
		std::unique_ptr<Spm> sp;
		try {
			size_t r = g.chance() ? 0 : g.index(std::min<size_t>(Max, 300) + 1);
			g.note("ScratchPad<%zu>(%zu)%s", Max, r, faults ? ", with allocation failures" : "");
			sp.reset(new Spm(r));
		} catch(std::bad_alloc const&) {
			g.fail("alloc", "construction failed");
		}
		Spm& s = *sp;
		std::vector<A> m;
		struct Snap {
			std::unique_ptr<Snapshot> s;
			size_t count;
			size_t size;
		};
		std::vector<Snap> snaps;
		uint8_t fill = 1;
		size_t maxSeen = 0;
		size_t ops = 1 + g.size(60);

		auto rolledTo = [&](Snap const& sn) {
			if(m.size() > sn.count)
				rolled = true;
			m.resize(sn.count);
			VH_CHECK(g, s.size() == sn.size, "rollback", "size %zu after rollback, expected %zu", s.size(), sn.size);
		};

		for(size_t op = 0; op < ops; op++) {
			if(faults && g.chance(1, 4)) {
				allocState.failAfter = (long)g.index(3);
				allocState.failOnce = g.chance();
			}
			long f0 = allocState.failures;
			size_t sizeBefore = s.size();
			switch(g.weighted({12, 4, 4, 1, 1, 1, 2, 1, 1})) {
			case 0: {
				size_t type = g.index(6);
				size_t tsize = (size_t[]){1, 2, 4, 8, 3, 12, 40}[type];
				size_t talign = (size_t[]){1, 2, 4, 8, 1, 4, 8}[type];
				size_t limit = Max < 1000 ? Max / 2 : g.chance(1, 10) ? 20000 : 200;
				size_t count = g.size(limit / tsize);
				// Exactly fill the buffer?
				if(g.chance(1, 5) && s.capacity() > s.size() && tsize == 1 && s.capacity() - s.size() < 100000) {
					count = s.capacity() - s.size();
					g.note("exact fit");
				}
				size_t align = g.pick({(size_t)0, tsize, (size_t)1, (size_t)2, (size_t)4, (size_t)8, (size_t)16});
				g.note("alloc(%zu x %zu, align %zu) at size %zu, capacity %zu", count, tsize, align, s.size(), s.capacity());
				void* p = nullptr;
				bool ex = false;
				try {
					bool def = align == 0;
					size_t al = align;
					if(def)
						align = tsize;
					switch(type) {
					case 0: p = def ? s.template alloc<char>(count) : s.template alloc<char>(count, al); break;
					case 1: p = def ? s.template alloc<uint16_t>(count) : s.template alloc<uint16_t>(count, al); break;
					case 2: p = def ? s.template alloc<uint32_t>(count) : s.template alloc<uint32_t>(count, al); break;
					case 3: p = def ? s.template alloc<double>(count) : s.template alloc<double>(count, al); break;
					case 4: p = def ? s.template alloc<Three>(count) : s.template alloc<Three>(count, al); break;
					default: p = def ? s.template alloc<Twelve>(count) : s.template alloc<Twelve>(count, al); break;
					}
				} catch(std::bad_alloc const&) {
					ex = true;
				}
				size_t len = count * tsize;
				if(ex) {
					bool injected = allocState.failures != f0;
					bool tooBig = sizeBefore + len + 7 > Max;
					VH_CHECK(g, injected || tooBig, "bad_alloc", "unexpected bad_alloc for %zu at size %zu", len, sizeBefore);
					VH_CHECK(g, s.size() == sizeBefore, "failed-alloc", "size changed by failing alloc");
					failed |= injected;
					full |= tooBig;
					break;
				}
				VH_CHECK(g, p, "null", "nullptr");
				if(!len) {
					VH_CHECK(g, s.size() == sizeBefore, "size", "zero alloc changes the size");
					break;
				}
				VH_CHECK(g, sizeBefore + len <= Max, "overflow", "alloc of %zu beyond maximum, size is %zu", len, sizeBefore);
				if((align & (align - 1)) == 0) {
					size_t al = std::min<size_t>(8, align);
					VH_CHECK(g, (uintptr_t)p % al == 0, "alignment", "%p is not aligned to %zu", p, al);
				}
				if(align == tsize)
					VH_CHECK(g, (uintptr_t)p % talign == 0, "alignment", "%p not aligned to its type", p);
				A a{(char*)p, len, fill};
				fill = (uint8_t)(fill + 37);
				for(auto const& x : m)
					VH_CHECK(g, a.p + a.len <= x.p || x.p + x.len <= a.p, "overlap", "allocations overlap");
				VH_CHECK(g, s.size() >= sizeBefore + len && s.size() < sizeBefore + len + 8, "size", "size %zu after alloc of %zu at %zu", s.size(), len, sizeBefore);
				fillIt(a);
				m.push_back(a);
				maxSeen = std::max(maxSeen, s.size());
				break;
			}
			case 1: {
				g.note("snapshot at %zu (%zu of %zu)", snaps.size(), s.size(), s.capacity());
				size_t size = s.size();
				Snap sn{std::unique_ptr<Snapshot>(new Snapshot(s.snapshot())), m.size(), size};
				snaps.push_back(std::move(sn));
				break;
			}
			case 2: {
				if(snaps.empty())
					break;
				// Roll back to some snapshot; the ones after are done first.
				size_t i = g.chance(3, 4) ? snaps.size() - 1 : g.index(snaps.size());
				g.note("destroy snapshots from %zu", i);
				while(snaps.size() > i) {
					Snap sn = std::move(snaps.back());
					snaps.pop_back();
					sn.s.reset();
					rolledTo(sn);
				}
				break;
			}
			case 3: {
				if(snaps.empty())
					break;
				g.note("explicit rollback");
				snaps.back().s->rollback();
				rolledTo(snaps.back());
				break;
			}
			case 4: {
				if(snaps.empty())
					break;
				g.note("drop snapshot");
				snaps.back().s->reset();
				snaps.pop_back();
				VH_CHECK(g, s.size() == sizeBefore, "drop", "size changed");
				break;
			}
			case 5: {
				g.note("reset");
				for(auto& x : snaps)
					x.s->reset();
				snaps.clear();
				m.clear();
				size_t mx = s.max();
				bool coalesce = s.chunks() > 1;
				s.reset();
				VH_CHECK(g, s.size() == 0 && s.empty(), "reset", "not empty after reset");
				VH_CHECK(g, s.chunks() <= 1, "reset", "%zu chunks after reset", s.chunks());
				if(coalesce && allocState.failures == f0)
					VH_CHECK(g, s.capacity() >= mx, "reset", "capacity %zu after reset, max was %zu", s.capacity(), mx);
				break;
			}
			case 6: {
				size_t more = g.size(std::min<size_t>(Max - s.size(), g.chance(1, 10) ? 30000 : 300));
				g.note("reserve(%zu)", more);
				try {
					s.reserve(more);
					VH_CHECK(g, s.capacity() - s.size() >= more, "reserve", "only %zu reserved", s.capacity() - s.size());
					// This must not fail anymore.
					if(more && g.chance()) {
						allocState.failAfter = 0;
						g.note("alloc(%zu) in reserved memory", more);
						char* p = nullptr;
						try {
							p = s.template alloc<char>(more, 1);
						} catch(std::bad_alloc const&) {
							g.fail("reserve", "alloc of reserved memory failed");
						}
						allocState.failAfter = -1;
						A a{p, more, fill};
						fill = (uint8_t)(fill + 37);
						for(auto const& x : m)
							VH_CHECK(g, a.p + a.len <= x.p || x.p + x.len <= a.p, "overlap", "allocations overlap");
						VH_CHECK(g, s.size() == sizeBefore + more, "size", "size");
						fillIt(a);
						m.push_back(a);
						maxSeen = std::max(maxSeen, s.size());
					} else
						VH_CHECK(g, s.size() == sizeBefore, "size", "size changed by reserve");
				} catch(std::bad_alloc const&) {
					VH_CHECK(g, allocState.failures != f0, "bad_alloc", "unexpected bad_alloc");
					VH_CHECK(g, s.size() == sizeBefore, "size", "size changed by reserve");
					failed = true;
				}
				break;
			}
			case 7:
				g.note("shrink_to_fit");
				s.shrink_to_fit();
				maxSeen = s.size();
				if(s.empty())
					VH_CHECK(g, s.chunks() == 0 && s.capacity() == 0, "shrink", "chunks %zu, capacity %zu", s.chunks(), s.capacity());
				break;
			default: {
				if(snaps.empty())
					break;
				g.note("move snapshot");
				auto& x = snaps[g.index(snaps.size())];
				std::unique_ptr<Snapshot> y(new Snapshot(std::move(*x.s)));
				x.s = std::move(y);
				VH_CHECK(g, s.size() == sizeBefore, "move", "size changed");
			}
			}
			allocState.failAfter = -1;
			// Check contents.
			for(size_t k = 0; k < m.size(); k++) {
				A const& a = m[k];
				for(size_t i = 0; i < a.len; i++)
					if(a.p[i] != (char)(a.fill + i))
						g.fail("contents", "contents of alloc %zu at offset %zu changed", k, i);
			}
			VH_CHECK(g, s.empty() == (s.size() == 0), "empty", "empty");
			if(m.empty() && snaps.empty())
				;
			VH_CHECK(g, s.size() <= s.capacity(), "capacity", "size %zu > capacity %zu", s.size(), s.capacity());
			VH_CHECK(g, s.max() == maxSeen || s.max() >= s.size(), "max", "max %zu, size %zu", s.max(), s.size());
			VH_CHECK(g, s.max() == maxSeen, "max", "max %zu, expected %zu", s.max(), maxSeen);
			multi |= s.chunks() > 1;
		}
		allocState.failAfter = -1;
		while(!snaps.empty()) {
			Snap sn = std::move(snaps.back());
			snaps.pop_back();
			sn.s.reset();
			rolledTo(sn);
		}
	}
	VH_CHECK(g, allocState.live == live0, "leak", "%ld allocations leaked", allocState.live - live0);
	if(multi)
		g.cls("multiple chunks");
	if(rolled)
		g.cls("rollback of live allocations");
	if(failed)
		g.cls("allocation failure");
	if(full)
		g.cls("over maximum size");
	g.nontrivial(faults ? failed && rolled : multi && rolled);
}

} // namespace

VH_PROPERTY(history, 60000, 3000000, "operation histories on a ScratchPad; non-trivial when several chunks existed, and live allocations were rolled back")
{
	switch(g.range(0, 2)) {
	case 0: return test<0xffff>(g, false);
	case 1: return test<0xff>(g, false);
	default: return test<0xffffffff>(g, false);
	}
}

VH_PROPERTY(faults, 60000, 3000000, "as history, with injected allocation failures; non-trivial when an allocation failed, and live allocations were rolled back")
{
	switch(g.range(0, 2)) {
	case 0: return test<0xffff>(g, true);
	case 1: return test<1000>(g, true);
	default: return test<0xffffffff>(g, true);
	}
}
