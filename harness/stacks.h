// Random protocol stacks.
#ifndef VH_STACKS_H
#define VH_STACKS_H
#include "layers.h"
#include <libstored/compress.h>

#include <stdio.h>

namespace lay {

enum Kind { Ascii, Term, Seg, Crc8, Crc16, Arq, Buffer, Print, Idle, Cb, Compress, DArq, Plain, KindCount };

inline char const* kindName(int k)
{
	static char const* n[] = {"ascii", "term", "seg", "crc8", "crc16", "arq", "buffer", "print", "idle", "callback", "compress", "debugarq", "plain"};
	return n[k];
}

struct Spec {
	int kind;
	size_t arg;
};

inline std::string desc(std::vector<Spec> const& s)
{
	std::string r;
	for(auto const& x : s) {
		r += kindName(x.kind);
		if(x.kind == Ascii || x.kind == Seg || x.kind == Buffer || x.kind == DArq)
			r += "=" + std::to_string(x.arg);
		r += " ";
	}
	return r;
}

// Checks the MTU as announced by the lower layer, and whether frames are properly finished.
class Probe : public stored::ProtocolLayer {
public:
	typedef stored::ProtocolLayer base;
	size_t m_frame = 0;
	bool* exceeded = nullptr;
	using base::encode;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		m_frame += len;
		size_t m = down() ? down()->mtu() : 0;
		if(m && m_frame > m && exceeded)
			*exceeded = true;
		if(last)
			m_frame = 0;
		base::encode(buffer, len, last);
	}
	void reset() override
	{
		m_frame = 0;
		base::reset();
	}
};

struct Counts {
	size_t down = 0, up = 0, conn = 0;
};

class Stack {
public:
	Top top;
	bool exceeded = false;
	Counts counts;
	std::string nonDebug;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> layers; // top-down, including probes
	FILE* print = nullptr;

	explicit Stack(std::vector<Spec> const& spec)
	{
		stored::ProtocolLayer* up = &top;
		auto add = [&](stored::ProtocolLayer* l) {
			layers.emplace_back(l);
			l->wrap(*up);
			up = l;
		};
		auto probe = [&]() {
			auto* p = new Probe();
			p->exceeded = &exceeded;
			add(p);
		};
		probe();
		for(auto const& s : spec) {
			switch(s.kind) {
			case Ascii:
				add(new stored::AsciiEscapeLayer(s.arg != 0));
				break;
			case Term:
				add(new stored::TerminalLayer([this](void* b, size_t l) { nonDebug.append((char const*)b, l); }));
				break;
			case Seg:
				add(new stored::SegmentationLayer(s.arg));
				break;
			case Crc8:
				add(new stored::Crc8Layer());
				break;
			case Crc16:
				add(new stored::Crc16Layer());
				break;
			case Arq:
				add(new stored::ArqLayer());
				break;
			case Buffer:
				add(new stored::BufferLayer(s.arg));
				break;
			case Print:
				if(!print)
					print = fopen("/dev/null", "w");
				add(new stored::PrintLayer(print, "p"));
				break;
			case Idle:
				add(new stored::IdleCheckLayer());
				break;
			case Cb: {
				auto f = stored::make_callback(
					[this](void*, size_t l) { counts.up += l; },
					[this](void const*, size_t l, bool) { counts.down += l; },
					[this]() { counts.conn++; });
				add(new decltype(f)(std::move(f)));
				break;
			}
			case Compress:
				add(new stored::CompressLayer());
				break;
			case DArq:
				add(new stored::DebugArqLayer(s.arg));
				break;
			default:
				add(new stored::ProtocolLayer());
			}
			probe();
		}
	}

	~Stack()
	{
		// Destruct in any order; the layers must untie themselves.
		layers.clear();
		if(print)
			fclose(print);
	}

	stored::ProtocolLayer& bottom()
	{
		return *layers.back();
	}

	stored::ProtocolLayer& first()
	{
		return *layers.front();
	}
};

// Generate a valid stack. arqs: the number of ARQ layers allowed.
inline std::vector<Spec> genSpec(Gen& g, size_t maxLayers, size_t arqs, bool dArq, bool compress)
{
	std::vector<Spec> s;
	size_t n = g.index(maxLayers + 1);
	bool escaped = false;
	size_t asciis = 0;
	for(size_t i = 0; i < n; i++) {
		int k = (int)g.index(dArq ? Plain + 1 : Plain);
		switch(k) {
		case Ascii:
			if(asciis >= 2)
				continue;
			asciis++;
			escaped = true;
			s.push_back({k, g.index(2)});
			break;
		case Term:
			if(!escaped) {
				if(asciis >= 2)
					continue;
				asciis++;
				s.push_back({Ascii, g.index(2)});
			}
			s.push_back({k, 0});
			escaped = false;
			break;
		case Seg:
			s.push_back({k, g.chance() ? 0 : g.range<size_t>(8, 100)});
			break;
		case Arq:
			if(arqs == 0)
				continue;
			arqs--;
			s.push_back({k, 0});
			escaped = false;
			break;
		case Compress:
			if(!compress)
				continue;
			s.push_back({k, 0});
			escaped = false;
			break;
		case DArq:
			if(!dArq)
				continue;
			s.push_back({k, g.chance() ? 0 : g.index(100)});
			escaped = false;
			break;
		case Buffer:
			s.push_back({k, g.chance(1, 3) ? 0 : g.range<size_t>(1, 40)});
			break;
		case Crc8:
		case Crc16:
			s.push_back({k, 0});
			escaped = false;
			break;
		default:
			s.push_back({k, 0});
		}
	}
	return s;
}

// CompressLayer requires an unlimited MTU below.
inline void fixCompress(std::vector<Spec>& s, size_t wireMtu)
{
	bool limited = wireMtu != 0;
	for(size_t i = s.size(); i-- > 0;) {
		switch(s[i].kind) {
		case Crc8:
		case Crc16:
			limited = true;
			break;
		case Seg:
			limited = false;
			break;
		case Compress:
			if(limited) {
				s.insert(s.begin() + (long)i + 1, Spec{Seg, 0});
				limited = false;
			}
			break;
		default:;
		}
	}
}

// The bottom-most layer that is not transparent.
inline int framing(std::vector<Spec> const& s)
{
	for(size_t i = s.size(); i-- > 0;)
		switch(s[i].kind) {
		case Print:
		case Idle:
		case Cb:
		case Plain:
		case Buffer:
			break;
		default:
			return s[i].kind;
		}
	return -1;
}

// All MTUs are reasonable?
inline bool mtuOk(Stack& s)
{
	for(auto& l : s.layers) {
		size_t m = l->mtu();
		if(m && m < 8)
			return false;
	}
	return true;
}

inline bool has(std::vector<Spec> const& s, int k)
{
	for(auto const& x : s)
		if(x.kind == k)
			return true;
	return false;
}

} // namespace lay
#endif
