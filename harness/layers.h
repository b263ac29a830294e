// Helpers for protocol layer harnesses.
#ifndef VH_LAYERS_H
#define VH_LAYERS_H
#include "vh.h"
#include <stored>

#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace lay {

using vh::Gen;

// The bottom of a stack: collects frames.
class Wire : public stored::ProtocolLayer {
public:
	typedef stored::ProtocolLayer base;
	size_t m_mtu = 0;
	std::string partial;
	std::vector<std::string> frames;
	std::vector<std::pair<std::string, bool>> calls; // when record is set
	bool record = false;
	size_t purgeable = 0;

	using base::encode;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		if(record)
			calls.emplace_back(std::string((char const*)buffer, len), last);
		if(len)
			partial.append((char const*)buffer, len);
		if(last) {
			frames.push_back(partial);
			partial.clear();
		}
	}

	size_t mtu() const override
	{
		return m_mtu;
	}

	std::vector<std::string> take()
	{
		std::vector<std::string> f;
		f.swap(frames);
		return f;
	}

	std::string takeAll()
	{
		std::string s;
		for(auto& f : take())
			s += f;
		return s;
	}
};

// The top of a stack: collects messages.
class Top : public stored::ProtocolLayer {
public:
	typedef stored::ProtocolLayer base;
	std::vector<std::string> msgs;
	std::function<void(std::string const&)> cb;
	unsigned connects = 0;

	void decode(void* buffer, size_t len) override
	{
		std::string s(len ? (char const*)buffer : "", len);
		// Layers may alter the buffer in-place; we own it till return.
		if(len)
			memset(buffer, 0x55, len);
		msgs.push_back(s);
		if(cb)
			cb(s);
	}

	void connected() override
	{
		connects++;
		base::connected();
	}

	std::vector<std::string> take()
	{
		std::vector<std::string> m;
		m.swap(msgs);
		return m;
	}
};

// Decode s via an exactly-sized heap buffer, such that ASan notices any overrun.
inline void decode(stored::ProtocolLayer& l, std::string const& s)
{
	std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]);
	memcpy(b.get(), s.data(), s.size());
	if(s.empty()) {
		l.decode(nullptr, 0);
		return;
	}
	char* p = b.get();
	l.decode(p, s.size());
}

// Encode s in parts. Each part is in its own heap buffer, which is invalid afterwards.
inline void encode(stored::ProtocolLayer& l, std::string const& s, std::vector<size_t> const& parts, bool last = true, bool separateLast = false)
{
	size_t o = 0;
	for(size_t i = 0; i < parts.size(); i++) {
		std::unique_ptr<char[]> b(new char[parts[i] ? parts[i] : 1]);
		memcpy(b.get(), s.data() + o, parts[i]);
		o += parts[i];
		l.encode(b.get(), parts[i], last && !separateLast && i + 1 == parts.size());
	}
	if(last && (separateLast || parts.empty()))
		l.encode();
}

inline void encode(Gen& g, stored::ProtocolLayer& l, std::string const& s)
{
	auto parts = g.splits(s.size());
	bool sep = g.chance(1, 4);
	encode(l, s, parts, true, sep);
}

inline std::string desc(std::vector<size_t> const& v)
{
	std::string s;
	for(auto x : v)
		s += std::to_string(x) + " ";
	return s;
}

} // namespace lay
#endif
