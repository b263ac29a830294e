// D01, D02, D03, D04: the debugger.
#include "boxes.h"
#include "vh.h"
extern "C" {
#include <heatshrink_decoder.h>
}

#include <algorithm>
#include <memory>
#include <set>

using box::Box;
using box::Call;
using box::Obj;
using stored::Type;
using vh::Gen;

namespace {

typedef stored::Config Config;

class Sink : public stored::ProtocolLayer {
public:
	typedef stored::ProtocolLayer base;
	std::string partial;
	std::vector<std::string> messages;
	bool purgeable = false;
	std::function<void()> meanwhile; // once, as soon as a response is sent

	using base::encode;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		if(meanwhile) {
			std::function<void()> f;
			f.swap(meanwhile);
			f();
		}
		if(len)
			partial.append((char const*)buffer, len);
		if(last) {
			messages.push_back(partial);
			partial.clear();
		}
	}

	void setPurgeableResponse(bool p = true) override
	{
		purgeable = p;
	}
};

int hexDigit(char c)
{
	if(c >= '0' && c <= '9')
		return c - '0';
	if(c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if(c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}

// In host (little endian) order. Returns false when it is malformed.
bool parseHex(std::string const& s, bool fixed, size_t size, std::string& v)
{
	v.clear();
	if(s.empty())
		return false;
	for(char c : s)
		if(hexDigit(c) < 0)
			return false;
	if(!fixed) {
		if(s.size() & 1)
			return false;
		for(size_t i = 0; i < s.size(); i += 2)
			v.push_back((char)(hexDigit(s[i]) * 16 + hexDigit(s[i + 1])));
		return true;
	}
	if(s.size() > size * 2)
		return false;
	std::string z(size * 2 - s.size(), '0');
	z += s;
	for(size_t i = size; i-- > 0;)
		v.push_back((char)(hexDigit(z[i * 2]) * 16 + hexDigit(z[i * 2 + 1])));
	return true;
}

std::string byteHex(std::string const& s)
{
	std::string h;
	for(char c : s) {
		h += "0123456789abcdef"[((uint8_t)c) >> 4];
		h += "0123456789abcdef"[((uint8_t)c) & 15];
	}
	return h;
}

std::string trim(std::string const& h)
{
	size_t i = 0;
	while(i + 1 < h.size() && h[i] == '0')
		i++;
	return h.substr(i);
}

std::string valueHex(Obj const& o, std::string const& v)
{
	if(!o.fixed())
		return byteHex(v);
	std::string h = byteHex(std::string(v.rbegin(), v.rend()));
	if(o.type == Type::Bool)
		return trim(h);
	return Type::isInt(o.type) ? trim(h) : h;
}

struct Model {
	typedef std::pair<int, int> Ref;

	std::vector<std::unique_ptr<Box>> boxes;
	std::vector<std::vector<std::string>> values;
	std::map<std::string, int> mapped;
	std::map<char, Ref> aliases;
	std::map<char, std::string> macros;
	std::set<char> busy;
	std::map<char, std::string> streams;
	std::vector<Call> calls;  // expected
	std::vector<Call> called; // actual
	std::string id, versions;
	bool sideEffect = false; // of the last command
	bool tracing = false;
	char traceMacro = 0, traceStream = 0;
	unsigned traceN = 0;

	std::string actual(int b, int o)
	{
		return boxes[(size_t)b]->value(boxes[(size_t)b]->objs[(size_t)o]);
	}

	Ref lookup(int b, std::string const& name)
	{
		// In a buffer of exactly this size.
		std::unique_ptr<char[]> p(new char[name.size() + 1]);
		memcpy(p.get(), name.data(), name.size());
		p[name.size()] = 0;
		int o = boxes[(size_t)b]->find(p.get(), name.size());
		return o < 0 ? Ref(-1, -1) : Ref(b, o);
	}

	Ref find(std::string const& name)
	{
		Ref none(-1, -1);
		if(name.empty())
			return none;
		if(name.size() == 1 && name[0] != '/' && aliases.count(name[0]))
			return aliases[name[0]];
		if(mapped.empty())
			return none;
		if(mapped.size() == 1) {
			int b = mapped.begin()->second;
			Ref r = lookup(b, name);
			return r.first >= 0 ? r : lookup(b, name.substr(1));
		}
		size_t slash = name.find('/', 1);
		if(slash == name.npos)
			return none;
		int b = store(name.substr(0, slash));
		return b < 0 ? none : lookup(b, name.substr(slash));
	}

	// Resolve a prefix, which may be abbreviated.
	int store(std::string const& prefix)
	{
		auto it = mapped.find(prefix);
		if(it != mapped.end())
			return it->second;
		int b = -1;
		for(auto const& m : mapped)
			if(m.first.compare(0, prefix.size(), prefix) == 0) {
				if(b >= 0)
					return -1; // ambiguous
				b = m.second;
			}
		return b;
	}

	size_t macroSize() const
	{
		size_t s = 0;
		for(auto const& m : macros)
			s += m.second.size();
		return s;
	}

	std::string process(std::string const& cmd)
	{
		static std::string const ack = "!", nack = "?";
		std::string arg = cmd.substr(1);
		switch(cmd[0]) {
		case '?': {
			std::string caps = "?rwelam";
			if(!id.empty())
				caps += "i";
			caps += "v";
			if(Config::DebuggerReadMem)
				caps += "R";
			if(Config::DebuggerWriteMem)
				caps += "W";
			caps += "st";
			if(Config::CompressStreams)
				caps += "f";
			return caps;
		}
		case 'e':
			return arg;
		case 'i':
			return id.empty() ? nack : id;
		case 'v':
			return "2" + (versions.empty() ? "" : " " + versions) + (Config::Debug ? " debug" : "");
		case 'l': {
			std::string res;
			for(auto const& m : mapped)
				for(auto const& o : boxes[(size_t)m.second]->objs) {
					char buf[256];
					snprintf(buf, sizeof(buf), "%02x%zx%s%s\n", (unsigned)o.type, o.size,
						 mapped.size() > 1 ? m.first.c_str() : "", o.name.c_str());
					res += buf;
				}
			return res.empty() ? nack : res;
		}
		case 'r': {
			Ref r = find(arg);
			if(r.first < 0)
				return nack;
			auto& b = *boxes[(size_t)r.first];
			auto& o = b.objs[(size_t)r.second];
			std::string v = values[(size_t)r.first][(size_t)r.second];
			if(o.function()) {
				sideEffect = true;
				if(!o.fixed())
					v.resize(std::min(b.fn().ret, o.size));
				calls.push_back({&b.fn(), o.name, false, v});
			}
			return valueHex(o, v);
		}
		case 'w': {
			size_t at = arg.find('/');
			if(at == arg.npos)
				at = arg.empty() ? 0 : arg.size() - 1;
			Ref r = find(arg.substr(at));
			if(r.first < 0)
				return nack;
			auto& b = *boxes[(size_t)r.first];
			auto& o = b.objs[(size_t)r.second];
			std::string v;
			if(!parseHex(arg.substr(0, at), o.fixed(), o.size, v))
				return nack;
			if(o.base() == Type::Bool)
				v = std::string(1, v[0] ? 1 : 0);
			sideEffect = true;
			std::string& cur = values[(size_t)r.first][(size_t)r.second];
			if(v.size() > o.size)
				v.resize(o.size);
			if(o.function()) {
				calls.push_back({&b.fn(), o.name, true, v});
				size_t n = o.fixed() ? v.size() : std::min(v.size(), b.fn().ret);
				cur = v.substr(0, n) + cur.substr(n);
			} else if(o.base() == Type::String)
				cur = box::cstr(v);
			else
				cur = v + cur.substr(v.size());
			return ack;
		}
		case 'a': {
			sideEffect = true;
			if(arg.empty() || arg[0] < 0x20 || arg[0] > 0x7e || arg[0] == '/')
				return nack;
			if(arg.size() == 1) {
				aliases.erase(arg[0]);
				return ack;
			}
			Ref r = find(arg.substr(1));
			if(r.first < 0)
				return nack;
			if(!aliases.count(arg[0]) && aliases.size() >= (size_t)Config::DebuggerAlias)
				return nack;
			aliases[arg[0]] = r;
			return ack;
		}
		case 'm': {
			sideEffect = true;
			if(arg.empty())
				return nack;
			char m = arg[0];
			if(arg.size() == 1) {
				if(busy.count(m))
					return nack;
				macros.erase(m);
				return ack;
			}
			std::string def = arg.substr(1);
			size_t size = macroSize() + def.size() - (macros.count(m) ? macros[m].size() : 0);
			if(size > (size_t)Config::DebuggerMacro || busy.count(m))
				return nack;
			macros[m] = def;
			return ack;
		}
		case 's': {
			sideEffect = true;
			if(arg.empty()) {
				std::string res;
				for(auto const& s : streams)
					if(!s.second.empty())
						res += s.first;
				return res.empty() ? nack : res;
			}
			auto it = streams.find(arg[0]);
			if(it == streams.end())
				return nack;
			std::string res = it->second + arg.substr(1);
			it->second.clear();
			return res;
		}
		case 'f':
			sideEffect = true;
			return Config::CompressStreams && arg.size() <= 1 ? ack : nack;
		case 't': {
			sideEffect = true;
			tracing = false;
			if(arg.empty())
				return ack;
			if(arg.size() < 2 || arg[1] == '?')
				return nack;
			traceMacro = arg[0];
			traceStream = arg[1];
			streams[traceStream];
			traceN = 1;
			if(arg.size() > 2) {
				std::string v;
				if(!parseHex(arg.substr(2), true, 4, v))
					return nack;
				uint32_t n = 0;
				memcpy(&n, v.data(), 4);
				traceN = n;
			}
			tracing = traceN > 0;
			return ack;
		}
		case 'R':
		case 'W':
			return nack;
		default:
			return macro(cmd[0]);
		}
	}

	std::string macro(char m)
	{
		auto it = macros.find(m);
		if(it == macros.end() || busy.count(m))
			return "?";
		std::string def = it->second;
		std::string res;
		bool side = sideEffect;
		busy.insert(m);
		size_t pos = 1;
		while(pos <= def.size() && def.size() > 1) {
			size_t end = def.find(def[0], pos);
			if(end == def.npos)
				end = def.size();
			if(end > pos)
				res += process(def.substr(pos, end - pos));
			pos = end + 1;
		}
		busy.erase(m);
		(void)side;
		sideEffect = true;
		return res;
	}
};

struct Fixture {
	Gen& g;
	Model m;
	Sink sink;
	stored::Debugger dbg;
	std::vector<std::string> prefixes;
	std::map<int, bool> twos;
	bool twoOnly = false;

	explicit Fixture(Gen& g_)
		: g(g_)
	{
		sink.wrap(dbg);
	}

	void add(bool two)
	{
		m.boxes.emplace_back();
		m.values.emplace_back();
		twos[(int)m.boxes.size() - 1] = two;
		create(m.boxes.size() - 1);
	}

	// (Re)create a store, which is not mapped.
	void create(size_t i)
	{
		m.boxes[i].reset();
		if(twos[(int)i])
			m.boxes[i].reset(new box::BoxT<box::Two>(&m.called));
		else
			m.boxes[i].reset(new box::BoxT<box::Rich>(&m.called));
		m.boxes[i]->fn().ret = g.index(12);
		for(auto const& o : m.boxes[i]->objs)
			if(o.function() && o.base() != Type::Bool) {
				std::string s = g.bytes(o.size);
				s.resize(64);
				m.boxes[i]->fn().value[o.name] = s;
			}
		m.values[i] = m.boxes[i]->values();
	}

	bool isMapped(int b)
	{
		for(auto const& x : m.mapped)
			if(x.second == b)
				return true;
		return false;
	}

	static char const* const* pool()
	{
		static char const* const p[] = {"/a", "/ab", "/abc", "/b", "/Rich", "/Two", "/Ri"};
		return p;
	}

	void forget(int b)
	{
		for(auto it = m.aliases.begin(); it != m.aliases.end();)
			if(it->second.first == b)
				it = m.aliases.erase(it);
			else
				++it;
	}

	void map(size_t b)
	{
		if(isMapped((int)b))
			return;
		char const* name = g.chance(1, 4) ? nullptr : pool()[g.index(7)];
		std::string p = name ? name : m.boxes[b]->name();
		g.note("map store %zu as %s", b, p.c_str());
		auto it = m.mapped.find(p);
		if(it != m.mapped.end()) {
			// Replaced. The old one is not accessible anymore.
			forget(it->second);
		}
		m.mapped[p] = (int)b;
		m.boxes[b]->map(dbg, name);
	}

	void mapInvalid(size_t b)
	{
		static char const* const bad[] = {"", "a", "/a/b", "/a/", "//"};
		char const* n = bad[g.index(5)];
		g.note("map store %zu as %s", b, n);
		m.boxes[b]->map(dbg, n);
	}

	void unmap()
	{
		if(m.mapped.empty())
			return;
		auto it = m.mapped.begin();
		std::advance(it, (long)g.index(m.mapped.size()));
		std::string p = it->first;
		int b = it->second;
		g.note("unmap %s", p.c_str());
		dbg.unmap(p.c_str());
		m.mapped.erase(it);
		forget(b);
		if(g.chance()) {
			g.note("recreate store %d", b);
			create((size_t)b);
		}
	}

	// Everything is as the model says.
	void check(std::string const& cmd)
	{
		for(size_t b = 0; b < m.boxes.size(); b++)
			for(size_t o = 0; o < m.boxes[b]->objs.size(); o++) {
				std::string v = m.boxes[b]->value(m.boxes[b]->objs[o]);
				VH_CHECK(g, v == m.values[b][o], "value", "after %s, store %zu %s is %s, expected %s", vh::quote(cmd).c_str(), b,
					 m.boxes[b]->objs[o].name.c_str(), vh::hex(v).c_str(), vh::hex(m.values[b][o]).c_str());
			}
		VH_CHECK(g, m.called == m.calls, "calls", "after %s, %zu function calls, expected %zu%s", vh::quote(cmd).c_str(), m.called.size(),
			 m.calls.size(), m.called.size() == m.calls.size() ? ", with other arguments" : "");
		m.called.clear();
		m.calls.clear();
	}

	// Exactly one response
	std::string request(std::string const& cmd)
	{
		sink.messages.clear();
		sink.purgeable = false;
		std::unique_ptr<char[]> p(new char[cmd.size()]);
		memcpy(p.get(), cmd.data(), cmd.size());
		dbg.decode(p.get(), cmd.size());
		VH_CHECK(g, sink.messages.size() == 1 && sink.partial.empty(), "response-count",
			 "request %s got %zu responses and %zu bytes of a partial response", vh::quote(cmd).c_str(), sink.messages.size(),
			 sink.partial.size());
		return sink.messages[0];
	}

	// Some text that may refer to an object. Returns whether it must be found.
	std::string name(int& expectB, int& expectO)
	{
		expectB = expectO = -1;
		if(g.chance(1, 6) && !m.aliases.empty()) {
			auto it = m.aliases.begin();
			std::advance(it, (long)g.index(m.aliases.size()));
			expectB = it->second.first;
			expectO = it->second.second;
			return std::string(1, it->first);
		}
		size_t b = 0;
		if(!m.mapped.empty() && g.chance(9, 10)) {
			auto it = m.mapped.begin();
			std::advance(it, (long)g.index(m.mapped.size()));
			b = (size_t)it->second;
			prefix = it->first;
		} else {
			b = g.index(m.boxes.size());
			prefix = pool()[g.index(7)];
		}
		bool valid = isMapped((int)b) && m.mapped.count(prefix) && m.mapped[prefix] == (int)b;
		auto& objs = m.boxes[b]->objs;
		size_t oi = g.index(objs.size());
		std::string full = objs[oi].name;
		std::string n = full;
		if(g.chance(1, 3)) { // abbreviate
			n.clear();
			size_t pos = 0;
			while(pos < full.size()) {
				size_t end = full.find('/', pos + 1);
				if(end == full.npos)
					end = full.size();
				std::string scope = full.substr(0, pos);
				std::string c = full.substr(pos, end - pos); // including /
				std::set<std::string> sib;
				for(auto const& o : objs)
					if(o.name.compare(0, scope.size() + 1, scope + "/") == 0)
						sib.insert(o.name.substr(pos, o.name.find('/', pos + 1) == o.name.npos ? std::string::npos : o.name.find('/', pos + 1) - pos));
				std::vector<std::string> opts;
				for(size_t l = 2; l < c.size(); l++) {
					int cnt = 0;
					for(auto const& x : sib)
						if(x.compare(0, l, c, 0, l) == 0)
							cnt++;
					if(cnt == 1)
						opts.push_back(c.substr(0, l));
				}
				n += opts.empty() || g.chance(1, 4) ? c : opts[g.index(opts.size())];
				pos = end;
			}
			if(n != full)
				g.cls("abbreviated name");
		}
		if(valid) {
			expectB = (int)b;
			expectO = (int)oi;
		}
		if(m.mapped.size() > 1 ? g.chance(15, 16) : g.chance(1, 16)) {
			std::string p = prefix;
			if(m.mapped.size() == 1)
				expectB = expectO = -1;
			if(g.chance(1, 3) && p.size() > 2) {
				p = p.substr(0, 1 + g.index(p.size()));
				if(m.store(p) != expectB)
					expectB = expectO = -1;
				g.cls("abbreviated prefix");
			}
			n = p + n;
		} else if(m.mapped.size() > 1)
			expectB = expectO = -1;

		if(g.chance(1, 8)) {
			expectB = expectO = -1;
			switch(g.index(5)) {
			case 0: n = n.substr(0, g.index(n.size())); break;
			case 1: n += "/x"; break;
			case 2: n.insert(g.index(n.size() + 1), 1, (char)g.range<int>(0x20, 0x7e)); break;
			case 3: n[g.index(n.size())] = (char)g.range<int>(0x20, 0x7e); break;
			case 4: n.erase(g.index(n.size()), 1); break;
			}
		}
		return n;
	}

	std::string prefix;

	std::string name()
	{
		int b, o;
		return name(b, o);
	}

	std::string hexValue(Obj const* o)
	{
		size_t size = o ? o->size : 4;
		std::string v;
		if(o && o->base() == Type::Bool)
			v = g.chance(1, 6) ? vh::format("%x", (unsigned)g.index(256)) : g.chance() ? "1" : "0";
		else if(o && !o->fixed()) {
			size_t n = g.index(size + 2);
			for(size_t i = 0; i < n; i++)
				v += vh::format("%02x", g.chance(1, 8) ? 0U : (unsigned)g.index(256));
		} else {
			v = vh::format("%llx", (unsigned long long)g.bits((unsigned)std::min<size_t>(size * 8, 64)));
			if(g.chance(1, 4))
				while(v.size() < size * 2)
					v.insert(0, 1, '0');
		}
		if(g.chance(1, 4))
			for(auto& c : v)
				c = (char)toupper(c);
		switch(g.weighted({12, 1, 1, 1})) {
		case 1:
			if(!v.empty())
				v[g.index(v.size())] = "gG:@`. -x"[g.index(9)];
			break;
		case 2: v.insert(0, (g.chance() ? 1 : 16), '1'); break;
		case 3: v = v.substr(0, g.index(v.size() + 1)); break;
		default: break;
		}
		return v;
	}

	char aliasChar()
	{
		return g.chance(1, 12) ? (char)g.index(256) : "0a~ x?3f"[g.index(8)];
	}

	char macroChar()
	{
		return "XYZr"[g.index(4)];
	}

	char streamChar()
	{
		return "ABC"[g.index(3)];
	}

	// To get to the limit of the total size.
	std::string largeMacro()
	{
		std::string c = "m";
		c += macroChar();
		if(g.chance(1, 10))
			return c;
		c += ";e";
		size_t max = (size_t)Config::DebuggerMacro;
		switch(g.weighted({2, 2, 1})) {
		case 0: return c + std::string(g.index(max + 2U), 'p');
		case 1: return c + std::string(g.index(10), 'p');
		default: {
			// Just (not) fitting
			size_t used = m.macroSize() - (m.macros.count(c[1]) ? m.macros[c[1]].size() : 0);
			size_t n = used + 2U < max ? max - used - 2U : 0;
			return c + std::string(n + g.index(2), 'p');
		}
		}
	}

	std::string command(bool top, int depth = 0)
	{
		unsigned st = Config::CompressStreams ? 0 : 2;
		switch(g.weighted({8, 8, 2, 4, depth ? 1u : 4u, 3, 1, top ? 1u : 0u, st, 1, top && st ? 2u : 0u, 1})) {
		case 0: return "r" + name();
		case 1: {
			int b, o;
			std::string n = name(b, o);
			Obj const* obj = b >= 0 ? &m.boxes[(size_t)b]->objs[(size_t)o] : nullptr;
			return "w" + hexValue(obj) + n;
		}
		case 2: return "e" + g.bytesUpTo(20);
		case 3: {
			std::string c = "a";
			c += aliasChar();
			return g.chance(1, 5) ? c : c + name();
		}
		case 4: {
			std::string c = "m";
			c += macroChar();
			if(g.chance(1, 8))
				return c;
			if(top && g.chance(1, 20))
				return largeMacro();
			char sep = ";\n \t"[g.index(4)];
			c += sep;
			size_t n = g.index(5);
			for(size_t i = 0; i < n; i++) {
				if(i)
					c += sep;
				if(!g.chance(1, 12))
					c += command(false, depth + 1);
			}
			return c;
		}
		case 5: return std::string(1, macroChar());
		case 6: return g.chance() ? "i" : "v";
		case 7: return g.chance() ? "?" : "l";
		case 8: {
			if(g.chance(1, 4))
				return "s";
			std::string c = "s";
			c += streamChar();
			return c + g.bytesUpTo(4);
		}
		case 9: {
			// Not a command
			std::string c(1, (char)g.index(256));
			return std::string("rwaelmi?vsftRW").find(c[0]) != std::string::npos ? std::string("w") : c + g.bytesUpTo(5);
		}
		case 10: {
			std::string c = "t";
			if(g.chance(1, 3))
				return c;
			c += macroChar();
			if(g.chance(1, 8))
				return c;
			c += g.chance(1, 8) ? '?' : streamChar();
			if(g.chance())
				c += vh::format("%x", (unsigned)g.bits(8));
			if(g.chance(1, 6))
				c += "g";
			return c;
		}
		default:
			// Too short
			return std::string(1, "rwam"[g.index(4)]);
		}
	}
};

std::string sorted(std::string s)
{
	std::sort(s.begin(), s.end());
	return s;
}

std::string sortedLines(std::string const& s)
{
	std::vector<std::string> l;
	size_t pos = 0;
	while(pos < s.size()) {
		size_t e = s.find('\n', pos);
		if(e == s.npos)
			e = s.size();
		l.push_back(s.substr(pos, e - pos));
		pos = e + 1;
	}
	std::sort(l.begin(), l.end());
	std::string r;
	for(auto& x : l)
		r += x + "\n";
	return r;
}

} // namespace

VH_PROPERTY(commands, 25000, 300000, "at least 5 commands that succeed, of at least 3 kinds")
{
	Fixture f(g);
	Model& m = f.m;
	f.add(true);
	f.add(false);
	if(g.chance())
		f.add(g.chance());
	if(g.chance(3, 4)) {
		m.id = "the id";
		f.dbg.setIdentification("the id");
	}
	if(g.chance(3, 4)) {
		m.versions = "1.0 abc";
		f.dbg.setVersions("1.0 abc");
	}
	f.map(0);
	if(g.chance())
		f.map(1);

	int steps = g.range<int>(1, 40);
	int good = 0;
	std::set<char> kinds;
	bool budget = Config::DebuggerMacro > 0 && g.chance(1, 10);
	for(int step = 0; step < steps; step++) {
		switch(g.weighted({14, 2, 2, 1, 1})) {
		case 1: { // The application changes something
			size_t b = g.index(m.boxes.size());
			auto& o = m.boxes[b]->objs[g.index(m.boxes[b]->objs.size())];
			if(o.function())
				break;
			std::string v = g.bytes(o.size);
			if(o.base() == Type::Bool)
				v[0] &= 1;
			g.note("app sets store %zu %s to %s", b, o.name.c_str(), vh::hex(v).c_str());
			m.boxes[b]->set(o, v);
			m.values[b][(size_t)m.boxes[b]->index[o.name]] = o.base() == Type::String ? box::cstr(v) : v;
			break;
		}
		case 2: {
			if(Config::CompressStreams)
				break;
			char c = f.streamChar();
			std::string d = g.bytesUpTo(40);
			g.note("stream %c %zu bytes", c, d.size());
			size_t n = f.dbg.stream(c, d.data(), d.size());
			VH_CHECK(g, n <= d.size(), "stream-len", "stream() returns %zu of %zu", n, d.size());
			m.streams[c] += d.substr(0, n);
			break;
		}
		case 3:
			if(g.chance(2, 3))
				f.map(g.index(m.boxes.size()));
			else
				f.mapInvalid(g.index(m.boxes.size()));
			break;
		case 4: f.unmap(); break;
		default: {
			// A name that must be found?
			int b = -1, o = -1;
			std::string cmd;
			if(g.chance(1, 4))
				cmd = "r" + f.name(b, o);
			else if(budget && g.chance(2, 3))
				cmd = f.largeMacro();
			else
				cmd = f.command(true);
			g.note("%s", vh::quote(cmd.size() > 500 ? cmd.substr(0, 20) + vh::format("... (%zu)", cmd.size()) : cmd).c_str());
			if(b >= 0) {
				auto r = m.find(cmd.substr(1));
				VH_CHECK(g, r.first == b && r.second == o, "lookup", "%s finds object %d of store %d instead of %d of %d", vh::quote(cmd).c_str(),
					 r.second, r.first, o, b);
			}
			std::string got = f.request(cmd);
			m.sideEffect = false;
			std::string want = m.process(cmd);
			bool same = got == want;
			if(cmd[0] == '?')
				same = sorted(got) == sorted(want) && !got.empty() && got[0] == '?';
			if(cmd[0] == 'l')
				same = sortedLines(got) == sortedLines(want);
			VH_CHECK(g, same, cmd[0] == 'r' ? "read" : cmd[0] == 'w' ? "write" : m.macros.count(cmd[0]) ? "macro" : "response",
				 "response to %s is %s, expected %s", vh::quote(cmd).c_str(), vh::quote(got).c_str(), vh::quote(want).c_str());
			f.check(cmd);
			if(f.sink.purgeable)
				VH_CHECK(g, !m.sideEffect || (cmd[0] == 's' && cmd.size() > 1 && m.tracing && cmd[1] == m.traceStream), "purgeable",
					 "the response to %s is marked as purgeable", vh::quote(cmd).c_str());
			if(want != "?") {
				good++;
				kinds.insert(cmd[0]);
				if(std::string("rwelamivs?tf").find(cmd[0]) == std::string::npos)
					g.cls("macro executed");
				if(m.mapped.size() > 1)
					g.cls("several stores");
			}
			break;
		}
		}
	}
	g.nontrivial(good >= 5 && kinds.size() >= 3);
}

VH_PROPERTY(requests, 25000, 500000, "at least 3 requests of which at least 2 are refused")
{
	Fixture f(g);
	Model& m = f.m;
	f.add(true);
	f.add(false);
	if(!g.chance(1, 10))
		f.map(0);
	if(g.chance())
		f.map(1);

	// Should not be accessed, if that is disabled.
	std::unique_ptr<char[]> mem(new char[64]);
	memset(mem.get(), 0x5a, 64);

	int steps = g.range<int>(1, 30);
	int refused = 0;
	for(int step = 0; step < steps; step++) {
		std::string cmd;
		switch(g.weighted({3, 4, 2, 2, 2, 1})) {
		case 0: cmd = f.command(true); break;
		case 1: { // mutated
			cmd = f.command(true);
			int n = g.range<int>(1, 4);
			for(int i = 0; i < n; i++)
				switch(g.index(5)) {
				case 0: cmd = cmd.substr(0, g.index(cmd.size() + 1)); break;
				case 1: cmd.insert(g.index(cmd.size() + 1), 1, (char)g.index(256)); break;
				case 2:
					if(!cmd.empty())
						cmd[g.index(cmd.size())] = (char)g.index(256);
					break;
				case 3:
					if(!cmd.empty())
						cmd.erase(g.index(cmd.size()), 1);
					break;
				case 4: cmd += g.bytesUpTo(300); break;
				}
			break;
		}
		case 2: cmd = g.bytesUpTo(2000); break;
		case 3:
			cmd = std::string(1, "?rwelamivRWstf"[g.index(14)]) + g.bytesUpTo(200);
			break;
		case 4: { // memory access, possibly malformed
			cmd = vh::format("%c%llx", g.chance() ? 'R' : 'W', (unsigned long long)(uintptr_t)mem.get());
			if(g.chance())
				cmd += g.chance() ? " 10" : " 0011";
			break;
		}
		default: { // tokens
			size_t n = g.range<size_t>(1, 12);
			for(size_t i = 0; i < n; i++)
				cmd += std::vector<std::string>{"r", "w", "a", "m", "X", "Y", "s", "f", "t", "A", "/", "//", "/x", "/scope/a", ";", ";", "\n", "00", "ff", "?", "l"}[g.index(21)];
			break;
		}
		}
		if(cmd.empty())
			continue;
		if((Config::DebuggerReadMem && cmd.find('R') != cmd.npos) || (Config::DebuggerWriteMem && cmd.find('W') != cmd.npos))
			continue; // could crash deliberately
		if(cmd[0] == 'm' && std::count_if(cmd.begin(), cmd.end(), [](char c) { return c == 'm'; }) > 4)
			continue;
		if(cmd[0] == 'm' && cmd.size() > 300)
			cmd.resize(300); // a macro of macros is large
		g.note("%s", vh::quote(cmd).c_str());
		auto before = std::vector<std::vector<std::string>>{m.boxes[0]->values(), m.boxes[1]->values()};
		m.called.clear();
		std::string got = f.request(cmd);
		auto after = std::vector<std::vector<std::string>>{m.boxes[0]->values(), m.boxes[1]->values()};
		if(got == "?") {
			refused++;
			VH_CHECK(g, before == after, "refused-changes", "%s is refused, but changed something", vh::quote(cmd).c_str());
			VH_CHECK(g, m.called.empty(), "refused-calls", "%s is refused, but called a function", vh::quote(cmd).c_str());
		}
		VH_CHECK(g, got.size() < (1U << 22), "response-size", "the response to %s is %zu bytes", vh::quote(cmd).c_str(), got.size());
		if((cmd[0] == 'R' && !Config::DebuggerReadMem) || (cmd[0] == 'W' && !Config::DebuggerWriteMem)) {
			VH_CHECK(g, got == "?", "memory", "%s gives %s", vh::quote(cmd).c_str(), vh::quote(got).c_str());
			for(int i = 0; i < 64; i++)
				VH_CHECK(g, mem[(size_t)i] == 0x5a, "memory", "memory has been written");
			g.cls("memory access refused");
		}
		if(g.chance(1, 4)) {
			std::string e = f.request("eabc");
			VH_CHECK(g, e == "abc", "echo", "echo gives %s", vh::quote(e).c_str());
		}
		if(g.chance(1, 4) && m.mapped.size() == 1) {
			int32_t v = (int32_t)g.bits(32);
			auto& b = *m.boxes[(size_t)m.mapped.begin()->second];
			if(b.index.count("/xy")) {
				b.set(b.objs[(size_t)b.index["/xy"]], std::string((char*)&v, 4));
				std::string e = f.request("r/xy");
				VH_CHECK(g, e == vh::format("%x", (unsigned)v), "operational", "reads %s, expected %x", vh::quote(e).c_str(), (unsigned)v);
			}
		}
		if(g.chance(1, 5))
			f.dbg.stream(f.streamChar(), "some data");
		if(g.chance(1, 8) && m.macros.empty())
			f.dbg.trace();
	}
	g.nontrivial(steps >= 3 && refused >= 2);
}

namespace {

// Decodes compressed data. When there may follow more data, not all of it may be available yet.
std::string decompress(std::string const& in, bool finish)
{
	heatshrink_decoder* d = heatshrink_decoder_alloc(256, 8, 4);
	std::string out;
	size_t o = 0;
	uint8_t buf[64];
	auto poll = [&]() {
		while(true) {
			size_t n = 0;
			auto r = heatshrink_decoder_poll(d, buf, sizeof(buf), &n);
			out.append((char*)buf, n);
			if(r != HSDR_POLL_MORE)
				break;
		}
	};
	while(o < in.size()) {
		size_t n = 0;
		heatshrink_decoder_sink(d, (uint8_t*)const_cast<char*>(in.data()) + o, in.size() - o, &n);
		o += n;
		poll();
	}
	if(finish)
		while(heatshrink_decoder_finish(d) == HSDR_FINISH_MORE)
			poll();
	heatshrink_decoder_free(d);
	return out;
}

struct S {
	bool used = false;
	std::string pending;  // accepted, not read yet (upper bound when compressed)
	std::string accepted; // since the start of the compressed stream
	std::string received; // compressed data since then
	bool flushed = false; // blocked
	bool touched = false; // may be in use without any data
};

} // namespace

VH_PROPERTY(streams, 40000, 300000, "at least 3 writes or samples, of which some data is read back, and a stream was once full, flushed or read twice")
{
	Fixture f(g);
	Model& m = f.m;
	f.add(true);
	f.map(0);
	m.boxes[0]->fn().ret = 16;
	std::map<char, S> st;
	bool const compress = Config::CompressStreams;
	size_t const limit = (size_t)Config::DebuggerStreams;
	size_t const bufsize = Config::DebuggerStreamBuffer;
	size_t const overflow = Config::DebuggerStreamBufferOverflow;
	std::string names = "ABCDE";
	names.resize(g.range<size_t>(1, 5));
	int const big = g.range<int>(0, 2);

	auto surely = [&](char c) { // has data
		return st.count(c) && (compress ? !st[c].accepted.empty() : !st[c].pending.empty());
	};
	auto possibly = [&](char c) { return st.count(c) && (surely(c) || (compress && st[c].touched) || !st[c].pending.empty()); };
	auto others = [&](char c, bool sure) {
		size_t n = 0;
		for(auto const& x : st)
			if(x.first != c && (sure ? surely(x.first) : possibly(x.first)))
				n++;
		return n;
	};
	// Upper bound of the buffer size
	auto upper = [&](S const& s, size_t more) {
		return compress ? (s.pending.size() + 256 + more) * 9 / 8 + 4 : s.pending.size() + more;
	};

	bool known = false; // phase of the trace
	unsigned since = 0; // calls since last sample
	unsigned could = 0; // calls in sequence that could have been sampled
	bool full = false, flushes = false, reads = false;
	int writes = 0, samples = 0;
	std::string const suffix = g.chance() || compress ? "#end" : "";

	auto cmd = [&](std::string const& c) {
		g.note("%s", vh::quote(c).c_str());
		return f.request(c);
	};

	int steps = g.range<int>(1, 60);
	for(int step = 0; step < steps; step++) {
		char c = names[g.index(names.size())];
		for(auto& x : st)
			if(x.second.flushed && !surely(x.first) && !f.dbg.stream(x.first))
				x.second.flushed = false; // recycled meanwhile
		switch(g.weighted({6, 4, 1, compress ? 2u : 0u, 2, 6, 1, 1})) {
		case 0: { // write
			size_t n = big == 0 ? g.size(20) : big == 1 ? g.size(200) : g.size(1500);
			std::string d = g.bytes(n);
			S& s = st[c];
			size_t a;
			if(g.chance(1, 4)) {
				d = box::cstr(d);
				n = d.size();
				a = f.dbg.stream(c, d.c_str());
			} else
				a = f.dbg.stream(c, d.data(), d.size());
			g.note("write %zu to %c: %zu accepted", n, c, a);
			s.used = true;
			VH_CHECK(g, a <= n, "accepted", "%zu bytes accepted of %zu", a, n);
			if(others(c, true) >= limit || s.flushed)
				VH_CHECK(g, a == 0, "accepted-full", "%zu bytes accepted, but there is no stream available", a);
			else if(others(c, false) < limit && upper(s, n) <= bufsize - (compress ? overflow : 0))
				VH_CHECK(g, a == n, "refused", "%zu bytes accepted of %zu, but the buffer is not full", a, n);
			if(!compress && s.pending.size() >= bufsize + overflow)
				VH_CHECK(g, a == 0, "accepted-full", "%zu bytes accepted, but the buffer is full", a);
			if(a < n)
				full = true;
			s.pending += d.substr(0, a);
			if(!compress)
				VH_CHECK(g, !a || s.pending.size() <= bufsize + overflow, "overflow", "%zu bytes in the buffer", s.pending.size());
			s.accepted += d.substr(0, a);
			if(a)
				writes++;
			break;
		}
		case 1: { // read
			std::string q = "s";
			q += c;
			// The lower layers may log something while the response passes.
			std::string more;
			bool log = st[c].used && (possibly(c) || others(c, false) < limit) && g.chance(1, 4);
			if(log) {
				std::string d = g.bytes(big == 0 ? g.size(20) : g.size(200));
				f.sink.meanwhile = [&, d] {
					if(f.dbg.stream(c))
						more = d.substr(0, f.dbg.stream(c, d.data(), d.size()));
					f.g.note("meanwhile, write %zu to %c: %zu accepted", d.size(), c, more.size());
				};
			}
			std::string r = cmd(q + suffix);
			f.sink.meanwhile = nullptr;
			S& s = st[c];
			if(!s.used) {
				VH_CHECK(g, r == "?", "unused", "stream %c was never used, but reads %s", c, vh::quote(r).c_str());
				break;
			}
			if(r == "?" && !possibly(c) && !s.flushed)
				break; // recycled meanwhile
			VH_CHECK(g, r.size() >= suffix.size() && r.substr(r.size() - suffix.size()) == suffix, "suffix", "%s lacks the suffix",
				 vh::quote(r).c_str());
			r.resize(r.size() - suffix.size());
			if(!r.empty())
				reads = true;
			if(!compress) {
				VH_CHECK(g, r == s.pending, "read", "stream %c gives %s, expected %s", c, vh::quote(r).c_str(), vh::quote(s.pending).c_str());
			} else {
				VH_CHECK(g, r.size() <= bufsize + overflow + (bufsize + 1024) * 9 / 8, "overflow", "stream of %zu bytes", r.size());
				s.received += r;
				if(s.flushed) {
					std::string d = decompress(s.received, true);
					VH_CHECK(g, d == s.accepted, "read-compressed", "stream %c gives %s, expected %s", c, vh::quote(d).c_str(),
						 vh::quote(s.accepted).c_str());
					s = S();
					s.used = true;
					g.cls("flushed and read");
				} else {
					std::string d = decompress(s.received, false);
					VH_CHECK(g, s.accepted.compare(0, d.size(), d) == 0, "read-compressed", "stream %c gives %s, expected a part of %s", c,
						 vh::quote(d).c_str(), vh::quote(s.accepted).c_str());
				}
			}
			s.pending = more;
			s.accepted += more;
			if(!more.empty())
				g.cls("written while reading");
			break;
		}
		case 2: { // list
			std::string r = cmd("s");
			if(r == "?")
				r.clear();
			for(auto const& x : st) {
				bool in = r.find(x.first) != r.npos;
				if(surely(x.first) && (!compress || !x.second.pending.empty()))
					VH_CHECK(g, in, "list", "stream %c is not listed", x.first);
				if(x.second.flushed)
					VH_CHECK(g, in, "list", "flushed stream %c is not listed", x.first);
				else if(!possibly(x.first))
					VH_CHECK(g, !in, "list", "stream %c without data is listed", x.first);
			}
			for(char x : r)
				VH_CHECK(g, names.find(x) != names.npos && std::count(r.begin(), r.end(), x) == 1, "list", "%s listed", vh::quote(r).c_str());
			break;
		}
		case 3: { // flush
			bool all = g.chance();
			std::string q = "f";
			if(!all)
				q += c;
			std::string r = cmd(q);
			VH_CHECK(g, r == "!", "flush", "flush gives %s", vh::quote(r).c_str());
			for(auto& x : st)
				if(all || x.first == c) {
					if(surely(x.first) || f.dbg.stream(x.first)) {
						// Nothing is added to it until it is read.
						x.second.flushed = true;
						flushes = true;
					}
					x.second.touched = false;
				}
			break;
		}
		case 4: { // configure tracing
			std::string def = "/t (us)";
			std::string mac = "mM;r/t (us)";
			size_t n = g.index(5);
			for(size_t i = 0; i < n; i++)
				mac += ";" + std::vector<std::string>{"e,", "r/x", "r/blob", "w5/xy", "r/xy", "ehello", "r/nothing", "?", "N", "M"}[g.index(10)];
			if(g.chance(1, 3)) {
				std::string q = "mN;e[;r/scope/a;e]";
				std::string r = cmd(q);
				VH_CHECK(g, r == m.process(q), "macro", "%s", r.c_str());
			}
			std::string r = cmd(mac);
			VH_CHECK(g, r == m.process(mac), "macro", "%s", r.c_str());
			std::string t = "t";
			bool off = g.chance(1, 8);
			if(!off) {
				t += g.chance(1, 12) ? 'Q' : 'M'; // Q does not exist
				t += c;
				if(g.chance(3, 4))
					t += vh::format("%x", (unsigned)g.range<int>(1, 5));
			}
			bool room = others(c, false) < limit, none = others(c, true) >= limit;
			r = cmd(t);
			std::string want = m.process(t);
			if(r == "?" && !off && !room) {
				m.tracing = false;
				break;
			}
			VH_CHECK(g, r == (none && !off ? "?" : want), "trace", "%s gives %s", t.c_str(), vh::quote(r).c_str());
			if(!off)
				st[c].used = true;
			VH_CHECK(g, f.dbg.tracing() == m.tracing, "tracing", "tracing is %d", f.dbg.tracing());
			known = false;
			since = could = 0;
			break;
		}
		case 5: { // trace
			int n = g.range<int>(1, 8);
			g.note("%d * trace", n);
			for(int i = 0; i < n; i++) {
				uint32_t now = (uint32_t)g.bits(32);
				memcpy(&m.boxes[0]->fn().value["/t (us)"][0], &now, 4);
				m.values[0] = m.boxes[0]->values();
				m.called.clear();
				m.calls.clear();
				f.dbg.trace();
				bool executed = !m.called.empty();
				if(!m.tracing || m.traceMacro != 'M') {
					VH_CHECK(g, !executed, "trace-disabled", "a sample is taken, while tracing is disabled");
					continue;
				}
				S& s = st[m.traceStream];
				since++;
				bool room = others(m.traceStream, false) < limit && upper(s, 200) + overflow <= bufsize && !s.flushed;
				if(!compress && others(m.traceStream, false) < limit && s.pending.empty())
					room = true;
				could = room ? could + 1 : 0;
				if(known) {
					bool due = since % m.traceN == 0;
					VH_CHECK(g, !executed || due, "trace-early", "sample after %u calls, expected every %u", since, m.traceN);
					VH_CHECK(g, executed || !due || !room, "trace-late", "no sample after %u calls, expected every %u", since, m.traceN);
				} else
					VH_CHECK(g, executed || could < m.traceN, "trace-late", "no sample after %u calls", could);
				if(executed) {
					known = true;
					since = could = 0;
					samples++;
					g.note("sample");
					VH_CHECK(g, compress || s.pending.size() < bufsize + overflow, "trace-full", "a sample is taken, but the buffer is full");
					std::string sample = m.macro('M');
					if(!s.flushed) {
						s.pending += sample;
						s.accepted += sample;
						s.touched = true;
					}
					s.used = true;
					f.check("trace");
				}
			}
			break;
		}
		case 6: {
			int32_t v = (int32_t)g.bits(32);
			auto& b = *m.boxes[0];
			b.set(b.objs[(size_t)b.index["/x"]], std::string((char*)&v, 4));
			m.values[0] = b.values();
			break;
		}
		case 7:
			VH_CHECK(g, f.dbg.stream('?', "abc") == 0, "stream-?", "stream ? is accepted");
			break;
		}
	}

	// In the end, all data should be there.
	if(compress)
		cmd("f");
	for(auto& x : st) {
		std::string q = "s";
		q += x.first;
		std::string r = cmd(q + "#");
		if(compress ? x.second.accepted.empty() : x.second.pending.empty())
			continue;
		VH_CHECK(g, !r.empty() && r != "?" && r.back() == '#', "final", "%s gives %s", q.c_str(), vh::quote(r).c_str());
		r.pop_back();
		std::string d = compress ? decompress(x.second.received + r, true) : r;
		std::string const& want = compress ? x.second.accepted : x.second.pending;
		VH_CHECK(g, d == want, "final", "stream %c gives %s, expected %s", x.first, vh::quote(d).c_str(), vh::quote(want).c_str());
	}
	if(samples)
		g.cls("traced");
	if(full)
		g.cls("full");
	g.nontrivial(writes + samples >= 3 && reads && (full || flushes || steps > 20));
}

VH_PROPERTY(memory, 40000, 300000, "a read or write of more than 8 bytes, or one that is refused")
{
	if(!Config::DebuggerReadMem || !Config::DebuggerWriteMem)
		return;
	Fixture f(g);
	size_t size = g.range<size_t>(1, 400);
	size_t shift = g.index(8);
	std::unique_ptr<char[]> mem(new char[size + shift]);
	char* p = mem.get() + shift;
	std::string model = g.bytes(size);
	memcpy(p, model.data(), size);
	int steps = g.range<int>(1, 10);
	bool nontrivial = false;
	for(int i = 0; i < steps; i++) {
		size_t o = g.index(size);
		size_t n = g.chance(1, 4) ? size - o : g.range<size_t>(1, std::min(size - o, g.chance() ? (size_t)10 : size));
		std::string addr = vh::format(g.chance(1, 4) ? "%016llX" : "%llx", (unsigned long long)(uintptr_t)(p + o));
		switch(g.weighted({4, 6, 2})) {
		case 0: {
			std::string c = "R" + addr;
			if(o + sizeof(void*) <= size && g.chance(1, 4))
				n = sizeof(void*);
			else
				c += vh::format(g.chance() ? " %zx" : " %04zX", n);
			g.note("%s", c.c_str());
			std::string r = f.request(c);
			VH_CHECK(g, r == byteHex(model.substr(o, n)), "read", "reads %s, expected %s", r.c_str(), byteHex(model.substr(o, n)).c_str());
			break;
		}
		case 1: {
			std::string d = g.bytes(n);
			std::string h = byteHex(d);
			if(g.chance(1, 4))
				for(auto& x : h)
					x = (char)toupper(x);
			g.note("W%s %s", addr.c_str(), h.c_str());
			std::string r = f.request("W" + addr + " " + h);
			VH_CHECK(g, r == "!", "write", "write responds with %s", vh::quote(r).c_str());
			model.replace(o, n, d);
			if(n > 8)
				nontrivial = true;
			break;
		}
		default: { // malformed
			std::string h = byteHex(g.bytes(n));
			std::string c;
			switch(g.index(8)) {
			case 0: c = "W" + addr + " " + h.substr(1); break;
			case 1: c = "W" + addr; break;
			case 2: c = "W" + addr + " "; break;
			case 3:
				h[g.index(h.size())] = "gG:@`/ -x"[g.index(9)];
				c = "W" + addr + " " + h;
				break;
			case 4: c = "Wx" + addr + " " + h; break;
			case 5: c = "R" + addr + " 0"; break;
			case 6: c = "R" + addr + " 1x"; break;
			case 7: c = "R0" + std::string(17, '0') + addr; break;
			}
			g.note("%s", vh::quote(c).c_str());
			std::string r = f.request(c);
			VH_CHECK(g, r == "?", "malformed", "%s responds with %s", vh::quote(c).c_str(), vh::quote(r).c_str());
			nontrivial = true;
			break;
		}
		}
		VH_CHECK(g, memcmp(p, model.data(), size) == 0, "memory", "memory is %s, expected %s", vh::hex(std::string(p, size)).c_str(),
			 vh::hex(model).c_str());
	}
	g.nontrivial(nontrivial);
}
