// Helper process for C01: a debug target, with full control over its variables.
#include "vh.h"
#include <stored>

#include "Client.h"
#include "Two.h"

#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vhcfg {
AllocState allocState = {0, 0, 0, -1, false, 0};
}

static std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back((char)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}

static std::string tohex(std::string const& s)
{
	static char const* d = "0123456789abcdef";
	std::string r;
	for(char c : s) {
		r.push_back(d[(uint8_t)c >> 4]);
		r.push_back(d[(uint8_t)c & 15]);
	}
	return r;
}

// Functions behave like variables.
template <typename T>
static void fixed(bool set, T& value, T& storage)
{
	if(set)
		storage = value;
	else
		value = storage;
}

static size_t bytes(bool set, char* buffer, size_t len, char* storage, size_t size)
{
	size_t n = len < size ? len : size;
	if(set) {
		memset(storage, 0, size);
		memcpy(storage, buffer, n);
	} else
		memcpy(buffer, storage, n);
	return n;
}

class ClientStore : public STORE_T(ClientStore, stored::ClientDefaultFunctions, stored::ClientBase) {
	STORE_CLASS(ClientStore, stored::ClientDefaultFunctions, stored::ClientBase)
public:
	ClientStore() is_default

	int16_t fn_ = 0;
	bool fb_ = false;
	int8_t fi8_ = 0;
	uint16_t fu16_ = 0;
	int32_t fi32_ = 0;
	uint64_t fu64_ = 0;
	float ff_ = 0;
	double fd_ = 0;
	char fs_[9] = {};
	char fbl_[6] = {};

	void __scope__fn(bool set, int16_t& v) { fixed(set, v, fn_); }
	void __fb(bool set, bool& v) { fixed(set, v, fb_); }
	void __fi8(bool set, int8_t& v) { fixed(set, v, fi8_); }
	void __fu16(bool set, uint16_t& v) { fixed(set, v, fu16_); }
	void __fi32(bool set, int32_t& v) { fixed(set, v, fi32_); }
	void __fu64(bool set, uint64_t& v) { fixed(set, v, fu64_); }
	void __ff(bool set, float& v) { fixed(set, v, ff_); }
	void __fd(bool set, double& v) { fixed(set, v, fd_); }
	size_t __fs(bool set, char* v, size_t len) { return bytes(set, v, len, fs_, sizeof(fs_)); }
	size_t __fbl(bool set, void* v, size_t len) { return bytes(set, (char*)v, len, fbl_, sizeof(fbl_)); }
};

class TwoStore : public STORE_T(TwoStore, stored::TwoDefaultFunctions, stored::TwoBase) {
	STORE_CLASS(TwoStore, stored::TwoDefaultFunctions, stored::TwoBase)
public:
	TwoStore() is_default

	uint32_t t_ = 0;
	bool flag_ = false;
	void __t_us(bool set, uint32_t& v) { fixed(set, v, t_); }
	void __flag(bool set, bool& v) { fixed(set, v, flag_); }
};

struct Down : public stored::ProtocolLayer {
	std::string response;
	bool complete = false;

	void encode(void const* buffer, size_t len, bool last = true) override
	{
		response.append((char const*)buffer, len);
		if(last)
			complete = true;
	}
	using stored::ProtocolLayer::encode;
};

struct Target {
	ClientStore client;
	TwoStore two;
	stored::Debugger debugger;
	Down down;
	std::vector<stored::DebugVariant> vars;
	std::vector<std::string> names;
	std::vector<std::string> shadow;
	std::vector<char> memory = std::vector<char>(64);

	explicit Target(std::string const& map)
		: debugger("target", "1.2 3.4")
	{
		if(map == "one") {
			debugger.map(client);
			add(client, "");
		} else if(map == "two") {
			debugger.map(client, "/cl");
			debugger.map(two, "/two");
			add(client, "/cl");
			add(two, "/two");
		} else {
			debugger.map(two, "/Two");
			add(two, "/Two");
			debugger.map(client, "/Client");
			add(client, "/Client");
		}
		down.wrap(debugger);
		changed();
	}

	template <typename S>
	void add(S& s, std::string const& prefix)
	{
		s.list([&](S*, char const* name, stored::Type::type, void*, size_t) {
			names.push_back(prefix + name);
			vars.push_back(stored::DebugVariant(s.find(name)));
		});
	}

	std::string value(size_t i)
	{
		std::vector<char> b(vars[i].size() + 1);
		size_t n = vars[i].get(b.data(), vars[i].size());
		std::string s(b.data(), n);
		s.resize(vars[i].size());
		return s;
	}

	void time(uint64_t us)
	{
		client.t_us = us;
		two.t_ = (uint32_t)us;
	}

	std::string changed()
	{
		std::ostringstream os;
		shadow.resize(vars.size());
		for(size_t i = 0; i < vars.size(); i++) {
			std::string v = value(i);
			if(v != shadow[i]) {
				os << " " << i << " " << tohex(v);
				shadow[i] = v;
			}
		}
		return os.str();
	}
};

int main()
{
	std::unique_ptr<Target> t;
	std::string line;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line);
		std::string cmd;
		is >> cmd;
		if(cmd == "new") {
			std::string map;
			is >> map;
			t.reset();
			t.reset(new Target(map));
			for(size_t i = 0; i < t->vars.size(); i++)
				std::cout << (int)t->vars[i].type() << " " << t->vars[i].size() << " " << tohex(t->names[i]) << " "
					  << tohex(t->shadow[i]) << "\n";
		} else if(cmd == "req") {
			std::string hex;
			uint64_t us = 0;
			is >> us >> hex;
			t->time(us);
			std::string req = unhex(hex);
			std::unique_ptr<char[]> b(new char[req.size() + 1]);
			memcpy(b.get(), req.data(), req.size());
			t->down.response.clear();
			t->down.complete = false;
			t->debugger.decode(b.get(), req.size());
			std::cout << (t->down.complete ? "=" : "!") << tohex(t->down.response) << t->changed() << "\n";
		} else if(cmd == "set") {
			size_t i = 0;
			std::string hex;
			is >> i >> hex;
			std::string v = unhex(hex);
			v.resize(std::max(v.size(), t->vars[i].size()));
			t->vars[i].set(v.data(), t->vars[i].size());
			std::cout << "=" << t->changed() << "\n";
		} else if(cmd == "trace") {
			uint64_t us = 0;
			size_t n = 0;
			is >> us >> n;
			for(size_t i = 0; i < n; i++, us += 1000) {
				t->time(us);
				t->debugger.trace();
			}
			std::cout << "=" << t->changed() << "\n";
		} else if(cmd == "stream") {
			std::string s, hex;
			is >> s >> hex;
			std::string d = unhex(hex);
			std::cout << "=" << t->debugger.stream(s[0], d.data(), d.size()) << "\n";
		} else if(cmd == "mem") {
			std::cout << "=" << (unsigned long)(uintptr_t)t->memory.data() << " "
				  << tohex(std::string(t->memory.data(), t->memory.size())) << "\n";
		}
		std::cout << "." << std::endl;
	}
	return 0;
}
