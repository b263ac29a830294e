// Helper process for S01: lookup and listing of a given directory.
#include "vh.h"
#include <stored>
#include <libstored/directory.h>

#include <iostream>
#include <memory>
#include <sstream>

namespace vhcfg {
AllocState allocState = {0, 0, 0, -1, false, 0};
}

static std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back((char)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}

static std::string tohex(std::string const& s)
{
	static char const* d = "0123456789abcdef";
	std::string r = "x";
	for(char c : s) {
		r.push_back(d[(uint8_t)c >> 4]);
		r.push_back(d[(uint8_t)c & 15]);
	}
	return r;
}

// Something that looks like a store.
struct Container {
	struct Data {
		char buffer[1UL << 30U];
	};
	enum { BufferSize = 1UL << 30U };

	typedef uintptr_t Key;
	char* m_buffer = nullptr;
	unsigned int lastF = 0;

	char* buffer() { return m_buffer; }
	size_t callback(bool, void*, size_t len, unsigned int f)
	{
		lastF = f;
		return len;
	}
	void hookEntryRO(stored::Type::type, void*, size_t) noexcept {}
	void hookExitRO(stored::Type::type, void*, size_t) noexcept {}
	void hookEntryX(stored::Type::type, void*, size_t) noexcept {}
	void hookExitX(stored::Type::type, void*, size_t, bool) noexcept {}
};

static std::string show(Container& c, stored::Variant<Container> v)
{
	std::ostringstream os;
	if(!v.valid())
		return "N";
	if(v.isFunction()) {
		char buf[64] = {};
		c.lastF = 0;
		std::vector<char> big(v.size() + 64);
		(void)buf;
		v.get(big.data(), v.size());
		os << "F " << (int)v.type() << " " << v.size() << " " << c.lastF;
	} else {
		os << "V " << (int)v.type() << " " << v.size() << " "
		   << ((char*)v.buffer() - c.m_buffer);
	}
	return os.str();
}

int main()
{
	Container c;
	std::unique_ptr<uint8_t[]> dir;
	std::unique_ptr<char[]> buffer;
	size_t size = 0;
	std::string line;

	while(std::getline(std::cin, line)) {
		std::istringstream is(line);
		std::string cmd, arg;
		is >> cmd;
		if(cmd == "buffer") {
			is >> size;
			buffer.reset(new char[size]);
			c.m_buffer = buffer.get();
		} else if(cmd == "dir") {
			is >> arg;
			std::string s = unhex(arg);
			dir.reset(new uint8_t[s.size()]);
			memcpy(dir.get(), s.data(), s.size());
		} else if(cmd == "find") {
			is >> arg;
			std::string s = unhex(arg.substr(1));
			// Without terminator.
			std::unique_ptr<char[]> a(new char[s.size()]);
			memcpy(a.get(), s.data(), s.size());
			std::cout << show(c, stored::find(c, dir.get(), a.get(), s.size())) << "\n";
			// With terminator.
			std::unique_ptr<char[]> b(new char[s.size() + 1]);
			memcpy(b.get(), s.data(), s.size());
			b[s.size()] = 0;
			std::cout << show(c, stored::find(c, dir.get(), b.get())) << "\n";
			// In a longer text.
			std::string l = s + "/zzz";
			std::cout << show(c, stored::find(c, dir.get(), l.c_str(), s.size())) << "\n";
		} else if(cmd == "list") {
			// list MODE PREFIX
			int mode;
			is >> mode >> arg;
			std::string prefix = unhex(arg.substr(1));
			char const* p = arg[0] == 'n' ? nullptr : prefix.c_str();
			stored::ListCallbackArg* f = [](void* container, char const* name, stored::Type::type type,
							void* buf, size_t len, void* arg_) {
				auto& c_ = *(Container*)arg_;
				std::cout << (container == arg_ ? "" : "BADCONTAINER ") << (name ? tohex(name) : "null") << " "
					  << (int)type << " " << len << " "
					  << (stored::Type::isFunction(type) ? (long)(uintptr_t)buf : (long)((char*)buf - c_.m_buffer))
					  << "\n";
			};
			if(mode == 0)
				stored::list(&c, c.buffer(), dir.get(), f, &c, p);
			else if(mode == 1) {
				stored::String::type nb;
				stored::list(&c, c.buffer(), dir.get(), &nb, f, &c, p);
			} else if(mode == 2)
				stored::list(&c, c.buffer(), dir.get(), (stored::String::type*)nullptr, f, &c, p);
			else
				stored::list(&c, c.buffer(), dir.get(),
					     [&](Container* container, char const* name, stored::Type::type type, void* buf, size_t len) {
						     f(container, name, type, buf, len, &c);
					     });
		}
		std::cout << "." << std::endl;
	}
	return 0;
}
