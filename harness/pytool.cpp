// Helper process for the Python harnesses: protocol stacks, and compression.
#include "vh.h"
#include "stacks.h"

#include <iostream>
#include <sstream>

using namespace lay;

static std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back((char)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}

static std::string tohex(std::string const& s)
{
	static char const* d = "0123456789abcdef";
	std::string r;
	for(char c : s) {
		r.push_back(d[(uint8_t)c >> 4]);
		r.push_back(d[(uint8_t)c & 15]);
	}
	return r;
}

struct Peer {
	Stack stack;
	Wire wire;
	explicit Peer(std::vector<Spec> const& s)
		: stack(s)
	{
		wire.wrap(stack.bottom());
	}
};

namespace vhcfg {
AllocState allocState = {0, 0, 0, -1, false, 0};
}

int main()
{
	std::unique_ptr<Peer> peer;
	std::string line;
	// Automatic response of the application, when set.
	std::map<std::string, std::pair<std::string, std::vector<size_t>>> responses;
	bool autoResponse = false;
	bool purgeable = false;
	size_t count = 0;

	auto splits = [](std::istringstream& is, size_t len) {
		std::vector<size_t> v;
		size_t x;
		size_t sum = 0;
		while(is >> x) {
			x = std::min(x, len - sum);
			v.push_back(x);
			sum += x;
		}
		if(sum < len || v.empty())
			v.push_back(len - sum);
		return v;
	};

	while(std::getline(std::cin, line)) {
		std::istringstream is(line);
		std::string cmd, arg;
		is >> cmd;
		if(cmd == "new") {
			// new WIREMTU kind arg kind arg ...
			std::vector<Spec> spec;
			size_t mtu;
			is >> mtu;
			std::string k;
			size_t a;
			while(is >> k >> a)
				for(int i = 0; i < KindCount; i++)
					if(k == kindName(i))
						spec.push_back({i, a});
			peer.reset();
			peer.reset(new Peer(spec));
			peer->wire.m_mtu = mtu;
			autoResponse = false;
			count = 0;
		} else if(cmd == "auto") {
			// Every request is responded by: count '/' request, repeated N times
			size_t n;
			is >> n >> purgeable;
			std::vector<size_t> sp;
			size_t x;
			while(is >> x)
				sp.push_back(x);
			autoResponse = true;
			auto* p = peer.get();
			p->stack.top.cb = [p, n, &count, &purgeable, sp](std::string const& m) {
				std::string r = std::to_string(++count) + "/";
				for(size_t i = 0; i < n; i++)
					r += m;
				if(purgeable)
					p->stack.first().setPurgeableResponse();
				std::vector<size_t> v;
				size_t sum = 0;
				for(size_t s : sp) {
					s = std::min(s, r.size() - sum);
					v.push_back(s);
					sum += s;
				}
				if(sum < r.size() || v.empty())
					v.push_back(r.size() - sum);
				lay::encode(p->stack.first(), r, v);
			};
		} else if(cmd == "deliver") {
			is >> arg;
			lay::decode(peer->wire, unhex(arg));
		} else if(cmd == "encode") {
			is >> arg;
			if(arg == "-")
				arg.clear();
			std::string m = unhex(arg);
			lay::encode(peer->stack.first(), m, splits(is, m.size()));
		} else if(cmd == "inject") {
			is >> arg;
			for(auto& l : peer->stack.layers)
				if(auto* t = dynamic_cast<stored::TerminalLayer*>(l.get())) {
					std::string m = unhex(arg);
					t->nonDebugEncode(m.data(), m.size());
					break;
				}
		} else if(cmd == "reset")
			peer->stack.first().reset();
		else if(cmd == "mtu")
			std::cout << peer->stack.first().mtu() << "\n";

		if(peer) {
			for(auto& f : peer->wire.take())
				std::cout << "F " << tohex(f) << "\n";
			for(auto& m : peer->stack.top.take())
				std::cout << "M " << tohex(m) << "\n";
			if(!peer->stack.nonDebug.empty())
				std::cout << "N " << tohex(peer->stack.nonDebug) << "\n";
			peer->stack.nonDebug.clear();
			if(peer->stack.exceeded)
				std::cout << "X\n";
		}
		(void)autoResponse;
		std::cout << "." << std::endl;
	}
	return 0;
}
