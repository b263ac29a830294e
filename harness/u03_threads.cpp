// U03: concurrent producer and consumer, with the thread sanitizer.
#include "vh.h"
#include <libstored/fifo.h>
#include <stored>

#include <atomic>
#include <memory>
#include <string>
#include <thread>

using vh::Gen;

namespace {

// A tiny deterministic PRNG for the operation mix in the threads; seeded by Gen.
struct Rnd {
	uint64_t s;
	uint32_t operator()(uint32_t bound)
	{
		s = s * 6364136223846793005ULL + 1442695040888963407ULL;
		return bound ? (uint32_t)((s >> 33U) % bound) : 0;
	}
	void maybeYield(uint32_t mode)
	{
		switch(mode) {
		case 0:
			break;
		case 1:
			if((*this)(4) == 0)
				std::this_thread::yield();
			break;
		default:
			for(volatile uint32_t i = (*this)(200); i > 0; i = i - 1)
				;
		}
	}
};

struct Err {
	std::atomic<int> e{0};
	void set(int x)
	{
		int z = 0;
		e.compare_exchange_strong(z, x);
	}
};

struct Blob {
	uint32_t a;
	std::string s;
	Blob(uint32_t x = 0)
		: a{x}
		, s(std::to_string(x) + "-a string that does not fit in SSO")
	{}
	operator uint32_t() const
	{
		return s == std::to_string(a) + "-a string that does not fit in SSO" ? a : 0xffffffffU;
	}
};

template <typename T, size_t Capacity>
void fifo(Gen& g)
{
	stored::Fifo<T, Capacity> f;
	uint32_t total = 100 + (uint32_t)g.index(1500);
	uint64_t s1 = g.raw(), s2 = g.raw();
	uint32_t y1 = (uint32_t)g.index(3), y2 = (uint32_t)g.index(3);
	uint32_t mixP = (uint32_t)g.range(1, 4), mixC = (uint32_t)g.range(1, 6);
	g.note("Fifo<%s,%zu> %u elements, yield %u/%u, mix %u/%u", typeid(T).name(), Capacity, total, y1, y2, mixP, mixC);
	Err err;
	std::thread prod([&]() {
		Rnd r{s1};
		uint32_t next = 1;
		while(next <= total) {
			size_t sp = f.space();
			if(sp > Capacity)
				err.set(1);
			if(f.full() && sp)
				; // other side may pop in between
			if(!sp) {
				std::this_thread::yield();
				continue;
			}
			switch(r(mixP)) {
			case 0:
				f.push_back(T(next++));
				break;
			case 1:
				f.emplace_back(next++);
				break;
			case 2: {
				size_t n = std::min<size_t>(r((uint32_t)sp + 1), total - next + 1);
				std::vector<T> v;
				for(size_t i = 0; i < n; i++)
					v.push_back(T(next++));
				f.push_back(v.data(), v.size());
				break;
			}
			default:
				if(sp >= 2 && total - next >= 2) {
					f.push_back({T(next), T(next + 1)});
					next += 2;
				} else
					f.push_back(T(next++));
			}
			r.maybeYield(y1);
		}
	});
	{
		Rnd r{s2};
		uint32_t next = 1;
		uint64_t idle = 0;
		while(next <= total && !err.e) {
			size_t n = f.available();
			if(n > Capacity)
				err.set(2);
			if(f.empty() && n)
				err.set(3); // once available, it stays available
			if(!n) {
				std::this_thread::yield();
				idle++;
				continue;
			}
			switch(r(mixC)) {
			case 0:
				if((uint32_t)f.front() != next)
					err.set(4);
				f.pop_front();
				next++;
				break;
			case 1: {
				size_t k = r((uint32_t)n) + 1;
				for(size_t i = 0; i < k; i++)
					if((uint32_t)f.peek(i) != next + i)
						err.set(5);
				f.pop_front(k);
				next += (uint32_t)k;
				break;
			}
			case 2:
				for(auto const& x : f) {
					if((uint32_t)x != next)
						err.set(6);
					next++;
				}
				break;
			case 3: {
				auto v = f.view();
				size_t k = v.size();
				if(k < n)
					err.set(7);
				for(size_t i = 0; i < k; i++)
					if((uint32_t)v[i] != next + i)
						err.set(8);
				f.pop_front(k);
				next += (uint32_t)k;
				break;
			}
			case 4: {
				size_t k = f.available_chunk();
				if(!k)
					err.set(9);
				T const* p = &f.front();
				for(size_t i = 0; i < k; i++)
					if((uint32_t)p[i] != next + i)
						err.set(10);
				f.pop_front(k);
				next += (uint32_t)k;
				break;
			}
			default: {
				auto v = f.view();
				std::vector<T> d(v.size());
				v.copy(d.data());
				for(size_t i = 0; i < d.size(); i++)
					if((uint32_t)d[i] != next + i)
						err.set(11);
				f.pop_front(d.size());
				next += (uint32_t)d.size();
			}
			}
			r.maybeYield(y2);
		}
		if(err.e) {
			// Let the producer finish.
			uint32_t guard = 0;
			while(guard++ < 100000) {
				while(!f.empty())
					f.pop_front();
				std::this_thread::yield();
				if(next > total)
					break;
			}
		}
	}
	prod.join();
	VH_CHECK(g, !err.e, "sequence", "consumer/producer check %d failed", (int)err.e);
	VH_CHECK(g, f.empty(), "sequence", "not empty");
	g.nontrivial(total > Capacity);
}

std::string content(uint32_t i, size_t maxLen)
{
	size_t len = (i * 7919U) % (maxLen + 1);
	std::string s(len, '\0');
	for(size_t k = 0; k < len; k++)
		s[k] = (char)(i * 31U + k);
	return s;
}

template <size_t Capacity, size_t Messages>
void mfifo(Gen& g)
{
	stored::MessageFifo<Capacity, Messages> f;
	uint32_t total = 100 + (uint32_t)g.index(1200);
	uint64_t s1 = g.raw(), s2 = g.raw();
	uint32_t y1 = (uint32_t)g.index(3), y2 = (uint32_t)g.index(3);
	size_t maxLen = g.pick({Capacity - 1, Capacity / 2, Capacity / 4});
	uint32_t mixP = (uint32_t)g.range(1, 3), mixC = (uint32_t)g.range(1, 3);
	g.note("MessageFifo<%zu,%zu> %u messages up to %zu bytes, yield %u/%u, mix %u/%u", Capacity, Messages, total, maxLen, y1, y2, mixP, mixC);
	Err err;
	std::thread prod([&]() {
		Rnd r{s1};
		for(uint32_t i = 1; i <= total; i++) {
			auto s = content(i, maxLen);
			switch(r(mixP)) {
			case 0:
				while(!f.push_back(s.data(), s.size()))
					std::this_thread::yield();
				break;
			case 1: {
				// In parts, with an aborted attempt
				size_t h = s.size() ? r((uint32_t)s.size()) : 0;
				if(f.append_back("abort", std::min<size_t>(5, Capacity - 1)))
					f.reset_back();
				bool ok = false;
				while(!ok) {
					if(f.append_back(s.data(), h) && f.append_back(s.data() + h, s.size() - h)) {
						while(!f.push_back())
							std::this_thread::yield();
						ok = true;
					} else {
						f.reset_back();
						std::this_thread::yield();
					}
				}
				break;
			}
			default:
				while(f.full() || f.space() < s.size()) {
					if(f.empty())
						break;
					std::this_thread::yield();
				}
				while(!f.push_back(s.data(), s.size()))
					std::this_thread::yield();
			}
			r.maybeYield(y1);
		}
	});
	uint32_t next = 1;
	Rnd r{s2};
	while(next <= total) {
		if(f.empty()) {
			std::this_thread::yield();
			continue;
		}
		if(!f.available())
			err.set(1);
		switch(r(mixC)) {
		case 0:
		case 1: {
			auto m = f.front();
			if(std::string(m.data(), m.size()) != content(next, maxLen))
				err.set(2);
			f.pop_front();
			next++;
			break;
		}
		default:
			for(auto m : f) {
				if(std::string(m.data(), m.size()) != content(next, maxLen))
					err.set(3);
				next++;
			}
		}
		r.maybeYield(y2);
	}
	prod.join();
	VH_CHECK(g, !err.e, "sequence", "check %d failed", (int)err.e);
	VH_CHECK(g, f.empty(), "sequence", "not empty");
	g.nontrivial();
}

class Sink : public stored::ProtocolLayer {
public:
	uint32_t next = 1;
	size_t maxLen = 0;
	bool bad = false;
	void decode(void* buffer, size_t len) override
	{
		if(std::string((char*)buffer, len) != content(next, maxLen))
			bad = true;
		next++;
	}
};

template <size_t Capacity, size_t Messages>
void loopback(Gen& g)
{
	Sink a, b;
	stored::FifoLoopback<Capacity, Messages> lb(a, b);
	size_t maxLen = g.pick({lb.a2b().mtu(), Capacity / 2, Capacity / 4});
	a.maxLen = b.maxLen = maxLen;
	uint32_t total = 50 + (uint32_t)g.index(600);
	uint64_t s1 = g.raw(), s2 = g.raw();
	uint32_t y1 = (uint32_t)g.index(3), y2 = (uint32_t)g.index(3);
	bool handler = g.chance();
	g.note("FifoLoopback<%zu,%zu> %u messages up to %zu bytes, handler %d", Capacity, Messages, total, maxLen, handler);
	// Bidirectional; each side is a thread.
	lb.a2b().setOverflowHandler([]() { std::this_thread::yield(); return true; });
	lb.b2a().setOverflowHandler([]() { std::this_thread::yield(); return true; });
	auto side = [&](stored::ProtocolLayer& me, stored::FifoLoopback1<Capacity, Messages>& in, stored::FifoLoopback1<Capacity, Messages>& out, Sink& sink, uint64_t seed, uint32_t y) {
		Rnd r{seed};
		uint32_t next = 1;
		while(next <= total || sink.next <= total) {
			bool work = false;
			if(next <= total) {
				auto s = content(next, maxLen);
				if(!handler) {
					me.encode(s.data(), s.size(), true);
					next++;
					work = true;
				} else if(!out.full() && out.space() > s.size()) {
					size_t h = s.size() ? r((uint32_t)s.size()) : 0;
					me.encode(s.data(), h, false);
					me.encode(s.data() + h, s.size() - h, true);
					next++;
					work = true;
				} else if(out.empty()) {
					me.encode(s.data(), s.size(), true);
					next++;
					work = true;
				}
			}
			if(!handler && next <= total) {
				// The other side must be able to make progress
				while(!in.empty())
					in.recv();
			}
			switch(r(2)) {
			case 0:
				if(in.recv() == 0)
					work = true;
				break;
			default:
				in.recvAll();
			}
			if(!work)
				std::this_thread::yield();
			r.maybeYield(y);
		}
	};
	if(!handler) {
		// Blocking encode; only use a single direction per thread to prevent deadlock.
		std::thread t([&]() {
			Rnd r{s1};
			for(uint32_t i = 1; i <= total; i++) {
				auto s = content(i, maxLen);
				lb.a().encode();
				lb.a2b().reset();
				(void)r;
				r.maybeYield(y1);
				a.encode(s.data(), s.size(), true);
			}
		});
		(void)t;
		Rnd r{s2};
		// The empty encode() yields an additional empty message.
		uint32_t got = 0;
		struct Alt : public stored::ProtocolLayer {
			uint32_t n = 0;
			size_t maxLen = 0;
			bool bad = false;
			void decode(void* buffer, size_t len) override
			{
				uint32_t i = n / 2 + 1;
				if(n % 2 == 0 ? len != 0 : std::string((char*)buffer, len) != content(i, maxLen))
					bad = true;
				n++;
			}
		};
		Alt alt;
		alt.maxLen = maxLen;
		lb.b().setUp(&alt);
		alt.setDown(&lb.b());
		while(alt.n < 2 * total) {
			if(r(2))
				lb.a2b().recvAll();
			else
				lb.a2b().recv();
			if(lb.a2b().empty())
				std::this_thread::yield();
			r.maybeYield(y2);
		}
		t.join();
		(void)got;
		VH_CHECK(g, !alt.bad, "sequence", "messages differ");
		lb.b().setUp(&b);
	} else {
		std::thread t([&]() { side(a, lb.b2a(), lb.a2b(), a, s1, y1); });
		side(b, lb.a2b(), lb.b2a(), b, s2, y2);
		t.join();
		VH_CHECK(g, !a.bad && !b.bad, "sequence", "messages differ");
		VH_CHECK(g, a.next == total + 1 && b.next == total + 1, "sequence", "message count");
	}
	g.nontrivial();
}

} // namespace

#if PART == 1
VH_PROPERTY(fifo, 700, 20000, "concurrent producer/consumer with a random mix of operations on Fifo; non-trivial when more elements passed than the capacity")
{
	switch(g.range(0, 5)) {
	case 0: return fifo<int, 1>(g);
	case 1: return fifo<int, 3>(g);
	case 2: return fifo<Blob, 4>(g);
	case 3: return fifo<uint32_t, 200>(g);
	case 4: return fifo<uint64_t, 16>(g);
	default: return fifo<Blob, 31>(g);
	}
}
#endif
#if PART == 2
VH_PROPERTY(messagefifo, 700, 20000, "concurrent producer/consumer with a random mix of operations on MessageFifo; always non-trivial (over 100 messages)")
{
	switch(g.range(0, 3)) {
	case 0: return mfifo<8, 2>(g);
	case 1: return mfifo<16, 5>(g);
	case 2: return mfifo<100, 20>(g);
	default: return mfifo<255, 31>(g);
	}
}

VH_PROPERTY(loopback, 400, 12000, "concurrent use of both sides of a FifoLoopback; always non-trivial (at least 50 messages each way)")
{
	switch(g.range(0, 1)) {
	case 0: return loopback<32, 5>(g);
	default: return loopback<256, 20>(g);
	}
}
#endif
