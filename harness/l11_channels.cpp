// L11: layers that transport bytes over files, pipes, sockets, serial ports, and FIFOs.
#include "vh.h"
#include "layers.h"
#include <stored>
#include <libstored/fifo.h>
#include <libstored/poller.h>
#include <libstored/protocol.h>
#include <libstored/zmq.h>

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <zmq.h>

using lay::Top;
using vh::Gen;

namespace {

// Pseudo-random bytes, such that large messages only take one choice.
std::string bulk(uint64_t seed, size_t len)
{
	std::string s(len, '\0');
	uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
	for(size_t i = 0; i < len; i++) {
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		s[i] = (char)(x >> 32);
	}
	return s;
}

std::string message(Gen& g, size_t max)
{
	if(g.chance(2, 3))
		return g.bytesUpTo(std::min<size_t>(max, 100));
	return bulk(g.raw(1000), g.size(max));
}

// A directory for this case.
struct Scratch {
	std::string path;
	Scratch()
	{
		char t[] = "/tmp/vh-l11-XXXXXX";
		char* p = mkdtemp(t);
		if(!p)
			throw vh::Discard{};
		path = p;
	}
	~Scratch()
	{
		if(DIR* d = opendir(path.c_str())) {
			while(auto* e = readdir(d))
				if(e->d_name[0] != '.')
					unlink((path + "/" + e->d_name).c_str());
			closedir(d);
		}
		rmdir(path.c_str());
	}
	std::string operator()(char const* n) const
	{
		return path + "/" + n;
	}
};

void setup()
{
	signal(SIGPIPE, SIG_IGN);
	// A case takes milliseconds. When blocked for this long, it will be forever; 98 is a hang.
	signal(SIGALRM, [](int) { _exit(98); });
	alarm(20);
}

typedef std::chrono::steady_clock Clock;
long us(Clock::duration d)
{
	return (long)std::chrono::duration_cast<std::chrono::microseconds>(d).count();
}

// Reference access to one end of a channel, without libstored.
struct Raw {
	int r = -1, w = -1;
};

// One direction: from.encode() ... to.recv().
struct Dir {
	stored::PolledLayer* from = nullptr;
	stored::PolledLayer* to = nullptr;
	Top* top = nullptr;
	std::string inFlight;
	size_t outstanding = 0;
	bool dead = false;
	char const* name = "";
};

struct Channel {
	Scratch dir;
	Top topA, topB;
	std::vector<std::unique_ptr<stored::PolledLayer>> layers;
	std::vector<Dir> dirs;
	stored::PolledLayer* a = nullptr;
	stored::PolledLayer* b = nullptr;
	bool eofLike = false; // an empty channel looks like EOF, so cannot be waited for
	size_t capacity = 16384; // what fits without a reader

	template <typename T, typename... Args>
	T* add(Args&&... args)
	{
		T* l = new T(std::forward<Args>(args)...);
		layers.emplace_back(l);
		return l;
	}

	~Channel()
	{
		// top-level layers unlink at destruction
		layers.clear();
	}

	void oneWay(stored::PolledLayer* from, stored::PolledLayer* to)
	{
		a = from;
		b = to;
		b->wrap(topB);
		dirs.resize(1);
		dirs[0].from = from;
		dirs[0].to = to;
		dirs[0].top = &topB;
		dirs[0].name = "a>b";
	}

	void twoWay(stored::PolledLayer* a_, stored::PolledLayer* b_)
	{
		oneWay(a_, b_);
		a->wrap(topA);
		dirs.resize(2);
		dirs[1].from = b;
		dirs[1].to = a;
		dirs[1].top = &topA;
		dirs[1].name = "b>a";
	}
};

enum { KPipe, KSocket, KNamedPipe, KDoublePipe, KFiles, KPty };
char const* const kindNames[] = {"pipe", "socketpair", "named pipe", "double pipe", "two files", "pty"};

// Only the names and such matter; see Channel.
void create(Gen& g, Channel& c, int kind, bool small = false)
{
	size_t buf = g.chance(1, 3) ? (size_t)stored::FileLayer::DefaultBufferSize : 1 + g.size(5000);
	g.cls(kindNames[kind]);
	g.note("%s, buffer size %zu", kindNames[kind], buf);
	switch(kind) {
	case KPipe: {
		int fd[2];
		if(::pipe(fd))
			throw vh::Discard{};
		if(small)
			fcntl(fd[1], F_SETPIPE_SZ, 4096);
		// The other direction is not used.
		int nr = ::open("/dev/null", O_RDONLY);
		int nw = ::open("/dev/null", O_WRONLY);
		auto* from = c.add<stored::FileLayer>(nr, fd[1], buf);
		auto* to = c.add<stored::FileLayer>(fd[0], nw, buf);
		c.oneWay(from, to);
		break;
	}
	case KSocket: {
		int fd[2];
		if(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd))
			throw vh::Discard{};
		if(small) {
			int sz = 4096;
			for(int f : fd)
				setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		}
		auto* a = c.add<stored::FileLayer>(fd[0], -1, buf);
		auto* b = c.add<stored::FileLayer>(fd[1], fd[1], buf);
		c.twoWay(a, b);
		break;
	}
	case KNamedPipe: {
		auto* to = c.add<stored::NamedPipeLayer>(c.dir("fifo").c_str(), stored::NamedPipeLayer::Inbound);
		auto* from = c.add<stored::NamedPipeLayer>(c.dir("fifo").c_str(), stored::NamedPipeLayer::Outbound);
		c.eofLike = true; // till first connect
		c.oneWay(from, to);
		break;
	}
	case KDoublePipe: {
		auto* a = c.add<stored::DoublePipeLayer>(c.dir("1").c_str(), c.dir("2").c_str());
		auto* b = c.add<stored::DoublePipeLayer>(c.dir("2").c_str(), c.dir("1").c_str());
		c.eofLike = true;
		c.twoWay(a, b);
		break;
	}
	case KFiles: {
		auto* a = c.add<stored::FileLayer>(c.dir("1").c_str(), c.dir("2").c_str(), buf);
		auto* b = c.add<stored::FileLayer>(c.dir("2").c_str(), c.dir("1").c_str(), buf);
		c.eofLike = true;
		c.capacity = 1000000;
		c.twoWay(a, b);
		break;
	}
	case KPty: {
		int m = posix_openpt(O_RDWR | O_NOCTTY);
		if(m == -1 || grantpt(m) || unlockpt(m))
			throw vh::Discard{};
		char const* n = ptsname(m);
		int s = n ? ::open(n, O_RDWR | O_NOCTTY) : -1;
		if(s == -1) {
			::close(m);
			throw vh::Discard{};
		}
		struct termios t;
		tcgetattr(s, &t);
		cfmakeraw(&t);
		tcsetattr(s, TCSANOW, &t);
		auto* a = c.add<stored::FileLayer>(m, -1, buf);
		auto* b = c.add<stored::FileLayer>(s, -1, buf);
		c.twoWay(a, b);
		c.capacity = 2000;
		break;
	}
	default:;
	}

	for(auto& l : c.layers)
		VH_CHECK(g, l->lastError() == 0, "ctor", "lastError() %d after construction", l->lastError());
}

void send(Gen& g, Dir& d, std::string const& m)
{
	g.note("%s: send %zu: %s", d.name, m.size(), vh::hex(m.substr(0, 50)).c_str());
	// Every write has its overhead in the buffer of a socket, so many of them may block.
	std::vector<size_t> parts;
	if(g.chance(1, 4))
		parts = g.splits(m.size());
	if(!parts.empty() && parts.size() < 40) {
		lay::encode(*d.from, m, parts);
		d.outstanding += parts.size();
	} else {
		d.from->encode(m.data(), m.size(), true);
	}
	VH_CHECK(g, d.from->lastError() == 0, "send-error", "lastError() %d after encode", d.from->lastError());
	d.inFlight += m;
	d.outstanding++;
}

// Returns false when there is nothing.
bool receive(Gen& g, Dir& d, long timeout_us, bool eofLike)
{
	auto start = Clock::now();
	int res = d.to->recv(timeout_us);
	auto elapsed = us(Clock::now() - start);
	std::string got;
	for(auto& m : d.top->take())
		got += m;
	g.note("%s: recv(%ld) -> %d, %zu bytes", d.name, timeout_us, res, got.size());
	VH_CHECK(g, d.to->lastError() == res, "last-error", "recv() returned %d, lastError() is %d", res,
		 d.to->lastError());

	if(d.inFlight.empty()) {
		VH_CHECK(g, got.empty(), "phantom", "got %zu bytes: %s", got.size(), vh::hex(got.substr(0, 50)).c_str());
		VH_CHECK(g, res == EAGAIN, "empty", "recv(%ld) returned %d for an empty channel", timeout_us, res);
		if(timeout_us > 0 && !eofLike)
			VH_CHECK(g, elapsed >= timeout_us, "early-timeout", "recv(%ld) returned after %ld us",
				 timeout_us, elapsed);
		VH_CHECK(g, d.to->isOpen(), "closed", "not open after a timeout");
		d.outstanding = 0;
		return false;
	}

	VH_CHECK(g, res == 0, "recv-error", "recv(%ld) returned %d with %zu bytes in flight", timeout_us, res,
		 d.inFlight.size());
	VH_CHECK(g, !got.empty(), "nothing", "recv(%ld) returned 0 without data", timeout_us);
	VH_CHECK(g, got.size() <= d.inFlight.size() && d.inFlight.compare(0, got.size(), got) == 0, "altered",
		 "got %s, expected %s", vh::hex(got.substr(0, 100)).c_str(),
		 vh::hex(d.inFlight.substr(0, std::min<size_t>(got.size(), 100))).c_str());
	d.inFlight.erase(0, got.size());
	return true;
}

// Any history, by one thread.
VH_PROPERTY(history, 2500, 80000, "data was received more than once, and the channel became empty in between")
{
	setup();
	Channel c;
	int kind = (int)g.weighted({3, 3, 4, 4, 3, 3});
	create(g, c, kind);

	size_t steps = g.range<size_t>(1, 30);
	size_t received = 0;
	bool empty = false, again = false;
	bool down = false;

	for(size_t s = 0; s < steps; s++) {
		Dir& d = c.dirs[g.index(c.dirs.size())];
		switch(g.weighted({8, 8, 1, 1, 2})) {
		case 0: {
			if(d.inFlight.size() >= c.capacity || d.outstanding > 40)
				break;
			send(g, d, message(g, std::min<size_t>(4000, c.capacity - d.inFlight.size())));
			if(kind == KNamedPipe && d.name[0])
				c.eofLike = false;
			break;
		}
		case 1: {
			long const t[] = {0, 0, 0, -1, 1000000, 500};
			long timeout = d.inFlight.empty() ? 0 : t[g.index(6)];
			if(receive(g, d, timeout, c.eofLike)) {
				received++;
				again = again || empty;
			} else
				empty = true;
			break;
		}
		case 2: {
			// Wait in vain
			if(d.inFlight.empty() && g.chance()) {
				receive(g, d, 1000 * g.range<int>(1, 2), c.eofLike);
				empty = true;
				g.cls("timeout");
			}
			break;
		}
		case 3: {
			if(kind == KNamedPipe) {
				// The writer reconnects; what was sent still arrives.
				static_cast<stored::NamedPipeLayer*>(d.from)->reopen();
				g.note("reopen writer");
				g.cls("reopen");
				down = true;
			} else if(kind == KDoublePipe) {
				auto& l = g.chance() ? *d.from : *d.to;
				static_cast<stored::DoublePipeLayer&>(l).reopen();
				g.note("reopen %s", &l == c.a ? "a" : "b");
				g.cls("reopen");
				down = true;
			}
			break;
		}
		default: {
			// Receive everything
			while(receive(g, d, 0, c.eofLike))
				received++;
			empty = true;
		}
		}
	}

	// Finally, everything arrives.
	for(auto& d : c.dirs)
		while(receive(g, d, 0, c.eofLike))
			;

	(void)down;
	if(received > 1 && again)
		g.nontrivial();
}

// More data than fits, with a blocking writer and a slow reader.
VH_PROPERTY(blocking, 250, 6000, "more data than the channel can hold")
{
	setup();
	Channel c;
	int kind = (int)g.pick({(int)KPipe, (int)KSocket, (int)KNamedPipe, (int)KDoublePipe, (int)KPty});
	create(g, c, kind, g.chance());
	if(kind == KNamedPipe || kind == KDoublePipe) {
		// Make sure there is a connection, otherwise the reader gets EOFs.
		c.a->encode("", 0, true);
		c.b->encode("", 0, true);
	}

	bool both = c.dirs.size() > 1 && g.chance(1, 3);
	struct Plan {
		std::string all;
		std::vector<size_t> sizes;
		std::vector<unsigned> pauses;
		long timeout = 0;
		std::string got;
		int sendErr = 0;
		int recvErr = 0;
		std::atomic<bool> done{false};
	};
	Plan plan[2];
	size_t n = both ? 2 : 1;
	size_t first = c.dirs.size() > 1 && !both ? g.index(2) : 0;
	for(size_t i = 0; i < n; i++) {
		Plan& p = plan[i];
		// In case of both directions, a single thread per side does both, so keep one of them within
		// capacity.
		size_t total = i == 1 ? 1000 : g.chance() ? g.range<size_t>(1, 100000) : g.range<size_t>(1, 400000);
		p.all = bulk(g.raw(1000), total);
		size_t todo = total;
		while(todo) {
			size_t x = 1 + g.raw(g.chance() ? 200000 : 5000);
			if(x > todo || p.sizes.size() > 30)
				x = todo;
			p.sizes.push_back(x);
			todo -= x;
		}
		for(size_t j = 0; j < 4; j++)
			p.pauses.push_back(g.chance(1, 3) ? 0 : (unsigned)g.range<int>(1, 1000));
		p.timeout = g.pick({-1L, -1L, 100000L, 1000L, 300L});
		g.note("%s: %zu bytes in %zu parts, recv(%ld)", c.dirs[(first + i) % c.dirs.size()].name, total,
		       p.sizes.size(), p.timeout);
	}

	auto writer = [&](Dir& d, Plan& p) {
		size_t o = 0;
		for(auto x : p.sizes) {
			d.from->encode(p.all.data() + o, x, true);
			if(d.from->lastError() && !p.sendErr)
				p.sendErr = d.from->lastError();
			o += x;
		}
		p.done = true;
	};
	auto reader = [&](Dir& d, Plan& p) {
		size_t cnt = 0;
		auto start = Clock::now();
		while(p.got.size() < p.all.size()) {
			auto pause = p.pauses[cnt++ % p.pauses.size()];
			if(pause && cnt < 30)
				std::this_thread::sleep_for(std::chrono::microseconds(pause));
			int res = d.to->recv(p.timeout);
			for(auto& m : d.top->take())
				p.got += m;
			if(res && (res != EAGAIN || p.timeout < 0)) {
				p.recvErr = res;
				break;
			}
			// Writer is done, and there is really nothing anymore?
			if(res == EAGAIN && p.done) {
				d.to->recv(0);
				for(auto& m : d.top->take())
					p.got += m;
				if(us(Clock::now() - start) > 5000000)
					break;
			}
		}
	};

	Dir& d0 = c.dirs[first];
	std::thread t([&]() {
		writer(d0, plan[0]);
		if(both)
			reader(c.dirs[1], plan[1]);
	});
	if(both)
		writer(c.dirs[1], plan[1]);
	reader(d0, plan[0]);
	if(plan[0].recvErr) {
		// Let the writer continue.
		std::this_thread::sleep_for(std::chrono::milliseconds(1));
		while(!plan[0].done && d0.to->isOpen()) {
			d0.to->recv(1000);
			for(auto& m : d0.top->take())
				plan[0].got += m;
		}
		if(!plan[0].done) {
			// Cannot continue.
			t.detach();
			g.note("recv returned %d", plan[0].recvErr);
			_exit(99);
		}
	}
	t.join();

	for(size_t i = 0; i < n; i++) {
		Plan& p = plan[i];
		VH_CHECK(g, p.sendErr == 0, "send-error", "encode() sets lastError() %d", p.sendErr);
		VH_CHECK(g, p.recvErr == 0, "recv-error", "recv(%ld) returned %d", p.timeout, p.recvErr);
		VH_CHECK(g, p.got.size() == p.all.size(), "lost", "got %zu of %zu bytes", p.got.size(), p.all.size());
		VH_CHECK(g, p.got == p.all, "altered", "the data is altered");
	}
	g.nontrivial(plan[0].all.size() > 65536 || kind == KPty);
}

// recv() blocks until there is something.
VH_PROPERTY(wakeup, 500, 5000, "the data comes after the reader blocks")
{
	setup();
	Channel c;
	int kind = (int)g.pick({(int)KPipe, (int)KSocket, (int)KNamedPipe, (int)KDoublePipe, (int)KPty});
	create(g, c, kind);
	if(kind == KNamedPipe || kind == KDoublePipe) {
		c.a->encode("", 0, true);
		c.b->encode("", 0, true);
	}
	Dir& d = c.dirs[g.index(c.dirs.size())];
	if(g.chance(1, 3))
		receive(g, d, 0, false);
	std::string m = bulk(g.raw(1000), g.range<size_t>(1, 100));
	long t = g.pick({-1L, -1000L, -1000000L, 2000000L});
	unsigned delay = (unsigned)g.range<int>(0, 1500);
	std::thread w([&]() {
		std::this_thread::sleep_for(std::chrono::microseconds(delay));
		d.from->encode(m.data(), m.size(), true);
	});
	g.note("%s: recv(%ld), %zu bytes are sent after %u us", d.name, t, m.size(), delay);
	int res = d.to->recv(t);
	w.join();
	VH_CHECK(g, res == 0, "wakeup", "recv(%ld) returned %d", t, res);
	VH_CHECK(g, d.from->lastError() == 0, "send-error", "lastError() %d", d.from->lastError());
	std::string got;
	do {
		for(auto& x : d.top->take())
			got += x;
	} while(!d.to->recv());
	VH_CHECK(g, got == m, "altered", "got %s, expected %s", vh::hex(got).c_str(), vh::hex(m).c_str());
	g.nontrivial(delay > 100);
}

// One side goes away, and comes back.
VH_PROPERTY(reconnect, 1200, 30000, "the channel was used before and after the reconnect")
{
	setup();
	Scratch dir;
	bool dbl = g.chance();
	g.note("%s", dbl ? "double pipe" : "named pipe");
	Top topR, topW;
	std::string r2w = dir("r2w"), w2r = dir("w2r");

	// R receives, W sends. In case of double, also the other way around.
	std::unique_ptr<stored::PolledFileLayer> R, W;
	auto makeR = [&]() {
		if(dbl)
			R.reset(new stored::DoublePipeLayer(w2r.c_str(), r2w.c_str()));
		else
			R.reset(new stored::NamedPipeLayer(w2r.c_str(), stored::NamedPipeLayer::Inbound));
		R->wrap(topR);
		VH_CHECK(g, R->lastError() == 0, "ctor", "lastError() %d", R->lastError());
	};
	auto makeW = [&]() {
		if(dbl)
			W.reset(new stored::DoublePipeLayer(r2w.c_str(), w2r.c_str()));
		else
			W.reset(new stored::NamedPipeLayer(w2r.c_str(), stored::NamedPipeLayer::Outbound));
		W->wrap(topW);
		VH_CHECK(g, W->lastError() == 0, "ctor", "lastError() %d", W->lastError());
	};

	std::string toR, toW; // in flight
	// As long as the other end still has the pipe open, data stays in there. The reader may or may not get it.
	std::string staleR, staleW;
	bool usedBefore = false, usedAfter = false, reconnected = false;

	auto drain = [&](std::unique_ptr<stored::PolledFileLayer>& l, Top& top, std::string& expect, std::string& stale, char const* who) {
		if(!l)
			return;
		std::string got;
		int res = 0;
		while(!(res = l->recv()))
			for(auto& m : top.take())
				got += m;
		g.note("%s received %zu", who, got.size());
		VH_CHECK(g, res == EAGAIN, "empty", "%s: recv() returned %d", who, res);
		// Of the stale data, older messages are dropped when both ends were closed for a moment.
		std::string all = stale + expect;
		VH_CHECK(g,
			 got.size() >= expect.size() && got.size() <= all.size()
				 && all.compare(all.size() - got.size(), got.size(), got) == 0,
			 "altered", "%s got %s, expected %s", who, vh::hex(got).c_str(),
			 vh::hex(expect).c_str());
		if(!expect.empty())
			(reconnected ? usedAfter : usedBefore) = true;
		expect.clear();
		stale.clear();
	};
	auto push = [&](std::unique_ptr<stored::PolledFileLayer>& l, bool peer, std::string& flight, char const* who) {
		if(!l || flight.size() > 10000)
			return;
		std::string m = message(g, 1000);
		l->encode(m.data(), m.size(), true);
		int err = l->lastError();
		g.note("%s sends %zu: %d", who, m.size(), err);
		if(peer) {
			if(err == 0) {
				flight += m;
			} else {
				// Allow one failure to notice a broken connection.
				l->encode(m.data(), m.size(), true);
				err = l->lastError();
				g.note("%s sends %zu again: %d", who, m.size(), err);
				VH_CHECK(g, err == 0, "send-error", "%s: encode(): %d", who, err);
				flight += m;
			}
		} else if(!m.empty()) {
			VH_CHECK(g, err != 0, "send-to-nobody", "%s: no error while the other end is closed", who);
		}
	};

	makeR();
	size_t steps = g.range<size_t>(2, 30);
	for(size_t s = 0; s < steps; s++) {
		switch(g.weighted({6, dbl ? 5u : 0u, 4, 4, 2, 2})) {
		case 0:
			push(W, !!R, toR, "W");
			break;
		case 1:
			push(R, !!W, toW, "R");
			break;
		case 2:
			drain(R, topR, toR, staleR, "R");
			break;
		case 3:
			if(dbl)
				drain(W, topW, toW, staleW, "W");
			break;
		case 4:
			if(R) {
				g.note("R closes");
				R.reset();
				staleR = staleR + toR;
				toR.clear();
				if(!W)
					staleW.clear();
				g.cls("reader closes");
			} else {
				g.note("R opens");
				reconnected = true;
				makeR();
			}
			break;
		default:
			if(W) {
				g.note("W closes");
				W.reset();
				staleW = staleW + toW;
				toW.clear();
				if(!R)
					staleR.clear();
				g.cls("writer closes");
				if(!toR.empty())
					g.cls("writer closes with data in flight");
			} else {
				g.note("W opens");
				reconnected = true;
				makeW();
			}
		}
	}
	drain(R, topR, toR, staleR, "R");
	if(dbl)
		drain(W, topW, toW, staleW, "W");
	g.nontrivial(usedBefore && usedAfter);
}

// A serial port.
VH_PROPERTY(serial, 24, 160, "at least 20 bytes in each direction")
{
	setup();
	int m = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if(m == -1 || grantpt(m) || unlockpt(m))
		throw vh::Discard{};
	std::string name = ptsname(m) ? ptsname(m) : "";
	int s = ::open(name.c_str(), O_RDWR | O_NOCTTY);
	if(s == -1) {
		::close(m);
		throw vh::Discard{};
	}

	// Whatever the previous user left behind.
	struct termios t;
	tcgetattr(s, &t);
	for(tcflag_t f : {(tcflag_t)ISTRIP, (tcflag_t)INLCR, (tcflag_t)IGNCR, (tcflag_t)ICRNL, (tcflag_t)IXON,
			  (tcflag_t)IXOFF, (tcflag_t)PARMRK, (tcflag_t)IGNBRK, (tcflag_t)BRKINT})
		if(g.chance(1, 3)) {
			t.c_iflag ^= f;
			g.note("iflag ^ %x", (unsigned)f);
		}
	for(tcflag_t f : {(tcflag_t)ICANON, (tcflag_t)ECHO, (tcflag_t)ISIG, (tcflag_t)IEXTEN})
		if(g.chance(1, 3)) {
			t.c_lflag ^= f;
			g.note("lflag ^ %x", (unsigned)f);
		}
	if(g.chance(1, 3))
		t.c_oflag ^= OPOST;
	tcsetattr(s, TCSANOW, &t);

	unsigned long baud = g.pick({9600UL, 115200UL, 300UL, 460800UL});
	Top top;
	{
		stored::SerialLayer l(name.c_str(), baud, false, false);
		l.wrap(top);
		VH_CHECK(g, l.lastError() == 0 && l.isOpen(), "ctor", "lastError() %d", l.lastError());
		::close(s);
		s = -1;

		auto readMaster = [&](size_t n) {
			std::string got;
			char buf[4096];
			for(int i = 0; i < 2000 && got.size() < n; i++) {
				ssize_t r = ::read(m, buf, sizeof(buf));
				if(r > 0)
					got.append(buf, (size_t)r);
				else
					std::this_thread::sleep_for(std::chrono::microseconds(200));
			}
			ssize_t r = ::read(m, buf, sizeof(buf));
			if(r > 0)
				got.append(buf, (size_t)r);
			return got;
		};

		// Something for auto-baud detection; ignore.
		readMaster(1);

		size_t total[2] = {};
		size_t steps = g.range<size_t>(1, 10);
		for(size_t i = 0; i < steps; i++) {
			std::string x = g.bytes(g.range<size_t>(1, 100));
			if(g.chance()) {
				l.encode(x.data(), x.size(), true);
				VH_CHECK(g, l.lastError() == 0, "send-error", "lastError() %d", l.lastError());
				std::string got = readMaster(x.size());
				VH_CHECK(g, got == x, "altered", "sent %s, got %s", vh::hex(x).c_str(),
					 vh::hex(got).c_str());
				total[0] += x.size();
			} else {
				if(::write(m, x.data(), x.size()) != (ssize_t)x.size())
					throw vh::Discard{};
				std::string got;
				for(int k = 0; k < 2000 && got.size() < x.size(); k++) {
					int res = l.recv(0);
					VH_CHECK(g, res == 0 || res == EAGAIN, "recv-error", "recv: %d", res);
					for(auto& p : top.take())
						got += p;
					if(res)
						std::this_thread::sleep_for(std::chrono::microseconds(200));
				}
				VH_CHECK(g, l.recv(0) == EAGAIN, "empty", "not empty");
				for(auto& p : top.take())
					got += p;
				VH_CHECK(g, got == x, "altered", "got %s, expected %s", vh::hex(got).c_str(),
					 vh::hex(x).c_str());
				total[1] += x.size();
			}
		}
		auto start = Clock::now();
		int res = l.recv(2000);
		VH_CHECK(g, res == EAGAIN, "empty", "recv: %d", res);
		VH_CHECK(g, us(Clock::now() - start) >= 2000, "early-timeout", "recv(2000) returned after %ld us",
			 us(Clock::now() - start));
		g.nontrivial(total[0] > 20 && total[1] > 20);
	}
	::close(m);
}

// stdin/stdout, in a child process that echoes.
VH_PROPERTY(stdio, 250, 3000, "at least three messages, with embedded control characters")
{
	setup();
	int in[2], out[2];
	if(::pipe(in))
		throw vh::Discard{};
	if(::pipe(out))
		throw vh::Discard{};
	size_t buf = g.chance() ? (size_t)stored::StdioLayer::DefaultBufferSize : 1 + g.size(1000);

	std::vector<std::string> msgs;
	std::string all;
	size_t n = g.range<size_t>(1, 6);
	for(size_t i = 0; i < n; i++) {
		msgs.push_back(message(g, 8000));
		all += msgs.back();
	}
	if(all.empty())
		throw vh::Discard{};
	g.note("%zu messages, %zu bytes, buffer size %zu", n, all.size(), buf);

	pid_t pid = fork();
	if(pid == 0) {
		dup2(in[0], 0);
		dup2(out[1], 1);
		for(int fd : {in[0], in[1], out[0], out[1]})
			::close(fd);
		alarm(20);
		size_t todo = all.size();
		{
			stored::StdioLayer l(buf);
			auto cb = stored::make_callback(
				[&](void* b, size_t len) {
					l.encode(b, len, true);
					todo -= len;
				},
				[](void const*, size_t, bool) {});
			l.wrap(cb);
			while(todo) {
				int res = l.recv(-1);
				if(res && res != EAGAIN)
					_exit(2);
				if(l.lastError() && l.lastError() != EAGAIN)
					_exit(3);
			}
		}
		_exit(0);
	}
	::close(in[0]);
	::close(out[1]);
	std::thread w([&]() {
		for(auto& m : msgs) {
			size_t o = 0;
			while(o < m.size()) {
				ssize_t r = ::write(in[1], m.data() + o, m.size() - o);
				if(r <= 0)
					return;
				o += (size_t)r;
			}
		}
	});
	std::string got;
	char b[4096];
	ssize_t r;
	while((r = ::read(out[0], b, sizeof(b))) > 0)
		got.append(b, (size_t)r);
	w.join();
	::close(in[1]);
	::close(out[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	VH_CHECK(g, st == 0, "child", "status 0x%x", st);
	VH_CHECK(g, got == all, "altered", "echoed %zu bytes, expected %zu", got.size(), all.size());
	g.nontrivial(n >= 3);
}

// XSIM keep alive: there is always something to read, and the data is as sent.
VH_PROPERTY(xsim, 800, 20000, "at least two messages and one keep-alive")
{
	setup();
	Scratch dir;
	std::string prefix = dir("x");
	Top top;
	stored::XsimLayer l(prefix.c_str());
	l.wrap(top);
	VH_CHECK(g, l.lastError() == 0, "ctor", "lastError() %d", l.lastError());

	// The simulator
	int to = ::open((prefix + "_to_xsim").c_str(), O_RDONLY | O_NONBLOCK);
	int from = ::open((prefix + "_from_xsim").c_str(), O_WRONLY | O_NONBLOCK);
	int req = ::open((prefix + "_req_xsim").c_str(), O_WRONLY | O_NONBLOCK);
	VH_CHECK(g, to != -1 && from != -1 && req != -1, "pipes", "cannot open the pipes");

	l.keepAlive();

	std::string sent, toXsim; // without keep alives
	size_t inPipe = 0;
	size_t msgs = 0, keep = 0;
	std::string fromXsim;
	size_t steps = g.range<size_t>(1, 40);
	auto read1 = [&]() {
		char c = 0;
		ssize_t r = ::read(to, &c, 1);
		VH_CHECK(g, r == 1, "would-block", "xsim would block on an empty pipe");
		if(c != stored::XsimLayer::KeepAlive)
			toXsim += c;
		else
			keep++;
		if(::write(req, &c, 1) != 1)
			throw vh::Discard{};
		// Let the layer process it, before the next read
		int res = l.recv();
		VH_CHECK(g, res == 0 || res == EAGAIN, "recv-error", "recv: %d", res);
	};
	(void)inPipe;
	for(size_t s = 0; s < steps; s++) {
		switch(g.weighted({3, 8, 2, 1})) {
		case 0: {
			if(sent.size() - toXsim.size() > 2000)
				break;
			std::string m = g.bytes(g.range<size_t>(1, 30));
			for(auto& c : m)
				if(c == stored::XsimLayer::KeepAlive)
					c = 'x';
			g.note("encode %zu", m.size());
			l.encode(m.data(), m.size(), true);
			VH_CHECK(g, l.lastError() == 0, "send-error", "lastError() %d", l.lastError());
			sent += m;
			msgs++;
			break;
		}
		case 1: {
			size_t n = g.range<size_t>(1, 20);
			g.note("xsim reads %zu", n);
			while(n--)
				read1();
			break;
		}
		case 2: {
			std::string m = message(g, 500);
			g.note("xsim writes %zu", m.size());
			if(!m.empty() && ::write(from, m.data(), m.size()) != (ssize_t)m.size())
				throw vh::Discard{};
			fromXsim += m;
			for(int k = 0; k < 100; k++)
				if(l.recv())
					break;
			break;
		}
		default:
			g.note("recv");
			l.recv();
		}
	}
	size_t guard = 0;
	while(toXsim.size() < sent.size() && guard++ < 10000)
		read1();
	VH_CHECK(g, toXsim == sent, "altered", "xsim got %zu, expected %zu bytes", toXsim.size(), sent.size());
	for(int k = 0; k < 1000 && !l.recv(); k++)
		;
	std::string got;
	for(auto& m : top.take())
		got += m;
	VH_CHECK(g, got == fromXsim, "altered", "got %zu, expected %zu bytes", got.size(), fromXsim.size());
	for(int fd : {to, from, req})
		::close(fd);
	g.nontrivial(msgs >= 2 && keep);
}

//////////////////////////////////////////////////////////////////////////
// ZeroMQ

struct Zmq {
	void* ctx = zmq_ctx_new();
	~Zmq()
	{
		zmq_ctx_term(ctx);
	}
};

std::string lastEndpoint(void* socket)
{
	char b[256] = {};
	size_t len = sizeof(b);
	if(zmq_getsockopt(socket, ZMQ_LAST_ENDPOINT, b, &len))
		throw vh::Discard{};
	return b;
}

void noLinger(void* s)
{
	int l = 0;
	zmq_setsockopt(s, ZMQ_LINGER, &l, sizeof(l));
}

VH_PROPERTY(zmqsync, 600, 12000, "at least three messages, one of which in parts or large")
{
	setup();
	Scratch dir;
	Zmq z;
	Top topA, topB;
	int kind = (int)g.index(3);
	std::string ep = kind == 0 ? "inproc://l11" : kind == 1 ? "ipc://" + dir("s") : "tcp://127.0.0.1:*";
	bool ownContext = kind && g.chance();
	g.note("%s", ep.c_str());
	g.cls(kind == 0 ? "inproc" : kind == 1 ? "ipc" : "tcp");
	stored::SyncZmqLayer a(z.ctx, ep.c_str(), true);
	if(a.lastError())
		throw vh::Discard{};
	stored::SyncZmqLayer b(ownContext ? nullptr : z.ctx, lastEndpoint(a.socket()).c_str(), false);
	VH_CHECK(g, b.lastError() == 0, "ctor", "lastError() %d", b.lastError());
	noLinger(a.socket());
	noLinger(b.socket());
	a.wrap(topA);
	b.wrap(topB);

	struct D {
		stored::ZmqLayer* from;
		stored::ZmqLayer* to;
		Top* top;
		std::deque<std::string> flight;
		std::string partial;
		bool inPartial;
	} dirs[2] = {{&a, &b, &topB, {}, {}, false}, {&b, &a, &topA, {}, {}, false}};

	size_t sent = 0;
	bool special = false;
	auto receive = [&](D& d, long timeout) {
		int res = d.to->recv(timeout);
		auto m = d.top->take();
		g.note("%s: recv(%ld) -> %d, %zu messages", &d == dirs ? "a>b" : "b>a", timeout, res, m.size());
		VH_CHECK(g, m.size() <= d.flight.size(), "phantom", "got %zu messages of %zu", m.size(), d.flight.size());
		for(auto& x : m) {
			VH_CHECK(g, x == d.flight.front(), "altered", "got %zu bytes: %s, expected %zu: %s", x.size(),
				 vh::hex(x.substr(0, 50)).c_str(), d.flight.front().size(),
				 vh::hex(d.flight.front().substr(0, 50)).c_str());
			d.flight.pop_front();
		}
		VH_CHECK(g, res == (m.empty() ? EAGAIN : 0), "recv-result", "recv(%ld) returned %d with %zu messages",
			 timeout, res, m.size());
		VH_CHECK(g, res == d.to->lastError(), "last-error", "recv() %d, lastError() %d", res, d.to->lastError());
		return !m.empty();
	};
	size_t steps = g.range<size_t>(1, 25);
	for(size_t s = 0; s < steps; s++) {
		D& d = dirs[g.index(2)];
		switch(g.weighted({6, 5, 1})) {
		case 0: {
			std::string m = g.chance(1, 10) ? bulk(g.raw(1000), g.raw(300000)) : message(g, 5000);
			bool last = g.chance(2, 3);
			g.note("%s: send %zu%s: %s", &d == dirs ? "a>b" : "b>a", m.size(), last ? "" : " (partial)",
			       vh::hex(m.substr(0, 30)).c_str());
			d.from->encode(m.data(), m.size(), last);
			VH_CHECK(g, d.from->lastError() == 0, "send-error", "lastError() %d", d.from->lastError());
			d.partial += m;
			d.inPartial = !last;
			special = special || !last || m.size() > 10000;
			if(last) {
				d.flight.push_back(d.partial);
				d.partial.clear();
				sent++;
			}
			break;
		}
		case 1:
			receive(d, d.flight.empty() ? 0 : g.pick({0L, -1L, 1000000L, -1000L}));
			break;
		default:
			if(d.flight.empty()) {
				auto start = Clock::now();
				// ZeroMQ counts in whole milliseconds.
				receive(d, 3000);
				VH_CHECK(g, us(Clock::now() - start) >= 1500, "early-timeout", "returned after %ld us",
					 us(Clock::now() - start));
			}
		}
	}
	for(auto& d : dirs) {
		if(d.inPartial) {
			d.from->encode();
			d.flight.push_back(d.partial);
		}
		auto start = Clock::now();
		while(!d.flight.empty() && us(Clock::now() - start) < 5000000)
			receive(d, 100000);
		VH_CHECK(g, d.flight.empty(), "lost", "%zu messages are lost", d.flight.size());
	}
	g.nontrivial(sent >= 3 && special);
}

// A full channel: block until there is space.
VH_PROPERTY(zmqfull, 120, 2000, "the high-water mark is exceeded")
{
	setup();
	Zmq z;
	Top topB;
	// Set the limit before connecting.
	struct Small : public stored::ZmqLayer {
		Small(void* ctx)
			: ZmqLayer(ctx, ZMQ_DEALER)
		{}
	};
	Small a(z.ctx), b(z.ctx);
	int hwm = g.range<int>(1, 5);
	for(auto* l : {&a, &b}) {
		zmq_setsockopt(l->socket(), ZMQ_SNDHWM, &hwm, sizeof(hwm));
		zmq_setsockopt(l->socket(), ZMQ_RCVHWM, &hwm, sizeof(hwm));
		noLinger(l->socket());
	}
	if(zmq_bind(a.socket(), "inproc://l11full") || zmq_connect(b.socket(), "inproc://l11full"))
		throw vh::Discard{};
	b.wrap(topB);

	size_t n = g.range<size_t>(1, 60);
	std::vector<std::string> msgs;
	for(size_t i = 0; i < n; i++)
		msgs.push_back(bulk(i, g.size(2000)));
	unsigned pause = (unsigned)g.range<int>(0, 500);
	long timeout = g.pick({-1L, 1000000L, 2000L, 0L});
	g.note("%zu messages, hwm %d, pause %u us, recv(%ld)", n, hwm, pause, timeout);
	std::atomic<bool> done{false};
	int sendErr = 0;
	std::thread t([&]() {
		for(auto& m : msgs) {
			a.encode(m.data(), m.size(), true);
			if(a.lastError() && !sendErr)
				sendErr = a.lastError();
		}
		done = true;
	});
	std::vector<std::string> got;
	auto start = Clock::now();
	int err = 0;
	while(got.size() < n) {
		if(pause)
			std::this_thread::sleep_for(std::chrono::microseconds(pause));
		int res = b.recv(done ? 10000 : timeout);
		for(auto& m : topB.take())
			got.push_back(m);
		if(res && (res != EAGAIN || (timeout < 0 && !done))) {
			err = err ? err : res;
			if(res != EAGAIN)
				break;
		}
		if(us(Clock::now() - start) > 5000000 || (done && res))
			break;
	}
	t.join();
	VH_CHECK(g, sendErr == 0, "send-error", "encode(): %d", sendErr);
	VH_CHECK(g, err == 0, "recv-error", "recv(): %d", err);
	VH_CHECK(g, got.size() == n, "lost", "got %zu of %zu messages", got.size(), n);
	VH_CHECK(g, got == msgs, "altered", "messages are altered");
	g.nontrivial(n > (size_t)hwm * 2);
}

// Request/reply
VH_PROPERTY(zmqdebug, 400, 8000, "at least three requests")
{
	setup();
	Zmq z;
	Top top;
	stored::DebugZmqLayer l(g.chance() ? z.ctx : nullptr, 0);
	VH_CHECK(g, l.lastError() == 0, "ctor", "lastError() %d", l.lastError());
	l.wrap(top);
	noLinger(l.socket());
	std::string ep = lastEndpoint(l.socket());
	ep = "tcp://127.0.0.1" + ep.substr(ep.rfind(':'));
	void* req = zmq_socket(z.ctx, ZMQ_REQ);
	noLinger(req);
	int to = 5000;
	zmq_setsockopt(req, ZMQ_RCVTIMEO, &to, sizeof(to));
	if(zmq_connect(req, ep.c_str())) {
		zmq_close(req);
		throw vh::Discard{};
	}
	struct Close {
		void* s;
		~Close()
		{
			zmq_close(s);
		}
	} closer{req};

	size_t n = g.range<size_t>(1, 8);
	for(size_t i = 0; i < n; i++) {
		if(g.chance(1, 4)) {
			int res = l.recv();
			VH_CHECK(g, res == EAGAIN, "empty", "recv(): %d", res);
		}
		std::string m = message(g, 3000);
		auto parts = g.splits(m.size());
		size_t o = 0;
		for(size_t p = 0; p < parts.size(); p++) {
			zmq_send(req, m.data() + o, parts[p], p + 1 < parts.size() ? ZMQ_SNDMORE : 0);
			o += parts[p];
		}
		g.note("request %zu in %zu parts", m.size(), parts.size());

		std::string reply = message(g, 3000);
		auto rparts = g.splits(reply.size());
		bool immediately = g.chance();
		if(immediately)
			top.cb = [&](std::string const&) { lay::encode(l, reply, rparts); };
		else
			top.cb = nullptr;
		int res = l.recv(g.pick({-1L, 5000000L}));
		auto got = top.take();
		VH_CHECK(g, got.size() == 1, "lost", "got %zu messages, recv() is %d", got.size(), res);
		VH_CHECK(g, got[0] == m, "altered", "got %s, expected %s", vh::hex(got[0]).c_str(), vh::hex(m).c_str());
		if(immediately) {
			VH_CHECK(g, res == 0, "recv-error", "recv(): %d", res);
		} else {
			// There is no second one as long as it is not replied to; recovery is by an error reply.
			lay::encode(l, reply, rparts);
			if(res != 0) {
				VH_CHECK(g, res == EFSM, "recv-error", "recv(): %d", res);
				g.cls("recovery reply");
				reply = "?";
			} else
				VH_CHECK(g, l.lastError() == 0, "send-error", "lastError() %d", l.lastError());
		}

		std::string back;
		int more = 1;
		bool ok = true;
		while(more && ok) {
			zmq_msg_t msg;
			zmq_msg_init(&msg);
			ok = zmq_msg_recv(&msg, req, 0) != -1;
			if(ok) {
				back.append((char const*)zmq_msg_data(&msg), zmq_msg_size(&msg));
				more = zmq_msg_more(&msg);
			}
			zmq_msg_close(&msg);
		}
		VH_CHECK(g, ok, "lost", "no reply");
		VH_CHECK(g, back == reply, "altered", "reply %s, expected %s", vh::hex(back).c_str(),
			 vh::hex(reply).c_str());
	}
	g.nontrivial(n >= 3);
}

//////////////////////////////////////////////////////////////////////////
// FIFO

template <size_t Capacity, size_t Messages>
void fifo(Gen& g)
{
	Top a, b;
	stored::FifoLoopback<Capacity, Messages> l(a, b);
	typedef typename stored::FifoLoopback<Capacity, Messages>::FifoLoopback1_type L1;
	struct D {
		stored::ProtocolLayer* from;
		L1* fifo;
		Top* to;
		std::deque<std::string> flight;
		std::string partial;
		bool inPartial;
		bool drop;
		int handler; // 0: none, 1: refuse, 2: recv and retry, 3: first one refuses
		unsigned overflows;
		char const* name;
	} dirs[2] = {{&a, &l.a2b(), &b, {}, {}, false, false, 0, 0, "a>b"},
		     {&b, &l.b2a(), &a, {}, {}, false, false, 0, 0, "b>a"}};

	auto check = [&](D& d, std::vector<std::string> const& m) {
		VH_CHECK(g, m.size() <= d.flight.size(), "phantom", "got %zu messages of %zu", m.size(), d.flight.size());
		for(auto& x : m) {
			VH_CHECK(g, x == d.flight.front(), "altered", "got %s, expected %s", vh::hex(x).c_str(),
				 vh::hex(d.flight.front()).c_str());
			d.flight.pop_front();
		}
	};

	size_t received = 0, wrapped = 0;
	bool overflowed = false;
	size_t steps = g.range<size_t>(1, 60);
	for(size_t s = 0; s < steps; s++) {
		D& d = dirs[g.chance(1, 4) ? 1 : 0];
		switch(g.weighted({8, 6, 1, 1, 1, 1})) {
		case 0: {
			// Do not send more than the MTU.
			size_t mtu = d.from->mtu() - d.partial.size();
			std::string m = g.bytesUpTo(g.chance(1, 6) ? mtu : std::min(mtu, Capacity / 2));
			bool last = g.chance(3, 4);
			unsigned before = d.overflows;
			bool empty = d.fifo->empty() && !d.drop && d.flight.empty();
			d.from->encode(m.data(), m.size(), last);
			bool over = d.overflows != before || (d.handler == 0 && d.fifo->lastError() == ENOMEM);
			g.note("%s: send %zu%s: %s %s", d.name, m.size(), last ? "" : " (partial)", vh::hex(m).c_str(),
			       over ? "overflow" : "");
			if(d.handler == 0 && d.fifo->lastError() == ENOMEM) {
				// The flag remains; clear it to detect the next one.
				bool was = d.drop;
				if(!was) {
					d.drop = true;
					overflowed = true;
				}
			} else if(over && !d.drop) {
				overflowed = true;
				if(d.handler != 2)
					d.drop = true;
				else {
					// The handler drained; retried till success, or the handler refused.
					if(d.flight.empty() && d.fifo->empty() && d.partial.size() + m.size() > Capacity)
						d.drop = true;
				}
			}
			if(empty)
				VH_CHECK(g, !d.drop && !over, "mtu", "%zu more bytes overflow, MTU is %zu",
					 m.size(), d.from->mtu());
			d.partial += m;
			d.inPartial = !last;
			if(last) {
				if(!d.drop)
					d.flight.push_back(d.partial);
				d.drop = false;
				d.partial.clear();
				if(d.handler == 0 && d.fifo->lastError() == ENOMEM) {
					// As documented.
					d.from->reset();
					g.note("%s: reset", d.name);
				}
			}
			break;
		}
		case 1: {
			int res = d.fifo->recv();
			auto m = d.to->take();
			g.note("%s: recv -> %d", d.name, res);
			VH_CHECK(g, res == (d.flight.empty() ? EAGAIN : 0), "recv-result", "recv() returned %d with %zu messages",
				 res, d.flight.size());
			VH_CHECK(g, m.size() == (d.flight.empty() ? 0U : 1U), "recv-count", "got %zu messages", m.size());
			check(d, m);
			received += m.size();
			break;
		}
		case 2: {
			d.fifo->recvAll();
			auto m = d.to->take();
			g.note("%s: recvAll -> %zu", d.name, m.size());
			VH_CHECK(g, m.size() == d.flight.size(), "recv-count", "got %zu of %zu messages", m.size(), d.flight.size());
			check(d, m);
			received += m.size();
			break;
		}
		case 3: {
			if(d.inPartial)
				break;
			d.handler = (int)g.index(3);
			g.note("%s: handler %d", d.name, d.handler);
			D* dp = &d;
			switch(d.handler) {
			case 0:
				d.fifo->setOverflowHandler();
				break;
			case 1:
				d.fifo->setOverflowHandler([dp]() {
					dp->overflows++;
					return false;
				});
				break;
			default:
				d.fifo->setOverflowHandler([dp, &check, &received]() {
					dp->overflows++;
					if(dp->fifo->recv())
						// Nothing to receive; will not help.
						return false;
					auto m = dp->to->take();
					received += m.size();
					check(*dp, m);
					return true;
				});
			}
			break;
		}
		case 4:
			// Start over; a partial message is forgotten, what is in the FIFO is still there.
			g.note("%s: reset", d.name);
			d.from->reset();
			VH_CHECK(g, d.fifo->lastError() == 0, "reset", "lastError() %d", d.fifo->lastError());
			if(d.inPartial)
				g.cls("reset in partial message");
			d.inPartial = false;
			d.drop = false;
			d.partial.clear();
			break;
		default:
			VH_CHECK(g, d.fifo->empty() == d.flight.empty(), "empty", "empty() is %d with %zu messages",
				 d.fifo->empty(), d.flight.size());
			VH_CHECK(g, d.fifo->available() == d.flight.size(), "available", "available() is %zu with %zu messages",
				 d.fifo->available(), d.flight.size());
		}
		wrapped += 0;
	}
	for(auto& d : dirs) {
		while(!d.fifo->recv()) {
		}
		check(d, d.to->take());
		VH_CHECK(g, d.flight.empty(), "lost", "%zu messages are lost", d.flight.size());
	}
	if(overflowed)
		g.cls("overflow");
	g.nontrivial(received > 3 && overflowed);
}

VH_PROPERTY(fifoloop, 15000, 600000, "more than three messages received, and an overflow occurred")
{
	switch(g.index(5)) {
	case 0:
		fifo<1, 1>(g);
		break;
	case 1:
		fifo<8, 2>(g);
		break;
	case 2:
		fifo<10, 10>(g);
		break;
	case 3:
		fifo<64, 4>(g);
		break;
	default:
		fifo<128, 16>(g);
	}
}

VH_PROPERTY(fifothreads, 400, 10000, "more data than the FIFO can hold")
{
	Top a, b;
	typedef stored::FifoLoopback<64, 8> L;
	L l(a, b);
	std::atomic<bool> stop{false};
	l.a2b().setOverflowHandler([&]() {
		std::this_thread::yield();
		return !stop;
	});
	size_t n = g.range<size_t>(1, 300);
	std::vector<std::string> msgs;
	size_t total = 0;
	uint64_t seed = g.raw(1000);
	size_t mx = g.range<size_t>(1, l.a2b().mtu());
	for(size_t i = 0; i < n; i++) {
		msgs.push_back(bulk(seed + i, (size_t)((seed * 31 + i * 17) % (mx + 1))));
		total += msgs.back().size();
	}
	size_t split = g.range<size_t>(1, 10);
	bool all = g.chance();
	g.note("%zu messages, %zu bytes, split at %zu, %s", n, total, split, all ? "recvAll" : "recv");
	std::thread t([&]() {
		for(auto& m : msgs) {
			size_t o = 0;
			while(m.size() - o > split) {
				a.encode(m.data() + o, split, false);
				o += split;
			}
			a.encode(m.data() + o, m.size() - o, true);
		}
	});
	auto start = Clock::now();
	while(b.msgs.size() < n && us(Clock::now() - start) < 4000000)
		if(all)
			l.a2b().recvAll();
		else if(l.a2b().recv())
			std::this_thread::yield();
	stop = true;
	t.join();
	VH_CHECK(g, b.msgs.size() == n, "lost", "got %zu of %zu messages", b.msgs.size(), n);
	for(size_t i = 0; i < n; i++)
		VH_CHECK(g, b.msgs[i] == msgs[i], "altered", "message %zu: got %s, expected %s", i,
			 vh::hex(b.msgs[i]).c_str(), vh::hex(msgs[i]).c_str());
	g.nontrivial(total > 128);
}

} // namespace
