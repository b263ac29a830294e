// U09: pollers against the readiness of every channel on its own, as told by the OS/ZeroMQ.
#define STORED_NO_DEPRECATED
#include "vh.h"
#include <stored>
#include <libstored/poller.h>
#include <libstored/protocol.h>
#include <libstored/zmq.h>

#include <cerrno>
#include <chrono>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <string>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <zmq.h>

using stored::Pollable;
using vh::Gen;
typedef Pollable::Events Events;

namespace {

//////////////////////////////////////////////////////////////////////////
// Channels

enum class Kind { Fd, Layer, Socket, ZmqLayer, Callback, Other };

// Something that can be polled.
struct Endpoint {
	Kind kind;
	int fd = -1;
	void* socket = nullptr;
	stored::PolledFileLayer* layer = nullptr;
	stored::ZmqLayer* zmqLayer = nullptr;
	bool dead = false; // do not touch anymore
	size_t chan = 0;
};

struct Chan {
	bool zmq = false;
	// fds: what to read from and write to
	int a = -1, b = -1;
	bool isSocket = false;
	// zmq
	void* za = nullptr;
	void* zb = nullptr;
	std::unique_ptr<stored::FileLayer> fl;
	std::unique_ptr<stored::SyncZmqLayer> zl;
};

void* zctx()
{
	static void* ctx = nullptr;
	static pid_t pid = 0;
	if(!ctx || pid != getpid()) {
		ctx = zmq_ctx_new();
		pid = getpid();
	}
	return ctx;
}

void nonblock(int fd)
{
	fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
}

struct World {
	Gen& g;
	std::vector<std::unique_ptr<Chan>> chans;
	std::vector<Endpoint> eps;
	std::set<int> dead;
	static unsigned& counter()
	{
		static unsigned c = 0;
		return c;
	}

	explicit World(Gen& g)
		: g(g)
	{}

	~World()
	{
		for(auto& c : chans) {
			if(c->fl)
				c->fl.reset();
			else if(c->a != -1)
				::close(c->a);
			if(c->b != -1)
				::close(c->b);
			c->zl.reset();
			int linger = 0;
			if(c->za) {
				zmq_setsockopt(c->za, ZMQ_LINGER, &linger, sizeof(linger));
				zmq_close(c->za);
			}
			if(c->zb) {
				zmq_setsockopt(c->zb, ZMQ_LINGER, &linger, sizeof(linger));
				zmq_close(c->zb);
			}
		}
	}

	void ep(Kind k, int fd, void* s = nullptr, stored::PolledFileLayer* l = nullptr,
		stored::ZmqLayer* zl = nullptr)
	{
		Endpoint e{};
		e.kind = k;
		e.fd = fd;
		e.socket = s;
		e.layer = l;
		e.zmqLayer = zl;
		e.chan = chans.size() - 1;
		eps.push_back(e);
	}

	void create(bool allowZmq)
	{
		chans.emplace_back(new Chan);
		Chan& c = *chans.back();
		switch(g.weighted({4, 3, 1, 1, 2, allowZmq ? 4u : 0u, allowZmq ? 1u : 0u})) {
		case 0: {
			int fd[2];
			if(::pipe(fd))
				throw vh::Discard{};
			c.a = fd[0];
			c.b = fd[1];
			nonblock(c.a);
			nonblock(c.b);
			ep(Kind::Fd, c.a);
			ep(Kind::Fd, c.b);
			break;
		}
		case 1: {
			int fd[2];
			if(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd))
				throw vh::Discard{};
			c.a = fd[0];
			c.b = fd[1];
			c.isSocket = true;
			nonblock(c.a);
			nonblock(c.b);
			ep(Kind::Fd, c.a);
			ep(Kind::Fd, c.b);
			break;
		}
		case 2:
			c.a = ::eventfd(0, EFD_NONBLOCK);
			if(c.a == -1)
				throw vh::Discard{};
			ep(Kind::Fd, c.a);
			break;
		case 3:
			// never open
			ep(Kind::Fd, 900 + (int)g.index(100));
			g.cls("fd not open");
			break;
		case 4: {
			int fd[2];
			if(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd))
				throw vh::Discard{};
			c.a = fd[0];
			c.b = fd[1];
			c.isSocket = true;
			nonblock(c.b);
			c.fl.reset(new stored::FileLayer(c.a, c.a));
			ep(Kind::Layer, c.a, nullptr, c.fl.get());
			break;
		}
		case 5: {
			std::string name = vh::format("inproc://u09-%u", counter()++);
			c.zmq = true;
			int hwm = g.range<int>(1, 3);
			for(void** z : {&c.za, &c.zb}) {
				*z = zmq_socket(zctx(), ZMQ_PAIR);
				if(!*z)
					throw vh::Discard{};
				zmq_setsockopt(*z, ZMQ_SNDHWM, &hwm, sizeof(hwm));
				zmq_setsockopt(*z, ZMQ_RCVHWM, &hwm, sizeof(hwm));
			}
			if(zmq_bind(c.za, name.c_str()) || zmq_connect(c.zb, name.c_str()))
				throw vh::Discard{};
			ep(Kind::Socket, -1, c.za);
			ep(Kind::Socket, -1, c.zb);
			g.cls("zmq socket");
			break;
		}
		default: {
			std::string name = vh::format("inproc://u09-%u", counter()++);
			c.zmq = true;
			c.zl.reset(new stored::SyncZmqLayer(zctx(), name.c_str(), true));
			c.za = zmq_socket(zctx(), ZMQ_DEALER);
			if(c.zl->lastError() || !c.za || zmq_connect(c.za, name.c_str()))
				throw vh::Discard{};
			ep(Kind::Socket, -1, c.za);
			ep(Kind::ZmqLayer, -1, c.zl->socket(), nullptr, c.zl.get());
			g.cls("zmq layer");
			break;
		}
		}
	}

	void act()
	{
		size_t i = g.index(chans.size());
		Chan& c = *chans[i];
		static char buf[65536];
		if(c.zmq) {
			void* b = c.zb ? c.zb : c.zl->socket();
			bool dir = g.chance();
			void* from = dir ? c.za : b;
			void* to = dir ? b : c.za;
			if(g.chance()) {
				size_t n = g.range<size_t>(1, 3);
				while(n--)
					zmq_send(from, "x", 1, ZMQ_DONTWAIT);
				g.note("chan %zu: zmq send", i);
			} else {
				size_t n = g.range<size_t>(1, 3);
				while(n--)
					zmq_recv(to, buf, sizeof(buf), ZMQ_DONTWAIT);
				g.note("chan %zu: zmq recv", i);
			}
			return;
		}
		if(c.a == -1)
			return;
		ssize_t r = 0;
		if(c.b == -1) {
			// eventfd
			uint64_t x = 1;
			switch(g.index(3)) {
			case 0:
				r = ::write(c.a, &x, sizeof(x));
				break;
			case 1:
				r = ::read(c.a, &x, sizeof(x));
				break;
			default:
				x = 0xfffffffffffffffeULL;
				r = ::write(c.a, &x, sizeof(x));
			}
			g.note("chan %zu: eventfd", i);
			return;
		}
		int from = c.b;
		int to = c.a;
		bool closed = false;
		for(auto const& fd : {c.a, c.b})
			closed = closed || dead.count(fd);
		if(c.isSocket && g.chance())
			std::swap(from, to);
		// A closed end is occupied by something else.
		if(dead.count(from))
			std::swap(from, to);
		if(closed && (dead.count(from) || !c.isSocket))
			return;
		switch(closed ? 0 : g.weighted({5, 4, 1, 1, 1})) {
		case 0:
			r = ::send(from, "x", 1, MSG_NOSIGNAL);
			if(r == -1 && errno == ENOTSOCK)
				r = ::write(from, "x", 1);
			g.note("chan %zu: write", i);
			break;
		case 1:
			while((r = ::read(to, buf, sizeof(buf))) > 0)
				;
			g.note("chan %zu: drain", i);
			break;
		case 2:
			if(c.isSocket) {
				while((r = ::send(from, buf, sizeof(buf), MSG_NOSIGNAL)) > 0)
					;
			} else {
				while((r = ::write(from, buf, sizeof(buf))) > 0)
					;
			}
			g.note("chan %zu: fill", i);
			g.cls("full");
			break;
		case 3:
			if(c.isSocket) {
				r = ::send(from, "!", 1, MSG_OOB | MSG_NOSIGNAL | MSG_DONTWAIT);
				g.note("chan %zu: out-of-band", i);
			}
			break;
		default: {
			// Hang up; the endpoint that is closed must not be used anymore.
			int which = c.fl || g.chance() ? c.b : c.a;
			if(c.isSocket && g.chance()) {
				::shutdown(which, g.chance() ? SHUT_WR : SHUT_RD);
				g.note("chan %zu: shutdown", i);
			} else {
				// Keep the number occupied, such that it is not reused.
				for(auto& e : eps)
					if(e.chan == i && e.fd == which)
						e.dead = true;
				dead.insert(which);
				hangup(which);
				g.note("chan %zu: close %s", i, which == c.b ? "b" : "a");
			}
			g.cls("hang up");
		}
		}
	}

	// Replace the fd by something unrelated, which drops the channel's end.
	static void hangup(int fd)
	{
		static int n = -1;
		if(n == -1)
			n = ::open("/dev/null", O_RDWR);
		::dup2(n, fd);
	}

	bool valid(size_t i) const
	{
		return !eps[i].dead;
	}
};

//////////////////////////////////////////////////////////////////////////
// Oracle

// What is ready at this endpoint, using only this endpoint.
Events readiness(Endpoint const& e, Events ev, bool zmqPoller)
{
	Events r;
	if(e.kind == Kind::Socket || e.kind == Kind::ZmqLayer) {
		int z = 0;
		size_t len = sizeof(z);
		if(zmq_getsockopt(e.socket, ZMQ_EVENTS, &z, &len))
			r.set(Pollable::PollErrIndex);
		if((z & ZMQ_POLLIN) && ev.test(Pollable::PollInIndex))
			r.set(Pollable::PollInIndex);
		if((z & ZMQ_POLLOUT) && ev.test(Pollable::PollOutIndex))
			r.set(Pollable::PollOutIndex);
		return r;
	}

	struct pollfd p = {};
	p.fd = e.fd;
	if(ev.test(Pollable::PollInIndex))
		p.events |= POLLIN;
	if(ev.test(Pollable::PollOutIndex))
		p.events |= POLLOUT;
	if(!zmqPoller && ev.test(Pollable::PollPriIndex))
		p.events |= POLLPRI;
	::poll(&p, 1, 0);
	if(p.revents & POLLIN)
		r.set(Pollable::PollInIndex);
	if(p.revents & POLLOUT)
		r.set(Pollable::PollOutIndex);
	if(zmqPoller) {
		// ZeroMQ reports everything else as error.
		if(p.revents & ~(POLLIN | POLLOUT))
			r.set(Pollable::PollErrIndex);
	} else {
		if(p.revents & (POLLERR | POLLNVAL))
			r.set(Pollable::PollErrIndex);
		if(p.revents & POLLPRI)
			r.set(Pollable::PollPriIndex);
		if(p.revents & POLLHUP)
			r.set(Pollable::PollHupIndex);
	}
	return r;
}

struct Entry {
	std::unique_ptr<stored::TypedPollable> p; // owned, for the Pollable API
	size_t ep = 0;
	Events ev;
	void* user = nullptr;
	bool old = false;
	bool registered = false;
	std::function<Events()> want; // for callbacks
};

std::string str(Events e)
{
	return e.to_string();
}

Events someEvents(Gen& g)
{
	switch(g.weighted({4, 4, 3, 1, 2})) {
	case 0:
		return Pollable::PollIn;
	case 1:
		return Pollable::PollOut;
	case 2:
		return Pollable::PollIn | Pollable::PollOut;
	case 3:
		return 0;
	default:
		return Events(g.index(32));
	}
}

void* someUser(Gen& g)
{
	return (void*)(uintptr_t)g.range<int>(0, 5);
}

std::unique_ptr<stored::TypedPollable> make(Endpoint const& e, Events ev, void* user)
{
	typedef std::unique_ptr<stored::TypedPollable> R;
	switch(e.kind) {
	case Kind::Fd:
		return R(new stored::PollableFd(e.fd, ev, user));
	case Kind::Layer:
		return R(new stored::PollableFileLayer(*e.layer, ev, user));
	case Kind::Socket:
		return R(new stored::PollableZmqSocket(e.socket, ev, user));
	case Kind::ZmqLayer:
		return R(new stored::PollableZmqLayer(*e.zmqLayer, ev, user));
	default:
		return R();
	}
}

typedef std::vector<std::unique_ptr<Entry>> Entries;

#ifndef STORED_POLL_OLD
#	error This harness expects the OldResult type.
#endif

// Check the outcome of poll() against the model.
template <typename Result>
void checkResult(
	Gen& g, Result const& res, int err, Entries const& entries,
	std::function<Events(Entry const&)> const& expected)
{
	std::vector<Entry const*> ready;
	for(auto const& e : entries)
		if(e->registered && expected(*e).any())
			ready.push_back(e.get());

	for(auto const* e : ready)
		g.note("  expect: ep %zu events %s user %p revents %s%s", e->ep, str(e->ev).c_str(),
		       e->user, str(expected(*e)).c_str(), e->old ? " (old)" : "");
	for(auto const& r : res)
		g.note("  result: events %s user %p revents %s", str(Events(r.events)).c_str(),
		       r.user_data, str(Events(r.revents)).c_str());
	g.note("  errno %d", err);

	std::set<Pollable const*> owned;
	for(auto const& e : entries)
		if(e->p)
			owned.insert(e->p.get());

	// Match all results to entries.
	std::vector<bool> used(ready.size());
	for(auto const& r : res) {
		size_t i = 0;
		for(; i < ready.size(); i++) {
			Entry const& e = *ready[i];
			if(used[i])
				continue;
			if(e.p && r.p != e.p.get())
				continue;
			if(!e.p && owned.count(r.p))
				continue;
			if(!e.p
			   && (e.user != r.user_data || e.ev != Events(r.events)
			       || expected(e) != Events(r.revents)))
				continue;
			break;
		}
		if(i == ready.size()) {
			for(auto const& e : entries)
				VH_CHECK(g, !e->p || e->p.get() != r.p || e->registered,
					 "removed-reported", "reports removed entry of endpoint %zu", e->ep);
			VH_CHECK(g, false, "unexpected-result",
				 "user %p events %s revents %s is not ready like that", r.user_data,
				 str(Events(r.events)).c_str(), str(Events(r.revents)).c_str());
		}
		used[i] = true;
		Entry const& e = *ready[i];
		VH_CHECK(g, r.user_data == e.user, "user-data", "user data of another entry");
		VH_CHECK(g, r.p->user_data == e.user, "user-data", "user data of another entry");
		VH_CHECK(g, Events(r.events) == e.ev && r.p->events == e.ev, "events",
			 "events of another entry");
		VH_CHECK(g, Events(r.revents) == expected(e), "revents", "got %s, expected %s",
			 str(Events(r.revents)).c_str(), str(expected(e)).c_str());
		VH_CHECK(g, r.p->revents == Events(r.revents), "revents-field",
			 "revents of the Pollable differs from the result");
		VH_CHECK(g, r->revents == r.p->revents && &*r == r.p, "result-access", "-> or *");
	}
	for(size_t i = 0; i < ready.size(); i++)
		VH_CHECK(g, used[i], "missing-result", "endpoint %zu is ready, but not reported",
			 ready[i]->ep);

	VH_CHECK(g, err == (ready.empty() ? EAGAIN : 0), "errno", "errno %d with %zu ready", err,
		 ready.size());

	// Entries which are not ready do not claim to be.
	for(auto const& e : entries)
		if(e->registered && e->p)
			VH_CHECK(g, e->p->revents == expected(*e), "stale-revents",
				 "revents %s after poll, expected %s", str(e->p->revents).c_str(),
				 str(expected(*e)).c_str());
}

//////////////////////////////////////////////////////////////////////////
// fds and sockets

template <typename P, bool IsOld>
struct Old;

// Generic: no old API.
template <typename P>
struct Old<P, false> {
	static bool step(Gen&, P&, World&, Entries&)
	{
		return false;
	}
	static typename P::Result const& pollUs(P& p, long us)
	{
		return p.poll((int)(us < 0 ? -1 : us / 1000));
	}
};

template <>
struct Old<stored::Poller, true> {
	typedef stored::Poller P;

	static bool same(Endpoint const& a, Endpoint const& b)
	{
		return a.kind == b.kind && a.fd == b.fd && a.socket == b.socket
		       && a.layer == b.layer && a.zmqLayer == b.zmqLayer;
	}

	static bool step(Gen& g, P& p, World& w, Entries& entries)
	{
		size_t i = g.index(w.eps.size());
		if(!w.valid(i))
			return false;
		Endpoint const& ep = w.eps[i];
		Entry* found = nullptr;
		for(auto const& e : entries)
			if(e->old && e->registered && same(w.eps[e->ep], ep))
				found = e.get();

		if(!found && g.chance(3, 4)) {
			Events ev = someEvents(g);
			void* user = someUser(g);
			unsigned long v = ev.to_ulong();
			int res = 0;
			switch(ep.kind) {
			case Kind::Fd:
				res = p.add(ep.fd, user, v);
				break;
			case Kind::Layer:
				res = p.add(*ep.layer, user, v);
				break;
			case Kind::Socket:
				res = p.add(ep.socket, user, v);
				break;
			case Kind::ZmqLayer:
				res = p.add(*ep.zmqLayer, user, v);
				break;
			default:;
			}
			g.note("old add ep %zu events %s user %p -> %d", i, str(ev).c_str(), user, res);
			VH_CHECK(g, res == 0, "old-add", "add returned %d", res);
			entries.emplace_back(new Entry);
			Entry& e = *entries.back();
			e.ep = i;
			e.ev = ev;
			e.user = user;
			e.old = true;
			e.registered = true;
			return true;
		}

		if(g.chance()) {
			Events ev = someEvents(g);
			unsigned long v = ev.to_ulong();
			int res = 0;
			switch(ep.kind) {
			case Kind::Fd:
				res = p.modify(ep.fd, v);
				break;
			case Kind::Layer:
				res = p.modify(*ep.layer, v);
				break;
			case Kind::Socket:
				res = p.modify(ep.socket, v);
				break;
			case Kind::ZmqLayer:
				res = p.modify(*ep.zmqLayer, v);
				break;
			default:;
			}
			g.note("old modify ep %zu events %s -> %d", i, str(ev).c_str(), res);
			VH_CHECK(g, res == (found ? 0 : ESRCH), "old-modify", "modify returned %d (%s)", res,
				 found ? "registered" : "not registered");
			if(found) {
				found->ev = ev;
				g.cls("old modify");
			}
		} else {
			int res = 0;
			switch(ep.kind) {
			case Kind::Fd:
				res = p.remove(ep.fd);
				break;
			case Kind::Layer:
				res = p.remove(*ep.layer);
				break;
			case Kind::Socket:
				res = p.remove(ep.socket);
				break;
			case Kind::ZmqLayer:
				res = p.remove(*ep.zmqLayer);
				break;
			default:;
			}
			g.note("old remove ep %zu -> %d", i, res);
			VH_CHECK(g, res == (found ? 0 : ESRCH), "old-remove", "remove returned %d (%s)", res,
				 found ? "registered" : "not registered");
			if(found) {
				found->registered = false;
				g.cls("old remove");
			}
		}
		return true;
	}

	static P::Result const& pollUs(P& p, long us)
	{
		return p.poll(us);
	}
};

int addList(Gen& g, std::vector<Pollable*> const& v, std::function<int(std::initializer_list<std::reference_wrapper<Pollable>>)> f)
{
	switch(v.size()) {
	case 0:
		return f({});
	case 1:
		return f({*v[0]});
	case 2:
		return f({*v[0], *v[1]});
	case 3:
		return f({*v[0], *v[1], *v[2]});
	default:
		VH_CHECK(g, v.size() == 4, "harness", "list size");
		return f({*v[0], *v[1], *v[2], *v[3]});
	}
}

typedef stored::PollableCallback<> Callback;
Events never(Pollable const&)
{
	return Pollable::PollIn;
}

template <typename P, bool Zmq>
void fdHistory(Gen& g, bool zmqPoller)
{
	constexpr bool isOld = std::is_same<P, stored::Poller>::value;
	World w(g);
	size_t nc = g.range<size_t>(1, 5);
	for(size_t i = 0; i < nc; i++)
		w.create(Zmq);

	Entries entries;
	P poller;
	auto expected = [&](Entry const& e) { return readiness(w.eps[e.ep], e.ev, zmqPoller); };
	size_t polls = 0;
	bool sawReady = false;
	bool sawUnready = false;
	bool removed = false;

	auto newEntry = [&]() -> Entry* {
		size_t i = g.index(w.eps.size());
		if(!w.valid(i))
			return nullptr;
		entries.emplace_back(new Entry);
		Entry& e = *entries.back();
		e.ep = i;
		e.ev = someEvents(g);
		e.user = someUser(g);
		e.p = make(w.eps[i], e.ev, e.user);
		return &e;
	};

	size_t steps = g.range<size_t>(1, 30);
	for(size_t s = 0; s < steps; s++) {
		switch(g.weighted({6, 4, 3, 10, 10, 1, 1, 2})) {
		case 0:
			if(isOld && g.chance(2, 3)) {
				if(Old<P, isOld>::step(g, poller, w, entries))
					break;
			}
			if(auto* e = newEntry()) {
				int res = poller.add(*e->p);
				g.note("add ep %zu kind %d events %s user %p -> %d", e->ep,
				       (int)w.eps[e->ep].kind, str(e->ev).c_str(), e->user, res);
				VH_CHECK(g, res == 0, "add", "add returned %d", res);
				e->registered = true;
			}
			break;
		case 1:
			if(isOld && g.chance(2, 3)) {
				if(Old<P, isOld>::step(g, poller, w, entries))
					break;
			}
			if(!entries.empty()) {
				Entry& e = *g.pick(entries);
				if(!e.p)
					break;
				int res = poller.remove(*e.p);
				g.note("remove ep %zu user %p -> %d", e.ep, e.user, res);
				VH_CHECK(g, res == (e.registered ? 0 : ESRCH), "remove", "remove returned %d", res);
				removed = removed || e.registered;
				e.registered = false;
				if(g.chance())
					// Must not be accessed any more.
					for(auto it = entries.begin(); it != entries.end(); ++it)
						if(it->get() == &e) {
							entries.erase(it);
							break;
						}
			}
			break;
		case 2: {
			// A list, possibly with something that cannot be polled.
			size_t n = g.index(5);
			std::vector<Pollable*> l;
			std::vector<Entry*> le;
			Callback bad(never, Pollable::PollIn);
			size_t badAt = g.chance(1, 3) ? g.index(n + 1) : n;
			for(size_t i = 0; i < n; i++) {
				if(i == badAt)
					l.push_back(&bad);
				else if(auto* e = newEntry()) {
					l.push_back(e->p.get());
					le.push_back(e);
				}
			}
			bool fail = badAt < n;
			int res = addList(g, l, [&](std::initializer_list<std::reference_wrapper<Pollable>> x) {
				return poller.add(x);
			});
			g.note("add list of %zu%s -> %d", l.size(), fail ? ", with one invalid" : "", res);
			for(auto* e : le)
				g.note("  ep %zu events %s user %p", e->ep, str(e->ev).c_str(), e->user);
			VH_CHECK(g, res == (fail ? EINVAL : 0), "add-list", "add returned %d", res);
			for(auto* e : le)
				e->registered = !fail;
			if(fail && !le.empty())
				g.cls("list add rolled back");
			break;
		}
		case 3:
			w.act();
			// Dead endpoints are not to be polled anymore.
			for(auto& e : entries)
				if(e->registered && !w.valid(e->ep)) {
					if(e->p)
						VH_CHECK(g, poller.remove(*e->p) == 0, "remove", "of closed");
					else if(isOld) {
						// by number; it is still occupied
						VH_CHECK(g, reinterpret_cast<stored::Poller&>(poller).remove(w.eps[e->ep].fd) == 0,
							 "remove", "of closed");
					}
					e->registered = false;
				}
			break;
		case 4: {
			bool ready = false;
			bool any = false;
			for(auto& e : entries)
				if(e->registered) {
					any = true;
					if(expected(*e).any())
						ready = sawReady = true;
					else
						sawUnready = true;
				}

			long us = 0;
			std::thread t;
			size_t waiter = 0;
			bool threaded = false;
			if(ready) {
				long const o[] = {0, -1, 1000000000, 1000, -1000000};
				us = o[g.index(5)];
			} else if(g.chance(1, 8)) {
				us = g.range<int>(1, 3) * 1000L;
			} else if(any && g.chance(1, 6)) {
				// Block until another thread makes something ready.
				for(size_t i = 0; i < entries.size(); i++) {
					auto const& e = *entries[i];
					auto const& c = *w.chans[w.eps[e.ep].chan];
					if(!e.registered || c.zmq || c.b == -1 || w.eps[e.ep].fd != c.a
					   || !e.ev.test(Pollable::PollInIndex))
						continue;
					bool alive = true;
					for(auto const& x : w.eps)
						if(x.chan == w.eps[e.ep].chan && x.dead)
							alive = false;
					// the write end must be writable
					struct pollfd p = {c.b, POLLOUT, 0};
					if(!alive || ::poll(&p, 1, 0) != 1 || p.revents != POLLOUT)
						continue;
					waiter = i;
					threaded = true;
					break;
				}
				if(threaded) {
					int fd = w.chans[w.eps[entries[waiter]->ep].chan]->b;
					us = g.chance() ? -1 : -1000000;
					g.note("ep %zu will become ready", entries[waiter]->ep);
					g.cls("becomes ready while blocking");
					t = std::thread([fd]() {
						std::this_thread::sleep_for(std::chrono::milliseconds(1));
						ssize_t r = ::write(fd, "x", 1);
						(void)r;
					});
				}
			}

			bool useUs = isOld && g.chance();
			auto start = std::chrono::steady_clock::now();
			g.note("poll(%ld us%s)", us, useUs ? ", old" : "");
			auto const& res = useUs ? Old<P, isOld>::pollUs(poller, us)
						: poller.poll((int)(us < 0 ? -1 : us / 1000));
			int err = errno;
			auto elapsed = std::chrono::steady_clock::now() - start;
			if(threaded)
				t.join();

			if(threaded && res.empty())
				VH_CHECK(g, false, "no-block", "poll(%ld us) timed out (errno %d)", us, err);

			// NB. after a blocking poll, the thread may still have changed the other end.
			if(threaded) {
				VH_CHECK(g, err == 0, "errno", "errno %d", err);
				bool got = false;
				Entry& e = *entries[waiter];
				for(auto const& r : res)
					got = got || (r.user_data == e.user && (r.revents & Pollable::PollIn));
				VH_CHECK(g, got, "missing-result", "endpoint %zu became ready, but is not reported", e.ep);
			} else
				checkResult(g, res, err, entries, expected);

			if(!ready && us > 0)
				VH_CHECK(g, elapsed >= std::chrono::microseconds(us), "early-timeout",
					 "poll(%ld us) timed out after %ld us", us,
					 (long)std::chrono::duration_cast<std::chrono::microseconds>(elapsed).count());
			polls++;
			break;
		}
		case 5:
			poller.clear();
			g.note("clear");
			for(auto& e : entries)
				e->registered = false;
			removed = true;
			break;
		case 6:
			poller.reserve(g.index(20));
			break;
		default:
			if(!entries.empty()) {
				// Allowed at any time.
				Entry& e = *g.pick(entries);
				if(e.p) {
					e.user = e.p->user_data = someUser(g);
					g.note("ep %zu gets user %p", e.ep, e.user);
				}
			}
		}

		bool empty = true;
		for(auto& e : entries)
			empty = empty && !e->registered;
		VH_CHECK(g, poller.empty() == empty, "empty", "empty() is %d", (int)poller.empty());
	}

	if(polls && sawReady && sawUnready)
		g.nontrivial();
	if(removed)
		g.cls("removal");
	poller.clear();
}

VH_PROPERTY(pollpoller, 2500, 60000,
	    "polled with at least one ready and one unready entry")
{
	fdHistory<stored::CustomPoller<stored::PollPoller>, false>(g, false);
}

VH_PROPERTY(zmqpoller, 2500, 60000,
	    "polled with at least one ready and one unready entry")
{
	fdHistory<stored::CustomPoller<stored::ZmqPoller>, true>(g, true);
}

VH_PROPERTY(poller, 2500, 60000,
	    "polled with at least one ready and one unready entry")
{
	fdHistory<stored::Poller, true>(g, true);
}

VH_PROPERTY(construct, 1500, 20000, "the list has at least two pollables")
{
	World w(g);
	w.create(false);
	w.create(false);
	Entries entries;
	size_t n = g.index(5);
	size_t badAt = g.chance(1, 3) ? g.index(n + 1) : n;
	std::vector<Pollable*> l;
	Callback bad(never, Pollable::PollIn);
	for(size_t i = 0; i < n; i++) {
		if(i == badAt) {
			l.push_back(&bad);
			continue;
		}
		entries.emplace_back(new Entry);
		Entry& e = *entries.back();
		e.ep = g.index(w.eps.size());
		e.ev = someEvents(g);
		e.user = someUser(g);
		e.p = make(w.eps[e.ep], e.ev, e.user);
		e.registered = true;
		l.push_back(e.p.get());
	}
	w.act();
	w.act();
	for(auto& e : entries)
		if(!w.valid(e->ep))
			throw vh::Discard{};

	bool zmq = g.chance();
	bool thrown = false;
	try {
		addList(g, l, [&](std::initializer_list<std::reference_wrapper<Pollable>> x) -> int {
			auto expected = [&](Entry const& e) { return readiness(w.eps[e.ep], e.ev, zmq); };
			if(zmq) {
				stored::Poller poller(x);
				auto const& r = poller.poll(0);
				checkResult(g, r, errno, entries, expected);
			} else {
				stored::CustomPoller<stored::PollPoller> poller(x);
				auto const& r = poller.poll(0);
				checkResult(g, r, errno, entries, expected);
			}
			return 0;
		});
	} catch(std::runtime_error const&) {
		thrown = true;
	}
	VH_CHECK(g, thrown == (badAt < n), "construct", "%s", thrown ? "thrown" : "not thrown");
	if(n >= 2)
		g.nontrivial();
	if(thrown)
		g.cls("rejected");
}

//////////////////////////////////////////////////////////////////////////
// Loop

struct Program {
	int err = 0;
	Events ready;
	unsigned after = 0; // becomes ready after this number of checks
	unsigned checks = 0;

	Events operator()() const
	{
		return checks >= after ? ready : Events();
	}
};

class PollableProgram : public stored::TypedPollable {
	STORED_POLLABLE_TYPE(PollableProgram)
public:
	PollableProgram(Program& p, Events const& e, void* user)
		: TypedPollable(e, user)
		, program(&p)
	{}
	Program* program;
};

} // namespace

namespace stored {
// The hook for the application.
int poll_once(TypedPollable const& p, Pollable::Events& revents) noexcept
{
	if(p.type() == PollableProgram::staticType()) {
		Program& x = *static_cast<PollableProgram const&>(p).program;
		x.checks++;
		if(x.err)
			return x.err;
		revents = x() & p.events;
		return 0;
	}
	return poll_once_default(p, revents);
}
} // namespace stored

namespace {

VH_PROPERTY(looppoller, 6000, 200000, "polled with at least one ready and one unready entry")
{
	Entries entries;
	std::vector<std::unique_ptr<Program>> programs;
	stored::CustomPoller<stored::LoopPoller> poller;
	size_t steps = g.range<size_t>(1, 25);
	bool sawReady = false, sawUnready = false;

	auto programOf = [&](Entry const& e) -> Program& { return *programs[e.ep]; };
	auto isProgram = [&](Entry const& e) { return e.p->type() == PollableProgram::staticType(); };
	auto expected = [&](Entry const& e) -> Events {
		Program& p = programOf(e);
		if(isProgram(e) && p.err)
			return 0;
		return p() & e.ev;
	};

	auto newEntry = [&]() -> Entry& {
		programs.emplace_back(new Program);
		Program& p = *programs.back();
		p.ready = Events(g.index(32));
		p.after = g.chance(1, 4) ? (unsigned)g.range<int>(1, 6) : 0;
		entries.emplace_back(new Entry);
		Entry& e = *entries.back();
		e.ep = programs.size() - 1;
		e.ev = someEvents(g);
		e.user = someUser(g);
		switch(g.index(3)) {
		case 0:
			e.p.reset(new PollableProgram(p, e.ev, e.user));
			break;
		case 1: {
			auto f = [&p](Pollable const& x) {
				p.checks++;
				return p() & x.events;
			};
			auto x = stored::pollable(f, e.ev, e.user);
			e.p.reset(new decltype(x)(x));
			break;
		}
		default: {
			std::function<Events(Pollable const&)> f = [&p](Pollable const& x) {
				p.checks++;
				return p() & x.events;
			};
			auto x = stored::pollable(f, e.ev, e.user);
			e.p.reset(new decltype(x)(x));
		}
		}
		return e;
	};

	for(size_t s = 0; s < steps; s++) {
		switch(g.weighted({6, 3, 2, 6, 8, 1})) {
		case 0: {
			Entry& e = newEntry();
			int res = poller.add(*e.p);
			g.note("add %zu events %s user %p -> %d", e.ep, str(e.ev).c_str(), e.user, res);
			VH_CHECK(g, res == 0, "add", "add returned %d", res);
			e.registered = true;
			break;
		}
		case 1:
			if(!entries.empty()) {
				Entry& e = *g.pick(entries);
				int res = poller.remove(*e.p);
				g.note("remove %zu -> %d", e.ep, res);
				VH_CHECK(g, res == (e.registered ? 0 : ESRCH), "remove", "remove returned %d", res);
				e.registered = false;
			}
			break;
		case 2: {
			size_t n = g.index(5);
			std::vector<Pollable*> l;
			for(size_t i = 0; i < n; i++) {
				Entry& e = newEntry();
				e.registered = true;
				l.push_back(e.p.get());
				g.note("add (list) %zu events %s user %p", e.ep, str(e.ev).c_str(), e.user);
			}
			int res = addList(g, l, [&](std::initializer_list<std::reference_wrapper<Pollable>> x) {
				return poller.add(x);
			});
			VH_CHECK(g, res == 0, "add-list", "add returned %d", res);
			break;
		}
		case 3:
			if(!programs.empty()) {
				size_t i = g.index(programs.size());
				Program& p = *programs[i];
				p.ready = Events(g.index(32));
				p.checks = 0;
				p.after = g.chance(1, 4) ? (unsigned)g.range<int>(1, 6) : 0;
				int const errs[] = {0, EAGAIN, EIO, EBADF};
				p.err = errs[g.weighted({5, 2, 1, 1})];
				g.note("%zu: ready %s after %u, err %d", i, str(p.ready).c_str(), p.after, p.err);
			}
			break;
		case 4: {
			// What is to come?
			std::set<int> errs;
			bool ready = false; // now
			bool later = false;
			for(auto& e : entries)
				if(e->registered) {
					Program& p = programOf(*e);
					if(isProgram(*e) && p.err && p.err != EAGAIN)
						errs.insert(p.err);
					if(!(isProgram(*e) && p.err) && (p.ready & e->ev).any())
						later = true;
				}
			int timeout = later || !errs.empty() ? (g.chance(1, 3) ? -1 : g.chance() ? 0 : 1)
							     : (int)g.index(2);
			std::vector<unsigned> before;
			for(auto& p : programs)
				before.push_back(p->checks);
			g.note("poll(%d)", timeout);
			auto const& res = poller.poll(timeout);
			int err = errno;

			for(auto& e : entries)
				if(e->registered) {
					if(expected(*e).any())
						ready = sawReady = true;
					else
						sawUnready = true;
				}
			for(auto& e : entries)
				if(!e->registered) {
					bool other = false;
					for(auto& x : entries)
						other = other || (x->registered && x->ep == e->ep);
					VH_CHECK(g, other || programOf(*e).checks == before[e->ep],
						 "removed-polled", "entry %zu is polled after removal", e->ep);
				}

			if(!errs.empty()) {
				VH_CHECK(g, errs.count(err), "errno", "errno %d on error", err);
				VH_CHECK(g, res.empty(), "result-on-error", "results on error");
				g.cls("error");
				break;
			}

			VH_CHECK(g, timeout >= 0 || ready, "no-block", "poll(-1) returned without anything ready");
			checkResult(g, res, err, entries, expected);
			if(timeout < 0)
				g.cls("blocking");
			break;
		}
		default:
			poller.clear();
			g.note("clear");
			for(auto& e : entries)
				e->registered = false;
		}
		bool empty = true;
		for(auto& e : entries)
			empty = empty && !e->registered;
		VH_CHECK(g, poller.empty() == empty, "empty", "empty() is %d", (int)poller.empty());
	}
	if(sawReady && sawUnready)
		g.nontrivial();
}

} // namespace
