// L07: DebugArqLayer against a client that follows the documented protocol.
#include "stacks.h"

#include <algorithm>

using namespace lay;

namespace {

uint32_t next(uint32_t s)
{
	s = (s + 1) & 0x7ffffff;
	return s ? s : 1;
}

std::string encodeSeq(uint32_t s)
{
	std::string r;
	if(s < 0x40)
		r.push_back((char)s);
	else if(s < 0x2000) {
		r.push_back((char)(0x40 | (s >> 7)));
		r.push_back((char)(s & 0x7f));
	} else if(s < 0x100000) {
		r.push_back((char)(0x40 | (s >> 14)));
		r.push_back((char)(0x80 | ((s >> 7) & 0x7f)));
		r.push_back((char)(s & 0x7f));
	} else {
		r.push_back((char)(0x40 | (s >> 21)));
		r.push_back((char)(0x80 | ((s >> 14) & 0x7f)));
		r.push_back((char)(0x80 | ((s >> 7) & 0x7f)));
		r.push_back((char)(s & 0x7f));
	}
	return r;
}

// Returns the length of the header, or 0.
size_t decodeSeq(std::string const& f, uint32_t& seq, bool& reset)
{
	if(f.empty())
		return 0;
	uint8_t c = (uint8_t)f[0];
	reset = c & 0x80;
	seq = c & 0x3f;
	bool more = c & 0x40;
	size_t i = 1;
	while(more) {
		if(i >= f.size() || i >= 4)
			return 0;
		c = (uint8_t)f[i++];
		seq = (seq << 7) | (c & 0x7f);
		more = c & 0x80;
	}
	return i;
}

// The server. A request is: type, id (4 hex digits), response length (4 hex digits), payload
struct Server : public stored::ProtocolLayer {
	typedef stored::ProtocolLayer base;
	Gen& g;
	std::map<std::string, unsigned> executed;
	std::vector<std::string> log;
	unsigned executions = 0;
	size_t parts = 0;
	bool purgeMidway = false;

	explicit Server(Gen& g_)
		: g(g_)
	{}

	static std::string body(std::string const& req, unsigned exec)
	{
		size_t len = (size_t)strtoul(req.substr(5, 4).c_str(), nullptr, 16);
		char b[32];
		snprintf(b, sizeof(b), "%s/%u/", req.substr(0, 5).c_str(), exec);
		std::string r = b;
		for(size_t i = 0; i < len; i++)
			r.push_back((char)(exec * 7 + i));
		return r;
	}

	void decode(void* buffer, size_t len) override
	{
		std::string req((char*)buffer, len);
		log.push_back(req);
		if(len < 9) {
			executed[req]++;
			base::encode("?", 1, true);
			return;
		}
		unsigned e = ++executed[req];
		executions++;
		// A write has a fixed response, anything else depends on the execution.
		std::string r = body(req, req[0] == 'w' ? 1 : executions);
		if(req[0] == 'p')
			setPurgeableResponse();
		(void)e;
		auto sp = g.splits(r.size());
		size_t o = 0;
		for(size_t i = 0; i < sp.size(); i++) {
			bool last = i + 1 == sp.size();
			base::encode(r.data() + o, sp[i], last);
			o += sp[i];
		}
	}
};

struct World {
	Gen& g;
	Server app;
	std::unique_ptr<stored::SegmentationLayer> seg;
	std::unique_ptr<stored::DebugArqLayer> arq;
	Wire wire;
	bool useSeg;
	size_t segMtu;
	size_t maxBuffer;

	// Client
	uint32_t seq = 0; // last used
	uint32_t respSeq = 1; // next expected
	std::deque<std::string> toServer, toClient;
	std::vector<std::string> history; // frames to duplicate
	size_t lost = 0, dups = 0, retransmits = 0, resets = 0, multi = 0;
	bool partial = false; // the server may have a partial request
	unsigned lossy = 0, dup = 0;

	World(Gen& g_)
		: g(g_)
		, app(g_)
	{
		useSeg = g.chance(3, 4);
		segMtu = g.chance(1, 3) ? 0 : g.range<size_t>(7, 40);
		maxBuffer = g.chance(1, 3) ? 0 : g.range<size_t>(1, 200);
		wire.m_mtu = useSeg && g.chance() ? g.range<size_t>(8, 64) : 0;
		lossy = (unsigned)g.index(4);
		dup = (unsigned)g.index(3);
		g.note("seg %d mtu %zu wire %zu buffer %zu loss %u dup %u", useSeg, segMtu, wire.m_mtu, maxBuffer, lossy, dup);
		arq.reset(new stored::DebugArqLayer(maxBuffer));
		if(useSeg) {
			seg.reset(new stored::SegmentationLayer(segMtu));
			seg->wrap(app);
			arq->wrap(*seg);
		} else
			arq->wrap(app);
		wire.wrap(*arq);
	}

	~World()
	{
		arq.reset();
		seg.reset();
	}

	void serve(std::string const& f)
	{
		g.note("  > %s", vh::hex(f).c_str());
		lay::decode(wire, f);
		for(auto& r : wire.take()) {
			g.note("  < %s", vh::hex(r).c_str());
			if(wire.m_mtu)
				VH_CHECK(g, r.size() <= wire.m_mtu, "mtu", "frame of %zu bytes exceeds the MTU of %zu", r.size(), wire.m_mtu);
			toClient.push_back(r);
		}
	}

	bool lose()
	{
		if(lossy && g.chance(lossy, 10)) {
			lost++;
			return true;
		}
		return false;
	}

	// Process all frames from client to server.
	void pump(bool allowDup)
	{
		while(!toServer.empty()) {
			std::string f = toServer.front();
			toServer.pop_front();
			if(lose())
				continue;
			serve(f);
			if(allowDup && dup && g.chance(dup, 8)) {
				dups++;
				serve(f);
			}
			if(allowDup && dup && !history.empty() && g.chance(1, 12)) {
				// A stale duplicate.
				dups++;
				serve(g.pick(history));
			}
			// Duplicates of previous requests, or of requests that are reexecuted cannot be distinguished from retransmits.
			if(allowDup)
				history.push_back(f);
			if(history.size() > 8)
				history.erase(history.begin());
		}
	}

	std::vector<std::string> frames(std::string const& req)
	{
		std::vector<std::string> r;
		if(!useSeg) {
			seq = next(seq);
			r.push_back(encodeSeq(seq) + req);
			return r;
		}
		auto sp = g.splits(req.size(), false);
		if(sp.size() > 60)
			sp = {req.size()};
		size_t o = 0;
		for(size_t i = 0; i < sp.size(); i++) {
			seq = next(seq);
			r.push_back(encodeSeq(seq) + req.substr(o, sp[i]) + (i + 1 < sp.size() ? "C" : "E"));
			o += sp[i];
		}
		if(r.size() > 1)
			multi++;
		return r;
	}

	// Reset by the client.
	void reset(bool allowLoss)
	{
		static uint32_t const starts[] = {0, 0, 0x3e, 0x3f, 0x1ffe, 0x1fff, 0xffffe, 0xfffff, 0x7fffffe, 0x7ffffff, 0x7fffff0, 77};
		seq = starts[g.index(12)];
		g.note("client resets to %x", seq);
		resets++;
		history.clear();
		toServer.clear();
		toClient.clear();
		std::string f = encodeSeq(seq);
		f[0] = (char)(f[0] | 0x80);
		for(int attempt = 0;; attempt++) {
			VH_CHECK(g, attempt < 100, "reset-ack", "no ack to reset");
			bool acked = false;
			if(!(allowLoss && lose())) {
				serve(f);
				for(auto& r : toClient) {
					VH_CHECK(g, r == "\x80", "reset-ack", "reset is responded by %s", vh::hex(r).c_str());
					if(!(allowLoss && lose()))
						acked = true;
				}
				VH_CHECK(g, toClient.size() == 1, "reset-ack", "%zu responses to reset", toClient.size());
				toClient.clear();
			}
			if(acked)
				break;
		}
		respSeq = 1;
	}

	// Perform the request; returns the response.
	std::string request(std::string const& req, bool allowDup, bool& multiResp)
	{
		history.clear();
		auto f = frames(req);
		uint32_t respStart = respSeq;
		multiResp = false;
		for(int attempt = 0; attempt < 300; attempt++) {
			if(attempt)
				retransmits++;
			// Eventually, do not lose anymore.
			if(attempt > 40)
				lossy = 0;
			for(auto const& x : f)
				toServer.push_back(x);
			respSeq = respStart;
			std::string collected;
			size_t count = 0;
			pump(allowDup);
			bool complete = false;
			while(!toClient.empty()) {
				std::string r = toClient.front();
				toClient.pop_front();
				if(lose())
					continue;
				uint32_t s = 0;
				bool rst = false;
				size_t h = decodeSeq(r, s, rst);
				VH_CHECK(g, h > 0, "response-header", "invalid header %s", vh::hex(r).c_str());
				if(rst) {
					collected.clear();
					count = 0;
					respSeq = s;
					respStart = s;
					complete = false;
				}
				if(s != respSeq || complete)
					continue;
				respSeq = next(respSeq);
				count++;
				if(useSeg) {
					VH_CHECK(g, r.size() > h, "response-empty", "response without segmentation marker");
					collected.append(r, h, r.size() - h - 1);
					char m = r.back();
					VH_CHECK(g, m == 'C' || m == 'E', "response-marker", "marker %02x", m);
					if(m == 'E')
						complete = true;
				} else {
					collected.append(r, h, std::string::npos);
					complete = true;
				}
				if(complete)
					multiResp = count > 1;
			}
			if(complete)
				return collected;
		}
		g.fail("no-response", "no response to %s", vh::hex(req).c_str());
	}
};

} // namespace

VH_PROPERTY(darq, 20000, 500000,
	    "request histories (writes, reads, purgeable reads; responses of up to 3000 bytes; resets at any moment, sequence "
	    "numbers around all encoding boundaries) by a reference client over a lossy and duplicating channel; non-trivial: "
	    "at least 3 requests, frames lost or duplicated, and a retransmit or reset")
{
	World w(g);
	size_t n = g.range<size_t>(1, 14);
	std::map<std::string, unsigned> sent;
	size_t responses = 0;
	if(g.chance(1, 3))
		w.reset(true);
	for(size_t k = 0; k < n; k++) {
		if(g.chance(1, 8))
			w.reset(true);
		char type = "wwwrrp"[g.index(6)];
		char id[16];
		snprintf(id, sizeof(id), "%c%04zx", type, k);
		size_t len = type == 'w' ? g.index(20) : g.size(g.chance(1, 10) ? 3000 : 150);
		if(w.useSeg && w.segMtu && len > w.segMtu * 200)
			len = w.segMtu * 200;
		char l[8];
		snprintf(l, sizeof(l), "%04zx", len);
		std::string req = std::string(id) + l;
		if(g.chance())
			req += g.bytesUpTo(60);
		g.note("request %s (response length %zu)", vh::hex(req).c_str(), len);

		// Bytes in the response buffer, at most.
		size_t total = Server::body(req, 1).size() + 12;
		size_t segMtu = 8;
		if(w.useSeg) {
			segMtu = w.segMtu ? w.segMtu : 0;
			if(w.arq->mtu() && (!segMtu || w.arq->mtu() < segMtu))
				segMtu = w.arq->mtu();
		} else
			segMtu = 0;
		size_t frames = segMtu ? total / (segMtu - 1) + 2 : 2;
		bool buffered = !w.maxBuffer || total + frames * 5 <= w.maxBuffer;
		if(type == 'p')
			buffered = false;
		if(type == 'w' && !buffered)
			continue;

		unsigned before = w.app.executed[req];
		bool multiResp = false;
		std::string resp = w.request(req, buffered, multiResp);
		responses++;
		if(multiResp)
			g.cls("multi-frame response");
		unsigned execs = w.app.executed[req] - before;
		if(buffered)
			VH_CHECK(g, execs == 1, "executed", "request %s was executed %u times", vh::hex(req).c_str(), execs);
		else
			VH_CHECK(g, execs >= 1, "executed", "request %s was executed %u times", vh::hex(req).c_str(), execs);
		// Must be the response of one execution.
		unsigned e = 0;
		VH_CHECK(g, resp.size() > 6 && resp.compare(0, 5, id) == 0, "response", "request %s got response %s", id, vh::hex(resp).c_str());
		e = (unsigned)strtoul(resp.c_str() + 6, nullptr, 10);
		VH_CHECK(g, resp == Server::body(req, e), "response-content", "request %s got inconsistent response %s", id, vh::hex(resp).c_str());
		VH_CHECK(g, type == 'w' ? e == 1 : (e <= w.app.executions && e + execs > w.app.executions), "response-stale", "request %s got response of execution %u", id, e);

		if((!w.maxBuffer || w.maxBuffer > 64) && g.chance(1, 16)) {
			// Abort somewhere in a (single-frame) request.
			std::string rest = "w" "ffff" "0002";
			w.seq = next(w.seq);
			std::string f = encodeSeq(w.seq) + rest + (w.useSeg ? "E" : "");
			unsigned b = w.app.executed[rest];
			if(g.chance())
				w.serve(f);
			if(g.chance())
				w.serve(f);
			if(w.app.executed[rest] > b + 1)
				g.fail("executed", "aborted request executed %u times", w.app.executed[rest] - b);
			w.reset(true);
			if(w.app.executed[rest] > b + 1)
				g.fail("executed", "aborted request executed %u times", w.app.executed[rest] - b);
		}
	}
	// Nothing else was executed.
	for(auto const& r : w.app.log)
		VH_CHECK(g, r.size() >= 9, "bogus-request", "bogus request %s executed", vh::hex(r).c_str());
	g.nontrivial(responses >= 3 && (w.lost || w.dups) && (w.retransmits || w.resets));
	if(w.retransmits)
		g.cls("retransmit");
	if(w.resets)
		g.cls("reset");
	if(w.multi)
		g.cls("multi-frame request");
	if(w.dups)
		g.cls("duplicates");
}

VH_PROPERTY(darq_long, 30, 600,
	    "a response of many frames, such that the sequence number of the response exceeds all but the last encoding "
	    "boundary; non-trivial: always")
{
	World w(g);
	if(!w.useSeg)
		throw vh::Discard{};
	w.lossy = 0;
	w.reset(false);
	size_t n = g.range<size_t>(2, 6);
	size_t total = 0;
	for(size_t k = 0; k < n; k++) {
		char req[16];
		size_t len = g.range<size_t>(1000, 0xffff);
		snprintf(req, sizeof(req), "p%04zx%04zx", k, len);
		bool multi = false;
		std::string r = w.request(req, false, multi);
		total += r.size();
		VH_CHECK(g, r == Server::body(req, (unsigned)k + 1), "response-content", "wrong response to %s", req);
	}
	g.nontrivial();
}

VH_PROPERTY(darq_partial_reset, 300, 3000,
	    "a request of multiple frames is interrupted by a reset of the client, followed by another request; non-trivial: "
	    "always")
{
	World w(g);
	if(!w.useSeg)
		throw vh::Discard{};
	w.lossy = w.dup = 0;
	std::string req = "w00010002" + g.bytesUpTo(50);
	size_t cut = g.index(req.size());
	w.seq = next(w.seq);
	w.serve(encodeSeq(w.seq) + req.substr(0, cut) + "C");
	w.reset(false);
	bool multi = false;
	std::string req2 = "w00020003";
	(void)w.request(req2, false, multi);
	g.nontrivial();
	if(cut > 0)
		VH_CHECK(g, w.app.log.back() == req2, "partial-request-merged", "executed %s instead of %s", vh::hex(w.app.log.back()).c_str(), vh::hex(req2).c_str());
}
