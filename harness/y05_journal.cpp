// Y05: the change journal.
#include "sync.h"

using namespace sim;

namespace {

struct Sink : public stored::ProtocolLayer {
	std::string data;
	using ProtocolLayer::encode;
	void encode(void const* buffer, size_t len, bool = true) override
	{
		data.append((char const*)buffer, len);
	}
};

struct Item {
	size_t key;
	size_t len;
};

struct Observer {
	std::string name;
	std::vector<char> buffer;
	std::unique_ptr<stored::StoreJournal> journal;
	stored::StoreJournal::Seq since = 0;
	std::set<size_t> changed; // keys
};

struct Journal {
	Gen& g;
	std::vector<char> buffer;
	std::vector<Item> items;
	std::unique_ptr<stored::StoreJournal> j;
	std::deque<Observer> obs;
	std::set<size_t> known; // keys that must be recorded
	size_t syncs = 0, wraps = 0, cleans = 0, bumps = 0;
	static char const* hash()
	{
		return "0123456789012345678901234567890123456789";
	}

	explicit Journal(Gen& gen)
		: g(gen)
	{
		size_t n = g.range<size_t>(1, 40);
		size_t o = 0;
		for(size_t i = 0; i < n; i++) {
			size_t len = g.weighted({4, 2, 1}) == 0 ? (size_t)1 << g.index(4) : g.range<size_t>(1, 20);
			if(g.chance(1, 30))
				len = 300;
			if(g.chance(1, 150))
				len = 70000;
			items.push_back({o, len});
			o += len + (g.chance(1, 4) ? g.index(4) : 0);
		}
		buffer.resize(o);
		j.reset(new stored::StoreJournal(hash(), buffer.data(), buffer.size()));
		if(g.chance())
			j->reserveHeap(n);
		size_t k = g.range<size_t>(1, 4);
		for(size_t i = 0; i < k; i++) {
			obs.emplace_back();
			obs.back().name = vh::format("%zu", i);
			full(obs.back());
		}
	}

	size_t keySize()
	{
		return buffer.size() < 0x100 ? 1 : buffer.size() < 0x10000 ? 2 : 4;
	}

	void full(Observer& o)
	{
		Sink s;
		o.since = j->encodeBuffer(s, true);
		VH_CHECK(g, s.data == std::string(buffer.data(), buffer.size()), "buffer", "encodeBuffer() does not produce the buffer");
		o.buffer.assign(buffer.size(), 0);
		o.journal.reset(new stored::StoreJournal(hash(), o.buffer.data(), o.buffer.size()));
		if(g.chance()) {
			void* p = (void*)s.data.data();
			size_t l = s.data.size();
			VH_CHECK(g, o.journal->decodeBuffer(p, l) != 0 && l == 0, "buffer", "decodeBuffer() fails");
		} else
			memcpy(o.buffer.data(), s.data.data(), s.data.size());
		VH_CHECK(g, o.buffer == buffer, "buffer", "decodeBuffer() does not restore the buffer");
		o.changed.clear();
	}

	void mark(Item const& i)
	{
		for(auto& o : obs)
			o.changed.insert(i.key);
		known.insert(i.key);
	}

	void modify(Item const& i, size_t len)
	{
		if(len > 100) {
			char c = (char)g.index(256);
			memset(&buffer[i.key], c, len);
		} else
			for(size_t x = 0; x < len; x++)
				buffer[i.key + x] = (char)g.index(256);
	}

	void change()
	{
		Item i = g.pick(items);
		size_t len = i.len;
		if(g.chance(1, 6))
			len = g.range<size_t>(1, i.len);
		modify(i, len);
		bool insert = !known.count(i.key) || g.chance(7, 8);
		g.note("change %zu, %zu bytes%s", i.key, len, insert ? "" : ", known");
		j->changed((stored::StoreJournal::Key)i.key, len, insert);
		mark(i);
	}

	// False positives are only documented for a moment before the safe margin.
	bool isRecent(Observer const& o)
	{
		return j->seq() - o.since < (size_t)stored::StoreJournal::SeqLowerMargin;
	}

	void sync(Observer& o)
	{
		size_t max = 0;
		for(auto const& i : items)
			max += i.len + 2 * keySize();
		std::unique_ptr<uint8_t[]> b(new uint8_t[max + 3]);
		uint8_t* p = b.get() + 3;
		bool recent = isRecent(o);
		o.since = j->encodeUpdates(p, o.since);
		size_t len = (size_t)(p - b.get()) - 3;
		g.note("synchronize observer %s, %zu changes, %zu bytes, seq %llu", o.name.c_str(), o.changed.size(), len, (unsigned long long)o.since);
		std::set<size_t> keys;
		for(size_t i = 0; i < len;) {
			char const* c = (char const*)b.get() + 3 + i;
			VH_CHECK(g, i + 2 * keySize() <= len, "update", "truncated update");
			keys.insert(number(c, keySize()));
			i += number(c + keySize(), keySize()) + 2 * keySize();
			VH_CHECK(g, i <= len, "update", "truncated update");
		}
		for(size_t k : o.changed)
			VH_CHECK(g, keys.count(k), "forgotten", "variable %zu was changed, but is not in the update of observer %s", k, o.name.c_str());
		if(recent)
			for(size_t k : keys)
				VH_CHECK(g, o.changed.count(k), "spurious", "variable %zu is in the update of observer %s, but was not changed since", k,
					 o.name.c_str());
		void* x = b.get() + 3;
		auto s = o.journal->decodeUpdates(x, len, g.chance(), b.get());
		VH_CHECK(g, s != 0, "decode", "decodeUpdates() fails");
		for(size_t i = 0; i < buffer.size(); i++)
			VH_CHECK(g, o.buffer[i] == buffer[i], "different", "observer %s is different at offset %zu", o.name.c_str(), i);
		if(!o.changed.empty())
			syncs++;
		o.changed.clear();
	}

	void query(Observer& o)
	{
		std::set<size_t> keys;
		j->iterateChanged(o.since, [&](stored::StoreJournal::Key k) { keys.insert(k); });
		for(size_t k : o.changed) {
			VH_CHECK(g, j->hasChanged((stored::StoreJournal::Key)k, o.since), "hasChanged", "hasChanged(%zu, %llu) does not know about the change; now %llu", k,
				 (unsigned long long)o.since, (unsigned long long)j->seq());
			VH_CHECK(g, keys.count(k), "iterateChanged", "iterateChanged() skips %zu", k);
		}
		if(isRecent(o)) {
			for(auto const& i : items)
				VH_CHECK(g, o.changed.count(i.key) || !j->hasChanged((stored::StoreJournal::Key)i.key, o.since), "spurious",
					 "hasChanged(%zu, %llu), but it did not; now %llu", i.key, (unsigned long long)o.since, (unsigned long long)j->seq());
			for(size_t k : keys)
				VH_CHECK(g, o.changed.count(k), "spurious", "iterateChanged() includes %zu, which did not change since %llu; now %llu", k,
					 (unsigned long long)o.since, (unsigned long long)j->seq());
			if(wraps)
				g.cls("recent query after a wrap-around");
		}
		VH_CHECK(g, o.changed.empty() || j->hasChanged(o.since), "hasChanged-any", "hasChanged(%llu) does not know about any change",
			 (unsigned long long)o.since);
	}

	// Make the time go by
	void spin()
	{
		size_t n = 0;
		switch(g.weighted({20, 8, 3, 3, 2, 1})) {
		case 0: n = g.range<size_t>(1, 20); break;
		case 1: n = g.range<size_t>(20, 2000); break;
		case 2: n = (size_t)stored::StoreJournal::SeqLowerMargin - g.index(8); break;
		case 3: n = (size_t)stored::StoreJournal::ShortSeqWindow - (size_t)stored::StoreJournal::SeqLowerMargin - g.index(8); break;
		case 4: n = (size_t)stored::StoreJournal::ShortSeqWindow - g.index(20); break;
		default: n = g.range<size_t>(50000, 150000);
		}
		std::vector<Item> sub;
		for(size_t c = g.range<size_t>(1, 3); c; c--)
			sub.push_back(g.pick(items));
		g.note("%zu changes of %zu variables over time", n, sub.size());
		auto before = j->seq();
		for(size_t i = 0; i < n; i++) {
			Item const& x = sub[i % sub.size()];
			buffer[x.key]++;
			j->changed((stored::StoreJournal::Key)x.key, 1);
			j->bumpSeq();
		}
		for(size_t i = 0; i < n && i < sub.size(); i++)
			mark(sub[i]);
		VH_CHECK(g, j->seq() > before, "seq", "the sequence number does not increase");
		bumps += n;
		wraps = bumps / (size_t)stored::StoreJournal::ShortSeqWindow;
	}

	void clean()
	{
		auto oldest = g.pick(obs).since;
		bool def = g.chance();
		if(def)
			oldest = 0;
		else if(g.chance(1, 4))
			oldest = j->seq() - g.index(std::min<size_t>((size_t)j->seq(), 1000));
		auto limit = oldest;
		if(def)
			limit = j->seq() > (size_t)stored::StoreJournal::SeqCleanThreshold ? j->seq() - (size_t)stored::StoreJournal::SeqCleanThreshold : 0;
		g.note("clean(%llu), seq %llu", (unsigned long long)oldest, (unsigned long long)j->seq());
		if(!def && oldest == 0)
			return;
		j->clean(oldest);
		cleans++;
		known.clear();
		for(auto& o : obs)
			if(o.since < limit)
				full(o);
	}

	// Updates by another process
	void remote()
	{
		size_t n = g.range<size_t>(1, 5);
		std::string s(3, 'x');
		for(size_t i = 0; i < n; i++) {
			Item const& x = g.pick(items);
			if(x.len > 1000)
				continue;
			s += bytes(x.key, keySize()) + bytes(x.len, keySize()) + g.bytes(x.len);
			mark(x);
		}
		g.note("receive %zu updates", n);
		std::unique_ptr<char[]> b(new char[s.size()]);
		memcpy(b.get(), s.data(), s.size());
		void* p = b.get() + 3;
		size_t len = s.size() - 3;
		VH_CHECK(g, j->decodeUpdates(p, len, true, b.get()) != 0, "decode", "decodeUpdates() fails");
		for(size_t i = 3; i < s.size();) {
			size_t k = number(&s[i], keySize()), l = number(&s[i + keySize()], keySize());
			i += 2 * keySize();
			std::string later = s.substr(i, l);
			i += l;
			// Only the last one is still there.
			bool last = true;
			for(size_t x = i; x < s.size();) {
				if(number(&s[x], keySize()) == k)
					last = false;
				x += 2 * keySize() + number(&s[x + keySize()], keySize());
			}
			if(last)
				VH_CHECK(g, std::string(&buffer[k], l) == later, "decode", "the update of %zu was not applied", k);
		}
	}

	void replace()
	{
		g.note("replace the buffer");
		std::string s(buffer.size(), (char)g.index(256));
		for(size_t i = 0; i < s.size() && i < 200; i++)
			s[i] = (char)(s[i] + (char)i);
		void* p = (void*)s.data();
		size_t len = s.size();
		VH_CHECK(g, j->decodeBuffer(p, len) != 0 && len == 0, "buffer", "decodeBuffer() fails");
		VH_CHECK(g, std::string(buffer.data(), buffer.size()) == s, "buffer", "decodeBuffer() does not set the buffer");
		for(auto& o : obs)
			full(o);
	}

	void run()
	{
		int steps = g.range<int>(1, 80);
		for(int i = 0; i < steps; i++) {
			switch(g.weighted({30, 14, 8, 5, 2, 4, 1, 4})) {
			case 0: change(); break;
			case 1: sync(obs[g.index(obs.size())]); break;
			case 2: query(obs[g.index(obs.size())]); break;
			case 3: spin(); break;
			case 4: clean(); break;
			case 5: remote(); break;
			case 6: replace(); break;
			default: g.note("bumpSeq"); j->bumpSeq();
			}
		}
		for(auto& o : obs) {
			query(o);
			sync(o);
		}
	}
};

} // namespace

VH_PROPERTY(journal, 8000, 150000, "at least three updates with changes, and a wrap-around of the sequence number or a clean()")
{
	Journal j(g);
	j.run();
	g.nontrivial(j.syncs >= 3 && (j.wraps || j.cleans));
	if(j.wraps)
		g.cls("wrap-around");
	if(j.cleans)
		g.cls("clean");
}
