// U07: pipes.
#include "pipes_run.h"

using namespace pk;

namespace {

template <typename T>
struct Instance {
	std::unique_ptr<Subject<T>> s;
	std::vector<std::unique_ptr<Model<T>>> m;
	int conn = -1; // id of the connected sink

	T inject(T x)
	{
		for(auto& p : m)
			x = p->inject(x);
		return x;
	}
	bool extracts() const
	{
		for(auto& p : m)
			if(p->hasExtract)
				return true;
		return false;
	}
	T exitCast(T x, size_t from = 0)
	{
		for(size_t i = from; i < m.size(); i++)
			x = m[i]->exit_cast(x);
		return x;
	}
	T entryCast(T x)
	{
		for(size_t i = m.size(); i-- > 0;)
			x = m[i]->entry_cast(x);
		return x;
	}
	T extract()
	{
		for(size_t i = m.size(); i-- > 0;)
			if(m[i]->hasExtract)
				return exitCast(m[i]->extract(), i + 1);
		return exitCast(T{});
	}
	bool trigger(T& x)
	{
		for(size_t i = 0; i < m.size(); i++) {
			if(!m[i]->hasTrigger || !m[i]->trigger(x))
				continue;
			for(size_t j = i + 1; j < m.size(); j++)
				x = m[j]->inject(x);
			return true;
		}
		return false;
	}
};

template <typename T>
void dropSignals(Log_<T>& l)
{
	std::vector<typename Log_<T>::Event> r;
	for(auto& e : l.ev)
		if(e.id < SignalId)
			r.push_back(e);
	l.ev.swap(r);
}

template <typename T>
void compare(Gen& g, Env<T>& env, char const* what, bool signals = true)
{
	if(!signals) {
		dropSignals(env.real);
		dropSignals(env.mdl);
	}
	VH_CHECK(g, env.real.ev == env.mdl.ev, "side-effects", "%s: side effects %s; expected %s", what, env.real.str().c_str(),
		 env.mdl.str().c_str());
	env.real.ev.clear();
	env.mdl.ev.clear();
}

#define EQ(what, a, b)                                                                                           \
	do {                                                                                                     \
		T a_ = a;                                                                                        \
		T b_ = b;                                                                                        \
		VH_CHECK(g, a_ == b_, what, "%s gives %s; expected %s", what, Val<T>::str(a_).c_str(),           \
			 Val<T>::str(b_).c_str());                                                               \
	} while(0)

template <typename T>
void run(Gen& g)
{
	FakeClock::ms() = 100;
	Env<T> env(g);
	auto& reg = registry<T>();
	size_t k = g.index(reg.size());
	g.note("composition %zu\n", k);

	std::vector<Instance<T>> inst(1);
	inst[0].s = reg[k](env);
	inst[0].m = std::move(env.model);
	std::string names;
	compare(g, env, "construct");

	// Sinks to connect to; 9002 is an extension.
	PipeEntry<T>* sinks[2] = {&env.sink(9000), &env.sink(9001)};

	size_t n = g.size(40);
	size_t injects = 0, effects = 0, triggers = 0;
	for(size_t i = 0; i < n; i++) {
		auto& p = inst[g.index(inst.size())];
		auto& pipe = p.s->pipe();
		auto forward = [&](T const& x) {
			if(p.conn >= 0)
				env.mdl.add(p.conn, x);
		};
		switch(g.weighted({10, 4, 4, 2, 2, 2, 3, 2, 2, 1, 2, 2})) {
		case 0: {
			T x = Val<T>::gen(g);
			g.note("inject %s\n", Val<T>::str(x).c_str());
			T y{};
			bool result = true;
			switch(g.index(6)) {
			case 0: y = pipe.inject(x).get(); break;
			case 1: y = (x >> pipe).get(); break;
			case 2: y = (pipe << x).get(); break;
			case 3: y = pipe(x); break;
			case 4: {
				PipeEntry<T>& e = pipe;
				x >> e;
				result = false;
				break;
			}
			default: (x >> pipe).move(y);
			}
			T z = p.inject(x);
			forward(z);
			if(result)
				EQ("inject", y, z);
			effects += env.mdl.ev.size();
			compare(g, env, "inject");
			injects++;
			break;
		}
		case 1: {
			g.note("extract\n");
			T y{};
			switch(g.index(4)) {
			case 0: y = pipe.extract().get(); break;
			case 1: pipe >> y; break;
			case 2: y << pipe; break;
			default: y = pipe.extract();
			}
			T z = p.extract();
			if(p.extracts())
				EQ("extract", y, z);
			else {
				// A default value, which may be cast by the segments.
				bool ok = false;
				for(size_t j = 0; j <= p.m.size(); j++)
					ok = ok || p.exitCast(T{}, j) == y;
				VH_CHECK(g, ok, "extract", "extract gives %s; expected a default value",
					 Val<T>::str(y).c_str());
			}
			compare(g, env, "extract", p.extracts());
			break;
		}
		case 2: {
			g.note("trigger\n");
			T y{};
			bool t = false;
			bool have = true;
			switch(g.index(3)) {
			case 0: ((PipeExit<T>&)pipe).trigger(&t, y); break;
			case 1:
				((PipeEntry<T>&)pipe).trigger(&t);
				have = false;
				break;
			default:
				((PipeBase&)pipe).trigger();
				have = false;
				t = true;
			}
			T z{};
			bool u = p.trigger(z);
			if(u) {
				forward(z);
				triggers++;
			}
			VH_CHECK(g, have ? t == u : t || !u, "triggered", "triggered %d; expected %d", t, u);
			if(have && u)
				EQ("trigger", y, z);
			// A segment that did not trigger may pass its value on via exit_cast(), which signals.
			size_t triggerable = 0;
			for(auto& m : p.m)
				triggerable += m->hasTrigger;
			compare(g, env, "trigger", u && triggerable == 1);
			break;
		}
		case 3: {
			T x = Val<T>::gen(g);
			g.note("exit_cast %s\n", Val<T>::str(x).c_str());
			EQ("exit_cast", p.s->exitCast(x), p.exitCast(x));
			compare(g, env, "exit_cast", false);
			break;
		}
		case 4: {
			T x = Val<T>::gen(g);
			g.note("entry_cast %s\n", Val<T>::str(x).c_str());
			EQ("entry_cast", p.s->entryCast(x), p.entryCast(x));
			compare(g, env, "entry_cast", false);
			break;
		}
		case 5:
			env.gate = g.chance();
			g.note("gate %d\n", env.gate);
			env.gateIn->inject(env.gate);
			break;
		case 6:
			FakeClock::ms() += 10 * g.range<long>(0, 6);
			g.note("clock %ld\n", FakeClock::ms());
			break;
		case 7: { // Change a Mux input.
			size_t j = g.index(3);
			T x = Val<T>::gen(g);
			g.note("input %zu %s\n", j, Val<T>::str(x).c_str());
			env.in[j].pipe->inject(x);
			if(env.in[j].triggered && !(env.in[j].value == x))
				env.in[j].changed = true;
			env.in[j].value = x;
			break;
		}
		case 8: // Connect
			if(!p.s->open)
				break;
			if(p.conn >= 0 && g.chance()) {
				g.note("disconnect\n");
				pipe.disconnect();
				p.conn = -1;
			} else {
				size_t j = g.index(2);
				g.note("connect %zu\n", j);
				pipe.connect(*sinks[j]);
				p.conn = 9000 + (int)j;
				if(p.extracts())
					forward(p.extract());
				compare(g, env, "connect", p.extracts());
			}
			VH_CHECK(g, pipe.connected() == (p.conn >= 0), "connected", "connected() gives %d", pipe.connected());
			VH_CHECK(g, pipe.connection() == (p.conn >= 0 ? sinks[p.conn - 9000] : nullptr), "connection",
				 "wrong connection()");
			break;
		case 9: // Copy
			if(inst.size() < 3) {
				g.note("copy\n");
				Instance<T> c;
				c.s = p.s->copy();
				for(auto& m : p.m)
					c.m.push_back(m->clone());
				c.conn = p.conn;
				inst.push_back(std::move(c));
				compare(g, env, "copy");
			}
			break;
		case 10: { // Properties of the returned value.
			T x = Val<T>::gen(g);
			T w = Val<T>::gen(g);
			g.note("value %s, %s\n", Val<T>::str(x).c_str(), Val<T>::str(w).c_str());
			auto v = x >> pipe;
			T z = p.inject(x);
			forward(z);
			EQ("value", v.get(), z);
			bool cmp[] = {v == w, v != w, v < w, v > w, v <= w, v >= w, w == v, w != v, w < v, w > v, w <= v, w >= v};
			bool exp[] = {z == w, z != w, z < w, z > w, z <= w, z >= w, w == z, w != z, w < z, w > z, w <= z, w >= z};
			for(size_t j = 0; j < 12; j++)
				VH_CHECK(g, cmp[j] == exp[j], "compare", "comparison %zu of %s and %s gives %d", j,
					 Val<T>::str(z).c_str(), Val<T>::str(w).c_str(), cmp[j]);
			auto v2 = std::move(v);
			EQ("moved value", v2.get(), z);
			auto v3 = std::move(v2);
			T y{};
			std::move(v3).move(y);
			EQ("moved out value", y, z);
			compare(g, env, "inject");
			break;
		}
		case 11: { // Injecting what was extracted.
			g.note("reinject\n");
			if(!p.extracts())
				break;
			auto y = pipe.extract();
			T x = p.extract();
			EQ("extract", y.get(), x);
			T z = p.inject(x);
			forward(z);
			EQ("inject", (y.get() >> pipe).get(), z);
			compare(g, env, "inject");
			break;
		}
		default:;
		}
		if(std::is_same<T, int>::value && g.chance(1, 12)) {
			int x = Val<int>::gen(g);
			g.note("store %d\n", x);
			env.store.x = x;
			*(int*)&env.object = x;
		}
		if(std::is_same<T, int>::value)
			VH_CHECK(g, env.store.x.get() == *(int*)&env.object, "store", "store has %d; expected %d",
				 (int)env.store.x.get(), *(int*)&env.object);
	}
	if(injects > 1 && (effects || triggers) && inst[0].m.size() > 1)
		g.nontrivial();
	g.cls(triggers ? "triggered" : "not triggered");
	g.cls(inst.size() > 1 ? "copied" : "single");
}

bool init = (enlist0(), enlist1(), enlist2(), enlist3(), enlist4(), enlist5(), enlist6(), true);

} // namespace

VH_PROPERTY(compose_int, 3000, 60000, "several injections in two or more segments, with a side effect")
{
	run<int>(g);
}

VH_PROPERTY(compose_string, 2000, 40000, "several injections in two or more segments, with a side effect")
{
	run<std::string>(g);
}
