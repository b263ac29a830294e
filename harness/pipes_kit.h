// U07: random compositions of all pipe segments, with a reference model.
#ifndef PIPES_KIT_H
#define PIPES_KIT_H
#include "vh.h"

#include <libstored/pipes.h>
#include <libstored/signal.h>

#include <chrono>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include "Two.h"

namespace pk {

using namespace stored::pipes;
using vh::Gen;

struct FakeClock {
	using duration = std::chrono::milliseconds;
	using rep = duration::rep;
	using period = duration::period;
	using time_point = std::chrono::time_point<FakeClock>;
	static constexpr bool is_steady = true;
	static long& ms()
	{
		static long t = 100;
		return t;
	}
	static time_point now()
	{
		return time_point{duration{ms()}};
	}
};

template <typename T>
struct Val;

template <>
struct Val<int> {
	static int gen(Gen& g)
	{
		switch(g.weighted({6, 2, 1})) {
		case 0: return g.range<int>(-3, 12);
		case 1: return g.range<int>(-300, 300);
		default: {
			static int const x[] = {2147483647, -2147483647 - 1, 2147483646, -2147483647, 127, 128, -128, -129};
			return x[g.index(8)];
		}
		}
	}
	static int f(int x)
	{
		return x ^ 0x155;
	}
	static std::string str(int x)
	{
		return std::to_string(x);
	}
};

template <>
struct Val<std::string> {
	// Both longer and shorter than the small string optimization.
	static std::string gen(Gen& g)
	{
		size_t n = g.range<size_t>(0, 4);
		if(g.chance(1, 3))
			n += 24;
		return std::string(n, (char)('a' + g.index(4)));
	}
	static std::string f(std::string x)
	{
		return "<" + std::string(x.rbegin(), x.rend());
	}
	static std::string str(std::string const& x)
	{
		return vh::quote(x);
	}
};

template <typename T>
struct Log_ {
	struct Event {
		int id;
		T value;
		bool operator==(Event const& o) const
		{
			return id == o.id && value == o.value;
		}
	};
	std::vector<Event> ev;
	void add(int id, T const& x)
	{
		ev.push_back({id, x});
	}
	std::string str() const
	{
		std::string s;
		for(auto const& e : ev)
			s += vh::format("%d:%s ", e.id, Val<T>::str(e.value).c_str());
		return s;
	}
};

enum { SignalId = 10000 };

class Store : public STORE_T(Store, stored::TwoDefaultFunctions, stored::TwoBase) {
	STORE_CLASS(Store, stored::TwoDefaultFunctions, stored::TwoBase)
public:
	Store() is_default
};

template <typename T>
struct Env;

template <typename T>
struct Model {
	bool hasExtract = false;
	bool hasTrigger = false;
	Env<T>* env = nullptr;
	int id = 0;
	explicit Model(Env<T>& e)
		: env(&e)
		, id(e.ids++)
	{}
	virtual ~Model() = default;
	virtual std::unique_ptr<Model> clone() const = 0;
	virtual T inject(T x) = 0;
	virtual T extract()
	{
		return T{};
	}
	virtual T exit_cast(T x)
	{
		return x;
	}
	virtual T entry_cast(T x)
	{
		return x;
	}
	virtual bool trigger(T& out)
	{
		return false;
	}
	void log(T const& x);
};

template <typename T, typename D>
struct ModelOf : public Model<T> {
	using Model<T>::Model;
	std::unique_ptr<Model<T>> clone() const override
	{
		return std::unique_ptr<Model<T>>(new D(static_cast<D const&>(*this)));
	}
};

template <typename T>
struct Env {
	Gen& g;
	int ids = 0;
	Log_<T> real, mdl;
	Group group;
	bool gate = false;
	PipeEntry<bool>* gateIn = nullptr;
	PipeExit<bool>* gateOut = nullptr;
	std::vector<std::unique_ptr<Model<T>>> model;
	// Inputs of the Mux.
	struct In {
		Pipe<T, T>* pipe;
		T value;
		bool triggered; // Triggered segment?
		bool changed;
	};
	std::vector<In> in;
	std::vector<std::unique_ptr<stored::Signal<void*, void*, T>>> signals;
	Store store;
	T object{}; // model of store.an_int

	explicit Env(Gen& gen)
		: g(gen)
	{
		auto& p = Entry<bool>{} >> Buffer<bool>{} >> Ref{group};
		gateIn = &p;
		gateOut = &p;
		for(int i = 0; i < 3; i++) {
			T x = Val<T>::gen(g);
			if(i == 1) {
				auto& q = Entry<T>{} >> Triggered<T>{x, sink(5000 + i)} >> Ref{group};
				in.push_back({&q, x, true, false});
			} else {
				auto& q = Entry<T>{} >> Buffer<T>{x} >> Ref{group};
				in.push_back({&q, x, false, false});
			}
		}
	}
	~Env()
	{
		group.destroy();
	}
	Env(Env const&) = delete;

	Pipe<T, T>& sink(int id)
	{
		Env* self = this;
		auto& p = Entry<T>{} >> Call<T, void(T const&)>{[self, id](T const& x) { self->real.add(id, x); }} >> Ref{group};
		return p;
	}

	template <typename M, typename... A>
	M& add(A&&... a)
	{
		M* m = new M(*this, std::forward<A>(a)...);
		model.emplace_back(m);
		return *m;
	}
};

template <typename T>
void Model<T>::log(T const& x)
{
	env->mdl.add(id, x);
}

//////////////////////////////////////////////////////////////////////////////
// The segments.  apply() adds the segment(s) to the pipe, and the model.

template <typename T>
struct KIdentity {
	struct M : ModelOf<T, M> {
		using ModelOf<T, M>::ModelOf;
		T inject(T x) override
		{
			return x;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		env.template add<M>();
		return std::move(p) >> Identity<T>{};
	}
};

template <typename T>
struct KBuffer {
	struct M : ModelOf<T, M> {
		T x;
		M(Env<T>& e, T v)
			: ModelOf<T, M>(e)
			, x(v)
		{
			this->hasExtract = true;
		}
		T inject(T v) override
		{
			return x = v;
		}
		T extract() override
		{
			return x;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		T x = Val<T>::gen(env.g);
		env.template add<M>(x);
		return std::move(p) >> Buffer<T>{x};
	}
};

template <typename T, int N>
struct KTee {
	struct M : ModelOf<T, M> {
		using ModelOf<T, M>::ModelOf;
		T inject(T x) override
		{
			for(int i = 0; i < N; i++)
				this->env->mdl.add(this->id + i * 1000, x);
			return x;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		int id = env.template add<M>().id;
		if constexpr(N == 1)
			return std::move(p) >> Tee<T, 1>{(PipeEntry<T>&)env.sink(id)};
		else
			return std::move(p) >> Tee<T, 3>{
				       (PipeEntry<T>&)env.sink(id), (PipeEntry<T>&)env.sink(id + 1000),
				       (PipeEntry<T>&)env.sink(id + 2000)};
	}
};

template <typename T>
struct KTriggered {
	struct M : ModelOf<T, M> {
		T x;
		bool changed = false;
		M(Env<T>& e, T v)
			: ModelOf<T, M>(e)
			, x(v)
		{
			this->hasExtract = true;
			this->hasTrigger = true;
		}
		T inject(T v) override
		{
			if(!(v == x))
				changed = true;
			return x = v;
		}
		T extract() override
		{
			return x;
		}
		bool trigger(T& out) override
		{
			if(!changed)
				return false;
			changed = false;
			this->log(x);
			out = x;
			return true;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		T x = Val<T>::gen(env.g);
		int id = env.template add<M>(x).id;
		return std::move(p) >> Triggered<T>{x, (PipeEntry<T>&)env.sink(id)};
	}
};

template <typename T>
struct KObserve : ModelOf<T, KObserve<T>> {
	using ModelOf<T, KObserve<T>>::ModelOf;
	T inject(T x) override
	{
		this->log(x);
		return x;
	}
};

template <typename T>
struct KLog {
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		Env<T>* e = &env;
		int id = env.template add<KObserve<T>>().id;
		return std::move(p) >> Log<T>{"x", [e, id](std::string const& n, T const& x) {
			       e->real.add(n == "x" ? id : -1, x);
		       }};
	}
};

// Call, observing by value or reference.
template <typename T, bool ref>
struct KCall {
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		Env<T>* e = &env;
		int id = env.template add<KObserve<T>>().id;
		if constexpr(ref)
			return std::move(p) >> Call<T, void(T const&)>{[e, id](T const& x) { e->real.add(id, x); }};
		else
			return std::move(p) >> Call<T, void(T)>{[e, id](T x) { e->real.add(id, x); }};
	}
};

// Call, modifying.
template <typename T, bool ref>
struct KModify {
	struct M : ModelOf<T, M> {
		using ModelOf<T, M>::ModelOf;
		T inject(T x) override
		{
			this->log(x);
			return Val<T>::f(x);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		Env<T>* e = &env;
		int id = env.template add<M>().id;
		if constexpr(ref)
			return std::move(p) >> Call<T, void(T&)>{[e, id](T& x) {
				       e->real.add(id, x);
				       x = Val<T>::f(x);
			       }};
		else
			return std::move(p) >> Call<T, T(T)>{[e, id](T x) {
				       e->real.add(id, x);
				       return Val<T>::f(x);
			       }};
	}
};

template <typename T, bool invert>
struct KTransistor {
	struct M : ModelOf<T, M> {
		using ModelOf<T, M>::ModelOf;
		T inject(T x) override
		{
			return this->env->gate != invert ? x : T{};
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		env.template add<M>();
		return std::move(p) >> Transistor<T, invert>{*env.gateOut};
	}
};

// A + B mod 4, sort of.
template <typename T>
struct Loose {
	bool operator()(T const& a, T const& b) const
	{
		// Like a margin, it is not transitive.
		size_t a_ = Val<T>::str(a).size(), b_ = Val<T>::str(b).size();
		return a_ <= b_ + 1U && b_ <= a_ + 1U;
	}
};

template <typename T, typename Compare>
struct KChanges {
	struct M : ModelOf<T, M> {
		T prev;
		M(Env<T>& e, T v)
			: ModelOf<T, M>(e)
			, prev(v)
		{}
		T inject(T x) override
		{
			if(!Compare{}(prev, x)) {
				prev = x;
				this->log(x);
			}
			return x;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		if(env.g.chance()) {
			T x = Val<T>::gen(env.g);
			int id = env.template add<M>(x).id;
			return std::move(p) >> Changes<T, Compare>{(PipeEntry<T>&)env.sink(id), x};
		} else {
			int id = env.template add<M>(T{}).id;
			return std::move(p) >> Changes<T, Compare>{(PipeEntry<T>&)env.sink(id)};
		}
	}
};

template <typename T>
struct KRate {
	struct M : ModelOf<T, M> {
		T value;
		bool pending = false;
		long interval;
		long last = -1000000;
		M(Env<T>& e, T v, long i)
			: ModelOf<T, M>(e)
			, value(v)
			, interval(i)
		{
			this->hasTrigger = true;
		}
		T inject(T x) override
		{
			if(!(x == value)) {
				value = x;
				if(FakeClock::ms() - last > interval) {
					last = FakeClock::ms();
					pending = false;
					this->log(x);
				} else
					pending = true;
			}
			return x;
		}
		bool trigger(T& out) override
		{
			if(!pending || FakeClock::ms() - last <= interval)
				return false;
			// As the unit tests define, this does not start a new interval.
			pending = false;
			this->log(value);
			out = value;
			return true;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		using R = RateLimit<T, std::equal_to<T>, std::chrono::milliseconds, FakeClock>;
		// The clock makes steps of 10 ms, so it is never exactly the interval.
		long i = 10 * env.g.template range<long>(0, 4) + 5;
		T x = Val<T>::gen(env.g);
		int id = env.template add<M>(x, i).id;
		return std::move(p) >> R{(PipeEntry<T>&)env.sink(id), std::chrono::milliseconds(i), x};
	}
};

template <typename T>
struct Clamp {
	T low;
	T high;
	T operator()(T x) const
	{
		return x < low ? low : high < x ? high : x;
	}
};

template <typename T>
struct KConstrained {
	struct M : ModelOf<T, M> {
		Clamp<T> c;
		M(Env<T>& e, Clamp<T> v)
			: ModelOf<T, M>(e)
			, c(v)
		{}
		T inject(T x) override
		{
			return c(x);
		}
		T exit_cast(T x) override
		{
			return c(x);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		T a = Val<T>::gen(env.g);
		T b = Val<T>::gen(env.g);
		if(b < a)
			std::swap(a, b);
		env.template add<M>(Clamp<T>{a, b});
		return std::move(p) >> Constrained<Bounded<T>>{Bounded<T>{a, b}};
	}
};

template <typename T>
struct Conv {
	static T exit_cast(T x)
	{
		return Val<T>::f(x);
	}
};

// Convert, with a converter that has an inverse.
struct ConvInt {
	int k;
	int exit_cast(int x) const
	{
		return x ^ k;
	}
	int entry_cast(int x) const
	{
		return x ^ k;
	}
};
struct ConvStr {
	std::string k;
	std::string exit_cast(std::string x) const
	{
		return k + x;
	}
	std::string entry_cast(std::string x) const
	{
		return x.compare(0, k.size(), k) == 0 ? x.substr(k.size()) : "?" + x;
	}
};

template <typename T>
struct KConvert {
	using C = std::conditional_t<std::is_same<T, int>::value, ConvInt, ConvStr>;
	struct M : ModelOf<T, M> {
		C c;
		M(Env<T>& e, C v)
			: ModelOf<T, M>(e)
			, c(v)
		{}
		T inject(T x) override
		{
			return c.exit_cast(x);
		}
		T exit_cast(T x) override
		{
			return c.exit_cast(x);
		}
		T entry_cast(T x) override
		{
			return c.entry_cast(x);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		C c{Val<T>::gen(env.g)};
		env.template add<M>(c);
		return std::move(p) >> Convert<C>{c};
	}
};

template <typename T>
struct KSignal {
	using S = stored::Signal<void*, void*, T>;
	struct M : ModelOf<T, M> {
		int n;
		M(Env<T>& e, int n_)
			: ModelOf<T, M>(e)
			, n(n_)
		{}
		T inject(T x) override
		{
			for(int i = 0; i < n; i++)
				this->env->mdl.add(this->id + SignalId, x);
			return x;
		}
		T exit_cast(T x) override
		{
			return inject(x);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		static int keys[2];
		Env<T>* e = &env;
		bool keyed = env.g.chance();
		// The specific key, or everything is signalled.
		int id = env.template add<M>(keyed ? 1 : 3).id + SignalId;
		env.signals.emplace_back(new S());
		S& s = *env.signals.back();
		s.connect((void*)&keys[0], [e, id](T x) { e->real.add(id, x); });
		s.connect((void*)&keys[1], [e, id, keyed](T x) { e->real.add(keyed ? -2 : id, x); });
		s.connect([e, id, keyed](T x) { e->real.add(keyed ? -3 : id, x); });
		return std::move(p) >> stored::pipes::Signal<T>{s, keyed ? (void*)&keys[0] : (void*)nullptr};
	}
};

// Random order keys, with duplicate values.
template <typename T>
struct KMap {
	using Pairs = std::array<std::pair<T, T>, 4>;
	struct M : ModelOf<T, M> {
		Pairs m;
		M(Env<T>& e, Pairs const& v)
			: ModelOf<T, M>(e)
			, m(v)
		{}
		T inject(T x) override
		{
			return exit_cast(x);
		}
		T exit_cast(T x) override
		{
			for(auto const& p : m)
				if(p.first == x)
					return p.second;
			return m[0].second;
		}
		T entry_cast(T x) override
		{
			for(auto const& p : m)
				if(p.second == x)
					return p.first;
			return m[0].first;
		}
	};
	static Pairs pairs(Env<T>& env)
	{
		Pairs m;
		for(auto& p : m)
			p = {Val<T>::gen(env.g), Val<T>::gen(env.g)};
		return m;
	}
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		using R = RandomMap<T, T, 4>;
		Pairs m = pairs(env);
		env.template add<M>(m);
		return std::move(p) >> Mapped<T, T, R>{R{m}};
	}
};

template <typename T>
struct KOrderedMap {
	template <typename P>
	static auto apply(P&& p, Env<T>& env)
	{
		using R = OrderedMap<T, T, 4>;
		auto m = KMap<T>::pairs(env);
		std::set<T> keys;
		while(keys.size() < m.size()) {
			T k = Val<T>::gen(env.g);
			while(!keys.insert(k).second) {
				if constexpr(std::is_same<T, int>::value)
					k = (int)((unsigned)k + 1U);
				else
					k += "z";
			}
		}
		auto it = keys.begin();
		for(auto& x : m)
			x.first = *it++;
		env.template add<typename KMap<T>::M>(m);
		return std::move(p) >> Mapped<T, T, R>{R{m}};
	}
};

template <typename T>
struct MuxModel : ModelOf<T, MuxModel<T>> {
	size_t n;
	size_t i = 0;
	size_t (*index)(T const&);
	MuxModel(Env<T>& e, size_t n_, size_t (*f)(T const&))
		: ModelOf<T, MuxModel<T>>(e)
		, n(n_)
		, index(f)
	{
		this->hasExtract = true;
		this->hasTrigger = true;
	}
	T inject(T x) override
	{
		if(n > 1)
			i = index(x);
		return extract();
	}
	T extract() override
	{
		return i < n ? this->env->in[i].value : T{};
	}
	T exit_cast(T) override
	{
		return T{};
	}
	T entry_cast(T) override;
	bool trigger(T& out) override
	{
		if(i >= n || !this->env->in[i].triggered)
			return false;
		auto& in = this->env->in[i];
		if(!in.changed)
			return false;
		in.changed = false;
		this->env->mdl.add(5001, in.value);
		out = in.value;
		return true;
	}
};

template <typename T, int N>
struct KMux;

template <int N>
struct KMux<int, N> {
	template <typename P>
	static auto apply(P&& p, Env<int>& env)
	{
		env.add<MuxModel<int>>((size_t)N, +[](int const& x) { return x < 0 ? (size_t)0 : (size_t)x; });
		if constexpr(N == 1)
			return std::move(p) >> Cast<int, size_t>{} >> Mux<int, 1>{*env.in[0].pipe};
		else
			return std::move(p) >> Cast<int, size_t>{}
			       >> Mux<int, 3>{*(PipeExit<int>*)env.in[0].pipe, *(PipeExit<int>*)env.in[1].pipe,
					      *(PipeExit<int>*)env.in[2].pipe};
	}
};
template <>
inline int MuxModel<int>::entry_cast(int)
{
	return 0;
}

using SM = RandomMap<std::string, size_t, 4>;
inline SM strIndex()
{
	return SM{std::array<std::pair<std::string, size_t>, 4>{
		{{"x", (size_t)0}, {"a", (size_t)1}, {"b", (size_t)2}, {"c", (size_t)3}}}};
}
template <int N>
struct KMux<std::string, N> {
	template <typename P>
	static auto apply(P&& p, Env<std::string>& env)
	{
		using S = std::string;
		env.add<MuxModel<S>>((size_t)N, +[](S const& x) { return strIndex().find(x); });
		if constexpr(N == 1)
			return std::move(p) >> Mapped<S, size_t, SM>{strIndex()} >> Mux<S, 1>{*env.in[0].pipe};
		else
			return std::move(p) >> Mapped<S, size_t, SM>{strIndex()}
			       >> Mux<S, 3>{*(PipeExit<S>*)env.in[0].pipe, *(PipeExit<S>*)env.in[1].pipe,
					    *(PipeExit<S>*)env.in[2].pipe};
	}
};
template <>
inline std::string MuxModel<std::string>::entry_cast(std::string)
{
	return "x";
}

// Only for ints.
struct KSat {
	struct M : ModelOf<int, M> {
		M(Env<int>& e)
			: ModelOf<int, M>(e)
		{}
		int inject(int x) override
		{
			return exit_cast(x);
		}
		int exit_cast(int x) override
		{
			return x < -128 ? -128 : x > 127 ? 127 : x;
		}
		int entry_cast(int x) override
		{
			return exit_cast(x);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<int>& env)
	{
		env.add<M>();
		return std::move(p) >> Cast<int, int8_t>{} >> Cast<int8_t, int>{};
	}
};

struct KScale {
	struct M : ModelOf<int, M> {
		M(Env<int>& e)
			: ModelOf<int, M>(e)
		{}
		static int clip(double x)
		{
			return x >= 2147483647. ? 2147483647 : x <= -2147483648. ? -2147483647 - 1 : (int)std::lround(x);
		}
		int inject(int x) override
		{
			return exit_cast(x);
		}
		int exit_cast(int x) override
		{
			return clip((double)x * 2.);
		}
		int entry_cast(int x) override
		{
			return clip((double)x * .5);
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<int>& env)
	{
		env.add<M>();
		return std::move(p) >> Cast<int, double>{} >> Convert<Scale<double, std::ratio<2, 1>>>{} >> Cast<double, int>{};
	}
};

template <bool variant>
struct KSet {
	struct M : ModelOf<int, M> {
		M(Env<int>& e)
			: ModelOf<int, M>(e)
		{
			this->hasExtract = true;
		}
		int inject(int x) override
		{
			return this->env->object = x;
		}
		int extract() override
		{
			return this->env->object;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<int>& env)
	{
		env.add<M>();
		if constexpr(variant)
			return std::move(p) >> Set<int32_t, stored::Variant<Store>>{env.store.x.variant()};
		else
			return std::move(p) >> Set<int32_t, decltype(env.store.x)&>{env.store.x};
	}
};

template <bool variant>
struct KGet {
	struct M : ModelOf<int, M> {
		M(Env<int>& e)
			: ModelOf<int, M>(e)
		{
			this->hasExtract = true;
			this->hasTrigger = true;
		}
		int inject(int x) override
		{
			return extract();
		}
		int extract() override
		{
			return this->env->object;
		}
		int exit_cast(int) override
		{
			return 0;
		}
		int entry_cast(int) override
		{
			return 0;
		}
		bool trigger(int& out) override
		{
			out = extract();
			return true;
		}
	};
	template <typename P>
	static auto apply(P&& p, Env<int>& env)
	{
		env.add<M>();
		if constexpr(variant)
			return std::move(p) >> Cast<int, bool>{}
			       >> Get<int32_t, stored::Variant<Store>>{env.store.x.variant()};
		else
			return std::move(p) >> Cast<int, bool>{} >> Get<int32_t, decltype(env.store.x)&>{env.store.x};
	}
};

} // namespace pk
#endif
