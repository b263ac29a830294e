#ifndef PIPES_RUN_H
#define PIPES_RUN_H
#include "pipes_kit.h"

namespace pk {

// A composition, type-erased.
template <typename T>
struct Subject {
	bool open = false;
	bool hasExtract = false;
	virtual ~Subject() = default;
	virtual Pipe<T, T>& pipe() = 0;
	virtual T exitCast(T const& x) = 0;
	virtual T entryCast(T const& x) = 0;
	virtual std::unique_ptr<Subject> copy() = 0;
};

template <typename T, typename P>
struct SubjectOf : public Subject<T> {
	P p;
	template <typename F>
	SubjectOf(F&& f, int)
		: p(f())
	{}
	SubjectOf(SubjectOf const& s)
		: Subject<T>(s)
		, p((P const&)s.p)
	{}
	Pipe<T, T>& pipe() override
	{
		return p;
	}
	T exitCast(T const& x) override
	{
		return p.exit_cast(x);
	}
	T entryCast(T const& x) override
	{
		return p.entry_cast(x);
	}
	std::unique_ptr<Subject<T>> copy() override
	{
		return std::unique_ptr<Subject<T>>(new SubjectOf(*this));
	}
};

template <typename P, typename T>
auto chain(P&& p, Env<T>&)
{
	return std::move(p);
}

template <typename K, typename... Ks, typename P, typename T>
auto chain(P&& p, Env<T>& env)
{
	if constexpr(sizeof...(Ks) == 0)
		return K::apply(std::move(p), env);
	else
		return chain<Ks...>(K::apply(std::move(p), env), env);
}

template <typename T, bool open, typename... K>
std::unique_ptr<Subject<T>> compose(Env<T>& env)
{
	if constexpr(open) {
		auto f = [&]() { return chain<K...>(Entry<T>{}, env) >> Exit{}; };
		auto* s = new SubjectOf<T, decltype(f())>(f, 0);
		s->open = true;
		return std::unique_ptr<Subject<T>>(s);
	} else {
		auto f = [&]() { return chain<K...>(Entry<T>{}, env) >> Cap{}; };
		return std::unique_ptr<Subject<T>>(new SubjectOf<T, decltype(f())>(f, 0));
	}
}

constexpr size_t lcg(size_t seed, size_t i)
{
	uint64_t x = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 0x1234567;
	x ^= x >> 31;
	x *= 0xBF58476D1CE4E5B9ull;
	x ^= x >> 29;
	x *= 0x94D049BB133111EBull;
	x ^= x >> 32;
	return (size_t)x;
}

template <typename T, typename Kinds, size_t seed, size_t... I>
std::unique_ptr<Subject<T>> random_(Env<T>& env, std::index_sequence<I...>)
{
	// The first segment is taken from the list one by one, so all are used.
	return compose<
		T, lcg(seed, 98) % 4 != 0, std::tuple_element_t<seed % std::tuple_size<Kinds>::value, Kinds>,
		std::tuple_element_t<lcg(seed, I + 1) % std::tuple_size<Kinds>::value, Kinds>...>(env);
}

template <typename T, typename Kinds, size_t seed>
std::unique_ptr<Subject<T>> random(Env<T>& env)
{
	return random_<T, Kinds, seed>(env, std::make_index_sequence<lcg(seed, 0) % 5>{});
}

template <typename T>
using Factory = std::unique_ptr<Subject<T>> (*)(Env<T>&);

template <typename T>
std::vector<Factory<T>>& registry()
{
	static std::vector<Factory<T>> r;
	return r;
}

template <typename T, typename Kinds, size_t first, size_t... I>
bool enlist_(std::index_sequence<I...>)
{
	(registry<T>().push_back(&random<T, Kinds, first + I>), ...);
	return true;
}

template <typename T, typename Kinds, size_t first, size_t n>
bool enlist()
{
	return enlist_<T, Kinds, first>(std::make_index_sequence<n>{});
}

using IntKinds = std::tuple<
	KBuffer<int>, KTriggered<int>, KTee<int, 1>, KModify<int, false>, KIdentity<int>, KLog<int>, KCall<int, false>,
	KCall<int, true>, KModify<int, true>, KTransistor<int, false>, KTransistor<int, true>,
	KChanges<int, std::equal_to<int>>, KChanges<int, Loose<int>>, KRate<int>, KConstrained<int>, KConvert<int>,
	KSignal<int>, KMap<int>, KOrderedMap<int>, KMux<int, 1>, KMux<int, 3>, KSat, KScale, KSet<false>, KSet<true>,
	KGet<false>, KGet<true>, KTee<int, 3>, KBuffer<int>, KTriggered<int>, KRate<int>>;

using StrKinds = std::tuple<
	KBuffer<std::string>, KTriggered<std::string>, KTee<std::string, 1>, KModify<std::string, false>,
	KIdentity<std::string>, KLog<std::string>, KCall<std::string, false>, KCall<std::string, true>,
	KModify<std::string, true>, KTransistor<std::string, false>, KChanges<std::string, std::equal_to<std::string>>,
	KRate<std::string>, KConstrained<std::string>, KConvert<std::string>, KSignal<std::string>, KMap<std::string>,
	KOrderedMap<std::string>, KMux<std::string, 1>, KMux<std::string, 3>, KTee<std::string, 3>, KBuffer<std::string>>;

// The instances are distributed over several translation units.
void enlist0();
void enlist1();
void enlist2();
void enlist3();
void enlist4();
void enlist5();
void enlist6();

} // namespace pk
#endif
