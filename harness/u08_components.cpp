// U08: store-based components against reference implementations.
#include "Components.h"
#include "vh.h"
#include <stored>

#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>

using stored::Type;
using vh::Gen;

namespace {

double const inf = std::numeric_limits<double>::infinity();
double const nan_ = std::numeric_limits<double>::quiet_NaN();
double const pi = 3.141592653589793238462643383279502884;

class CStore : public STORE_T(CStore, stored::ComponentsDefaultFunctions, stored::ComponentsBase) {
	STORE_CLASS(CStore, stored::ComponentsDefaultFunctions, stored::ComponentsBase)
public:
	CStore() is_default

	float freq = 1; // of all components
	unsigned freqCalls = 0;

	// Pins
	bool hw[2] = {};
	bool set[2] = {};
	unsigned pinReads[2] = {};
	unsigned pinWrites[2] = {};
	std::function<bool()> onGet;
	std::function<void(bool)> onSet;
	std::function<int8_t()> onGetOverride;
	std::function<void(int8_t)> onSetOverride;

#define FREQ(name)                        \
	void name(bool s, float& value)   \
	{                                 \
		if(!s) {                  \
			value = freq;     \
			freqCalls++;      \
		}                         \
	}
	FREQ(__pid__frequency_Hz)
	FREQ(__pid_d__frequency_Hz)
	FREQ(__pid_m__frequency_Hz)
	FREQ(__pid_i__frequency)
	FREQ(__pid_t__frequency)
	FREQ(__sine__sample_frequency_Hz)
	FREQ(__sine_d__sample_frequency_Hz)
	FREQ(__sine_m__sample_frequency)
	FREQ(__sine_f__sample_frequency)
	FREQ(__pulse__sample_frequency_Hz)
	FREQ(__pulse_d__sample_frequency_Hz)
	FREQ(__pulse_m__sample_frequency)
	FREQ(__pulse_f__sample_frequency)
	FREQ(__filter__sample_frequency_Hz)
	FREQ(__filter_d__sample_frequency_Hz)
	FREQ(__filter_m__sample_frequency)
	FREQ(__filter_r__sample_frequency)
	FREQ(__ramp__sample_frequency_Hz)
	FREQ(__ramp_d__sample_frequency_Hz)
	FREQ(__ramp_m__sample_frequency)
	FREQ(__ramp_s__sample_frequency)
	FREQ(__ramp_a__sample_frequency)

	void __pin__pin(bool s, bool& value)
	{
		if(!s) {
			value = hw[0];
			pinReads[0]++;
		}
	}
	void __pin_o__pin(bool s, bool& value)
	{
		if(!s) {
			value = hw[1];
			pinReads[1]++;
		}
	}
	void __pin__get(bool s, bool& value)
	{
		if(!s && onGet)
			value = onGet();
	}
	void __out__set(bool s, bool& value)
	{
		if(s && onSet)
			onSet(value);
	}
	void __out__override(bool s, int8_t& value)
	{
		if(s) {
			if(onSetOverride)
				onSetOverride(value);
		} else if(onGetOverride)
			value = onGetOverride();
	}
	void __out__pin(bool s, bool& value)
	{
		if(s) {
			set[0] = value;
			pinWrites[0]++;
		}
	}
};

// A store, with the expected value of every variable.
struct World {
	struct Var {
		std::string name;
		stored::Variant<CStore> v;
		double expected;
	};
	CStore store;
	std::vector<Var> vars;
	std::map<std::string, size_t> index;

	static double read(stored::Variant<CStore> v)
	{
		switch(v.type()) {
		case Type::Bool:
			return v.get<bool>();
		case Type::Int8:
			return v.get<int8_t>();
		case Type::Int16:
			return v.get<int16_t>();
		case Type::Int32:
			return v.get<int32_t>();
		case Type::Float:
			return v.get<float>();
		case Type::Double:
			return v.get<double>();
		default:
			abort();
		}
	}

	World()
	{
		store.list([this](void* c, char const* name, Type::type type, void* buffer, size_t len) {
			(void)c;
			(void)buffer;
			(void)len;
			if(Type::isFunction(type))
				return;
			Var v = {name, store.find(name), 0};
			v.expected = read(v.v);
			index[v.name] = vars.size();
			vars.push_back(v);
		});
	}

	Var* find(std::string const& n)
	{
		auto it = index.find(n);
		return it == index.end() ? nullptr : &vars[it->second];
	}
};

bool same(double a, double b)
{
	return a == b || (std::isnan(a) && std::isnan(b));
}

// One component under test.
struct Case {
	Gen& g;
	World w;
	std::string prefix;
	// Field name without unit -> name in store, for used fields only.
	std::map<std::string, std::string> fields;
	size_t steps = 0;

	Case(Gen& g_, std::string const& p, std::vector<std::string> const& only)
		: g(g_)
		, prefix(p)
	{
		for(auto const& v : w.vars)
			if(v.name.compare(0, p.size(), p) == 0) {
				std::string f = v.name.substr(p.size());
				size_t u = f.find(" (");
				if(u != std::string::npos)
					f.resize(u);
				bool use = only.empty();
				for(auto const& o : only)
					use = use || o == f;
				if(use)
					fields[f] = v.name;
			}
		g.note("%s", p.c_str());
		g.cls(p.c_str());
	}

	bool has(char const* f) const
	{
		return fields.count(f) != 0;
	}

	double get(char const* f, double def)
	{
		return has(f) ? w.find(fields[f])->expected : def;
	}

	// Set without checks.
	void expect(char const* f, double x)
	{
		if(has(f))
			w.find(fields[f])->expected = x;
	}

	void set(char const* f, double x)
	{
		if(!has(f))
			return;
		auto* v = w.find(fields[f]);
		switch(v->v.type()) {
		case Type::Bool:
			v->v.set<bool>(x != 0);
			break;
		case Type::Int8:
			v->v.set<int8_t>((int8_t)x);
			break;
		case Type::Int16:
			v->v.set<int16_t>((int16_t)x);
			break;
		case Type::Int32:
			v->v.set<int32_t>((int32_t)x);
			break;
		case Type::Float:
			v->v.set<float>((float)x);
			break;
		default:
			v->v.set<double>(x);
		}
		v->expected = World::read(v->v);
		g.note("  %s = %g", f, v->expected);
	}

	// All variables in the store.
	void check()
	{
		for(auto& v : w.vars) {
			double x = World::read(v.v);
			VH_CHECK(g, same(x, v.expected), "variable", "%s is %.17g, expected %.17g", v.name.c_str(), x, v.expected);
		}
	}
};

// Exact in float for a few operations.
double dyadic(Gen& g, int bound, int div)
{
	return (double)g.range<int>(0, 2 * bound) / div - (double)bound / div;
}

double pow2(Gen& g, int lo, int hi)
{
	return std::ldexp(1.0, g.range<int>(lo, hi));
}

float badFreq(Gen& g)
{
	return g.pick({0.0f, -1.0f, std::numeric_limits<float>::quiet_NaN()});
}

// Either construct right away, or assign later.
template <typename C, typename O>
void construct(Gen& g, std::unique_ptr<C>& c, O const& o, CStore& store)
{
	if(c) {
		*c = C{o, store};
	} else if(g.chance()) {
		c.reset(new C{});
		*c = C{o, store};
	} else
		c.reset(new C{o, store});
}

#define SIMILAR(g, actual, expected, tol, sig)                                                               \
	VH_CHECK(g, same((double)(actual), (double)(expected)) || std::fabs((double)(actual) - (double)(expected)) <= (tol), sig, \
		 "got %.17g, expected %.17g (%g)", (double)(actual), (double)(expected), (double)(tol))

///////////////////////////////////////
// Amplifier

template <typename T, unsigned long long flags, typename O>
void amp(Gen& g, char const* prefix, O const& o, std::vector<std::string> only)
{
	Case c(g, prefix, only);
	typedef stored::Amplifier<CStore, flags, T> A;
	std::unique_ptr<A> a;
	construct(g, a, o, c.w.store);
	c.check();

	bool isInt = std::numeric_limits<T>::is_integer;
	double lo = isInt ? (double)std::numeric_limits<T>::lowest() : -inf;
	double hi = isInt ? (double)std::numeric_limits<T>::max() : inf;
	// float: 24 bits
	auto number = [&]() { return isInt ? (double)g.range<int>(-100, 100) : dyadic(g, 400, 16); };

	c.steps = g.range<size_t>(1, 20);
	bool clipped = false, overridden = false, disabled = false;
	for(size_t s = 0; s < c.steps; s++) {
		switch(g.index(9)) {
		case 0:
			c.set("gain", number());
			break;
		case 1:
			c.set("offset", number());
			break;
		case 2: {
			double l = c.get("low", lo), h = c.get("high", hi);
			double n = !isInt && g.chance(1, 4) ? -inf : number();
			(void)l;
			c.set("low", std::min(n, h));
			break;
		}
		case 3: {
			double l = c.get("low", lo);
			double n = !isInt && g.chance(1, 4) ? inf : number();
			c.set("high", std::max(n, l));
			break;
		}
		case 4:
			c.set("override", g.chance() ? nan_ : number());
			break;
		case 5:
			if(g.chance()) {
				c.set("enable", g.chance());
			} else {
				bool e = g.chance();
				if(e)
					a->enable();
				else
					a->disable();
				g.note("%s", e ? "enable()" : "disable()");
				c.expect("enable", e);
			}
			break;
		case 6:
			c.set("output", number());
			break;
		case 7:
			if(g.chance(1, 3)) {
				construct(g, a, o, c.w.store);
				g.note("assign");
			}
			break;
		default:;
		}
		c.check();

		double in, out;
		T res;
		if(g.chance()) {
			in = number();
			res = (*a)((T)in);
			c.expect("input", in);
		} else {
			c.set("input", number());
			in = c.get("input", 0);
			res = (*a)();
		}
		double l = c.get("low", lo), h = c.get("high", hi), ov = c.get("override", nan_);
		bool en = c.get("enable", 1) != 0;
		if(!std::isnan(ov)) {
			out = ov;
			overridden = true;
		} else {
			double x = en ? in * c.get("gain", 1) + c.get("offset", 0) : in;
			disabled = disabled || !en;
			out = std::min(std::max(l, x), h);
			clipped = clipped || x != out;
		}
		g.note("(%g) -> %g", in, (double)res);
		SIMILAR(g, res, out, isInt ? 0.0 : std::fabs(out) * 1e-6, "output");
		c.expect("output", (double)res);
		c.check();

		SIMILAR(g, a->input(), c.get("input", 0), 0, "getter");
		SIMILAR(g, a->output(), c.get("output", 0), 0, "getter");
		SIMILAR(g, a->gain(), c.get("gain", 1), 0, "getter");
		SIMILAR(g, a->offset(), c.get("offset", 0), 0, "getter");
		SIMILAR(g, a->low(), l, 0, "getter");
		SIMILAR(g, a->high(), h, 0, "getter");
		VH_CHECK(g, a->enabled() == en, "getter", "enabled() is %d", a->enabled());
		if(!isInt)
			SIMILAR(g, a->override_(), ov, 0, "getter");
	}
	g.nontrivial(c.fields.size() < 8 || (clipped && overridden && disabled));
}

#define OBJECTS(Comp, T, prefix, ...) stored::Comp<CStore, 0, T>::template objects<__VA_ARGS__>(prefix)

VH_PROPERTY(amplifier, 8000, 500000, "partial set of variables, or it was clipped, overridden, and disabled")
{
	switch(g.weighted({6, 6, 1, 1, 1, 2, 1})) {
	case 0: {
		constexpr auto o = stored::Amplifier<CStore>::objects("/amp/");
		amp<float, o.flags()>(g, "/amp/", o, {});
		break;
	}
	case 1: {
		constexpr auto o = stored::Amplifier<CStore, 0, double>::objects("/amp d/");
		amp<double, o.flags()>(g, "/amp d/", o, {});
		break;
	}
	case 2: {
		constexpr auto o = stored::Amplifier<CStore>::objects<'g', 'o'>("/amp g/");
		amp<float, o.flags()>(g, "/amp g/", o, {});
		break;
	}
	case 3: {
		constexpr auto o = stored::Amplifier<CStore>::objects<'l', 'h', 'O'>("/amp b/");
		amp<float, o.flags()>(g, "/amp b/", o, {});
		break;
	}
	case 4: {
		constexpr auto o = stored::Amplifier<CStore>::objects<'F', 'e'>("/amp e/");
		amp<float, o.flags()>(g, "/amp e/", o, {"override", "enable"});
		break;
	}
	case 5: {
		constexpr auto o = stored::Amplifier<CStore, 0, int32_t>::objects<'I', 'e', 'g', 'o', 'l', 'h', 'O'>("/amp i/");
		amp<int32_t, o.flags()>(g, "/amp i/", o, {});
		break;
	}
	default: {
		constexpr auto o = stored::Amplifier<CStore, 0, int16_t>::objects<'g', 'o'>("/amp u/");
		amp<int16_t, o.flags()>(g, "/amp u/", o, {});
	}
	}
}

///////////////////////////////////////
// Pins

template <typename P>
struct VirtualPin : public P {
	using P::P;
	bool value = false;
	mutable unsigned reads = 0;
	bool pin() const noexcept override
	{
		reads++;
		return value;
	}
};

bool pinLogic(int ov, bool x)
{
	switch(ov) {
	case 0:
		return false;
	case 1:
		return true;
	case 2:
		return !x;
	default:
		return x;
	}
}

// which: pin function index, or -1
template <typename P, bool Virtual, typename O>
void pinIn(Gen& g, char const* prefix, O const& o, int which)
{
	Case c(g, prefix, {});
	std::unique_ptr<P> p;
	construct(g, p, o, c.w.store);
	if(which == 0)
		c.w.store.onGet = [&]() { return (*p)(); };

	c.steps = g.range<size_t>(1, 20);
	bool hw = false;
	bool seen[4] = {};
	for(size_t s = 0; s < c.steps; s++) {
		if(g.chance(1, 3))
			c.set("override", (double)g.range<int>(-1, 2));
		if(g.chance()) {
			hw = g.chance();
			if constexpr(Virtual)
				p->value = hw;
			else if(which >= 0)
				c.w.store.hw[which] = hw;
		}
		bool haveHw = Virtual || which >= 0;
		if(g.chance(1, 8))
			c.set("input", (double)g.chance());
		c.check();
		int ov = (int)c.get("override", -1);
		VH_CHECK(g, p->override_() == ov, "override", "override_() is %d, expected %d", p->override_(), ov);
		seen[ov + 1] = true;

		bool res, exp;
		int op = (int)g.index(4);
		if(op == 0) {
			bool x = g.chance();
			res = (*p)(x);
			exp = pinLogic(ov, x);
			c.expect("input", exp);
		} else if(op == 1 && which == 0) {
			// via the store
			res = c.w.store.pin__get();
			exp = pinLogic(ov, hw);
			c.expect("input", exp);
		} else if(op == 2) {
			res = p->input();
			exp = c.has("input") ? c.get("input", 0) != 0 : pinLogic(ov, haveHw && hw);
		} else {
			res = (*p)();
			exp = pinLogic(ov, haveHw && hw);
			c.expect("input", exp);
		}
		g.note("override %d, pin %d, op %d -> %d", ov, hw, op, res);
		VH_CHECK(g, res == exp, "pin-in", "got %d, expected %d", res, exp);
		c.check();
	}
	g.nontrivial(!c.has("override") || (seen[0] + seen[1] + seen[2] + seen[3]) >= 3);
}

template <typename P>
struct VirtualOut : public P {
	using P::P;
	bool value = false;
	unsigned writes = 0;
	using P::pin;
	void pin(bool v) noexcept override
	{
		writes++;
		value = v;
	}
};

template <typename P, bool Virtual, typename O>
void pinOut(Gen& g, char const* prefix, O const& o, bool fn)
{
	Case c(g, prefix, {});
	std::unique_ptr<P> p;
	construct(g, p, o, c.w.store);
	auto& store = c.w.store;
	if(fn) {
		store.onSet = [&](bool x) { (*p)(x); };
		store.onGetOverride = [&]() { return p->override_(); };
		store.onSetOverride = [&](int8_t x) { p->override_(x); };
	}

	int ov = -1;
	bool hw = false;
	unsigned writes = 0;
	bool seen[4] = {};
	c.steps = g.range<size_t>(1, 20);
	for(size_t s = 0; s < c.steps; s++) {
		bool res = false;
		switch(g.index(6)) {
		case 0: {
			ov = g.range<int>(-1, 2);
			g.note("override %d", ov);
			if(fn && g.chance())
				store.out__override((int8_t)ov);
			else
				p->override_((int8_t)ov);
			writes++;
			hw = res = pinLogic(ov, c.get("output", 0) != 0);
			break;
		}
		case 1:
			c.set("output", g.chance());
			// not written to the hardware yet
			continue;
		case 2:
			if(fn) {
				bool x = g.chance();
				g.note("set %d", x);
				store.out__set(x);
				c.expect("output", x);
				writes++;
				hw = pinLogic(ov, x);
				break;
			}
			// fall-through
		case 3: {
			bool x = g.chance();
			res = (*p)(x);
			g.note("(%d) -> %d", x, res);
			c.expect("output", x);
			hw = pinLogic(ov, x);
			writes++;
			VH_CHECK(g, res == hw, "pin-out", "got %d, expected %d", res, hw);
			break;
		}
		default: {
			res = (*p)();
			g.note("() -> %d", res);
			hw = pinLogic(ov, c.get("output", 0) != 0);
			writes++;
			VH_CHECK(g, res == hw, "pin-out", "got %d, expected %d", res, hw);
		}
		}
		seen[ov + 1] = true;
		VH_CHECK(g, p->override_() == ov, "override", "override_() is %d, expected %d", p->override_(), ov);
		if(fn)
			VH_CHECK(g, store.out__override() == ov, "override", "override is %d, expected %d", store.out__override(), ov);
		VH_CHECK(g, p->output() == (c.get("output", 0) != 0), "output", "output() is %d", p->output());
		if constexpr(Virtual) {
			VH_CHECK(g, p->value == hw, "hardware", "pin is %d, expected %d", p->value, hw);
			VH_CHECK(g, p->writes == writes, "writes", "%u writes to the pin, expected %u", p->writes, writes);
		} else if(fn) {
			VH_CHECK(g, store.set[0] == hw, "hardware", "pin is %d, expected %d", store.set[0], hw);
			VH_CHECK(g, store.pinWrites[0] == writes, "writes", "%u writes to the pin, expected %u", store.pinWrites[0], writes);
		}
		c.check();
	}
	g.nontrivial((seen[0] + seen[1] + seen[2] + seen[3]) >= 3);
}

VH_PROPERTY(pins, 8000, 500000, "at least three kinds of override, if any is possible")
{
	constexpr auto i1 = stored::PinIn<CStore>::objects("/pin/");
	typedef stored::PinIn<CStore, i1.flags()> I1;
	constexpr auto i2 = stored::PinIn<CStore>::objects<'i'>("/pin i/");
	typedef stored::PinIn<CStore, i2.flags()> I2;
	constexpr auto i3 = stored::PinIn<CStore>::objects<'F', 'p'>("/pin o/");
	typedef stored::PinIn<CStore, i3.flags()> I3;
	constexpr auto i4 = stored::PinIn<CStore>::objects<'F', 'i'>("/pin v/");
	typedef stored::PinIn<CStore, i4.flags()> I4;
	constexpr auto o1 = stored::PinOut<CStore>::objects("/out/");
	typedef stored::PinOut<CStore, o1.flags()> O1;
	constexpr auto o2 = stored::PinOut<CStore>::objects<'o'>("/out o/");
	typedef stored::PinOut<CStore, o2.flags()> O2;
	switch(g.index(9)) {
	case 0:
		pinIn<I1, false>(g, "/pin/", i1, 0);
		break;
	case 1:
		pinIn<I2, false>(g, "/pin i/", i2, -1);
		break;
	case 2:
		pinIn<I3, false>(g, "/pin o/", i3, 1);
		break;
	case 3:
		pinIn<VirtualPin<I4>, true>(g, "/pin v/", i4, -1);
		break;
	case 4:
		pinIn<VirtualPin<I1>, true>(g, "/pin/", i1, 0);
		break;
	case 5:
		pinOut<O1, false>(g, "/out/", o1, true);
		break;
	case 6:
		pinOut<VirtualOut<O1>, true>(g, "/out/", o1, true);
		break;
	case 7:
		pinOut<O2, false>(g, "/out o/", o2, false);
		break;
	default:
		pinOut<VirtualOut<O2>, true>(g, "/out o/", o2, false);
	}
}

///////////////////////////////////////
// PID

template <typename T, unsigned long long flags, typename O>
void pid(Gen& g, char const* prefix, O const& o)
{
	Case c(g, prefix, {});
	typedef stored::PID<CStore, flags, T> P;
	auto& store = c.w.store;
	std::unique_ptr<P> p;

	// Model
	bool started = false;
	double Ki = 0, Kd = 0, I = 0, yPrev = 0, mu = 0;
	auto start = [&]() {
		construct(g, p, o, store);
		started = false;
		Ki = Kd = I = 0;
		mu = c.has("u") ? c.get("u", 0) : std::max(c.get("low", -inf), 0.0);
	};

	// Initial values
	for(size_t i = g.index(12); i > 0; i--) {
		switch(g.index(5)) {
		case 0:
			c.set("int", dyadic(g, 16, 4));
			break;
		case 1:
			c.set("u", dyadic(g, 16, 4));
			break;
		case 2:
			c.set("Ti", pow2(g, -3, 4));
			break;
		case 3:
			c.set("Td", pow2(g, -3, 2));
			break;
		default:
			c.set("Kp", dyadic(g, 16, 4));
		}
	}
	store.freq = (float)pow2(g, 0, 4);
	start();
	c.check();

	bool clipped = false, overridden = false, disabled = false, reset = false;
	double tol = sizeof(T) == sizeof(float) ? 1e-3 : 1e-9;
	double tried = 0;
	c.steps = g.range<size_t>(1, 40);
	for(size_t s = 0; s < c.steps; s++) {
		switch(g.index(24)) {
		case 0:
			c.set("Kp", dyadic(g, 16, 4));
			break;
		case 1:
			c.set("Ti", g.chance(1, 4) ? g.pick({inf, 0.0}) : pow2(g, -3, 4));
			break;
		case 2:
			c.set("Td", g.chance(1, 4) ? 0.0 : pow2(g, -3, 2));
			break;
		case 3:
			c.set("Kff", dyadic(g, 8, 4));
			break;
		case 4:
			c.set("int", dyadic(g, 16, 4));
			break;
		case 5:
			c.set("int low", std::min(c.get("int high", inf), g.chance(1, 4) ? -inf : dyadic(g, 64, 4)));
			break;
		case 6:
			c.set("int high", std::max(c.get("int low", -inf), g.chance(1, 4) ? inf : dyadic(g, 64, 4)));
			break;
		case 7:
			c.set("low", std::min(c.get("high", inf), g.chance(1, 4) ? -inf : dyadic(g, 100, 4)));
			break;
		case 8:
			c.set("high", std::max(c.get("low", -inf), g.chance(1, 4) ? inf : dyadic(g, 100, 4)));
			break;
		case 9:
			c.set("error max", g.chance(1, 4) ? inf : std::fabs(dyadic(g, 32, 4)));
			break;
		case 10:
			c.set("epsilon", g.chance(1, 4) ? inf : std::ldexp(1.0, g.range<int>(-60, 10)));
			break;
		case 11:
		case 12:
			c.set("reset", 1);
			break;
		case 13:
			c.set("override", g.chance(2, 3) ? nan_ : dyadic(g, 200, 4));
			break;
		case 14:
			if(g.chance()) {
				c.set("enable", g.chance(2, 3));
			} else {
				bool e = g.chance(2, 3);
				p->enable(e);
				g.note("enable(%d)", e);
				c.expect("enable", e);
			}
			break;
		case 15:
			store.freq = g.chance(1, 8) ? badFreq(g) : (float)pow2(g, 0, 4);
			g.note("frequency %g", (double)store.freq);
			break;
		case 16:
			if(g.chance(1, 3)) {
				g.note("assign");
				start();
			}
			break;
		case 17:
		case 18:
		case 19:
			c.set("setpoint", dyadic(g, 64, 4));
			break;
		default:;
		}
		c.check();

		double y;
		T res;
		if(g.chance()) {
			y = dyadic(g, 64, 4);
			res = (*p)((T)y);
			c.expect("y", y);
		} else {
			c.set("y", dyadic(g, 64, 4));
			y = c.get("y", 0);
			res = (*p)();
		}

		double ov = c.get("override", nan_), lo = c.get("low", -inf), hi = c.get("high", inf);
		bool en = c.get("enable", 1) != 0;
		double u;
		bool write = true;
		if(!std::isnan(ov)) {
			u = ov;
			overridden = true;
		} else if(!en) {
			u = mu;
			write = false;
			disabled = true;
		} else {
			double e = c.get("setpoint", 0) - y;
			double em = c.get("error max", inf);
			e = std::min(em, std::max(-em, e));
			double Kp = c.get("Kp", 0);
			if(!started || c.get("reset", 0) != 0) {
				reset = reset || started;
				started = true;
				c.expect("reset", 0);
				Ki = Kd = 0;
				yPrev = y;
				if(store.freq > 0) {
					double dt = 1.0 / (double)store.freq;
					double Ti = c.get("Ti", inf);
					if(Ti != 0)
						Ki = Kp * dt / Ti;
					Kd = -Kp * c.get("Td", 0) / dt;
				}
				I = c.get("int", I);
			}
			double x = Kp * e + I + c.get("Kff", 0) * c.get("setpoint", 0);
			double di = Ki * e;
			if((x >= lo || di > 0) && (x <= hi || di < 0)) {
				double i = std::max(c.get("int low", -inf), std::min(c.get("int high", inf), I + di));
				x += i - I;
				I = i;
				if(c.has("int")) {
					auto* v = c.w.find(c.fields["int"]);
					double actual = World::read(v->v);
					SIMILAR(g, actual, I, tol * (1 + std::fabs(I)), "int");
					v->expected = actual;
				}
			} else
				clipped = true;
			if(Kd != 0) {
				x += Kd * (y - yPrev);
				yPrev = y;
			}
			u = std::max(lo, std::min(hi, x));
			VH_CHECK(g, (double)res >= lo && (double)res <= hi, "bounds", "%g is not within [%g,%g]", (double)res, lo, hi);
			tried = std::max(tried, std::fabs(x));
			mu = u;
		}
		g.note("(%g) -> %g", y, (double)res);
		SIMILAR(g, res, u, tol * (1 + tried), "output");
		if(write)
			c.expect("u", (double)res);
		c.check();

		SIMILAR(g, p->u(), u, tol * (1 + tried), "getter");
		SIMILAR(g, p->int_(), I, tol * (1 + std::fabs(I)), "getter");
		SIMILAR(g, p->Ki(), Ki, tol * (1 + std::fabs(Ki)), "getter");
		SIMILAR(g, p->Kd(), Kd, tol * (1 + std::fabs(Kd)), "getter");
		SIMILAR(g, p->y(), c.get("y", 0), 0, "getter");
		SIMILAR(g, p->low(), lo, 0, "getter");
		SIMILAR(g, p->high(), hi, 0, "getter");

		// Can the smallest error still influence the integral?
		double change = c.get("epsilon", inf) * std::fabs(Ki);
		double eps = std::numeric_limits<T>::epsilon() * std::fabs(I);
		if(Ki == 0 || change > 4 * eps)
			VH_CHECK(g, p->isHealthy(), "healthy", "unhealthy, while integral %g can change by %g", I, change);
		else if(change < eps / 8)
			VH_CHECK(g, !p->isHealthy(), "healthy", "healthy, while integral %g cannot change by %g", I, change);
	}
	g.nontrivial(c.fields.size() < 12 || (clipped && reset && (overridden || disabled)));
}

VH_PROPERTY(pidmodel, 8000, 500000, "partial set of variables, or it was reset while running, clipped, and overridden or disabled")
{
	switch(g.weighted({5, 5, 1, 2, 2})) {
	case 0: {
		constexpr auto o = stored::PID<CStore>::objects("/pid/");
		pid<float, o.flags()>(g, "/pid/", o);
		break;
	}
	case 1: {
		constexpr auto o = stored::PID<CStore, 0, double>::objects("/pid d/");
		pid<double, o.flags()>(g, "/pid d/", o);
		break;
	}
	case 2: {
		constexpr auto o = stored::PID<CStore>::objects<'f', 's', 'p'>("/pid m/");
		pid<float, o.flags()>(g, "/pid m/", o);
		break;
	}
	case 3: {
		constexpr auto o = stored::PID<CStore>::objects<'f', 'y', 's', 'p', 'i', 'l', 'h', 'u'>("/pid i/");
		pid<float, o.flags()>(g, "/pid i/", o);
		break;
	}
	default: {
		constexpr auto o =
			stored::PID<CStore, 0, double>::objects<'f', 's', 'p', 'i', 'd', 'e', 'I', '3'>("/pid t/");
		pid<double, o.flags()>(g, "/pid t/", o);
	}
	}
}

// Any finite number: bounds always hold, nothing becomes NaN, and the result is only determined by what was put in.
template <typename T, unsigned long long flags, typename O>
void pidBounds(Gen& g, char const* prefix, O const& o)
{
	Case c(g, prefix, {}), c2(g, prefix, {});
	typedef stored::PID<CStore, flags, T> P;
	auto number = [&]() {
		double m = (double)g.range<int>(0, 2000000) / 1e6 - 1.0;
		return (double)(T)(m * std::pow(10.0, (double)g.range<int>(-3, 5)));
	};
	auto both = [&](char const* f, double x) {
		c.set(f, x);
		c2.set(f, x);
	};
	auto params = [&](size_t n) {
		for(; n > 0; n--)
			switch(g.index(12)) {
			case 0:
				both("Kp", number());
				break;
			case 1:
				both("Ti", g.chance(1, 3) ? inf : std::fabs(number()));
				break;
			case 2:
				both("Td", std::fabs(number()));
				break;
			case 3:
				both("Kff", number());
				break;
			case 4:
				both("int low", std::min(c.get("int high", inf), number()));
				break;
			case 5:
				both("int high", std::max(c.get("int low", -inf), number()));
				break;
			case 6:
				both("low", std::min(c.get("high", inf), number()));
				break;
			case 7:
				both("high", std::max(c.get("low", -inf), number()));
				break;
			case 8:
				both("error max", std::fabs(number()));
				break;
			case 9:
				both("setpoint", number());
				break;
			case 10:
				both("enable", g.chance(3, 4));
				break;
			default:
				both("reset", 1);
			}
	};
	params(g.index(12));
	c.w.store.freq = c2.w.store.freq = (float)std::fabs(number());
	double uPrev = c.get("u", 0);
	P a{o, c.w.store}, b{o, c2.w.store};
	c.steps = g.range<size_t>(1, 60);
	for(size_t s = 0; s < c.steps; s++) {
		params(g.index(3));
		double y = number();
		T ra = a((T)y);
		// Not influenced by anything else.
		T rb;
		if(g.chance()) {
			c2.set("y", y);
			rb = b();
		} else
			rb = b((T)y);
		g.note("(%g) -> %g", y, (double)ra);
		VH_CHECK(g, ra == rb, "deterministic", "%.17g vs %.17g", (double)ra, (double)rb);
		VH_CHECK(g, std::isfinite((double)ra), "finite", "output is %g", (double)ra);
		if(c.get("enable", 1) == 0)
			VH_CHECK(g, (double)ra == uPrev, "disabled", "output changed from %g to %g while disabled", uPrev, (double)ra);
		else {
			VH_CHECK(g, (double)ra >= c.get("low", -inf) && (double)ra <= c.get("high", inf), "bounds", "%g is not within [%g,%g]",
				 (double)ra, c.get("low", -inf), c.get("high", inf));
		}
		uPrev = (double)ra;
		VH_CHECK(g, std::isfinite((double)a.int_()), "finite", "integral is %g", (double)a.int_());
	}
	g.nontrivial(c.steps >= 5);
}

VH_PROPERTY(pidbounds, 4000, 250000, "at least five steps")
{
	if(g.chance()) {
		constexpr auto o = stored::PID<CStore>::objects("/pid/");
		pidBounds<float, o.flags()>(g, "/pid/", o);
	} else {
		constexpr auto o = stored::PID<CStore, 0, double>::objects("/pid d/");
		pidBounds<double, o.flags()>(g, "/pid d/", o);
	}
}

///////////////////////////////////////
// Waves

// Sine or pulse wave.
template <bool IsSine, typename T, typename W, typename O>
void wave(Gen& g, char const* prefix, O const& o)
{
	Case c(g, prefix, {});
	auto& store = c.w.store;
	std::unique_ptr<W> w;
	construct(g, w, o, store);
	// Time, exact when all frequencies are powers of two.
	double t = 0;
	bool exactF = c.has("frequency");
	if(exactF)
		c.set("frequency", pow2(g, -2, 3));
	store.freq = (float)pow2(g, 0, 10);

	bool overridden = false, disabled = false, phased = false, periods = false, stable = true;
	size_t since = 0;
	c.steps = g.range<size_t>(1, 60);
	for(size_t s = 0; s < c.steps; s++) {
		switch(g.index(16)) {
		case 0:
			c.set("amplitude", dyadic(g, 100, 4));
			break;
		case 1: {
			c.set("frequency", g.chance(1, 6) ? 0.0 : pow2(g, -2, 3));
			double f = c.get("frequency", 1);
			// Restarting at an unspecified point in the new period.
			stable = !(f > 0) || t < 1.0 / f;
			break;
		}
		case 2: {
			c.set("phase", dyadic(g, 40, 4));
			break;
		}
		case 3:
			c.set("offset", dyadic(g, 100, 4));
			break;
		case 4:
			c.set("override", g.chance(2, 3) ? nan_ : dyadic(g, 100, 4));
			break;
		case 5:
			if(g.chance()) {
				c.set("enable", g.chance(2, 3));
			} else {
				bool e = g.chance(2, 3);
				w->enable(e);
				g.note("enable(%d)", e);
				c.expect("enable", e);
			}
			break;
		case 6:
			c.set("duty cycle", (double)g.range<int>(0, 16) / 16);
			break;
		case 7:
			store.freq = g.chance(1, 6) ? badFreq(g) : (float)pow2(g, 0, 10);
			g.note("sample frequency %g", (double)store.freq);
			break;
		case 8:
			if(g.chance(1, 3)) {
				construct(g, w, o, store);
				t = 0;
				stable = true;
				g.note("assign");
			}
			break;
		default:;
		}
		c.check();

		T res = (*w)();

		double A = c.get("amplitude", 1), ph = c.get("phase", 0), ov = c.get("override", nan_);
		double f = c.get("frequency", IsSine ? 1.0 / (2 * pi) : 1.0);
		double period = f > 0 ? 1 / f : 0;
		g.note("t %g -> %g", t, (double)res);
		if(!std::isnan(ov)) {
			SIMILAR(g, res, ov, 0, "override");
			overridden = true;
		} else if(c.get("enable", 1) == 0) {
			SIMILAR(g, res, IsSine ? c.get("offset", 0) : 0.0, 0, "disabled");
			disabled = true;
		} else if constexpr(IsSine) {
			double exp = A * std::sin(2 * pi * f * t + ph) + c.get("offset", 0);
			SIMILAR(g, res, exp, 2e-3 * std::fabs(A) + 1e-5 * (1 + std::fabs(exp)), "sine");
			VH_CHECK(g, std::fabs((double)res - c.get("offset", 0)) <= std::fabs(A) * (1 + 1e-5) + 1e-5 * std::fabs(c.get("offset", 0)),
				 "bounds", "%g exceeds the amplitude", (double)res);
		} else {
			VH_CHECK(g, (double)res == A || res == 0, "pulse-level", "got %g, amplitude is %g", (double)res, A);
			double duty = c.get("duty cycle", 0.5);
			if(period > 0 && stable) {
				double x = t / period + ph / (2 * pi);
				x -= std::floor(x);
				// Unclear around the edges because of rounding
				double margin = ph == 0 ? (exactF ? 0 : 1e-3) : 1e-3;
				bool edge = std::fabs(x - duty) < margin || x < margin || x > 1 - margin;
				if(!edge)
					SIMILAR(g, res, x < duty ? A : 0.0, 0, "pulse");
			}
		}
		phased = phased || ph != 0;

		if(period > 0 && store.freq > 0) {
			double n = t + 1.0 / (double)store.freq;
			t = std::fmod(n, period);
			periods = periods || n != t;
			stable = true;
		}
		since++;
		c.expect("output", (double)res);
		c.check();

		SIMILAR(g, w->output(), c.get("output", 0), 0, "getter");
		SIMILAR(g, w->amplitude(), A, 0, "getter");
		SIMILAR(g, w->frequency(), f, 1e-6, "getter");
		SIMILAR(g, w->phase(), ph, 0, "getter");
		VH_CHECK(g, w->isHealthy(), "healthy", "unhealthy with normal numbers");
	}

	// Extreme numbers
	if(g.chance(1, 4) && store.freq > 0 && c.get("frequency", 1) > 0) {
		int kind = (int)g.index(2);
		if(kind == 0 && c.has("phase")) {
			c.set("phase", 1e25);
			VH_CHECK(g, !w->isHealthy(), "healthy", "healthy, with too large phase");
		} else if(kind == 1 && c.has("frequency") && sizeof(T) == 4) {
			store.freq = 1e6f;
			c.set("frequency", 1e-5);
			VH_CHECK(g, !w->isHealthy(), "healthy", "healthy, with too large period");
		}
	}
	g.nontrivial(periods && (c.fields.size() < 6 || (phased && overridden && disabled)));
}

VH_PROPERTY(waves, 8000, 400000, "more than one period, and either a partial set of variables, or shifted, overridden and disabled")
{
#define WAVE(C, sine, T, prefix, ...)                                           \
	{                                                                       \
		constexpr auto o = OBJECTS(C, T, prefix, __VA_ARGS__);          \
		wave<sine, T, stored::C<CStore, o.flags(), T>>(g, prefix, o);   \
		break;                                                          \
	}
	switch(g.weighted({4, 4, 1, 1, 4, 4, 1, 1})) {
	case 0:
		WAVE(Sine, true, float, "/sine/")
	case 1:
		WAVE(Sine, true, double, "/sine d/")
	case 2:
		WAVE(Sine, true, float, "/sine m/", 's')
	case 3:
		WAVE(Sine, true, float, "/sine f/", 's', 'f', 'O')
	case 4:
		WAVE(PulseWave, false, float, "/pulse/")
	case 5:
		WAVE(PulseWave, false, double, "/pulse d/")
	case 6:
		WAVE(PulseWave, false, float, "/pulse m/", 's')
	default:
		WAVE(PulseWave, false, double, "/pulse f/", 's', 'f', 'd', 'O')
	}
}

///////////////////////////////////////
// Filters

template <bool Low, typename T, typename F, typename O>
void filter(Gen& g, char const* prefix, O const& o)
{
	Case c(g, prefix, {});
	auto& store = c.w.store;
	std::unique_ptr<F> f;
	construct(g, f, o, store);
	auto number = [&]() {
		double m = (double)g.range<int>(0, 2000) / 1e3 - 1.0;
		return (double)(T)(m * std::pow(10.0, (double)g.range<int>(-3, 3)));
	};
	store.freq = (float)(1 + g.size(1000));

	// Model
	bool started = false;
	double alpha = 0, x1 = 0, y1 = 0, lo = 0, hi = 0;
	double mag = 0;
	bool overridden = false, disabled = false, reset = false, invalid = false;
	size_t ran = 0;
	double hold = nan_;

	c.steps = g.range<size_t>(1, 60);
	for(size_t s = 0; s < c.steps; s++) {
		switch(g.index(16)) {
		case 0:
			c.set("cutoff frequency", g.chance(1, 8) ? 0.0 : std::fabs(number()));
			break;
		case 1:
		case 2:
			c.set("reset", 1);
			break;
		case 3:
			c.set("override", g.chance(2, 3) ? nan_ : number());
			break;
		case 4:
			if(g.chance()) {
				c.set("enable", g.chance(2, 3));
			} else {
				bool e = g.chance(2, 3);
				f->enable(e);
				g.note("enable(%d)", e);
				c.expect("enable", e);
			}
			break;
		case 5:
			store.freq = g.chance(1, 8) ? badFreq(g) : (float)(1 + g.size(1000));
			g.note("sample frequency %g", (double)store.freq);
			break;
		case 6:
			if(g.chance(1, 3)) {
				construct(g, f, o, store);
				started = invalid = false;
				x1 = y1 = 0;
				g.note("assign");
			}
			break;
		case 7:
			hold = g.chance() ? nan_ : number();
			break;
		default:;
		}
		c.check();

		double x;
		T res;
		if(g.chance()) {
			x = std::isnan(hold) ? number() : hold;
			if(g.chance(1, 30))
				x = nan_;
			res = (*f)((T)x);
			c.expect("input", x);
		} else {
			c.set("input", std::isnan(hold) ? number() : hold);
			x = c.get("input", 0);
			res = (*f)();
		}
		g.note("(%g) -> %g", x, (double)res);
		if(std::isfinite(x))
			mag = std::max(mag, std::fabs(x));
		double tol = (sizeof(T) == 4 ? 1e-4 : 1e-6) * mag;

		double ov = c.get("override", nan_);
		if(!std::isnan(ov)) {
			SIMILAR(g, res, ov, 0, "override");
			y1 = x;
			lo = hi = x;
			overridden = true;
			// Not processed.
			invalid = std::isnan(x);
		} else if(c.get("enable", 1) == 0) {
			SIMILAR(g, res, x, 0, "disabled");
			y1 = x;
			lo = hi = x;
			disabled = true;
			invalid = std::isnan(x);
		} else {
			bool doReset = c.get("reset", 0) != 0;
			c.expect("reset", 0);
			if(!started) {
				doReset = true;
				// As if the input had this value before.
				x1 = y1 = x;
				lo = hi = x;
				invalid = std::isnan(x);
			}
			reset = reset || (started && doReset);
			started = true;
			if(doReset) {
				double fc = c.get("cutoff frequency", 0);
				double rc = fc > 0 ? 1 / (2 * pi * fc) : 0;
				double dt = store.freq > 0 ? 1.0 / (double)store.freq : 0;
				if(Low)
					alpha = dt > 0 ? dt / (rc + dt) : 1;
				else
					alpha = rc > 0 ? rc / (rc + dt) : 1;
				if(invalid && !std::isnan(x)) {
					// Recover from NaN.
					x1 = y1 = x;
					lo = hi = x;
					invalid = false;
				}
			}
			if(std::isnan(x))
				invalid = true;
			if(!invalid) {
				double y = Low ? alpha * x + (1 - alpha) * y1 : alpha * (y1 + x - x1);
				SIMILAR(g, res, y, tol, "filter");
				lo = std::min(lo, x);
				hi = std::max(hi, x);
				if(Low)
					VH_CHECK(g, (double)res >= lo - tol && (double)res <= hi + tol, "bounds", "%g is outside of the inputs %g..%g",
						 (double)res, lo, hi);
				y1 = (double)res; // Prevent accumulation of errors
				ran++;
			} else
				VH_CHECK(g, std::isnan((double)res), "nan", "got %g for invalid input", (double)res);
		}
		x1 = x;
		c.expect("output", (double)res);
		c.check();
		SIMILAR(g, f->input(), c.get("input", 0), 0, "getter");
		SIMILAR(g, f->output(), c.get("output", 0), 0, "getter");
		SIMILAR(g, f->cutoffFrequency(), c.get("cutoff frequency", 0), 0, "getter");
	}
	g.nontrivial(ran > 3 && (c.fields.size() < 6 || (reset && (overridden || disabled))));
}

VH_PROPERTY(filters, 8000, 400000, "more than three samples, and a partial set of variables, or a reset while running, and an override or disabled")
{
#define FILTER(low, T, prefix, ...)                                                              \
	{                                                                                        \
		constexpr auto o = OBJECTS(LowPass, T, prefix, __VA_ARGS__);                     \
		filter<low, T, stored::FirstOrderFilter<CStore, low, o.flags(), T>>(g, prefix, o); \
		break;                                                                           \
	}
	switch(g.index(8)) {
	case 0:
		FILTER(true, float, "/filter/")
	case 1:
		FILTER(false, float, "/filter/")
	case 2:
		FILTER(true, double, "/filter d/")
	case 3:
		FILTER(false, double, "/filter d/")
	case 4:
		FILTER(true, float, "/filter m/", 's', 'c')
	case 5:
		FILTER(false, float, "/filter m/", 's', 'c')
	case 6:
		FILTER(true, double, "/filter r/", 's', 'c', 'r', 'O')
	default:
		FILTER(false, double, "/filter r/", 's', 'c', 'r', 'O')
	}
}

///////////////////////////////////////
// Ramp

template <typename T, typename R, typename O>
void ramp(Gen& g, char const* prefix, O const& o)
{
	Case c(g, prefix, {});
	auto& store = c.w.store;
	std::unique_ptr<R> r;
	construct(g, r, o, store);

	double eps = (double)std::numeric_limits<T>::epsilon();
	// The sample frequency is fixed while it is running.
	auto limits = [&](size_t n, bool freq) {
		for(; n > 0; n--)
			switch(g.index(freq ? 3 : 2)) {
			case 0:
				c.set("speed limit", g.chance(1, 4) ? inf : 0.1 * (double)g.range<int>(1, 200));
				break;
			case 1:
				c.set("acceleration limit", g.chance(1, 4) ? inf : 0.1 * (double)g.range<int>(1, 200));
				break;
			default:
				store.freq = g.chance() ? (float)pow2(g, 0, 5) : (float)g.range<int>(1, 50);
				g.note("sample frequency %g", (double)store.freq);
			}
	};
	limits(g.index(5), true);

	// Model
	double sl = inf, al = inf, dt = 1; // Currently in effect
	bool started = false;
	double x = 0;		     // position
	double v = 0;		     // last change of position
	double alt = 0;		     // or this one, if it may not have come to rest yet
	bool arrived = true;	     // v is not a regular speed
	double inherited = 0;	     // higher speed, from before
	double largest = 1;	     // position
	double target = nan_;	     // since
	size_t atTarget = 0;	     // steps towards target
	double startX = 0;	     // at rest
	bool fromRest = false;
	double distance = 0;
	bool moved = false, overridden = false, disabled = false, reached = false, reset = false;

	size_t phases = g.range<size_t>(1, 12);
	size_t total = 0;
	double in = 0;
	for(size_t p = 0; p < phases; p++) {
		bool resetNow = false;
		switch(g.index(12)) {
		case 0:
			limits(g.index(3), false);
			break;
		case 1:
			limits(g.index(4), false);
			// fall-through
		case 2:
			c.set("reset", 1);
			break;
		case 3:
			c.set("override", g.chance(2, 3) ? nan_ : dyadic(g, 100, 4));
			break;
		case 4:
			if(g.chance()) {
				c.set("enable", g.chance(2, 3));
			} else {
				bool e = g.chance(2, 3);
				r->enable(e);
				g.note("enable(%d)", e);
				c.expect("enable", e);
			}
			break;
		case 5:
			if(g.chance(1, 3)) {
				construct(g, r, o, store);
				started = false;
				x = v = alt = inherited = 0;
				arrived = true;
				target = nan_;
				g.note("assign");
				limits(g.index(3), true);
			}
			break;
		default:
			in = dyadic(g, 1000, g.pick({1, 10, 100}));
		}
		(void)resetNow;

		size_t n = g.chance(1, 3) ? 1 + g.size(30) : 1 + g.size(400);
		if(total + n > 3000)
			n = 1;
		total += n;
		g.note("input %g, %zu steps", in, n);
		bool viaStore = c.has("input") && g.chance();
		if(viaStore)
			c.set("input", in);

		for(size_t k = 0; k < n; k++) {
			double xin = (double)(T)in;
			T res;
			if(viaStore)
				res = (*r)();
			else {
				res = (*r)((T)in);
				c.expect("input", xin);
			}
			double out = (double)res;
			VH_CHECK(g, std::isfinite(out), "finite", "output is %g", out);

			double ov = c.get("override", nan_);
			if(!std::isnan(ov)) {
				SIMILAR(g, out, ov, 0, "override");
				overridden = true;
				// Resumes from where it was, at rest
				v = alt = 0;
				arrived = true;
				inherited = 0;
				target = nan_;
			} else {
				bool en = c.get("enable", 1) != 0;
				if(!started || c.get("reset", 0) != 0) {
					reset = reset || started;
					started = true;
					c.expect("reset", 0);
					dt = store.freq > 0 ? 1.0 / (double)store.freq : 0;
					double osl = sl;
					sl = c.get("speed limit", inf);
					al = c.get("acceleration limit", inf);
					if(!(sl >= osl))
						inherited = std::max({inherited, std::fabs(v) * (1 + 1e-3), std::fabs(alt) * (1 + 1e-3)});
					// Acceleration has a different step size now; v is rounded to it.
					arrived = true;
					target = nan_;
				}
				if(sl == inf && al == inf) {
					SIMILAR(g, out, xin, 0, "no-limits");
					// Speed is unlimited, but starts at rest afterwards.
					v = alt = 0;
					arrived = true;
					inherited = 0;
					target = nan_;
				} else if(!en) {
					SIMILAR(g, out, xin, 0, "disabled");
					disabled = true;
					v = alt = out - x;
					arrived = true;
					inherited = std::fabs(v) * (1 + 1e-3);
					target = nan_;
				} else {
					largest = std::max({largest, std::fabs(x), std::fabs(xin), std::fabs(out)});
					double round = 8 * eps * largest + eps * 400;
					double vNow = out - x;
					double unit = std::min(al * dt, sl) * dt;
					// Speed
					double max = std::max(sl * dt, inherited);
					if(inherited > sl * dt && !(inherited > unit))
						inherited = 0;
					VH_CHECK(g, std::fabs(vNow) <= max * (1 + 1e-4) + round + (inherited > 0 ? 2 * unit : 0), "speed",
						 "moved by %g in one step, the limit is %g", vNow, max);
					if(inherited > 0) {
						// Must slow down to the limit. The acceleration may be lower than the limit,
						// as the speed limit is a multiple of it.
						inherited = std::fabs(vNow) <= sl * dt * (1 + 1e-4) + round
								    ? 0
								    : std::max(0.0, inherited - 0.499 * unit);
					}
					// Acceleration
					double dv = std::min(std::fabs(vNow - v), std::fabs(vNow - alt));
					double maxDv = (out == xin || arrived ? 2 : 1) * unit;
					if(al != inf)
						VH_CHECK(g, dv <= maxDv * (1 + 1e-3) + 2 * round, "acceleration",
							 "speed changed from %g to %g, the limit is %g", v, vNow, unit);
					moved = moved || vNow != 0;

					// Convergence
					if(!(target == xin)) {
						target = xin;
						atTarget = 0;
						// The real speed may be one unit off.
						fromRest = v == 0 && alt == 0;
						startX = x;
						distance = std::fabs(xin - x);
						double v0 = std::max(std::fabs(v), std::fabs(alt));
						if(unit > 0)
							distance += v0 * v0 / unit + 2 * v0;
					}
					atTarget++;
					if(fromRest) {
						// Straight towards the target.
						double lo = std::min(startX, xin) - unit - round, hi = std::max(startX, xin) + unit + round;
						VH_CHECK(g, out >= lo && out <= hi, "overshoot", "output %g outside of %g..%g", out, startX, xin);
						VH_CHECK(g, xin >= startX ? vNow >= -unit - round : vNow <= unit + round, "backwards", "moved by %g, from %g to %g", vNow,
							 startX, xin);
					}
					// Time to travel, with ample margin.
					double steps = 10 + 3 * std::sqrt(distance / unit) * 2;
					if(sl != inf)
						steps += 3 * distance / (sl * dt);
					if((double)atTarget > steps) {
						VH_CHECK(g, out == xin, "not-reached", "output is %g after %zu steps, expected %g", out, atTarget, xin);
						reached = true;
					}
					// It may also just pass by.
					arrived = out == xin && std::fabs(vNow) <= unit + round;
					v = arrived ? 0 : vNow;
					alt = vNow;
					if(arrived)
						inherited = 0;
				}
				x = out;
			}
			c.expect("output", out);
			if(k < 3 || k + 1 == n)
				g.note(" -> %.9g", out);
			// Passing by at a very high speed may require more precision than available.
			if(al == inf || largest * eps * 64 <= std::min(al * dt, sl) * dt)
				VH_CHECK(g, r->isHealthy(), "healthy", "unhealthy with normal numbers");
		}
		c.check();
		SIMILAR(g, r->speedLimit(), c.get("speed limit", inf), 0, "getter");
		SIMILAR(g, r->accelerationLimit(), c.get("acceleration limit", inf), 0, "getter");
		SIMILAR(g, r->output(), c.get("output", 0), 0, "getter");
	}
	(void)overridden;
	(void)disabled;
	g.nontrivial(moved && reached && (c.fields.size() < 5 || reset));
}

VH_PROPERTY(ramps, 4000, 150000, "moved, reached the target, and was reset while running if possible")
{
#define RAMP(T, prefix, ...)                                                    \
	{                                                                       \
		constexpr auto o = OBJECTS(Ramp, T, prefix, __VA_ARGS__);       \
		ramp<T, stored::Ramp<CStore, o.flags(), T>>(g, prefix, o);      \
		break;                                                          \
	}
	switch(g.weighted({4, 4, 1, 2, 2})) {
	case 0:
		RAMP(float, "/ramp/")
	case 1:
		RAMP(double, "/ramp d/")
	case 2:
		RAMP(float, "/ramp m/", 's')
	case 3:
		RAMP(float, "/ramp s/", 's', 'v', 'r', 'O')
	default:
		RAMP(double, "/ramp a/", 's', 'a', 'r', 'O')
	}
}

} // namespace
