// Stores, with a type-independent interface.
#ifndef VH_BOXES_H
#define VH_BOXES_H
#include "Rich.h"
#include "Two.h"
#include "rich.h"
#include "vh.h"
#include <stored>

#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace box {

using stored::Type;

struct Call {
	void const* store;
	std::string name;
	bool set;
	std::string value;

	bool operator==(Call const& o) const
	{
		return store == o.store && name == o.name && set == o.set && value == o.value;
	}
};

// Administration of function calls of a store.
struct Functions {
	std::map<std::string, std::string> value;
	size_t ret = 0; // bytes returned by string and blob functions
	std::vector<Call>* calls = nullptr;

	template <typename T>
	void call(char const* name, bool set, T& v)
	{
		std::string& s = value[name];
		s.resize(16);
		if(set)
			memcpy(&s[0], &v, sizeof(T));
		else
			memcpy(&v, s.data(), sizeof(T));
		if(calls)
			calls->push_back({this, name, set, std::string((char const*)&v, sizeof(T))});
	}

	size_t call(char const* name, bool set, void* v, size_t len)
	{
		std::string& s = value[name];
		size_t n = std::min(ret, len);
		s.resize(std::max<size_t>(16, len));
		if(set)
			memcpy(&s[0], v, n);
		else
			memcpy(v, s.data(), n);
		if(calls)
			calls->push_back({this, name, set, std::string((char const*)v, set ? len : n)});
		return n;
	}
};

class Rich : public STORE_T(Rich, stored::RichBase) {
	STORE_CLASS(Rich, stored::RichBase)
public:
	Rich() is_default
	Functions fn;

	char* raw()
	{
		return (char*)this->buffer();
	}

#define X(m, n, t)                                                                                 \
	void __##m(bool set, t& value)                                                             \
	{                                                                                          \
		fn.call<t>(n, set, value);                                                         \
	}
	FUNCTIONS(X)
#undef X
	size_t __fs(bool set, char* value, size_t len)
	{
		return fn.call("/fs", set, (void*)value, len);
	}
	size_t __fbl(bool set, void* value, size_t len)
	{
		return fn.call("/fbl", set, value, len);
	}
};

class Two : public STORE_T(Two, stored::TwoBase) {
	STORE_CLASS(Two, stored::TwoBase)
public:
	Two() is_default
	Functions fn;

	char* raw()
	{
		return (char*)this->buffer();
	}

	void __t_us(bool set, uint32_t& value)
	{
		fn.call<uint32_t>("/t (us)", set, value);
	}
	void __flag(bool set, bool& value)
	{
		fn.call<bool>("/flag", set, value);
	}
};

struct Obj {
	std::string name;
	Type::type type; // including FlagFunction
	size_t size;
	size_t offset; // in the buffer

	bool function() const
	{
		return Type::isFunction(type);
	}
	bool fixed() const
	{
		return Type::isFixed(type);
	}
	Type::type base() const
	{
		return (Type::type)((unsigned)type & ~(unsigned)Type::FlagFunction);
	}
};

inline std::string cstr(std::string const& s)
{
	return s.substr(0, s.find('\0'));
}

struct Box {
	virtual ~Box() = default;
	std::vector<Obj> objs;
	std::map<std::string, int> index;
	virtual char const* name() = 0;
	virtual char* raw() = 0;
	virtual size_t rawSize() = 0;
	virtual Functions& fn() = 0;
	virtual void map(stored::Debugger& d, char const* prefix) = 0;
	virtual int find(char const* name, size_t len) = 0; // -1 when not found
	virtual void set(Obj const& o, std::string const& v) = 0;

	// In host order
	std::string value(Obj const& o, char const* buffer)
	{
		char const* p = buffer + o.offset;
		if(o.base() == Type::String)
			return cstr(std::string(p, o.size + 1));
		std::string v(p, o.size);
#ifdef VH_BIG_ENDIAN_STORE
		if(o.fixed())
			v = std::string(v.rbegin(), v.rend());
#endif
		return v;
	}

	std::string value(Obj const& o)
	{
		return o.function() ? fn().value[o.name].substr(0, o.size) : value(o, raw());
	}

	std::vector<std::string> values()
	{
		std::vector<std::string> v;
		for(auto const& o : objs)
			v.push_back(value(o));
		return v;
	}
};

template <typename S>
struct BoxT : Box {
	std::unique_ptr<S> s;
	std::vector<stored::Variant<S>> variants;

	explicit BoxT(std::vector<Call>* calls)
		: s(new S())
	{
		s->list([&](S* store, char const* n, Type::type type, void* buffer, size_t len) {
			Obj o{n, type, len, 0};
			if(!o.function())
				o.offset = (size_t)((char*)buffer - s->raw());
			index[o.name] = (int)objs.size();
			objs.push_back(o);
			if(o.function()) {
				s->fn.value[o.name].resize(64);
				variants.push_back(stored::Variant<S>(*store, type, (unsigned int)(uintptr_t)buffer, len));
			} else
				variants.push_back(stored::Variant<S>(*store, type, buffer, len));
		});
		s->fn.calls = calls;
	}

	char const* name() override
	{
		return s->name();
	}
	char* raw() override
	{
		return s->raw();
	}
	size_t rawSize() override
	{
		return (size_t)S::BufferSize;
	}
	Functions& fn() override
	{
		return s->fn;
	}
	void map(stored::Debugger& d, char const* prefix) override
	{
		d.map(*s, prefix);
	}
	int find(char const* n, size_t len) override
	{
		auto v = s->find(n, len);
		if(!v.valid())
			return -1;
		for(size_t i = 0; i < variants.size(); i++)
			if(v == variants[i])
				return (int)i;
		return -2;
	}
	void set(Obj const& o, std::string const& v) override
	{
		variants[(size_t)index[o.name]].set(v.data(), v.size());
	}
};

} // namespace box
#endif
