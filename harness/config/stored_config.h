// Configuration of libstored for the verification harnesses.
//
// It provides an allocator that counts live allocations and can inject
// allocation failures. The config is tunable by preprocessor defines.
#ifndef LIBSTORED_CONFIG_H
#	error Do not include this file directly, include <stored> instead.
#endif

#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H

#	ifdef __cplusplus
#		include <cstddef>
#		include <cstdlib>
#		include <new>

namespace vhcfg {
struct AllocState {
	long live;	// allocations
	long liveBytes;
	long total;	// number of allocations ever
	long failAfter; // when >=0, fail when it hits 0; decremented by every allocation
	bool failOnce;
	long failures;
};
// Defined in vh.cpp. Not thread-safe, but only used with fault injection on one thread.
extern AllocState allocState;

inline void* alloc(size_t size)
{
	AllocState& s = allocState;
	if(s.failAfter >= 0) {
		if(s.failAfter == 0) {
			s.failures++;
			if(s.failOnce)
				s.failAfter = -1;
			throw std::bad_alloc();
		}
		s.failAfter--;
	}
	void* p = malloc(size ? size : 1);
	if(!p)
		throw std::bad_alloc();
#		ifndef VH_NO_ALLOC_STATS
	__atomic_add_fetch(&s.live, 1, __ATOMIC_RELAXED);
	__atomic_add_fetch(&s.liveBytes, (long)size, __ATOMIC_RELAXED);
	__atomic_add_fetch(&s.total, 1, __ATOMIC_RELAXED);
#		endif
	return p;
}

inline void dealloc(void* p, size_t size) noexcept
{
	(void)size;
	if(p) {
#		ifndef VH_NO_ALLOC_STATS
		AllocState& s = allocState;
		__atomic_add_fetch(&s.live, -1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&s.liveBytes, -(long)size, __ATOMIC_RELAXED);
#		endif
	}
	free(p);
}

template <typename T>
class Allocator {
public:
	using value_type = T;

	Allocator() noexcept = default;
	template <typename A>
	Allocator(Allocator<A> const&) noexcept
	{}

	value_type* allocate(size_t n)
	{
		return (value_type*)alloc(sizeof(value_type) * n);
	}

	void deallocate(value_type* p, size_t n) noexcept
	{
		dealloc(p, sizeof(value_type) * n);
	}

	template <typename U>
	struct rebind {
		typedef Allocator<U> other;
	};

	template <typename U>
	bool operator==(Allocator<U> const&) const noexcept
	{
		return true;
	}
	template <typename U>
	bool operator!=(Allocator<U> const&) const noexcept
	{
		return false;
	}
};
} // namespace vhcfg

namespace stored {
struct Config : public DefaultConfig {
	template <typename T>
	struct Allocator {
		typedef vhcfg::Allocator<T> type;
	};

#		ifndef VH_NO_MEM
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
#		else
	static bool const DebuggerReadMem = false;
	static bool const DebuggerWriteMem = false;
#		endif
#		ifdef VH_AVOID_DYNAMIC
	static bool const AvoidDynamicMemory = true;
#		endif
#		ifdef VH_STREAM_OVERFLOW
	static size_t const DebuggerStreamBufferOverflow = VH_STREAM_OVERFLOW;
#		endif
#		ifdef VH_BIG_ENDIAN_STORE
	static bool const StoreInLittleEndian = false;
#		endif
#		ifdef VH_NO_UNALIGNED
	static bool const UnalignedAccess = false;
#		endif
#		ifdef VH_STREAM_BUFFER
	static size_t const DebuggerStreamBuffer = VH_STREAM_BUFFER;
#		endif
#		ifdef VH_STREAMS
	static int const DebuggerStreams = VH_STREAMS;
#		endif
#		ifdef VH_NO_COMPRESS_STREAMS
	static bool const CompressStreams = false;
#		endif
#		ifdef VH_MACRO
	static int const DebuggerMacro = VH_MACRO;
#		endif
#		ifdef VH_ALIAS
	static int const DebuggerAlias = VH_ALIAS;
#		endif
};
} // namespace stored
#	endif // __cplusplus
#endif
