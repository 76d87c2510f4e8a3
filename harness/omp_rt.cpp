// A small OpenMP runtime for replaying data races: the threads of a parallel region run one after another, every access of
// the instrumented code (-fsanitize=thread inserts the calls) is recorded per thread, and accesses of two threads to the same
// byte, at least one of them a write, are reported. Not a detector that depends on timing: the same inputs, the same report.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace
{
	int threads = 1;
	bool races = false;
	int level = 0, tid = 0, team = 1;
	bool logging = false;
	std::uintptr_t stackTop = 0;

	// recorded bytes: address -> bit set of reading and writing threads (open addressing, plain arrays: no instrumented code)
	constexpr std::size_t SIZE = std::size_t{1} << 22;
	struct Cell { std::uintptr_t addr; std::uint32_t r, w, a; };
	Cell* table = nullptr;
	std::size_t used = 0;

	Cell* Find(std::uintptr_t a)
	{
		std::size_t h = (a*0x9E3779B97F4A7C15ull) >> 40;
		for (;; h++)
		{
			Cell& c = table[h & (SIZE - 1)];
			if (c.addr == a) { return &c; }
			if (c.addr == 0)
			{
				if (++used > SIZE/2) { std::fprintf(stderr, "race log full\n"); std::_Exit(3); }
				c.addr = a;
				return &c;
			}
		}
	}
	void Log(const void* p, std::size_t n, int kind)
	{
		if (!logging || n == 0) { return; }
		const auto a = reinterpret_cast<std::uintptr_t>(p);
		char here;
		const auto sp = reinterpret_cast<std::uintptr_t>(&here);
		if (a >= sp - 65536 && a < stackTop) { return; }	// the thread's own stack
		for (std::size_t k = 0; k < n; k++)
		{
			Cell* c = Find(a + k);
			const auto bit = std::uint32_t{1} << tid;
			(kind == 0 ? c->r : kind == 1 ? c->w : c->a) |= bit;
		}
	}
	void Report()
	{
		for (std::size_t h = 0; h < SIZE; h++)
		{
			const Cell& c = table[h];
			if (c.addr == 0) { continue; }
			const auto all = c.r | c.w | c.a;
			const bool bad = (c.w && (all & (all - 1))) || (c.a && ((c.r | c.w) & ~c.a)) || (c.a && (c.r | c.w) && (all & (all - 1)));
			if (bad)
			{
				std::fprintf(stderr, "VPFAIL race %x %x\n", c.r, c.w);
				break;
			}
		}
	}
}

extern "C"
{
	void vp_threads(int n) { threads = n; }
	void vp_races(int on) { races = on != 0; }

	struct Ident;
	using Micro = void (*)(int*, int*, ...);
	__attribute__((noinline)) void __kmpc_fork_call(Ident*, int argc, Micro fn, ...)
	{
		void* v[32];
		va_list ap;
		va_start(ap, fn);
		for (int i = 0; i < argc && i < 32; i++) { v[i] = va_arg(ap, void*); }
		va_end(ap);
		const int T = level > 0 ? 1 : threads;
		const int oldTeam = team, oldTid = tid;
		level++;
		team = T;
		const bool log = races && T > 1 && level == 1;
		if (log)
		{
			if (table == nullptr) { table = static_cast<Cell*>(std::calloc(SIZE, sizeof(Cell))); }
			std::memset(table, 0, SIZE*sizeof(Cell));
			used = 0;
			stackTop = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0));
		}
		for (int t = 0; t < T; t++)
		{
			int g = t, b = t;
			tid = t;
			if (log) { logging = true; }
			switch (argc)
			{
			case 0: fn(&g, &b); break;
			case 1: fn(&g, &b, v[0]); break;
			case 2: fn(&g, &b, v[0], v[1]); break;
			case 3: fn(&g, &b, v[0], v[1], v[2]); break;
			case 4: fn(&g, &b, v[0], v[1], v[2], v[3]); break;
			default:
				fn(&g, &b, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]); break;
			}
			logging = false;
		}
		team = oldTeam; tid = oldTid;
		level--;
		if (log) { Report(); }
	}
	int __kmpc_global_thread_num(Ident*) { return tid; }
	void __kmpc_push_num_threads(Ident*, int, int) {}
	void __kmpc_serialized_parallel(Ident*, int) {}
	void __kmpc_end_serialized_parallel(Ident*, int) {}
	void __kmpc_barrier(Ident*, int) {}
	void __kmpc_critical(Ident*, int, void*) {}
	void __kmpc_end_critical(Ident*, int, void*) {}
	int __kmpc_reduce(Ident*, int, int, std::size_t, void*, void (*)(void*, void*), void*) { return 1; }
	int __kmpc_reduce_nowait(Ident*, int, int, std::size_t, void*, void (*)(void*, void*), void*) { return 1; }
	void __kmpc_end_reduce(Ident*, int, void*) {}
	void __kmpc_end_reduce_nowait(Ident*, int, void*) {}
	int __kmpc_master(Ident*, int) { return tid == 0; }
	void __kmpc_end_master(Ident*, int) {}
	int __kmpc_single(Ident*, int) { return tid == 0; }
	void __kmpc_end_single(Ident*, int) {}
	void __kmpc_for_static_fini(Ident*, int) {}
	int omp_get_thread_num() { return tid; }
	int omp_get_num_threads() { return team; }
	int omp_get_max_threads() { return threads; }
	int omp_in_parallel() { return level > 0; }
	void omp_set_num_threads(int) {}
}

template<typename T, typename S>
static void StaticInit(int sched, int* last, T* lo, T* up, S* st, S incr, S chunk)
{
	const T l = *lo, u = *up;
	*last = 0;
	if ((incr > 0 && u < l) || (incr < 0 && u > l)) { return; }
	const std::uint64_t trip = incr > 0 ? static_cast<std::uint64_t>(u - l)/incr + 1 : static_cast<std::uint64_t>(l - u)/(-incr) + 1;
	const std::uint64_t N = team, t = tid;
	if ((sched & 0xffff) == 33)
	{
		const S ch = chunk < 1 ? 1 : chunk;
		const S span = ch*incr;
		*st = span*static_cast<S>(N);
		*lo = l + static_cast<T>(span*static_cast<S>(t));
		*up = *lo + static_cast<T>(span - incr);
		*last = t == ((trip - 1)/ch) % N;
		return;
	}
	const std::uint64_t q = trip/N, e = trip % N;
	const std::uint64_t cnt = q + (t < e ? 1 : 0), start = t*q + (t < e ? t : e);
	*st = static_cast<S>(trip)*incr;
	if (cnt == 0) { *lo = u + static_cast<T>(incr); *up = u; return; }
	*lo = l + static_cast<T>(static_cast<S>(start)*incr);
	*up = *lo + static_cast<T>(static_cast<S>(cnt - 1)*incr);
	*last = *up == l + static_cast<T>(static_cast<S>(trip - 1)*incr);
}
namespace
{
	struct Disp { std::uint64_t lo, next, trip; std::int64_t step; } disp[64];
}
#define STATIC(N, T, S) \
	extern "C" void __kmpc_for_static_init_##N(Ident*, int, int sched, int* last, T* lo, T* up, S* st, S incr, S chunk) \
	{ StaticInit<T, S>(sched, last, lo, up, st, incr, chunk); } \
	extern "C" void __kmpc_dispatch_init_##N(Ident*, int, int, T lo, T up, S st, S) \
	{ \
		const bool any = (st > 0 && up >= lo) || (st < 0 && up <= lo); \
		disp[tid & 63] = { static_cast<std::uint64_t>(lo), static_cast<std::uint64_t>(tid), \
			any ? (st > 0 ? static_cast<std::uint64_t>(up - lo)/st + 1 : static_cast<std::uint64_t>(lo - up)/(-st) + 1) : 0, st }; \
	} \
	extern "C" int __kmpc_dispatch_next_##N(Ident*, int, int* last, T* lo, T* up, S* st) \
	{ \
		Disp& d = disp[tid & 63]; \
		if (d.next >= d.trip) { return 0; } \
		*lo = *up = static_cast<T>(d.lo + d.next*static_cast<std::uint64_t>(d.step)); \
		*st = static_cast<S>(d.step); *last = d.next == d.trip - 1; \
		d.next += team; \
		return 1; \
	} \
	extern "C" void __kmpc_dispatch_deinit_##N(Ident*, int) {}
STATIC(4, std::int32_t, std::int32_t)
STATIC(4u, std::uint32_t, std::int32_t)
STATIC(8, std::int64_t, std::int64_t)
STATIC(8u, std::uint64_t, std::int64_t)

// memory released inside a region is not reused: the addresses of two threads' temporaries stay distinct
void operator delete(void* p) noexcept { if (!logging) { std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (!logging) { std::free(p); } }
void operator delete[](void* p) noexcept { if (!logging) { std::free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (!logging) { std::free(p); } }

#define RW(N) \
	extern "C" void __tsan_read##N(void* p) { Log(p, N, 0); } \
	extern "C" void __tsan_write##N(void* p) { Log(p, N, 1); } \
	extern "C" void __tsan_unaligned_read##N(void* p) { Log(p, N, 0); } \
	extern "C" void __tsan_unaligned_write##N(void* p) { Log(p, N, 1); } \
	extern "C" void __tsan_volatile_read##N(void* p) { Log(p, N, 0); } \
	extern "C" void __tsan_volatile_write##N(void* p) { Log(p, N, 1); } \
	extern "C" void __tsan_unaligned_volatile_read##N(void* p) { Log(p, N, 0); } \
	extern "C" void __tsan_unaligned_volatile_write##N(void* p) { Log(p, N, 1); } \
	extern "C" void __tsan_read_write##N(void* p) { Log(p, N, 0); Log(p, N, 1); } \
	extern "C" void __tsan_unaligned_read_write##N(void* p) { Log(p, N, 0); Log(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(N, T) \
	extern "C" T __tsan_atomic##N##_load(const volatile T* p, int) { Log(const_cast<T*>(p), sizeof(T), 2); return *p; } \
	extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); *p = v; } \
	extern "C" T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = v; return o; } \
	extern "C" T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = o + v; return o; } \
	extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = o - v; return o; } \
	extern "C" T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = o & v; return o; } \
	extern "C" T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = o | v; return o; } \
	extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; *p = o ^ v; return o; } \
	extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
	{ Log(const_cast<T*>(p), sizeof(T), 2); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) \
	{ Log(const_cast<T*>(p), sizeof(T), 2); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) \
	{ Log(const_cast<T*>(p), sizeof(T), 2); T o = *p; if (o == c) { *p = v; } return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_read_range(void* p, unsigned long n) { Log(p, n, 0); }
	void __tsan_write_range(void* p, unsigned long n) { Log(p, n, 1); }
	void __tsan_vptr_update(void** p, void*) { Log(p, 8, 1); }
	void __tsan_vptr_read(void** p) { Log(p, 8, 0); }
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
	void* __tsan_memcpy(void* d, const void* s, unsigned long n) { Log(s, n, 0); Log(d, n, 1); return std::memcpy(d, s, n); }
	void* __tsan_memmove(void* d, const void* s, unsigned long n) { Log(s, n, 0); Log(d, n, 1); return std::memmove(d, s, n); }
	void* __tsan_memset(void* d, int c, unsigned long n) { Log(d, n, 1); return std::memset(d, c, n); }
}
