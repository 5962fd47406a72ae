// The runtime behind clang's -fsanitize=thread instrumentation: scheduling points and heap checks.
static __attribute__((noinline)) void heap_bad(unsigned char s, size_t n, bool w, void* pc)
{
	Dl_info di;
	const char* nm = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
	fail("heap", 0, "heap %s: %s of %zu bytes in %s", s == 0xFD ? "use after free" : "out of bounds", w ? "write" : "read", n, nm);
}
static __attribute__((always_inline)) inline void heap_check(const void* a, size_t n, bool w)
{
	if (!opt.check_heap || !in_arena(a)) return;
	size_t off = (const char*) a - ARENA;
	for (size_t i = off / 16; i <= (off + n - 1) / 16; ++i)
	{
		unsigned char s = SHADOW[i];
		size_t end = std::min(off + n, i * 16 + 16) - i * 16; // bytes needed of this granule
		if (unlikely(s == 0xFD || s < end))
			heap_bad(s, n, w, __builtin_return_address(0));
	}
}
static __attribute__((always_inline)) inline void acc(const void* a, size_t n, bool w)
{
	if (!active) return;
	if (unlikely(!in_arena(a))) return;
	heap_check(a, n, w);
	if (opt.fine) point(w ? "write" : "read");
}
static __attribute__((always_inline)) inline void vacc(const void* a, size_t n, bool w)
{
	if (!active) return;
	if (opt.volatile_points) point(w ? "volatile write" : "volatile read");
	heap_check(a, n, w);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
void __tsan_read##N(void* a) {acc(a, N, false);} \
void __tsan_write##N(void* a) {acc(a, N, true);} \
void __tsan_unaligned_read##N(void* a) {acc(a, N, false);} \
void __tsan_unaligned_write##N(void* a) {acc(a, N, true);} \
void __tsan_read_write##N(void* a) {acc(a, N, true);} \
void __tsan_unaligned_read_write##N(void* a) {acc(a, N, true);} \
void __tsan_volatile_read##N(void* a) {vacc(a, N, false);} \
void __tsan_volatile_write##N(void* a) {vacc(a, N, true);} \
void __tsan_unaligned_volatile_read##N(void* a) {vacc(a, N, false);} \
void __tsan_unaligned_volatile_write##N(void* a) {vacc(a, N, true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) {if (n) acc(a, n, false);}
void __tsan_write_range(void* a, size_t n) {if (n) acc(a, n, true);}
void __tsan_vptr_update(void** a, void*) {acc(a, 8, true);}
void __tsan_vptr_read(void** a) {acc(a, 8, false);}
void* __tsan_memcpy(void* d, const void* s, size_t n) {if (n && active) {heap_check(s, n, false); heap_check(d, n, true);} return memcpy(d, s, n);}
void* __tsan_memmove(void* d, const void* s, size_t n) {if (n && active) {heap_check(s, n, false); heap_check(d, n, true);} return memmove(d, s, n);}
void* __tsan_memset(void* d, int c, size_t n) {if (n && active) heap_check(d, n, true); return memset(d, c, n);}

#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int) {point("atomic load"); if (active) heap_check((const void*) a, N / 8, false); return *a;} \
void __tsan_atomic##N##_store(volatile T* a, T v, int) {point("atomic store"); if (active) heap_check((const void*) a, N / 8, true); *a = v;} \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) {point("atomic exchange"); if (active) heap_check((const void*) a, N / 8, true); T o = *a; *a = v; return o;} \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) {point("atomic add"); if (active) heap_check((const void*) a, N / 8, true); T o = *a; *a = o + v; return o;} \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) {point("atomic sub"); if (active) heap_check((const void*) a, N / 8, true); T o = *a; *a = o - v; return o;} \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) {point("atomic and"); T o = *a; *a = o & v; return o;} \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) {point("atomic or"); T o = *a; *a = o | v; return o;} \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) {point("atomic xor"); T o = *a; *a = o ^ v; return o;} \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) {point("atomic nand"); T o = *a; *a = ~(o & v); return o;} \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {point("atomic cas"); if (active) heap_check((const void*) a, N / 8, true); if (*a == *c) {*a = v; return 1;} *c = *a; return 0;} \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {point("atomic cas"); if (active) heap_check((const void*) a, N / 8, true); if (*a == *c) {*a = v; return 1;} *c = *a; return 0;} \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) {point("atomic cas"); T o = *a; if (o == c) *a = v; return o;}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
