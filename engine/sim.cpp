// Stateless model checker runtime. See sim.h and DESIGN.md.
// One kernel thread; pthreads are fibers; clock, epoll and sockets are virtual; every execution is a forked child.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <poll.h>
#include <dlfcn.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/personality.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <cxxabi.h>
#include <map>
#include <deque>
#include <set>
#include <algorithm>
#include <sstream>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ============================================================================================ heap
namespace {
char* const ARENA = (char*) 0x200000000000ull;
const size_t ARENA_SZ = 1ull << 32;
unsigned char* const SHADOW = (unsigned char*) 0x210000000000ull;
char* const STACKS = (char*) 0x220000000000ull;
const size_t STACK_SZ = 512 << 10, STACK_GAP = 64 << 10;
const int MAXF = 96;
size_t arena_top = 0;
bool arena_ready = false;
bool quarantine = false; // set once the execution runs: freed memory is poisoned in the shadow

void arena_init()
{
	void* p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* s = mmap(SHADOW, ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != ARENA || s != SHADOW) {static const char m[] = "arena mmap failed\n"; (void) !::syscall(SYS_write, 2, m, sizeof m - 1); _exit(70);}
	arena_ready = true;
	arena_top = 64;
}
inline void* arena_alloc(size_t n, size_t align)
{
	if (unlikely(!arena_ready)) arena_init();
	if (align < 16) align = 16;
	size_t off = arena_top + 32; // 16 bytes of header, 16 of redzone
	off = (off + align - 1) & ~(align - 1);
	size_t end = off + ((n + 15) & ~(size_t) 15);
	if (end + 64 > ARENA_SZ) {errno = ENOMEM; return NULL;}
	arena_top = end;
	*(size_t*) (ARENA + off - 16) = n;
	unsigned char* sh = SHADOW + off / 16;
	size_t full = n / 16;
	memset(sh, 16, full);
	if (n % 16) sh[full] = n % 16;
	return ARENA + off;
}
inline void poison(void* p, size_t n) {if (n) memset(SHADOW + ((char*) p - ARENA) / 16, 0xFD, (n + 15) / 16);}
inline bool in_arena(const void* p) {return (size_t) ((const char*) p - ARENA) < ARENA_SZ;}
}
extern "C" {
void* malloc(size_t n) noexcept {return arena_alloc(n, 16);}
void free(void* p) noexcept
{
	if (!p || !in_arena(p)) return;
	size_t n = *(size_t*) ((char*) p - 16);
	unsigned char s0 = SHADOW[((char*) p - ARENA) / 16];
	if (n && s0 == 0xFD && quarantine) sim::fail("heap", 0, "double free of %zu bytes", n);
	if (quarantine && n <= 65536) memset(p, 0xDD, n);
	poison(p, n);
	if (!quarantine && (char*) p + ((n + 15) & ~(size_t) 15) == ARENA + arena_top) {/* top block: leave, keep it simple */}
}
void* calloc(size_t a, size_t b) noexcept {return arena_alloc(a * b, 16);} // fresh mmap memory is zero, nothing is reused
void* realloc(void* p, size_t n) noexcept
{
	if (!p) return arena_alloc(n, 16);
	size_t o = *(size_t*) ((char*) p - 16);
	void* q = arena_alloc(n, 16);
	memcpy(q, p, o < n ? o : n);
	free(p);
	return q;
}
void* memalign(size_t al, size_t n) noexcept {return arena_alloc(n, al);}
void* aligned_alloc(size_t al, size_t n) noexcept {return arena_alloc(n, al);}
int posix_memalign(void** r, size_t al, size_t n) noexcept {*r = arena_alloc(n, al); return *r ? 0 : ENOMEM;}
size_t malloc_usable_size(void* p) noexcept {return p ? *(size_t*) ((char*) p - 16) : 0;}
}

// ============================================================================================ shared memory with the explorer
namespace sim {
Options opt;

struct Dev {uint32_t at; uint16_t alt; uint16_t cost;};
const int MAXDEV = 48;
struct Job {uint16_t n; uint16_t cost; uint32_t hash; Dev d[MAXDEV];};
const uint32_t MAXPTS = 400000;
enum {ST_NONE = 0, ST_OK, ST_FAIL, ST_DIVERGED};
struct Exec { // written by the child
	volatile int status;
	uint32_t npts;
	uint64_t steps;
	uint64_t outcome;
	uint32_t threads;
	char outcome_text[512];
	char msg[2048];
	struct P {uint8_t cat; uint8_t n; uint8_t pad[2]; uint32_t hash;} pts[MAXPTS];
};
static Exec* ex;
static Job job;
static int job_pos;
static uint32_t pt_hash;
static bool active = false, verbose_ = false;
static int atomic_depth = 0;
static bool window_ = true;
void window(bool on) {window_ = on;}
static std::map<std::string, int64_t>* params;
static std::vector<Scenario>* scenarios;
void register_scenario(const Scenario& s) {if (!scenarios) scenarios = new std::vector<Scenario>; scenarios->push_back(s);}
int64_t param(const char* n, int64_t d) {if (!params) return d; auto i = params->find(n); return i == params->end() ? d : i->second;}
bool verbose() {return verbose_;}

static void real_write(int fd, const char* p, size_t n) {while (n) {ssize_t r = ::syscall(SYS_write, fd, p, n); if (r <= 0) return; p += r; n -= r;}}

[[noreturn]] static void leave(int status)
{
	ex->status = status;
	_exit(status == ST_OK ? 0 : 1);
}

// ============================================================================================ fibers
enum Wait {W_NONE, W_MUTEX, W_COND, W_JOIN, W_TIME, W_EPOLL, W_PRED, W_IDLE};
struct Fiber {
	int id;
	void* sp;
	bool used, done, is_pthread, detached, signaled, timed_out;
	Wait wait;
	void* obj;
	int64_t deadline; // ns, -1: none
	const std::function<bool()>* pred;
	const char* what;
	uint64_t wait_seq;
	void* (*start)(void*);
	void* arg;
	void* ret;
	std::function<void()>* fn;
	int err;
	void* eh[2];
	void* tls[64];
	char name[24];
};
static Fiber fibers[MAXF];
static int nf = 0, cur = 0;
static uint64_t wait_counter = 0;
static int64_t now_ns = 1700000000ll * 1000000000ll;
static const int64_t T0 = 1700000000ll * 1000000000ll;

extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void vtrace(const char* fmt, va_list ap)
{
	char b[1024];
	int n = snprintf(b, sizeof b, "[%9.3f F%d %s] ", (now_ns - T0) / 1e6, cur, fibers[cur].name);
	n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
	if (n > (int) sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	real_write(2, b, n);
}
static void trace(const char* fmt, ...) {if (!verbose_) return; va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);}
void logf(const char* fmt, ...) {if (!verbose_) return; va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);}

void fail(const char* file, int line, const char* fmt, ...)
{
	static bool again = false;
	if (again) _exit(3);
	again = true;
	const char* b = strrchr(file, '/');
	char m[1800];
	va_list ap; va_start(ap, fmt);
	vsnprintf(m, sizeof m, fmt, ap);
	va_end(ap);
	if (!ex) {fprintf(stderr, "FAIL %s\n", m); _exit(1);}
	snprintf(ex->msg, sizeof ex->msg, "%s [%s:%d]", m, b ? b + 1 : file, line);
	if (verbose_) {trace("FAIL: %s", ex->msg);}
	leave(ST_FAIL);
}

static const char* wait_name(Fiber& f)
{
	switch (f.wait)
	{
	case W_MUTEX: return "mutex"; case W_COND: return "condition"; case W_JOIN: return "join"; case W_TIME: return "sleep";
	case W_EPOLL: return "epoll"; case W_PRED: return f.what ? f.what : "pred"; case W_IDLE: return "idle"; default: return "run";
	}
}

static bool epoll_ready(void* ep);
static bool ready(Fiber& f)
{
	if (!f.used || f.done) return false;
	switch (f.wait)
	{
	case W_NONE: return true;
	case W_MUTEX: if (0 == ((int*) f.obj)[2]) return true; break;
	case W_COND: if (f.signaled) return true; break;
	case W_JOIN: if (fibers[(intptr_t) f.obj].done) return true; break;
	case W_EPOLL: if (epoll_ready(f.obj)) return true; break;
	case W_PRED: {++atomic_depth; bool r = (*f.pred)(); --atomic_depth; if (r) return true; break;}
	case W_TIME: break;
	case W_IDLE: return false;
	}
	return f.deadline >= 0 && now_ns >= f.deadline;
}

static int choice(Cat cat, int n, const char* tag)
{
	if (n <= 1 || (!window_ && cat != C_FREE)) return 0;
	uint32_t i = ex->npts++;
	if (i >= opt.max_points || i >= MAXPTS) fail("sim", 0, "no progress: more than %u choice points in one execution (livelock)", i);
	ex->pts[i].cat = cat;
	ex->pts[i].n = n > 255 ? 255 : n;
	pt_hash = (pt_hash ^ (uint32_t) (cat * 1000 + n * 16 + cur)) * 16777619u;
	ex->pts[i].hash = pt_hash;
	int alt = 0;
	if (job_pos < job.n && job.d[job_pos].at == i)
	{
		alt = job.d[job_pos++].alt;
		if (job_pos == job.n && job.hash && job.hash != pt_hash)
		{
			snprintf(ex->msg, sizeof ex->msg, "execution diverged while replaying a prefix (point %u)", i);
			leave(ST_DIVERGED);
		}
		if (alt >= n)
		{
			snprintf(ex->msg, sizeof ex->msg, "execution diverged while replaying a prefix (point %u, alternative %d of %d)", i, alt, n);
			leave(ST_DIVERGED);
		}
	}
	if (verbose_ && alt) trace("point %u (%s, %d alternatives): alternative %d", i, tag, n, alt);
	else if (verbose_ && getenv("SIM_POINTS")) trace("point %u (%s, %d alternatives)", i, tag, n);
	return alt;
}

static void switch_to(int id)
{
	if (id == cur) return;
	Fiber& a = fibers[cur];
	Fiber& b = fibers[id];
	void** g = (void**) abi::__cxa_get_globals();
	a.eh[0] = g[0]; a.eh[1] = g[1];
	a.err = errno;
	cur = id;
	g[0] = b.eh[0]; g[1] = b.eh[1];
	errno = b.err;
	if (verbose_ && getenv("SIM_SWITCH")) trace("-- switch");
	sim_switch(&a.sp, b.sp);
	// back in `a` (cur was set by whoever switched here)
}

static int64_t next_deadline()
{
	int64_t d = -1;
	for (int i = 0; i < nf; ++i)
	{
		Fiber& f = fibers[i];
		if (f.used && !f.done && f.wait != W_NONE && f.deadline > now_ns && (d < 0 || f.deadline < d)) d = f.deadline;
	}
	return d;
}
static void advance(int64_t d)
{
	now_ns = d;
	if ((now_ns - T0) / 1000000 > opt.horizon_ms) fail("sim", 0, "no progress: virtual time horizon (%lld ms) reached", (long long) opt.horizon_ms);
}

static void deadlock()
{
	std::string s;
	for (int i = 0; i < nf; ++i) if (fibers[i].used && !fibers[i].done)
		s += std::string(s.empty() ? "" : ", ") + fibers[i].name + ":" + wait_name(fibers[i]);
	fail("sim", 0, "deadlock: every thread waits forever (%s)", s.c_str());
}

// the current fiber cannot go on (its wait is set, or it is done)
static void block()
{
	for (;;)
	{
		int r[MAXF], n = 0;
		for (int k = 1; k <= nf; ++k)
		{
			int i = (cur + k) % nf;
			if (i == cur && fibers[i].done) continue;
			if (ready(fibers[i])) r[n++] = i;
		}
		if (0 == n)
		{
			int idle = -1;
			for (int i = 0; i < nf && idle < 0; ++i) if (fibers[i].used && !fibers[i].done && fibers[i].wait == W_IDLE) idle = i;
			if (idle >= 0)
			{
				fibers[idle].wait = W_NONE;
				if (idle != cur) switch_to(idle);
				if (fibers[cur].wait == W_NONE) return;
				continue;
			}
			int64_t d = next_deadline();
			if (d < 0) deadlock();
			advance(d);
			continue;
		}
		int alts = opt.sched && window_ && !atomic_depth ? n : 1;
		int64_t d = -1;
		if (opt.time_jump && !atomic_depth && (d = next_deadline()) >= 0) ++alts;
		int c = choice(C_SCHED, alts, "next thread");
		if (c >= n) {advance(d); continue;}
		int id = r[c];
		Fiber& f = fibers[id];
		if (f.wait == W_COND && !f.signaled) f.timed_out = true;
		if (f.wait == W_EPOLL || f.wait == W_PRED) f.timed_out = f.deadline >= 0 && now_ns >= f.deadline;
		f.wait = W_NONE;
		if (id != cur) switch_to(id);
		if (fibers[cur].wait == W_NONE) return;
	}
}

static inline void point(const char* tag)
{
	if (!active || atomic_depth) return;
	if (++ex->steps > opt.max_steps) fail("sim", 0, "no progress: more than %llu steps in one execution (livelock)", (unsigned long long) opt.max_steps);
	if (!opt.sched || nf < 2 || !window_) return;
	for (;;)
	{
		int r[MAXF], n = 0;
		for (int k = 1; k < nf; ++k)
		{
			int i = (cur + k) % nf;
			if (ready(fibers[i])) r[n++] = i;
		}
		int alts = n + 1;
		int64_t d = -1;
		if (opt.time_jump && (d = next_deadline()) >= 0) ++alts;
		int c = choice(C_SCHED, alts, tag);
		if (0 == c) return;
		if (c > n) {advance(d); continue;}
		int id = r[c - 1];
		Fiber& f = fibers[id];
		if (f.wait == W_COND && !f.signaled) f.timed_out = true;
		if (f.wait == W_EPOLL || f.wait == W_PRED) f.timed_out = f.deadline >= 0 && now_ns >= f.deadline;
		f.wait = W_NONE;
		switch_to(id);
		return;
	}
}

static void run_tls_dtors();
static void fiber_main()
{
	Fiber& f = fibers[cur];
	if (f.fn) (*f.fn)();
	else f.ret = f.start(f.arg);
	run_tls_dtors();
	trace("thread ends");
	fibers[cur].done = true;
	block();
	_exit(71);
}

static int new_fiber(const char* name)
{
	if (nf >= MAXF) fail("sim", 0, "too many threads");
	int id = nf++;
	Fiber& f = fibers[id];
	memset((void*) &f, 0, sizeof f);
	f.id = id; f.used = true; f.deadline = -1;
	snprintf(f.name, sizeof f.name, "%s", name);
	char* base = STACKS + (size_t) id * (STACK_SZ + STACK_GAP) + STACK_GAP;
	if (base != mmap(base, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0)) _exit(72);
	void** sp = (void**) (base + STACK_SZ - 64);
	*--sp = 0;
	*--sp = (void*) fiber_main; // return address
	for (int i = 0; i < 6; ++i) *--sp = 0;
	f.sp = sp;
	return id;
}

int spawn(const char* name, const std::function<void()>& fn)
{
	int id = new_fiber(name);
	fibers[id].fn = new std::function<void()>(fn);
	point("spawn");
	return id;
}
void join(int id)
{
	point("join");
	if (fibers[id].done) return;
	Fiber& f = fibers[cur];
	f.wait = W_JOIN; f.obj = (void*) (intptr_t) id; f.deadline = -1;
	block();
}
void yield_point() {point("harness");}
int choose(int n, const char* tag) {int c = choice(C_FREE, n, tag); return c;}
int choose_dev(int n, const char* tag) {return choice(C_HARN, n, tag);}
void wait_until(const std::function<bool()>& pred, const char* what) {wait_for(pred, -1, what);}
bool wait_for(const std::function<bool()>& pred, int64_t ms, const char* what)
{
	point("wait");
	Fiber& f = fibers[cur];
	if (pred()) return true;
	if (atomic_depth) fail("sim", 0, "blocking inside an atomic section");
	f.wait = W_PRED; f.pred = &pred; f.what = what; f.deadline = ms < 0 ? -1 : now_ns + ms * 1000000;
	block();
	f.deadline = -1;
	return pred();
}
static void sleep_until(int64_t t)
{
	Fiber& f = fibers[cur];
	f.wait = W_TIME; f.deadline = t;
	block();
	f.deadline = -1;
}
void sleep_ms(int64_t ms) {sleep_until(now_ns + ms * 1000000);}
int64_t now_ms() {return (now_ns - T0) / 1000000;}
int64_t now_us() {return (now_ns - T0) / 1000;}
int self() {return cur;}
bool idle_others() {for (int i = 0; i < nf; ++i) if (i != cur && ready(fibers[i])) return false; return true;}
void settle() {Fiber& f = fibers[cur]; f.wait = W_IDLE; f.deadline = -1; block();}
void atomic_begin() {++atomic_depth;}
void atomic_end() {--atomic_depth;}
size_t live_threads() {size_t n = 0; for (int i = 0; i < nf; ++i) if (fibers[i].used && fibers[i].is_pthread && !fibers[i].done) ++n; return n;}
void outcome(const std::string& s)
{
	for (size_t i = 0; i < s.size(); ++i) ex->outcome = (ex->outcome ^ (unsigned char) s[i]) * 1099511628211ull;
	ex->outcome = (ex->outcome ^ 0xff) * 1099511628211ull;
	size_t l = strlen(ex->outcome_text);
	snprintf(ex->outcome_text + l, sizeof ex->outcome_text - l, "%s%s", l ? ";" : "", s.c_str());
	trace("outcome: %s", s.c_str());
}
void finish() {leave(ST_OK);}

// ============================================================================================ pthread keys
static void (*key_dtor[64])(void*);
static int nkeys = 1;
static void run_tls_dtors()
{
	for (int round = 0; round < 4; ++round)
		for (int k = 1; k < nkeys; ++k)
		{
			void* v = fibers[cur].tls[k];
			if (v && key_dtor[k]) {fibers[cur].tls[k] = NULL; key_dtor[k](v);}
		}
}
} // namespace sim
using namespace sim;

extern "C" {
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {if (nkeys >= 64) return EAGAIN; key_dtor[nkeys] = d; *k = nkeys++; return 0;}
int pthread_key_delete(pthread_key_t k) noexcept {if (k < 64) key_dtor[k] = NULL; return 0;}
void* pthread_getspecific(pthread_key_t k) noexcept {return k < 64 ? fibers[cur].tls[k] : NULL;}
int pthread_setspecific(pthread_key_t k, const void* v) noexcept {if (k >= 64) return EINVAL; fibers[cur].tls[k] = (void*) v; return 0;}

// ============================================================================================ threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
	if (!active) return EAGAIN;
	char nm[24]; snprintf(nm, sizeof nm, "thr%d", nf);
	int id = new_fiber(nm);
	Fiber& f = fibers[id];
	f.start = fn; f.arg = arg; f.is_pthread = true;
	int ds = 0;
	if (a && 0 == pthread_attr_getdetachstate(a, &ds) && ds == PTHREAD_CREATE_DETACHED) f.detached = true;
	*t = (pthread_t) (0x1000 + id);
	trace("create thread F%d", id);
	point("pthread_create");
	return 0;
}
int pthread_join(pthread_t t, void** r)
{
	size_t id = (size_t) t - 0x1000;
	if (id >= (size_t) nf) return ESRCH;
	sim::join((int) id);
	if (r) *r = fibers[id].ret;
	return 0;
}
int pthread_detach(pthread_t t) noexcept {size_t id = (size_t) t - 0x1000; if (id < (size_t) nf) fibers[id].detached = true; return 0;}
pthread_t pthread_self() noexcept {return (pthread_t) (0x1000 + cur);}
int sched_yield() noexcept
{
	if (!active) return 0;
	// a yielding thread lets everybody else run first: a spin loop with yield is a wait, not a schedule
	int r[MAXF], n = 0;
	for (int k = 1; k < nf; ++k) {int i = (cur + k) % nf; if (ready(fibers[i])) r[n++] = i;}
	if (++ex->steps > opt.max_steps) fail("sim", 0, "no progress: spinning");
	if (n) {int c = choice(C_SCHED, n, "yield"); fibers[r[c]].wait = W_NONE; switch_to(r[c]);}
	return 0;
}

// ============================================================================================ mutex: [0]=count [2]=owner+1 [4]=kind [6]=flags
static std::map<void*, bool>* callers;
static bool caller_is_point(void* ra)
{
	if (!callers) callers = new std::map<void*, bool>;
	auto i = callers->find(ra);
	if (i != callers->end()) return i->second;
	Dl_info di;
	bool p = true;
	if (dladdr(ra, &di))
	{
		const char* n = di.dli_sname;
		static Dl_info me; if (!me.dli_fbase) dladdr((void*) &caller_is_point, &me);
		if (di.dli_fbase != me.dli_fbase) p = false;
		else if (n && (strstr(n, "N5boost4asio") || strstr(n, "5beast") || strstr(n, "posix_mutex"))) p = false;
	}
	(*callers)[ra] = p;
	return p;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
	int* w = (int*) m;
	memset(m, 0, sizeof *m);
	int type = 0;
	if (a) pthread_mutexattr_gettype(a, &type);
	w[4] = type;
	w[6] = caller_is_point(__builtin_return_address(0)) ? 0 : 1; // 1: not a scheduling point
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	int* w = (int*) m;
	if (active && w[2]) fail("sim", 0, "a locked mutex is destroyed");
	return 0;
}
static inline void mutex_acquire(int* w)
{
	while (w[2])
	{
		Fiber& f = fibers[cur];
		if (atomic_depth) fail("sim", 0, "blocking on a mutex inside an atomic section");
		f.wait = W_MUTEX; f.obj = w; f.deadline = -1;
		block();
	}
	w[2] = cur + 1;
	w[0] = 1;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	int* w = (int*) m;
	if (active && (0 == w[6] || opt.asio_mutex)) point("mutex");
	if (w[2] == cur + 1)
	{
		if (w[4] == PTHREAD_MUTEX_RECURSIVE) {++w[0]; return 0;}
		if (active) fail("sim", 0, "self deadlock: a thread locks a mutex it holds");
		return EDEADLK;
	}
	mutex_acquire(w);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	int* w = (int*) m;
	if (active && (0 == w[6] || opt.asio_mutex)) point("mutex");
	if (w[2] == cur + 1 && w[4] == PTHREAD_MUTEX_RECURSIVE) {++w[0]; return 0;}
	if (w[2]) return EBUSY;
	w[2] = cur + 1; w[0] = 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	int* w = (int*) m;
	if (active && w[2] != cur + 1) fail("sim", 0, "a mutex is unlocked by a thread that does not hold it");
	if (--w[0] <= 0) {w[0] = 0; w[2] = 0;}
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {return pthread_mutex_lock(m);}

// ============================================================================================ condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept {memset(c, 0, sizeof *c); return 0;}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
	if (active) for (int i = 0; i < nf; ++i) if (!fibers[i].done && fibers[i].wait == W_COND && fibers[i].obj == c && !fibers[i].signaled)
		fail("sim", 0, "a condition variable is destroyed while %s waits on it", fibers[i].name);
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
	int* w = (int*) m;
	int count = w[0];
	if (w[2] != cur + 1) fail("sim", 0, "condition wait without holding the mutex");
	w[0] = 0; w[2] = 0;
	Fiber& f = fibers[cur];
	f.wait = W_COND; f.obj = c; f.deadline = deadline; f.signaled = false; f.timed_out = false; f.wait_seq = ++wait_counter;
	block();
	f.deadline = -1;
	bool to = f.timed_out && !f.signaled;
	mutex_acquire(w);
	w[0] = count;
	return to ? ETIMEDOUT : 0;
}
static int64_t ts_ns(const struct timespec* t) {return t->tv_sec * 1000000000ll + t->tv_nsec;}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {return cond_wait(c, m, -1);}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {return cond_wait(c, m, ts_ns(t) <= now_ns ? now_ns : ts_ns(t));}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {return cond_wait(c, m, ts_ns(t) <= now_ns ? now_ns : ts_ns(t));}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	int w[MAXF], n = 0;
	for (int i = 0; i < nf; ++i) if (!fibers[i].done && fibers[i].wait == W_COND && fibers[i].obj == c && !fibers[i].signaled) w[n++] = i;
	if (!n) return 0;
	std::sort(w, w + n, [](int a, int b) {return fibers[a].wait_seq < fibers[b].wait_seq;});
	int k = 0;
	if (opt.wake_alts && n > 1 && active && !atomic_depth) k = choice(C_SCHED, n, "which waiter");
	fibers[w[k]].signaled = true;
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	for (int i = 0; i < nf; ++i) if (!fibers[i].done && fibers[i].wait == W_COND && fibers[i].obj == c) fibers[i].signaled = true;
	return 0;
}

// ============================================================================================ time
int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
	if (!active) return ::syscall(SYS_clock_gettime, id, t);
	t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000;
	return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t* t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
	if (!active) return ::syscall(SYS_nanosleep, t, rem);
	sleep_until(now_ns + ts_ns(t));
	return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem)
{
	if (!active) return ::syscall(SYS_clock_nanosleep, id, flags, t, rem);
	sleep_until(flags & TIMER_ABSTIME ? ts_ns(t) : now_ns + ts_ns(t));
	return 0;
}
int usleep(useconds_t u) {struct timespec t = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return nanosleep(&t, NULL);}
unsigned sleep(unsigned s) {struct timespec t = {(time_t) s, 0}; nanosleep(&t, NULL); return 0;}

// randomness: deterministic while an execution runs
ssize_t getrandom(void* p, size_t n, unsigned fl)
{
	if (!active) return ::syscall(SYS_getrandom, p, n, fl);
	static uint64_t s = 88172645463325252ull;
	for (size_t i = 0; i < n; ++i) {s ^= s << 13; s ^= s >> 7; s ^= s << 17; ((unsigned char*) p)[i] = (unsigned char) (s >> 24);}
	return n;
}
int getentropy(void* p, size_t n) {getrandom(p, n, 0); return 0;}
}
#include "simnet.inc"
#include "simtsan.inc"
#include "simexplore.inc"
