// The explorer: deviation-bounded depth-first search over forked executions, shared work stack, parallel workers.
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <ucontext.h>

namespace sim {
const uint32_t MAXJOBS = 1500000;
const int MAXVIOL = 24, OUTSLOTS = 1 << 16;
struct Viol {Job job; char msg[2048]; uint64_t count; uint32_t npts;};
struct Shared {
	volatile int lock, vlock;
	volatile uint32_t top, outstanding;
	volatile int stop, overflow, diverged;
	volatile uint64_t execs, steps, nodes, maxpts, maxthreads, samples;
	volatile uint32_t noutcomes;
	volatile int nviol;
	uint64_t out_hash[OUTSLOTS];
	char sample[8][512];
	char divmsg[256];
	Viol viol[MAXVIOL];
	Job jobs[MAXJOBS];
};
static Shared* sh;
static void lk(volatile int* l) {while (__sync_lock_test_and_set(l, 1)) ::syscall(SYS_sched_yield);}
static void ulk(volatile int* l) {__sync_lock_release(l);}
static double wall() {struct timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9;}

static void on_crash(int sig, siginfo_t* si, void* uc)
{
	void* pc = (void*) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RIP];
	Dl_info di;
	const char* nm = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
	fail("sim", 0, "crash: signal %d at address %p in %s", sig, si->si_addr, nm);
}
static void on_terminate()
{
	const char* t = "no exception";
	char b[256] = "";
	if (std::type_info* ti = abi::__cxa_current_exception_type())
	{
		t = ti->name();
		try {throw;} catch (const std::exception& e) {snprintf(b, sizeof b, "%s", e.what());} catch (...) {}
	}
	fail("sim", 0, "std::terminate: unhandled exception %s %s", t, b);
}

static const Scenario* scen;
[[noreturn]] static void child_main()
{
	static char alt_stack[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt_stack; ss.ss_size = sizeof alt_stack;
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
	for (int s : sigs) sigaction(s, &sa, NULL);
	signal(SIGPIPE, SIG_IGN);
	std::set_terminate(on_terminate);
	if (arena_top < (1u << 30)) arena_top = 1u << 30; // addresses in the execution must not depend on what the worker allocated before
	job_pos = 0; pt_hash = 2166136261u;
	nf = 0; cur = 0;
	void* keep[64];
	memcpy(keep, fibers[0].tls, sizeof keep);
	if (scen->setup) scen->setup();
	if (param("fine", 0)) opt.fine = true;
	if (param("asio_mutex", 0)) opt.asio_mutex = true;
	if (param("time_jump", 0)) opt.time_jump = true;
	int id = new_fiber("main");
	memcpy(fibers[0].tls, keep, sizeof keep);
	fibers[id].fn = new std::function<void()>([] {scen->fn(); finish();});
	active = true; quarantine = true;
	void* dummy;
	sim_switch(&dummy, fibers[0].sp);
	_exit(73);
}
static void run_job(const Job& j, unsigned limit)
{
	job = j;
	ex->status = ST_NONE; ex->npts = 0; ex->steps = 0; ex->outcome = 1469598103934665603ull; ex->outcome_text[0] = 0; ex->msg[0] = 0;
	pid_t p = fork();
	if (p < 0) {perror("fork"); _exit(74);}
	if (0 == p) {alarm(limit); child_main();}
	int st = 0;
	while (::syscall(SYS_wait4, p, &st, 0, NULL) < 0 && errno == EINTR) {}
	if (ex->status == ST_NONE)
	{
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(ex->msg, sizeof ex->msg, "no progress: the execution does not end (endless loop)");
		else snprintf(ex->msg, sizeof ex->msg, "execution died: wait status 0x%x", st);
		ex->status = ST_FAIL;
	}
}
static std::string msg_key(const char* m)
{
	std::string k;
	for (; *m; ++m) if (*m < '0' || *m > '9') k += *m; else if (k.empty() || k.back() != '#') k += '#';
	return k;
}
static void record_violation(const Job& j)
{
	// replay before report
	char first[2048];
	snprintf(first, sizeof first, "%s", ex->msg);
	std::string k1 = msg_key(first);
	lk(&sh->vlock);
	for (int i = 0; i < sh->nviol; ++i) if (msg_key(sh->viol[i].msg) == k1) {++sh->viol[i].count; ulk(&sh->vlock); return;}
	ulk(&sh->vlock);
	uint32_t n1 = ex->npts;
	run_job(j, 120);
	if (ex->status != ST_FAIL || msg_key(ex->msg) != k1)
	{
		lk(&sh->vlock);
		snprintf(sh->divmsg, sizeof sh->divmsg, "violation not reproduced: first '%.80s' then '%.80s'", first, ex->status == ST_FAIL ? ex->msg : "ok");
		if (!strstr(first, "endless loop")) sh->diverged = 1;
		ulk(&sh->vlock);
		return;
	}
	lk(&sh->vlock);
	for (int i = 0; i < sh->nviol; ++i) if (msg_key(sh->viol[i].msg) == k1) {++sh->viol[i].count; ulk(&sh->vlock); return;}
	if (sh->nviol < MAXVIOL)
	{
		Viol& v = sh->viol[sh->nviol];
		v.job = j; v.count = 1; v.npts = n1;
		snprintf(v.msg, sizeof v.msg, "%s", first);
		__sync_synchronize();
		sh->nviol = sh->nviol + 1;
	}
	ulk(&sh->vlock);
}
static void add_outcome()
{
	uint64_t h = ex->outcome ? ex->outcome : 1;
	uint32_t i = h % OUTSLOTS;
	for (int k = 0; k < OUTSLOTS; ++k, i = (i + 1) % OUTSLOTS)
	{
		if (sh->out_hash[i] == h) return;
		if (0 == sh->out_hash[i])
		{
			if (!__sync_bool_compare_and_swap(&sh->out_hash[i], 0, h)) {if (sh->out_hash[i] == h) return; continue;}
			uint32_t n = __sync_fetch_and_add(&sh->noutcomes, 1);
			if (n < 8) memcpy(sh->sample[n], ex->outcome_text, 512);
			return;
		}
	}
}
static void worker(int bound, double t_end, bool stop_first)
{
	for (;;)
	{
		if (sh->stop) return;
		if (wall() > t_end) {sh->stop = 1; return;}
		lk(&sh->lock);
		if (0 == sh->top)
		{
			bool done = 0 == sh->outstanding;
			ulk(&sh->lock);
			if (done) return;
			struct timespec t = {0, 100000}; ::syscall(SYS_nanosleep, &t, NULL);
			continue;
		}
		Job j = sh->jobs[--sh->top];
		ulk(&sh->lock);
		run_job(j, 30);
		__sync_fetch_and_add(&sh->execs, 1);
		__sync_fetch_and_add(&sh->steps, ex->steps);
		uint32_t from = j.n ? j.d[j.n - 1].at + 1 : 0;
		if (ex->npts > from) __sync_fetch_and_add(&sh->nodes, ex->npts - from);
		if (ex->npts > sh->maxpts) sh->maxpts = ex->npts;
		if (ex->status == ST_DIVERGED) {sh->diverged = 1; char d[160]; int dn = 0; for (uint32_t i = 0; i < j.n && dn < 140; ++i) dn += snprintf(d + dn, sizeof d - dn, "%s%u:%u", i ? "," : "", j.d[i].at, j.d[i].alt); d[dn] = 0; snprintf(sh->divmsg, sizeof sh->divmsg, "%.100s [%s]", ex->msg, d); sh->stop = 1; return;}
		uint32_t npts = ex->npts;
		bool failed = ex->status == ST_FAIL;
		if (failed)
		{
			record_violation(j);
			if (stop_first && sh->nviol) sh->stop = 1;
		}
		else add_outcome();
		// a failed execution is expanded as well up to the failure (other branches of it may fail differently)
		if (j.n < MAXDEV && (!failed || ex->npts >= npts))
		{
			for (uint32_t i = npts; i-- > from;)
			{
				Exec::P& p = ex->pts[i];
				int c = p.cat == C_FREE ? 0 : 1;
				if (j.cost + c > bound) continue;
				lk(&sh->lock);
				for (int a = p.n - 1; a >= 1; --a)
				{
					if (sh->top >= MAXJOBS) {sh->overflow = 1; sh->stop = 1; break;}
					Job& n = sh->jobs[sh->top++];
					n.n = j.n + 1; n.cost = j.cost + c; n.hash = p.hash;
					memcpy(n.d, j.d, sizeof(Dev) * j.n);
					n.d[j.n].at = i; n.d[j.n].alt = a; n.d[j.n].cost = c;
					++sh->outstanding;
				}
				ulk(&sh->lock);
			}
		}
		else if (j.n >= MAXDEV) {sh->overflow = 1;}
		lk(&sh->lock);
		--sh->outstanding;
		ulk(&sh->lock);
	}
}
static std::string sched_str(const Job& j)
{
	std::string s;
	char b[64];
	for (int i = 0; i < j.n; ++i) {snprintf(b, sizeof b, "%s%u:%u", i ? "," : "", j.d[i].at, j.d[i].alt); s += b;}
	return s.empty() ? "-" : s;
}
static std::string jstr(const char* s)
{
	std::string o = "\"";
	for (; *s; ++s)
	{
		if (*s == '"' || *s == '\\') {o += '\\'; o += *s;}
		else if ((unsigned char) *s < 0x20) {char b[8]; snprintf(b, sizeof b, "\\u%04x", *s); o += b;}
		else if ((unsigned char) *s >= 0x7f) o += '?';
		else o += *s;
	}
	return o + "\"";
}
} // namespace sim

int main(int argc, char** argv)
{
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
	{
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	std::string name, json, sched;
	int bound = -1, jobs = 8;
	double tlimit = 1e9;
	bool list = false, stop_first = false, run_one = false;
	params = new std::map<std::string, int64_t>;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&] {return i + 1 < argc ? argv[++i] : (char*) "";};
		if (a == "--list") list = true;
		else if (a == "--bound") bound = atoi(next());
		else if (a == "--time") tlimit = atof(next());
		else if (a == "--jobs") jobs = atoi(next());
		else if (a == "--json") json = next();
		else if (a == "--stop-first") stop_first = true;
		else if (a == "--sched") {sched = next(); run_one = true;}
		else if (a == "--verbose") verbose_ = true;
		else if (a == "--param") {std::string p = next(); size_t e = p.find('='); (*params)[p.substr(0, e)] = atoll(p.c_str() + e + 1);}
		else name = a;
	}
	if (!scenarios) scenarios = new std::vector<Scenario>;
	if (list)
	{
		for (auto& s : *scenarios) printf("%s\t%d\t%d\t%s\n", s.name, s.quick_bound, s.thorough_bound, s.desc);
		return 0;
	}
	for (auto& s : *scenarios) if (name == s.name) scen = &s;
	if (!scen) {fprintf(stderr, "no scenario '%s'\n", name.c_str()); return 2;}
	if (bound < 0) bound = scen->quick_bound;
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	size_t exsz = sizeof(Exec);
	if (run_one)
	{
		ex = (Exec*) mmap(NULL, exsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		Job j; memset(&j, 0, sizeof j);
		const char* s = sched.c_str();
		while (*s && *s != '-')
		{
			char* e;
			j.d[j.n].at = strtoul(s, &e, 10); s = e + 1;
			j.d[j.n].alt = strtoul(s, &e, 10); s = *e ? e + 1 : e;
			++j.n;
		}
		run_job(j, 300);
		fprintf(stderr, "points=%u steps=%llu\n", ex->npts, (unsigned long long) ex->steps);
		if (ex->status == ST_OK) {printf("OK %s\n", ex->outcome_text); return 0;}
		printf("FAIL %s\n", ex->msg);
		return 1;
	}
	double t0 = wall();
	int done_bound = -1;
	bool capped = false;
	uint64_t execs = 0, steps = 0, nodes = 0, maxpts = 0;
	uint64_t level_execs[16] = {0};
	sh = (Shared*) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) {perror("mmap"); return 2;}
	fflush(stdout);
	for (int b = 0; b <= bound && !capped; ++b)
	{
		sh->top = sh->outstanding = 0; sh->stop = 0; sh->execs = sh->steps = sh->nodes = 0;
		Job& j = sh->jobs[0];
		memset(&j, 0, sizeof j);
		sh->top = sh->outstanding = 1;
		std::vector<pid_t> ps;
		for (int w = 0; w < jobs; ++w)
		{
			pid_t p = fork();
			if (0 == p)
			{
				if (!verbose_) {int fd = ::open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);}
				ex = (Exec*) mmap(NULL, exsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				worker(b, t0 + tlimit, stop_first);
				_exit(0);
			}
			ps.push_back(p);
		}
		bool died = false;
		for (pid_t p : ps) {int st = 0; while (::syscall(SYS_wait4, p, &st, 0, NULL) < 0 && errno == EINTR) {} if (st) died = true;}
		if (died) {sh->diverged = 1; snprintf(sh->divmsg, sizeof sh->divmsg, "a worker died");}
		execs = sh->execs; steps = sh->steps; nodes = sh->nodes + 1; maxpts = sh->maxpts;
		if (b < 16) level_execs[b] = sh->execs;
		if (sh->stop || sh->diverged || sh->overflow) capped = true;
		else done_bound = b;
		if (sh->nviol && stop_first) break;
	}
	double w = wall() - t0;
	std::string o = "{";
	char b[512];
	snprintf(b, sizeof b, "\"scenario\":%s,\"bound\":%d,\"bound_completed\":%d,\"capped\":%s,\"executions\":%llu,\"steps\":%llu,\"nodes\":%llu,\"max_points\":%llu,\"outcomes\":%u,\"wall_s\":%.2f,\"overflow\":%d,",
		jstr(scen->name).c_str(), bound, done_bound, capped ? "true" : "false", (unsigned long long) execs, (unsigned long long) steps, (unsigned long long) nodes,
		(unsigned long long) maxpts, sh->noutcomes, w, sh->overflow);
	o += b;
	o += "\"level_executions\":[";
	for (int i = 0; i <= done_bound + (capped ? 1 : 0) && i < 16; ++i) {snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long) level_execs[i]); o += b;}
	o += "],\"samples\":[";
	for (uint32_t i = 0; i < sh->noutcomes && i < 8; ++i) o += (i ? "," : "") + jstr(sh->sample[i]);
	o += "],\"diverged\":" + (sh->diverged ? jstr(sh->divmsg) : std::string("null")) + ",\"violations\":[";
	for (int i = 0; i < sh->nviol; ++i)
		o += std::string(i ? "," : "") + "{\"msg\":" + jstr(sh->viol[i].msg) + ",\"schedule\":" + jstr(sched_str(sh->viol[i].job).c_str()) + ",\"cost\":" + std::to_string(sh->viol[i].job.cost) + ",\"count\":" + std::to_string(sh->viol[i].count) + "}";
	o += "]}";
	if (!json.empty()) {FILE* f = fopen(json.c_str(), "w"); if (f) {fprintf(f, "%s\n", o.c_str()); fclose(f);}}
	else printf("%s\n", o.c_str());
	if (sh->diverged) return 3;
	return sh->nviol ? 1 : 0;
}
