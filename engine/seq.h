// Exhaustive sequential explorer: the body is run once for every combination of answers choose() can give.
// Depth-first odometer over the choice vector, work split over processes by the index of the leading choices.
#ifndef SEQ_H_
#define SEQ_H_
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace seq {
const int MAXC = 256;
struct Sh {
	volatile uint64_t runs, choices, outcomes_;
	volatile int stop, nviol, capped;
	volatile int lock;
	struct V {char msg[1024]; char sched[1024]; uint64_t count;} viol[16];
	char sample[8][256]; volatile int nsample;
	struct W {int n; uint16_t c[MAXC]; uint16_t lim[MAXC]; char note[512];} w[64];
	uint64_t out_hash[1 << 16]; volatile uint32_t noutcomes;
};
static Sh* sh;
static int wid = 0, nw = 8;
static int pos;
static bool verbose = false;
static std::map<std::string, long> params;
static double t_end = 1e18;
static bool single = false;
static uint64_t local_runs = 0, local_choices = 0;
struct Scenario {const char* name; const char* desc; void (*fn)();};
static std::vector<Scenario>& scenarios() {static std::vector<Scenario> v; return v;}
struct Reg {Reg(Scenario s) {scenarios().push_back(s);}};
#define SEQ_SCENARIO(NAME, DESC) static void scen_##NAME(); static seq::Reg reg_##NAME(seq::Scenario{#NAME, DESC, scen_##NAME}); static void scen_##NAME()
static inline long param(const char* n, long d) {auto i = params.find(n); return i == params.end() ? d : i->second;}

struct Done {}; struct Skipped {};
static bool stop_first = false;
static inline double wall() {struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9;}
static inline int choose(int n)
{
	Sh::W& w = sh->w[wid];
	if (n <= 1) return 0;
	++local_choices;
	if (pos < w.n) {if (w.lim[pos] != n && w.lim[pos]) {fprintf(stderr, "diverged\n"); _exit(3);} w.lim[pos] = n; return w.c[pos++];}
	if (w.n >= MAXC) {fprintf(stderr, "too many choices\n"); _exit(3);}
	w.c[w.n] = 0; w.lim[w.n] = n; ++w.n; ++pos;
	return 0;
}
static inline std::string key(const char* m) {std::string k; for (; *m; ++m) if (*m < '0' || *m > '9') k += *m; else if (k.empty() || k.back() != '#') k += '#'; return k;}
static inline void record(const char* m)
{
	while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(10);
	std::string k = key(m);
	bool known = false;
	for (int i = 0; i < sh->nviol; ++i) if (key(sh->viol[i].msg) == k) {++sh->viol[i].count; known = true;}
	if (!known && sh->nviol < 16)
	{
		Sh::V& v = sh->viol[sh->nviol];
		snprintf(v.msg, sizeof v.msg, "%s", m);
		std::string s;
		Sh::W& w = sh->w[wid];
		for (int i = 0; i < w.n && i < pos; ++i) s += (i ? "," : "") + std::to_string(w.c[i]);
		snprintf(v.sched, sizeof v.sched, "%s", s.c_str());
		v.count = 1;
		sh->nviol = sh->nviol + 1;
	}
	__sync_lock_release(&sh->lock);
}
static inline void fail(const char* file, int line, const char* fmt, ...)
{
	char m[900], f[1000];
	va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
	const char* b = strrchr(file, '/');
	snprintf(f, sizeof f, "%s [%s:%d]", m, b ? b + 1 : file, line);
	if (verbose) fprintf(stderr, "FAIL %s\n", f);
	record(f);
	throw Done();
}
#define REQUIRE(c, ...) do {if (!(c)) seq::fail(__FILE__, __LINE__, __VA_ARGS__);} while (0)
static inline void note(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(sh->w[wid].note, sizeof sh->w[wid].note, fmt, ap); va_end(ap);
	if (verbose) fprintf(stderr, "%s\n", sh->w[wid].note);
}
static inline void skip() {throw Skipped();}
static inline void outcome(const std::string& s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	if (!h) h = 1;
	uint32_t i = h & 0xffff;
	for (int k = 0; k < 256; ++k, i = (i + 1) & 0xffff)
	{
		if (sh->out_hash[i] == h) return;
		if (!sh->out_hash[i] && __sync_bool_compare_and_swap(&sh->out_hash[i], 0, h))
		{
			__sync_fetch_and_add(&sh->noutcomes, 1);
			int n = __sync_fetch_and_add(&sh->nsample, 1);
			if (n < 8) snprintf(sh->sample[n], 256, "%s", s.c_str());
			return;
		}
		if (sh->out_hash[i] == h) return;
	}
}
// the split: run index of the first `SPLIT` choices
static const int SPLIT = 4;
static inline bool mine()
{
	Sh::W& w = sh->w[wid];
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < SPLIT && i < w.n; ++i) h = (h ^ (w.c[i] + 1)) * 1099511628211ull;
	return (h >> 20) % nw == (uint64_t) wid;
}
static inline bool advance() // next choice vector; false when exhausted
{
	Sh::W& w = sh->w[wid];
	while (w.n > 0)
	{
		if (w.c[w.n - 1] + 1 < w.lim[w.n - 1]) {++w.c[w.n - 1]; return true;}
		--w.n;
	}
	return false;
}
static void loop(void (*fn)())
{
	Sh::W& w = sh->w[wid];
	for (;;)
	{
		// enumerate; a subtree of another worker is skipped once its leading choices are known
		if (w.n >= SPLIT && !mine()) {w.n = SPLIT; if (!advance()) return; continue;}
		pos = 0;
		alarm(20);
		bool counted = true;
		try {fn();} catch (const Done&) {} catch (const Skipped&) {counted = false;}
		if (counted) ++local_runs;
		if (stop_first && sh->nviol) sh->stop = 1;
		static unsigned tick = 0;
		if (!(++tick & 255) && wall() > t_end) {sh->capped = 1; sh->stop = 1;}
		if (sh->stop) return;
		w.n = pos < w.n ? pos : w.n;
		// runs shorter than the split are made by every worker: count them once
		if (counted && w.n < SPLIT && wid != 0) --local_runs;
		if (!advance()) return;
	}
}
static inline std::string js(const char* s)
{
	std::string o = "\"";
	for (; *s; ++s) {if (*s == '"' || *s == '\\') {o += '\\'; o += *s;} else if ((unsigned char) *s < 0x20 || (unsigned char) *s >= 0x7f) o += '?'; else o += *s;}
	return o + "\"";
}
} // namespace seq

int main(int argc, char** argv)
{
	using namespace seq;
	std::string name, json, sched;
	double limit = 1e9;
	bool list = false, one = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&] {return i + 1 < argc ? argv[++i] : (char*) "";};
		if (a == "--list") list = true;
		else if (a == "--time") limit = atof(next());
		else if (a == "--jobs") nw = atoi(next());
		else if (a == "--json") json = next();
		else if (a == "--sched") {sched = next(); one = true;}
		else if (a == "--verbose") verbose = true;
		else if (a == "--bound") next();
		else if (a == "--stop-first") stop_first = true;
		else if (a == "--param") {std::string p = next(); size_t e = p.find('='); params[p.substr(0, e)] = atol(p.c_str() + e + 1);}
		else name = a;
	}
	if (list) {for (auto& s : scenarios()) printf("%s\t%s\n", s.name, s.desc); return 0;}
	const Scenario* sc = NULL;
	for (auto& s : scenarios()) if (name == s.name) sc = &s;
	if (!sc) {fprintf(stderr, "no scenario '%s'\n", name.c_str()); return 2;}
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	sh = (Sh*) mmap(NULL, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (one)
	{
		Sh::W& w = sh->w[0];
		const char* s = sched.c_str();
		while (*s && *s != '-') {char* e; w.c[w.n] = strtoul(s, &e, 10); ++w.n; s = *e ? e + 1 : e;}
		single = true; pos = 0;
		try {sc->fn();} catch (const Done&) {} catch (const Skipped&) {}
		if (sh->nviol) {printf("FAIL %s\n", sh->viol[0].msg); return 1;}
		printf("OK\n");
		return 0;
	}
	double t0 = wall();
	t_end = t0 + limit;
	std::vector<pid_t> ps(nw, 0);
	std::vector<int> restarts(nw, 0);
	std::string errpat = "/tmp/seq_err." + std::to_string(getpid()) + ".";
	auto start = [&](int w) {
		fflush(stdout);
		pid_t p = fork();
		if (0 == p)
		{
			wid = w;
			FILE* f = freopen((errpat + std::to_string(w)).c_str(), "w", stderr); (void) f;
			if (!verbose) f = freopen("/dev/null", "w", stdout);
			loop(sc->fn);
			__sync_fetch_and_add(&sh->runs, local_runs); __sync_fetch_and_add(&sh->choices, local_choices);
			_exit(0);
		}
		ps[w] = p;
	};
	for (int w = 0; w < nw; ++w) start(w);
	int left = nw; bool diverged = false;
	while (left > 0)
	{
		int st = 0;
		pid_t p = wait(&st);
		if (p < 0) break;
		int w = -1;
		for (int i = 0; i < nw; ++i) if (ps[i] == p) w = i;
		if (w < 0) continue;
		if (st == 0) {--left; continue;}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {diverged = true; --left; continue;}
		// crashed (sanitizer report or signal): the choice vector is in shared memory
		wid = w; pos = sh->w[w].n;
		std::string m = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "endless loop" : "crash";
		if (FILE* f = fopen((errpat + std::to_string(w)).c_str(), "r"))
		{
			char b[1024];
			while (fgets(b, sizeof b, f))
				if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "terminate called") || strstr(b, "what():"))
				{
					char* q = strstr(b, "AddressSanitizer"); if (!q) q = b;
					char* x = strstr(q, " on address"); if (x) *x = 0; x = strchr(q, '\n'); if (x) *x = 0;
					m += ": "; m += q; if (strstr(b, "Sanitizer") || strstr(b, "runtime error")) break;
				}
			while (fgets(b, sizeof b, f)) if (strstr(b, "st_asio_wrapper::")) {char* q = strstr(b, " in "); if (q) {q[strcspn(q, "\n")] = 0; if (strlen(q) > 160) q[160] = 0; m += q;} break;}
			fclose(f);
		}
		if (sh->w[w].note[0]) {m += " | "; m += sh->w[w].note;}
		record(m.substr(0, 1000).c_str());
		if (++restarts[w] > 3 || !advance()) {sh->capped = 1; --left; continue;}
		start(w);
	}
	for (int w = 0; w < nw; ++w) unlink((errpat + std::to_string(w)).c_str());
	std::string o = "{\"scenario\":" + js(sc->name) + ",\"bound\":0,\"bound_completed\":" + (sh->capped || diverged ? "-1" : "0") + ",\"capped\":" + (sh->capped ? "true" : "false")
		+ ",\"executions\":" + std::to_string(sh->runs) + ",\"steps\":" + std::to_string(sh->choices) + ",\"nodes\":" + std::to_string(sh->runs) + ",\"outcomes\":" + std::to_string(sh->noutcomes)
		+ ",\"wall_s\":" + std::to_string(wall() - t0) + ",\"samples\":[";
	for (int i = 0; i < sh->nsample && i < 8; ++i) o += (i ? "," : "") + js(sh->sample[i]);
	o += std::string("],\"diverged\":") + (diverged ? "\"diverged\"" : "null") + ",\"violations\":[";
	for (int i = 0; i < sh->nviol; ++i) o += std::string(i ? "," : "") + "{\"msg\":" + js(sh->viol[i].msg) + ",\"schedule\":" + js(sh->viol[i].sched) + ",\"count\":" + std::to_string(sh->viol[i].count) + "}";
	o += "]}";
	if (!json.empty()) {FILE* f = fopen(json.c_str(), "w"); if (f) {fprintf(f, "%s\n", o.c_str()); fclose(f);}} else printf("%s\n", o.c_str());
	if (diverged) return 3;
	return sh->nviol ? 1 : 0;
}
#endif
