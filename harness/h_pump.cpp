// C23: starting, stopping and restarting the service pump; C24: io_context references; C25: number of service threads
#include "srvfix.h"
#include "ext/udp.h"
struct Pump : public service_pump
{
	int freed = 0, exceptions = 0;
	std::function<bool(const std::exception&)> hook;
	using service_pump::do_something_to_all;
	virtual void free(object_type) {++freed;}
	virtual bool on_exception(const std::exception& e) {++exceptions; sim::logf("on_exception"); return hook ? hook(e) : service_pump::on_exception(e);}
	void later(std::function<void()> f) {boost::asio::post(assign_io_context(false), f);}
};
struct Svc : public service_pump::i_service
{
	Svc(service_pump& sp, int n) : i_service(sp) {id(n);}
	~Svc() {CHECK(inits == uninits, "a service is destroyed with %d initialisations and %d uninitialisations", inits, uninits);}
	int inits = 0, uninits = 0, finals = 0, works = 0;
	bool ok = true, busy = false;
	std::function<void()> init_hook, uninit_hook;
	virtual bool init()
	{
		CHECK(!busy && inits == uninits, "a service is initialised twice");
		busy = true; sim::logf("init %d", id()); sim::yield_point(); busy = false;
		if (ok) ++inits;
		if (init_hook) init_hook();
		return ok;
	}
	virtual void uninit()
	{
		CHECK(!busy && inits == uninits + 1, "a service that is not started is uninitialised");
		busy = true; sim::logf("uninit %d", id()); sim::yield_point(); busy = false;
		++uninits;
		if (uninit_hook) uninit_hook();
	}
	virtual void finalize() {CHECK(sim::live_threads() == base_threads, "finalised while %d service threads are running", sim::live_threads() - base_threads); ++finals;}
	static int base_threads;
};
int Svc::base_threads = 0;
struct At {bool& flag; At(bool& f) : flag(f) {}};

#ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
// ------------------------------------------------------------------------------------------------ C23
SCENARIO(pump_cycle, "three services, one refuses to start, with work posted from inside and outside; started and stopped twice or three times", 1, 2, NULL)
{
	sim::window(false);
	int threads = 1 + sim::choose(2, "threads"), cycles = 2 + sim::choose(2, "cycles");
	Pump sp;
	Svc a(sp, 1), b(sp, 2), c(sp, 3);
	Svc* sv[3] = {&a, &b, &c};
	int bad = sim::choose(3, "service that refuses") - 1;
	if (bad >= 0) sv[bad]->ok = false;
	Svc::base_threads = sim::live_threads();
	int posted = 0, done = 0;
	a.init_hook = [&] {++posted; sp.later([&] {++done;});};
	b.uninit_hook = [&] {++posted; sp.later([&] {++done;});};
	for (int i = 1; i <= cycles; ++i)
	{
		sim::window(true);
		CHECK(!sp.is_service_started() && sp.is_first_running() == (i == 1), "started %d first %d", sp.is_service_started(), sp.is_first_running());
		sp.start_service(threads);
		CHECK(sp.is_service_started() && sp.is_running(), "not started");
		sp.start_service(threads); // must do nothing
		for (Svc* s : sv) CHECK(s->service_started() == s->ok && s->inits == (s->ok ? i : 0) && s->uninits == (s->ok ? i - 1 : 0), "service %d: %d initialisations in %d cycles", s->id(), s->inits, i);
		bool p = sim::choose(2, "wait");
		++posted; sp.later([&] {++done;});
		if (p) {CHECK(sim::wait_for([&] {return done == posted;}, 1000, "work"), "work is not done"); CHECK(sim::live_threads() == Svc::base_threads + threads, "%d service threads instead of %d", sim::live_threads() - Svc::base_threads, threads);}
		sp.stop_service();
		sim::window(false);
		CHECK(sim::live_threads() == Svc::base_threads, "%d threads left", sim::live_threads() - Svc::base_threads);
		for (Svc* s : sv) CHECK(!s->service_started() && s->uninits == (s->ok ? i : 0) && s->finals == i, "service %d: %d uninitialisations and %d finalisations in %d cycles", s->id(), s->uninits, s->finals, i);
		CHECK(!sp.is_service_started() && !sp.is_running(), "still running");
		CHECK(done == posted, "%d of %d handlers called", done, posted);
		sp.stop_service(); // must do nothing
	}
	for (Svc* s : sv) CHECK(s->finals == cycles, "finalised again");
	sim::finish();
}
SCENARIO(pump_run, "run_service ended by end_service from a callback, from another thread or by a service, then run again", 1, 2, NULL)
{
	sim::window(false);
	int threads = 1 + sim::choose(2, "threads"), who = sim::choose(3, "who ends it");
	Pump sp;
	Svc a(sp, 1), b(sp, 2);
	Svc::base_threads = sim::live_threads();
	for (int i = 1; i <= 2; ++i)
	{
		bool returned = false;
		sim::window(true);
		int done = 0;
		if (who == 0) a.init_hook = [&] {sp.later([&] {sp.end_service();});};
		if (who == 1) a.init_hook = [&] {sp.later([&] {sp.later([&] {++done;}); sp.end_service();});};
		int f = sim::spawn("runner", [&] {sp.run_service(threads); returned = true;});
		if (who == 2) {sim::wait_until([&] {return sp.is_service_started() && a.inits == i && b.inits == i;}, "running"); sp.end_service();}
		sim::join(f);
		sim::window(false);
		CHECK(returned && sim::live_threads() == Svc::base_threads, "threads left");
		CHECK(!sp.is_service_started() && !sp.is_running(), "still running");
		CHECK(a.inits == i && b.inits == i && a.uninits == i && b.uninits == i && a.finals == i && b.finals == i, "%d %d %d %d %d %d in cycle %d", a.inits, b.inits, a.uninits, b.uninits, a.finals, b.finals, i);
		if (who == 1) CHECK(done == 1, "work was lost");
	}
	sim::finish();
}
SCENARIO(pump_dynamic, "services added, started, found, stopped and removed by several threads while the pump runs and others are added before", 1, 2, NULL)
{
	sim::window(false);
	Pump sp;
	int mode = sim::choose(3, "removal");
	Svc::base_threads = sim::live_threads();
	{
		Svc a(sp, 1);
		sp.start_service(1);
		Svc *x = NULL, *y = NULL;
		sim::window(true);
		auto user = [&](int n, Svc*& s) {
			s = new Svc(sp, n);
			CHECK(sp.find(n) == s, "find() does not find service %d", n);
			CHECK(s->inits == 0, "started by adding it");
			sp.start_service(s);
			CHECK(s->inits == 1 && s->service_started(), "not started");
			sp.start_service(s);
			CHECK(s->inits == 1, "started again");
			sp.stop_service(s);
			CHECK(s->uninits == 1 && !s->service_started(), "not stopped");
			sp.start_service(s);
			CHECK(s->inits == 2 && s->uninits == 1, "not restarted");
			if (mode == 0) {sp.remove(s); CHECK(sp.find(n) == NULL && s->uninits == 2, "removed: found %d uninits %d", sp.find(n) != NULL, s->uninits); delete s; s = NULL;}
			else if (mode == 1) {sp.remove(n); CHECK(sp.find(n) == NULL && s->uninits == 2, "removed: found %d uninits %d", sp.find(n) != NULL, s->uninits); delete s; s = NULL;}
		};
		int f = sim::spawn("user", [&] {user(2, x);});
		int g = sim::spawn("user2", [&] {user(3, y);});
		CHECK(sp.find(1) == &a, "find() does not find service 1");
		int n = 0; sp.do_something_to_all([&](service_pump::object_type s) {++n; CHECK(s == &a || s->id() == 2 || s->id() == 3 || s->id() == 0, "unknown service");});
		CHECK(n >= 1 && n <= 3, "%d services", n);
		sim::join(f); sim::join(g);
		sim::window(false);
		if (mode == 2)
		{
			CHECK(sp.find(2) == x && sp.find(3) == y, "services not found");
			sp.stop_service();
			CHECK(x->uninits == 2 && y->uninits == 2 && x->finals == 1 && y->finals == 1, "not stopped with the pump");
			sp.start_service(1);
			CHECK(x->inits == 3 && y->inits == 3 && a.inits == 2, "not started with the pump");
			int fr = sp.freed;
			sp.clear();
			CHECK(x->uninits == 3 && y->uninits == 3 && a.uninits == 2, "clear() does not stop the services");
			CHECK(sp.freed - fr == 3 && !sp.find(1) && !sp.find(2) && !sp.find(3), "clear() leaves services");
			delete x; delete y;
			sp.stop_service();
		}
		else
		{
			CHECK(sp.freed >= 2, "free() not called for removed services");
			sp.stop_service();
			CHECK(a.inits == 1 && a.uninits == 1 && a.finals == 1, "service 1");
		}
		CHECK(sim::live_threads() == Svc::base_threads, "threads left");
	}
	sim::finish();
}
struct Boom : public std::exception {virtual const char* what() const throw() {return "boom";}};
SCENARIO(pump_throw, "callbacks throw one after the other or at the same time, the hook continues or ends the thread; the rest of the work is done and the pump stops and starts again", 1, 2, NULL)
{
	sim::window(false);
	int threads = 1 + sim::choose(2, "threads"), n = 1 + sim::choose(2, "exceptions"), end = threads == 2 ? sim::choose(2, "end a thread") : 0;
	Pump sp;
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	int left = end;
	sp.hook = [&](const std::exception& e) {CHECK(!strcmp(e.what(), "boom"), "other exception"); sim::NoPreempt np; return left-- <= 0;};
	for (int i = 1; i <= 2; ++i)
	{
		int e0 = sp.exceptions, done = 0;
		left = end;
		sim::window(true);
		sp.start_service(threads);
		for (int k = 0; k < n; ++k) sp.later([] {throw Boom();});
		for (int k = 0; k < 3; ++k) sp.later([&] {sim::yield_point(); sim::NoPreempt np; ++done;});
		CHECK(sim::wait_for([&] {return done == 3 && sp.exceptions == e0 + n;}, 2000, "work"), "%d of 3 handlers and %d of %d exceptions handled", done, sp.exceptions - e0, n);
		sim::window(false);
		sim::settle();
		CHECK(sim::live_threads() == Svc::base_threads + threads - end, "%d service threads instead of %d", sim::live_threads() - Svc::base_threads, threads - end);
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		CHECK(sp.service_thread_num() == threads - end, "%d service threads reported instead of %d", sp.service_thread_num(), threads - end);
#endif
		CHECK(sp.is_service_started() && sp.is_running(), "the pump has ended");
		sim::window(true);
		sp.stop_service();
		sim::window(false);
		CHECK(sim::live_threads() == Svc::base_threads && a.uninits == i && a.finals == i, "not stopped");
	}
	sim::finish();
}
#else
SCENARIO(pump_auto, "without work guard the pump ends when the work is done, not before, and runs again", 1, 2, NULL)
{
	sim::window(false);
	int threads = 1 + sim::choose(2, "threads"), run = sim::choose(2, "run_service"), delay = sim::choose(2, "timer");
	Pump sp;
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	int posted = 0, done = 0;
	boost::asio::steady_timer t(sp.assign_io_context(false));
	a.init_hook = [&] {
		++posted; sp.later([&] {sim::NoPreempt np; ++done; ++posted; sp.later([&] {++done;});});
		if (delay) {++posted; t.expires_after(std::chrono::milliseconds(300)); t.async_wait([&](const boost::system::error_code& ec) {if (!ec) ++done;});}
	};
	for (int i = 1; i <= 2; ++i)
	{
		sim::window(true);
		if (run) sp.run_service(threads);
		else
		{
			sp.start_service(threads);
			CHECK(sim::wait_for([&] {return sim::live_threads() == Svc::base_threads;}, 2000, "ended"), "the threads do not end by themselves");
			CHECK(!sp.is_running() && sp.is_service_started(), "running %d started %d", sp.is_running(), sp.is_service_started());
			sp.stop_service();
		}
		sim::window(false);
		CHECK(done == posted, "%d of %d handlers called before the pump ended", done, posted);
		CHECK(!sp.is_service_started() && !sp.is_running() && sim::live_threads() == Svc::base_threads, "still running");
		CHECK(a.inits == i && a.uninits == (run ? 0 : i) + (run ? a.uninits : 0) && a.finals == i, "inits %d uninits %d finals %d", a.inits, a.uninits, a.finals);
		if (run) a.stop_service(); // the pump ended by itself: the service was not stopped
	}
	sim::finish();
}
#endif
struct PC : public Recorder<CLIENT_SUPER>
{
	static std::vector<PC*>& all() {static std::vector<PC*> v; return v;}
	PC(st_asio_wrapper::i_matrix& m) : Rec(m) {all().push_back(this);}
};
struct MC : public st_asio_wrapper::tcp::multi_client_base<PC> {MC(service_pump& sp) : st_asio_wrapper::tcp::multi_client_base<PC>(sp) {}};
static boost::uint_fast64_t total(MC& m) {boost::uint_fast64_t n = 0; m.do_something_to_all([&](const boost::shared_ptr<PC>& o) {n += o->got.size();}); return n;}
SCENARIO(pump_all, "a server, a client, a multi-link client and a UDP service on one pump: stopped in the middle of traffic, started again with the same result", 1, 1, NULL)
{
	sim::window(false);
	int threads = 1 + sim::choose(2, "threads"), early = sim::choose(2, "stop at once");
	{
		SWorld w;
		MC m(w.sp);
		st_asio_wrapper::ext::udp::single_socket_service u(w.sp);
		u.set_local_addr(7000, "127.0.0.1");
		SClient c(w.sp);
		c.set_server_addr(PORT, "127.0.0.1");
		sh().msg = [](SSock& s, const std::string& m) {s.send_msg("re:" + m, true); return true;};
		int base = sim::live_threads();
		for (int i = 1; i <= 2; ++i)
		{
			size_t got = c.got.size();
			int closes = c.closes, scloses = sh().closes, connects = c.connects;
			sim::window(true);
			w.start(threads);
			auto o = m.add_socket((unsigned short) PORT, "127.0.0.1");
			CHECK(!!o, "no link");
			if (!early)
			{
				CHECK(sim::wait_for([&] {return c.is_connected() && o->is_connected() && sh().starts == 2 * i;}, 3000, "connected"), "not connected");
				c.send_msg(std::string("a"), true); o->send_msg(std::string("b"), true);
				CHECK(sim::wait_for([&] {return c.got.size() == got + 1 && total(m) == 1;}, 3000, "echo"), "no echo");
				c.send_msg(std::string("c"), true);
			}
			w.sp.stop_service();
			sim::window(false);
			CHECK(sim::live_threads() == base, "%d threads left", sim::live_threads() - base);
			CHECK(simnet::open_sockets() == 0 && simnet::listening_sockets() == 0, "%d sockets open and %d listening after the service was stopped", simnet::open_sockets(), simnet::listening_sockets());
			CHECK(c.connects == c.closes || c.closes == closes + 1, "client closed %d times", c.closes - closes);
			CHECK(!c.live && c.closes - closes <= 1 && c.connects - connects <= 1 && c.closes - closes >= c.connects - connects, "client announced %d and closed %d times", c.connects - connects, c.closes - closes);
			CHECK(sh().closes == sh().starts, "%d links of the server announced, %d closed", sh().starts, sh().closes);
			CHECK(m.size() == 0 && w.s.size() == 0, "%d and %d links left", (int) m.size(), (int) w.s.size());
			if (!early) CHECK(c.got[got] == "re:a", "echo");
		}
	}
	sim::finish();
}

#ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
// ------------------------------------------------------------------------------------------------ C25
static int threads_now() {return (int) sim::live_threads() - Svc::base_threads;}
struct Works
{
	Pump& sp; int posted = 0, done = 0;
	Works(Pump& p) : sp(p) {}
	void post() {++posted; sp.later([this] {sim::NoPreempt np; ++done;});}
	void check() {CHECK(sim::wait_for([&] {return done == posted;}, 2000, "work"), "%d of %d handlers called", done, posted);}
	void converge() {for (int i = 0; i < 8; ++i) {post(); sim::settle();} check();}
};
SCENARIO(thread_num, "two changes of the number of threads, from outside or inside, with work between or not; then work; then stopped and started again", 1, 2, NULL)
{
	sim::window(false);
	int n = 1 + sim::choose(2, "threads"), low = n, high = n;
	Pump sp;
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	Works w(sp);
	sp.start_service(n);
	sim::settle();
	sim::window(true);
	for (int i = 0; i < 2; ++i)
	{
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		int op = sim::choose(4, "change");
#else
		int op = sim::choose(2, "change");
#endif
		if (op < 2) {sp.add_service_thread(op + 1); low += op + 1; high += op + 1;}
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		else if (op == 2 && sim::choose(2, "inside")) {++w.posted; sp.later([&] {sim::NoPreempt np; ++w.done; sp.del_service_thread(1);}); sim::settle(); low -= 1; high = std::max(1, high - 1);}
		else {sp.del_service_thread(op - 1); low -= op - 1; high = std::max(1, high - (op - 1));}
#endif
		int k = sim::choose(3, "work");
		if (k) w.post();
		if (k == 2) {w.post(); w.check();}
	}
	w.check();
	low = std::max(1, low);
	sim::window(false);
	w.converge();
	CHECK(threads_now() >= low && threads_now() <= high, "%d service threads instead of %d", threads_now(), high);
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
	CHECK(sp.service_thread_num() == threads_now(), "%d service threads reported, %d running", sp.service_thread_num(), threads_now());
	sp.del_service_thread(sim::choose(2, "pending removal"));
#endif
	sim::window(true);
	w.post();
	sp.stop_service();
	sim::window(false);
	CHECK(threads_now() == 0 && w.done == w.posted && a.finals == 1, "%d threads left, %d of %d handlers called", threads_now(), w.done, w.posted);
	sp.start_service(2);
	w.converge();
	CHECK(threads_now() == 2, "%d service threads instead of 2 after starting again", threads_now());
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
	CHECK(sp.service_thread_num() == 2, "%d service threads reported", sp.service_thread_num());
	if (sim::choose(2, "removal after the restart"))
	{
		sp.del_service_thread(1 + sim::choose(3, "removed"));
		for (int i = 0; i < 4; ++i) w.converge();
		w.post();
		w.check();
		CHECK(threads_now() == 1 && sp.service_thread_num() == 1, "%d service threads instead of 1, %d reported", threads_now(), sp.service_thread_num());
	}
#endif
	sp.stop_service();
	CHECK(threads_now() == 0, "threads left");
	sim::finish();
}
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
SCENARIO(thread_del, "threads removed by two threads at once while two more post work and the pump is perhaps stopped meanwhile", 1, 2, NULL)
{
	sim::window(false);
	int n = 2 + sim::choose(2, "threads"), d1 = 1 + sim::choose(2, "first"), d2 = 1 + sim::choose(2, "second"), stop = sim::choose(2, "stop");
	Pump sp;
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	Works w(sp);
	sp.start_service(n);
	sim::settle();
	sim::window(true);
	int f = sim::spawn("deleter", [&] {sp.del_service_thread(d1);});
	int g = sim::spawn("poster", [&] {for (int i = 0; i < 3; ++i) {{sim::NoPreempt np; ++w.posted;} sp.later([&] {sim::yield_point(); sim::NoPreempt np; ++w.done;});}});
	sp.del_service_thread(d2);
	sim::join(f); sim::join(g);
	if (!stop)
	{
		w.check();
		sim::settle();
		int e = std::max(1, n - d1 - d2);
		CHECK(threads_now() >= e && sp.service_thread_num() >= 1, "%d threads left, %d reported", threads_now(), sp.service_thread_num());
		sim::window(false);
		w.converge();
		CHECK(threads_now() == e && sp.service_thread_num() == e, "%d service threads instead of %d, %d reported", threads_now(), e, sp.service_thread_num());
		// nothing is left over: the next changes are exact, too
		sp.add_service_thread(2);
		w.converge();
		CHECK(threads_now() >= e + 1, "%d service threads after two were added to %d", threads_now(), e);
		int t = threads_now();
		sp.del_service_thread(1);
		w.converge(); w.converge();
		CHECK(threads_now() == t - 1 && sp.service_thread_num() == t - 1, "%d service threads instead of %d, %d reported", threads_now(), t - 1, sp.service_thread_num());
	}
	sp.stop_service();
	sim::window(false);
	CHECK(threads_now() == 0 && sp.service_thread_num() == 0 && w.done == w.posted, "%d threads left, %d reported, %d of %d handlers called", threads_now(), sp.service_thread_num(), w.done, w.posted);
	sim::finish();
}
SCENARIO(thread_ctx, "a second io_context added with its own thread, threads removed: every io_context keeps a thread", 1, 2, NULL)
{
	sim::window(false);
	Pump sp;
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	auto& c1 = sp.assign_io_context(false);
	sp.start_service(1 + sim::choose(2, "threads"));
	sim::settle();
	sim::window(true);
	sp.add_service_thread(1 + sim::choose(2, "more threads"), false, 1);
	boost::asio::io_context* c2 = NULL;
	for (int i = 0; i < 4 && !c2; ++i) {auto& c = sp.assign_io_context(); if (&c != &c1) c2 = &c;}
	CHECK(c2, "the new io_context is not used");
	sp.del_service_thread(1 + sim::choose(3, "remove"));
	int done = 0;
	for (int k = 0; k < 3; ++k)
	{
		boost::asio::post(c1, [&] {sim::NoPreempt np; ++done;});
		boost::asio::post(*c2, [&] {sim::NoPreempt np; ++done;});
		CHECK(sim::wait_for([&] {return done == 2 * k + 2;}, 1000, "work"), "work is lost: %d of %d handlers called", done, 2 * k + 2);
	}
	sp.stop_service();
	CHECK(threads_now() == 0 && sp.service_thread_num() == 0, "threads left");
	sim::finish();
}
#endif
#endif

#ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
// ------------------------------------------------------------------------------------------------ C24
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
#ifdef ST_ASIO_REUSE_OBJECT // a recycled object stays where it is
#define PLACED(X) (void) 0
#else
#define PLACED(X) X
#endif
typedef std::vector<int> Refs;
static Refs refs_of(service_pump& sp) {boost::container::list<unsigned> l; sp.get_io_context_refs(l); return Refs(l.begin(), l.end());}
static std::string show(const Refs& r) {std::string s; for (int x : r) s += num(x) + " "; return s;}
static Refs minus(Refs a, const Refs& b) {for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a;}
static int sum(const Refs& r) {int n = 0; for (int x : r) n += x; return n;}
struct RObj {boost::asio::execution_context* ctx; int add; bool closed; std::function<int()> held;};
static std::map<void*, RObj>& robjs() {static std::map<void*, RObj> m; return m;}
template<typename T> static void track(T* t) {sim::NoPreempt np; robjs()[t] = RObj{&t->lowest_layer().get_executor().context(), 0, false, [t] {return (int) t->get_io_context_refs();}};}
struct RLink : public st_asio_wrapper::tcp::server_socket_base<ext::packer<>, ext::unpacker<> >
{
	typedef st_asio_wrapper::tcp::server_socket_base<ext::packer<>, ext::unpacker<> > super;
	RLink(st_asio_wrapper::tcp::i_server& s) : super(s) {track(this);}
	~RLink() {sim::NoPreempt np; robjs().erase(this);}
	virtual void on_close() {robjs()[this].closed = true; super::on_close();}
	virtual void reset() {super::reset(); robjs()[this].closed = false;}
};
struct RSrv : public st_asio_wrapper::tcp::server_base<RLink> {RSrv(service_pump& sp) : st_asio_wrapper::tcp::server_base<RLink>(sp) {} virtual int async_accept_num() {return 2;}};
template<typename S> struct RCli : public S
{
	bool reconnect;
	template<typename A> RCli(A& a) : S(a), reconnect(true) {track(this); S::set_reconnect(false); reconnect = false;}
	~RCli() {sim::NoPreempt np; robjs().erase(this);}
	void retry() {S::set_reconnect(true); reconnect = true;}
	virtual void on_close() {if (!S::is_reconnect()) {robjs()[this].closed = true; robjs()[this].add = 0;} S::on_close();}
	virtual void reset() {S::reset(); robjs()[this].closed = false;}
	virtual bool do_start() {robjs()[this].closed = false; return S::do_start();}
	virtual int prepare_reconnect(const boost::system::error_code& ec) {return retries ? --retries, 100 : -1;}
	int retries = 1;
};
typedef RCli<CLIENT_SUPER> RC;
struct RMC : public st_asio_wrapper::tcp::multi_client_base<RC> {RMC(service_pump& sp) : st_asio_wrapper::tcp::multi_client_base<RC>(sp) {}};
struct RU : public st_asio_wrapper::ext::udp::socket
{
	typedef st_asio_wrapper::ext::udp::socket super;
	template<typename A> RU(A& a) : super(a) {track(this);}
	~RU() {sim::NoPreempt np; robjs().erase(this);}
	virtual void on_close() {robjs()[this].closed = true; super::on_close();}
	virtual void reset() {super::reset(); robjs()[this].closed = false;}
	virtual bool do_start() {robjs()[this].closed = false; return super::do_start();}
};
struct RMU : public st_asio_wrapper::udp::multi_socket_service_base<RU> {RMU(service_pump& sp) : st_asio_wrapper::udp::multi_socket_service_base<RU>(sp) {}};
static Refs at_least(service_pump& sp, const Refs& before, int n, const char* what) // n references were taken one after the other
{
	Refs d = minus(refs_of(sp), before), b = before;
	CHECK(sum(d) == n, "%s takes %d references instead of %d", what, sum(d), n);
	Refs left = d;
	while (sum(left) > 0) // some order of least-loaded choices explains the result
	{
		int k = -1;
		for (size_t i = 0; i < b.size(); ++i) if (left[i] > 0 && b[i] == *std::min_element(b.begin(), b.end())) k = (int) i;
		CHECK(k >= 0, "%s is not on the io_context with the fewest references: before %sgrown by %s", what, show(before).c_str(), show(d).c_str());
		--left[k]; ++b[k];
	}
	return d;
}
static void add(Refs& a, const Refs& b) {for (size_t i = 0; i < a.size(); ++i) a[i] += b[i];}
template<typename P> static Refs expected(P& sp, std::vector<boost::asio::execution_context*>& ctxs, const Refs& own)
{
	Refs e = own;
	for (auto& x : robjs())
	{
		size_t i = std::find(ctxs.begin(), ctxs.end(), x.second.ctx) - ctxs.begin();
		CHECK(i < ctxs.size(), "an object is on a foreign io_context");
		int h = x.second.closed ? 0 : 1 + x.second.add;
		e[i] += h;
		CHECK(x.second.held() == h, "an object %s holds %d references instead of %d", x.second.closed ? "closed" : "alive", x.second.held(), h);
	}
	return e;
}
struct CtxPump : public Pump
{
	std::vector<boost::asio::execution_context*> ctxs;
	CtxPump(int n)
	{
		if (n > 1) CHECK(set_io_context_num(n), "set_io_context_num");
		CHECK(get_io_context_num() == n, "%d contexts", get_io_context_num());
		for (int i = 0; i < n; ++i) ctxs.push_back(&assign_io_context());
		for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) CHECK(ctxs[i] != ctxs[k], "an unused io_context is not preferred");
		for (auto c : ctxs) return_io_context(*c);
		for (int x : refs_of(*this)) CHECK(x == 0, "references");
	}
};
SCENARIO(ctx_refs, "2-3 io_contexts with a server, a client, a multi-link client and UDP sockets: two or three operations, then stopped, started again and destroyed", 0, 1, NULL)
{
	sim::window(false);
	int n = 2 + sim::choose(2, "contexts"), ops = sim::param("ops", 2);
	{
		CtxPump sp(n);
		Refs r0 = refs_of(sp), own(n, 0), zero(n, 0);
		CHECK((int) r0.size() == n && r0 == zero, "references before anything was made: %s", show(r0).c_str());
		{
			Refs r = refs_of(sp);
			RSrv s(sp); add(own, at_least(sp, r, 2, "a server")); r = refs_of(sp);
			RMC m(sp); add(own, at_least(sp, r, 1, "a multi-link client")); r = refs_of(sp);
			st_asio_wrapper::tcp::single_client_base<RC> c(sp); at_least(sp, r, 1, "a client"); r = refs_of(sp);
			RMU mu(sp); add(own, at_least(sp, r, 1, "a UDP service")); r = refs_of(sp);
			st_asio_wrapper::udp::single_socket_service_base<RU> u(sp); at_least(sp, r, 1, "a UDP socket"); r = refs_of(sp);
			u.set_local_addr(7000, "127.0.0.1");
			s.set_server_addr(PORT, "127.0.0.1"); c.set_server_addr(PORT, "127.0.0.1");
			int port2 = 5099, l = simnet::listen(port2);
			sp.start_service(n);
			sim::settle();
			sim::sleep_ms(200);
			auto check = [&](const char* when) {
				sim::settle();
				Refs e = expected(sp, sp.ctxs, own), g = refs_of(sp);
				CHECK(e == g, "references %sinstead of %s%s", show(g).c_str(), show(e).c_str(), when);
			};
			check("after the start");
			std::vector<int> fds;
			std::vector<boost::shared_ptr<RC> > links;
			std::vector<boost::shared_ptr<RU> > us;
			int uport = 7100;
			for (int i = 0; i < ops; ++i)
			{
				int op = sim::choose(11, "operation");
				sim::window(true);
				r = refs_of(sp);
				switch (op)
				{
				case 0: fds.push_back(simnet::connect(PORT)); sim::sleep_ms(200); PLACED(at_least(sp, r, 1, "a link")); break;
				case 1: if (fds.empty()) {fds.push_back(simnet::connect(PORT)); sim::sleep_ms(200);} simnet::close(fds.back()); fds.pop_back(); break;
				case 2:
				{
					int a = sim::choose(3, "additional references");
					auto o = m.add_socket((unsigned short) port2, "127.0.0.1", a);
					CHECK(!!o, "add_socket");
					{sim::NoPreempt np; robjs()[o.get()].add = a;}
					links.push_back(o);
					Refs d = minus(refs_of(sp), r);
					CHECK(sum(d) == 1 + a && *std::max_element(d.begin(), d.end()) == 1 + a, "adding a link with %d additional references changes %s", a, show(d).c_str());
					for (int k = 0; k < n; ++k) if (d[k]) PLACED(CHECK(r[k] == *std::min_element(r.begin(), r.end()), "a link is not on the io_context with the fewest references: %sadded %s", show(r).c_str(), show(d).c_str()));
					break;
				}
				case 3: if (links.empty()) links.push_back(m.add_socket((unsigned short) port2, "127.0.0.1")); links.back()->force_shutdown(false); links.pop_back(); break;
				case 4: {auto o = m.add_socket((unsigned short) port2, "127.0.0.1"); o->retry(); sim::sleep_ms(200); o->force_shutdown(true); links.push_back(o); break;}
				case 5: {s.add_io_context_refs(3); Refs d = minus(refs_of(sp), r); CHECK(sum(d) == 3, "add_io_context_refs(3) adds %d", sum(d)); for (int x : d) CHECK(x == 0 || x == 3, "references on two io_contexts");
					s.sub_io_context_refs(2); d = minus(refs_of(sp), r); CHECK(sum(d) == 1, "sub_io_context_refs"); s.sub_io_context_refs(9); d = minus(refs_of(sp), r); CHECK(sum(d) == 1, "more references returned than taken"); s.sub_io_context_refs(1); break;}
				case 6: {auto o = mu.add_socket((unsigned short) uport++, "127.0.0.1", 1); CHECK(!!o, "add"); {sim::NoPreempt np; robjs()[o.get()].add = 1;} us.push_back(o); break;}
				case 7: if (us.empty()) us.push_back(mu.add_socket((unsigned short) uport++, "127.0.0.1")); mu.force_shutdown(us.back()); {sim::NoPreempt np; robjs()[us.back().get()].add = 0;} us.pop_back(); break;
				case 8: c.force_shutdown(); sim::sleep_ms(500); check("after closing the client"); sp.stop_service(&c); sp.start_service(&c); break;
				case 9: {auto o = m.add_socket((unsigned short) 5098, "127.0.0.1", 1); {sim::NoPreempt np; robjs()[o.get()].add = 1;} o->retry(); break;} // nobody listens: fails twice and gives up
				case 10: {s.stop_listen(); sim::sleep_ms(200); check("after stop_listen()"); CHECK(s.start_listen(), "start_listen"); break;}
				}
				sim::window(false);
				sim::sleep_ms(1000);
				check("after an operation");
			}
			links.clear(); us.clear();
			for (int round = 0; round < 2; ++round)
			{
				sp.stop_service();
				check("after the service was stopped");
				{sim::NoPreempt np; for (auto& x : robjs()) x.second.closed = x.second.held() == 0;}
				CHECK(minus(refs_of(sp), own) == zero, "objects of a stopped service hold references: %s", show(minus(refs_of(sp), own)).c_str());
				if (round) break;
				sp.start_service(n);
				sim::sleep_ms(200);
				check("after the service was started again");
			}
			for (int fd : fds) simnet::close(fd);
			simnet::close(l);
			sim::window(true);
		}
		sim::window(false);
		CHECK(refs_of(sp) == zero, "references left after everything was destroyed: %s", show(refs_of(sp)).c_str());
	}
	sim::finish();
}
SCENARIO(ctx_race, "connections come and go at a server while another thread adds and removes links of a client and another looks for an io_context", 1, 2, NULL)
{
	sim::window(false);
	{
		CtxPump sp(2);
		Refs own(2, 0);
		RSrv s(sp);
		RMC m(sp);
		own = refs_of(sp);
		s.set_server_addr(PORT, "127.0.0.1");
		int l = simnet::listen(5099);
		sp.start_service(2);
		sim::settle();
		int fd0 = simnet::connect(PORT);
		auto o0 = m.add_socket((unsigned short) 5099, "127.0.0.1");
		sim::sleep_ms(200);
		sim::window(true);
		int f = sim::spawn("peer", [&] {int x = simnet::connect(PORT); if (x >= 0) simnet::close(x); simnet::close(fd0);});
		int g = sim::spawn("user", [&] {o0->force_shutdown(false); auto o = m.add_socket((unsigned short) 5099, "127.0.0.1"); sim::yield_point(); o->force_shutdown(false); m.add_socket((unsigned short) 5099, "127.0.0.1");});
		auto& c = sp.assign_io_context(); sim::yield_point(); sp.return_io_context(c);
		s.add_io_context_refs(2); sim::yield_point(); s.sub_io_context_refs(2);
		sim::join(f); sim::join(g);
		sim::window(false);
		sim::sleep_ms(1000);
		Refs e = expected(sp, sp.ctxs, own), r = refs_of(sp);
		CHECK(e == r, "references %sinstead of %s", show(r).c_str(), show(e).c_str());
		o0.reset();
		sp.stop_service();
		CHECK(minus(refs_of(sp), own) == Refs(2, 0), "objects of a stopped service hold references");
		simnet::close(l);
	}
	sim::finish();
}
SCENARIO(ctx_threads, "threads and io_contexts are added: every new thread serves the io_context with the fewest threads", 0, 1, NULL)
{
	sim::window(false);
	int n = 1 + sim::choose(3, "contexts"), t = n + sim::choose(3, "threads"), more = sim::choose(3, "more threads"), nc = sim::choose(3, "more contexts"), nt = nc ? nc + sim::choose(2, "threads for them") : 0;
	CtxPump sp(n);
	Svc a(sp, 1);
	Svc::base_threads = sim::live_threads();
	sim::window(true);
	sp.start_service(t);
	if (more) sp.add_service_thread(more);
	std::vector<int> want(n, 0);
	auto give = [&](int k) {while (k-- > 0) ++*std::min_element(want.begin(), want.end());};
	give(t); give(more);
	sim::window(false);
	if (nc)
	{
		std::map<boost::asio::execution_context*, int> seen;
		sp.add_service_thread(nt, false, nc);
		CHECK(sp.get_io_context_num() == n + nc, "%d contexts", sp.get_io_context_num());
		want.resize(n + nc, 0); give(nt);
		for (int i = 0; i < n + nc; ++i)
		{
			auto c = &sp.assign_io_context();
			CHECK(!seen[c]++, "an io_context is chosen twice");
			if (std::find(sp.ctxs.begin(), sp.ctxs.end(), (boost::asio::execution_context*) c) == sp.ctxs.end()) sp.ctxs.push_back(c);
		}
		CHECK((int) sp.ctxs.size() == n + nc, "a new io_context is never used");
	}
	std::vector<int> got;
	bool go = false;
	for (auto c : sp.ctxs)
	{
		auto num = std::make_shared<int>(0);
		go = false;
		for (int i = 0; i < 10; ++i) boost::asio::post(*(boost::asio::io_context*) c, [&, num] {if (!go) {sim::NoPreempt np; ++*num;} sim::wait_until([&] {return go;}, "go");});
		sim::settle();
		got.push_back(*num);
		go = true;
		sim::settle();
	}
	std::vector<int> w = want, g = got;
	std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end());
	CHECK(w == g, "threads are distributed %sinstead of %s", show(g).c_str(), show(w).c_str());
	sp.stop_service();
	CHECK(sim::live_threads() == Svc::base_threads, "threads left");
	sim::finish();
}
SCENARIO(ctx_later, "io_contexts added to a pump that started with one: the objects made before count as well", 0, 1, NULL)
{
	sim::window(false);
	int k = 1 + sim::choose(3, "clients");
	{
		Pump sp;
		std::vector<std::unique_ptr<st_asio_wrapper::tcp::single_client_base<RC> > > v;
		int l = simnet::listen(5099);
		for (int i = 0; i < k; ++i) {v.emplace_back(new st_asio_wrapper::tcp::single_client_base<RC>(sp)); v.back()->set_server_addr(5099, "127.0.0.1");}
		sp.start_service(1);
		sim::sleep_ms(200);
		sp.add_service_thread(1, false, 1);
		Refs r = refs_of(sp);
		CHECK(r.size() == 2 && r[0] == k && r[1] == 0, "references %sinstead of %d 0", show(r).c_str(), k);
		sp.stop_service();
		r = refs_of(sp);
		CHECK(r[0] == 0 && r[1] == 0, "references %safter everything was closed", show(r).c_str());
		simnet::close(l);
	}
	sim::finish();
}
SCENARIO(ctx_single, "a single service pump counts the references of its service", 0, 1, NULL)
{
	sim::window(false);
	{
		single_service_pump<RSrv> sp;
		sp.set_server_addr(PORT, "127.0.0.1");
		Refs r = refs_of(sp);
		CHECK(r.size() == 1 && r[0] == 2, "references %s", show(r).c_str());
		sp.start_service(1);
		int fd = simnet::connect(PORT);
		sim::sleep_ms(200);
		r = refs_of(sp);
		CHECK(r[0] == 5, "references %sinstead of 5", show(r).c_str());
		simnet::close(fd);
		sim::sleep_ms(200);
		r = refs_of(sp);
		CHECK(r[0] == 4, "references %sinstead of 4", show(r).c_str());
		sp.stop_service();
		r = refs_of(sp);
		CHECK(r[0] == 2, "references %sinstead of 2", show(r).c_str());
	}
	sim::finish();
}
#endif
#endif
