// C15: timers
#include "common.h"
#include "ext/tcp.h"
#include <map>
using namespace st_asio_wrapper;

#ifdef PLAIN_EXECUTOR
typedef timer<executor> Base;
#else
typedef timer<tracked_executor> Base;
#endif
static std::string join(const std::vector<std::string>& v) {std::string s; for (auto& x : v) s += x + " "; return s;}
// what the documentation promises about one timer
struct Model
{
	bool created = false, armed = false, has_cb = false;
	int64_t expiry = 0;
	unsigned interval = 0;
	int cb = -1, fired = 0, running = 0;
	unsigned gen = 0; int64_t late = 0;
};
struct Obj : Base
{
	Obj(boost::asio::io_context& io) : Base(io) {}
	std::map<int, Model> m;
	std::function<bool(int id, int cb)> on;     // inside a callback
	std::vector<std::string> ev;

	bool fire(int id, int cb)
	{
		Model& x = m[id];
		int64_t now = sim::now_ms();
		sim::logf("timer %d callback %d at %lld", id, cb, (long long) now);
		CHECK(++x.running == 1, "two callbacks of timer %d run at the same time", id);
		CHECK(x.armed, "callback %d of timer %d after it was stopped (%lld ms)", cb, id, (long long) now);
		CHECK(cb == x.cb, "timer %d called callback %d, its most recent callback is %d", id, cb, x.cb);
		CHECK(now >= x.expiry, "timer %d fired at %lld ms, before %lld ms", id, (long long) now, (long long) x.expiry);
		CHECK(now <= x.expiry + slack + x.late, "timer %d fired at %lld ms instead of %lld ms", id, (long long) now, (long long) x.expiry);
		CHECK(is_timer(id), "timer %d not shown as running inside its callback", id);
		++x.fired;
		ev.push_back(num(id) + "@" + num(now));
		unsigned g = x.gen;
		x.expiry = INT64_MAX / 2;                // being called
		bool again = on ? on(id, cb) : true;
		Model& y = m[id];
		if (again && y.armed)
		{
#ifdef ST_ASIO_ALIGNED_TIMER
			int64_t el = sim::now_ms() - now, iv = y.interval;
			y.expiry = el <= iv ? now + iv : iv ? now + (el / iv + (el % iv ? 1 : 0)) * iv : sim::now_ms();
			y.late = el > iv && iv && el % iv == 0 ? iv : 0;
#else
			y.expiry = sim::now_ms() + y.interval;
#endif
			++y.gen;
		}
		else if (!again && g == y.gen) y.armed = false;
		--y.running;
		return again;
	}
	int64_t slack = 0;
	boost::function<bool (tid)> cbf(int id, int cb) {return boost::function<bool (tid)>([this, id, cb](tid t) {CHECK(t == id, "wrong id passed"); return fire(id, cb);});}
	void arm(Model& x) {x.armed = true; x.expiry = sim::now_ms() + x.interval; ++x.gen;}

	void do_set(int id, unsigned iv, int cb) {sim::NoPreempt np; sim::logf("set_timer %d interval %u callback %d", id, iv, cb); Model& x = m[id]; x.created = x.has_cb = true; x.interval = iv; x.cb = cb; arm(x); CHECK(set_timer(id, iv, cbf(id, cb)), "set_timer failed");}
	void do_create(int id, unsigned iv, int cb) {sim::NoPreempt np; sim::logf("create_or_update_timer %d interval %u callback %d", id, iv, cb); Model& x = m[id]; x.created = x.has_cb = true; x.interval = iv; x.cb = cb; CHECK(create_or_update_timer(id, iv, cbf(id, cb)), "create failed");}
	void do_start(int id) {sim::NoPreempt np; sim::logf("start_timer %d", id); Model& x = m[id]; bool e = x.created; if (e) arm(x); CHECK(start_timer(id) == e, "start_timer(%d) returned %d", id, !e);}
	void do_stop(int id) {sim::NoPreempt np; sim::logf("stop_timer %d", id); m[id].armed = false; stop_timer(id);}
	void do_stop_all() {sim::NoPreempt np; sim::logf("stop_all_timer"); for (auto& x : m) x.second.armed = false; stop_all_timer();}
	void do_stop_all_but(int id) {sim::NoPreempt np; sim::logf("stop_all_timer(%d)", id); for (auto& x : m) if (x.first != id) x.second.armed = false; stop_all_timer(id);}
	void do_interval(int id, unsigned iv) {sim::NoPreempt np; sim::logf("change_timer_interval %d %u", id, iv); Model& x = m[id]; if (x.created) x.interval = iv; CHECK(change_timer_interval(id, iv) == x.created, "change_timer_interval");}
	void do_cb(int id, int cb) {sim::NoPreempt np; sim::logf("change_timer_call_back %d %d", id, cb); Model& x = m[id]; if (x.created) x.cb = cb; CHECK(change_timer_call_back(id, cbf(id, cb)) == x.created, "change_timer_call_back");}
	// op on timer id; n distinguishes the new callback
	void op(int k, int id, int n)
	{
		switch (k)
		{
		case 0: do_stop(id); break;
		case 1: do_set(id, 10, n); break;
		case 2: do_set(id, 20, n); break;
		case 3: do_start(id); break;
		case 4: do_interval(id, 30); break;
		case 5: do_cb(id, n); break;
		case 6: do_create(id, 20, n); break;
		case 7: do_stop_all(); break;
		case 8: do_stop_all_but(id); break;
		}
	}
	static const int OPS = 9;
	// nothing is overdue, the running indication matches
	void verify()
	{
		sim::NoPreempt np;
		for (auto& x : m)
		{
			CHECK(is_timer(x.first) == x.second.armed, "timer %d is %s as running", x.first, x.second.armed ? "not shown" : "shown");
			CHECK(!x.second.armed || x.second.running || sim::now_ms() <= x.second.expiry + slack, "timer %d should have fired at %lld ms, it is %lld ms", x.first, (long long) x.second.expiry, (long long) sim::now_ms());
		}
	}
};
#ifdef ST_ASIO_ALIGNED_TIMER
#endif
struct Io
{
	boost::asio::io_context io;
	boost::asio::executor_work_guard<boost::asio::io_context::executor_type> work;
	boost::thread_group tg;
	Io(int threads) : work(io.get_executor()) {for (int i = 0; i < threads; ++i) tg.create_thread([this] {io.run();});}
};

// operations by a foreign thread between expiries
SCENARIO(timer_ops, "all sequences of operations on a timer at times between expiries", 0, 1, NULL)
{
	Io io(1);
	Obj o(io.io);
	int n = sim::param("len", 4);
	o.on = [&](int, int) {return true;};
	int stop_after = sim::choose(3, "callback continues");      // 0: always, 1: once, 2: never
	o.on = [&](int id, int) {return stop_after == 0 || o.m[id].fired < 3 - stop_after;};
	o.do_set(1, 10, 0);
	o.do_set(2, 15, 1);
	for (int i = 0; i < n; ++i)
	{
		int dt = sim::choose(2, "pause") ? 13 : 3;
		sim::sleep_ms(dt); sim::settle();
		o.verify();
		o.op(sim::choose(Obj::OPS, "op"), 1, 2 + i);
		o.verify();
	}
	sim::sleep_ms(47); sim::settle();
	o.verify();
	sim::outcome(join(o.ev));
	sim::finish();
}
// operations by the callback of the timer itself or of another timer expiring at the same moment
static void inside(int threads)
{
	Io io(threads);
	Obj o(io.io);
	int who = sim::choose(3, "callback of");                // 1: timer 1 itself, 2: timer 2 expiring at the same time, 0: timer 2 set first
	int k1 = sim::choose(Obj::OPS + 1, "op 1"), k2 = sim::choose(Obj::OPS + 1, "op 2");
	bool ret = sim::choose(2, "callback returns");
	bool done = false, twice = sim::choose(2, "when") == 1;
	o.on = [&](int id, int) {
		if (id != (who == 1 ? 1 : 2) || done || (twice && o.m[id].fired < 2)) return true;
		done = true;
		if (k1) o.op(k1 - 1, 1, 10);
		if (k2) o.op(k2 - 1, 1, 11);
		return ret;
	};
	if (who == 0) {o.do_set(2, 10, 1); o.do_set(1, 10, 0);} else {o.do_set(1, 10, 0); o.do_set(2, 10, 1);}
	for (int i = 0; i < 5; ++i) {sim::sleep_ms(14); sim::settle(); o.verify();}
	sim::outcome(join(o.ev));
	sim::finish();
}
SCENARIO(timer_inside, "all pairs of operations inside the callback of the timer or of another one expiring at the same moment", 0, 1, NULL) {inside(1);}
// a callback that lasts, accumulated expiries
SCENARIO(timer_slow, "callbacks that last shorter or longer than the intervals of two timers", 0, 1, NULL)
{
	Io io(1);
	Obj o(io.io);
	static const int lasts[] = {0, 3, 10, 14, 20, 25};
	int d1 = lasts[sim::choose(6, "lasts")], iv = sim::choose(2, "interval") ? 10 : 0;
	o.slack = 60;
	int stop = sim::choose(4, "stop the other from inside");
	o.on = [&](int id, int) {
		if (id == 1) {if (d1) sim::sleep_ms(d1); if (stop == 1) o.do_stop(2); if (stop == 2 && o.m[1].fired == 2) o.do_set(2, 20, 5); if (stop == 3) o.do_set(2, 10, 6); return o.m[1].fired < 4;}
		return true;
	};
#ifdef ST_ASIO_ALIGNED_TIMER
	if (iv == 0 && d1 == 0) iv = 10;
#endif
	o.do_set(1, iv, 0);
	o.do_set(2, 10, 1);
	sim::sleep_ms(200); sim::settle();
	o.slack = 0;
	CHECK(o.m[1].fired == 4, "timer fired %d times", o.m[1].fired);
	sim::sleep_ms(11); sim::settle();
	o.verify();
	sim::outcome(join(o.ev));
	sim::finish();
}
// threads: different ids on one object, and two objects, from different threads
SCENARIO(timer_threads, "two threads manipulate different timers of one object and of another object, 2 service threads", 2, 3, NULL)
{
	Io io(2);
	Obj o(io.io), p(io.io);
	o.m[1]; o.m[2]; o.m[3]; p.m[1];
	o.on = [&](int id, int) {return o.m[id].fired < 3;};
	p.on = [&](int id, int) {return p.m[id].fired < 3;};
	int a = sim::spawn("a", [&] {o.do_set(1, 10, 0); p.do_set(1, 10, 1);});
	int b = sim::spawn("b", [&] {o.do_set(2, 10, 2); o.do_set(3, 20, 3); o.do_stop(3); o.do_start(3);});
	sim::join(a); sim::join(b);
	sim::sleep_ms(35); sim::settle();
	o.verify(); p.verify();
	CHECK(o.m[1].fired == 3 && o.m[2].fired == 3 && p.m[1].fired == 3 && o.m[3].fired == 1, "fired %d %d %d %d", o.m[1].fired, o.m[2].fired, p.m[1].fired, o.m[3].fired);
	sim::sleep_ms(60); sim::settle();
	o.verify(); p.verify();
	CHECK(o.m[1].fired == 3 && o.m[2].fired == 3 && p.m[1].fired == 3 && o.m[3].fired == 3, "fired %d %d %d %d", o.m[1].fired, o.m[2].fired, p.m[1].fired, o.m[3].fired);
	CHECK(!o.is_timer(1) && !o.is_timer(2) && !p.is_timer(1) && !o.is_timer(3), "a finished timer is shown as running");
	sim::finish();
}
// stopping from outside while the expiry is under way: at most the expiry already reached may still be called
SCENARIO(timer_stop_race, "a thread stops and restarts the timer around its expiry, 2 service threads", 2, 3, NULL)
{
	Io io(2);
	Obj* o = new Obj(io.io);
	bool stopping = false;
	int64_t stopped_at = -1;
	int fired_after = 0, fired = 0;
	o->set_timer(1, 10, boost::function<bool (unsigned short)>([&](unsigned short) {++fired; if (stopped_at >= 0 && sim::now_ms() > stopped_at) ++fired_after; return false;}));
	sim::sleep_ms(10);
	o->stop_timer(1);
	stopped_at = sim::now_ms();
	sim::settle();
	sim::sleep_ms(30); sim::settle();
	(void) stopping;
	CHECK(fired <= 1 && fired_after == 0, "fired %d times, %d after being stopped", fired, fired_after);
	CHECK(!o->is_timer(1), "shown as running");
	// restarted: fires exactly once more
	fired = 0; stopped_at = -1;
	o->start_timer(1);
	CHECK(o->is_timer(1), "not shown as running");
	sim::sleep_ms(9); sim::settle();
	CHECK(fired == 0, "fired early");
	sim::sleep_ms(2); sim::settle();
	CHECK(fired == 1 && !o->is_timer(1), "restarted timer fired %d times", fired);
	sim::finish();
}
SCENARIO(timer_alone, "one timer, callbacks of every length: the exact moment of every call", 0, 1, NULL)
{
	Io io(1);
	Obj o(io.io);
	static const int lasts[] = {0, 3, 9, 10, 14, 20, 25};
	int iv = 10 - 3 * sim::choose(2, "interval"), how = sim::choose(3, "interval changed inside");
	int d[4];
	for (int i = 0; i < 3; ++i) d[i] = lasts[sim::choose(7, "lasts")];
	o.on = [&](int id, int) {
		int f = o.m[1].fired;
		if (how && f == 2) {if (how == 1) o.do_interval(1, 15); else o.do_set(1, 15, 1);}
		if (d[f - 1]) sim::sleep_ms(d[f - 1]);
		return f < 3;
	};
	o.do_set(1, iv, 0);
	sim::sleep_ms(150); sim::settle();
	CHECK(o.m[1].fired == 3, "timer fired %d times", o.m[1].fired);
	CHECK(!o.is_timer(1), "a finished timer is shown as running");
	sim::outcome(join(o.ev));
	sim::finish();
}
