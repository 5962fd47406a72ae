// C18: clients connect, retry and reconnect exactly as configured
#include "srvfix.h"
#ifndef MULTI
#define MULTI 0
#endif
static const int MAX_MS = ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION * 1000 + 200;

// one client on its own io_context, every attempt is recorded together with the time the link was idle before it
struct CW
{
	int l = -1;
	service_pump sp;
	SClient c;
	std::vector<int64_t> attempts, ends; // times of attempts, times they (or the link) ended
	std::vector<int> fds;
	std::vector<std::pair<int64_t, int> > retry; // time and returned delay
	CW(bool reconnect) : c((sim::window(false), sp))
	{
		srv_addr(c);
		c.set_reconnect(reconnect);
		simnet::cfg.connect_seen = [this](int port) {
			CHECK(port == 0 || port == PORT, "connects to port %d", port);
			CHECK(srv_users() == 0, "a second connection attempt while another one is pending or connected");
			CHECK(!c.live, "a connection attempt while the link is alive");
			CHECK(c.started(), "a connection attempt of a client that is not started");
			attempts.push_back(sim::now_ms());
		};
	}
	~CW() {simnet::cfg.connect_seen = nullptr;}
	void listen() {l = srv_listen();}
	void start(int threads) {sp.start_service(threads);}
	int accept() {int f = simnet::accept(l); fds.push_back(f); return f;}
	int open_links() {return srv_users();}
	// nothing more may happen
	void quiet(const char* why, bool connected)
	{
		size_t a = attempts.size(); int cl = c.closes, co = c.connects;
		sim::sleep_ms(1500);
		CHECK(attempts.size() == a, "%s: another connection attempt", why);
		CHECK(c.closes == cl && c.connects == co, "%s: another connection event", why);
		CHECK(connected == c.is_connected(), "%s: connected %d", why, (int) c.is_connected());
		CHECK(open_links() == (connected ? 1 : 0), "%s: %d links open", why, open_links());
		if (!connected)
		{
			CHECK(!c.started(), "%s: left half started", why);
			CHECK(c.obsoleted(), "%s: never becomes obsolete", why);
		}
	}
};

// ---- first connection: the server appears after some failed attempts, the retry hook varies
SCENARIO(conn_first, "the server starts listening after 0-3 failed attempts; retry intervals 0, 100, default or give up at an attempt", 1, 3, NULL)
{
	sim::window(false);
	int after = sim::choose(4, "listening after failures"), iv = sim::choose(3, "interval"), give_up = sim::choose(4, "gives up at");
	int delay = iv == 0 ? 0 : iv == 1 ? 100 : ST_ASIO_RECONNECT_INTERVAL;
	{
		CW w(true);
		if (after == 0) w.listen();
		w.c.retry_hook = [&](int n) {
			if (n == after) w.listen();
			int d = n == give_up ? -1 : delay;
			w.retry.push_back(std::make_pair((int64_t) sim::now_ms(), d));
			return d;
		};
		sim::window(true);
		int64_t t0 = sim::now_ms();
		w.start(2);
		bool ok = give_up == 0 || give_up > after;
		if (ok)
		{
			CHECK(sim::wait_for([&] {return w.c.connects > 0;}, 3000, "connected"), "never connects");
			sim::window(false);
			sim::settle();
			CHECK((int) w.attempts.size() == after + 1, "%d attempts", (int) w.attempts.size());
		}
		else
		{
			CHECK(sim::wait_for([&] {return w.c.closes > 0;}, 3000, "gave up"), "gave up, but is never closed");
			sim::window(false);
			CHECK((int) w.attempts.size() == give_up && w.c.closes == 1 && w.c.connects == 0, "attempts %d", (int) w.attempts.size());
		}
		CHECK(w.attempts[0] - t0 <= 60, "first attempt after %d ms", (int) (w.attempts[0] - t0));
		for (size_t i = 1; i < w.attempts.size(); ++i)
		{
			int64_t d = w.attempts[i] - w.retry[i - 1].first;
			CHECK(d >= w.retry[i - 1].second && d <= w.retry[i - 1].second + 20, "asked to retry after %d ms, retried after %d ms", w.retry[i - 1].second, (int) d);
			CHECK(w.retry[i - 1].first - w.attempts[i - 1] <= 120, "the failure was handled %d ms after the attempt", (int) (w.retry[i - 1].first - w.attempts[i - 1]));
		}
		w.quiet(ok ? "connected" : "given up", ok);
		CHECK(w.c.retries == (int) w.retry.size() && w.c.connects == (ok ? 1 : 0), "events");
		if (!ok)
		{
			// it can be started again
			if (w.l < 0) w.listen();
			w.c.start();
			CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 200, "connected"), "a client that has given up cannot be started again");
		}
		sim::finish();
	}
}
// ---- attempts that fail by chance, a failing bind
SCENARIO(conn_errors, "every pattern of refused connections", 3, 6, [] {simnet::cfg.connect_err = true;})
{
	sim::window(false);
	CW w(true);
	w.listen();
	sim::window(true);
	w.start(1);
	CHECK(sim::wait_for([&] {return w.c.connects > 0;}, 20000, "connected"), "never connects");
	sim::window(false);
	for (size_t i = 1; i < w.attempts.size(); ++i) {int d = w.attempts[i] - w.attempts[i - 1]; CHECK(d >= ST_ASIO_RECONNECT_INTERVAL && d <= ST_ASIO_RECONNECT_INTERVAL + 120, "interval %d", d);}
	sim::outcome("attempts " + num(w.attempts.size()));
	int fd = w.accept();
	sim::settle();
	w.quiet("connected", true);
	sim::window(true);
	simnet::close(fd);
	CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 20000, "reconnected"), "never reconnects");
	sim::window(false);
	w.quiet("reconnected", true);
	CHECK(w.c.closes == 1, "closes %d", w.c.closes);
	sim::finish();
}
#ifndef UNIX
SCENARIO(conn_bind, "a client with a local address whose bind fails now and then", 2, 4, [] {simnet::cfg.bind_err = true;})
{
	sim::window(false);
	CW w(true);
	bool refused = sim::choose(2, "server absent at first");
	w.c.set_local_addr(6000, "127.0.0.1");
	if (!refused) w.listen();
	w.c.retry_hook = [&](int n) {if (n == 2 && w.l < 0) w.listen(); return 100;};
	sim::window(true);
	w.start(1);
	if (!w.c.started()) {CHECK(w.c.connects == 0, "not started"); sim::outcome("first bind"); sim::finish(); return;}
	CHECK(sim::wait_for([&] {return w.c.connects > 0;}, 3000, "connected"), "a client whose bind failed once never connects any more and is not closed either");
	int fd = w.accept();
	sim::settle();
	simnet::close(fd);
	// the first bind of a start is made in start(), which then fails as a whole
	sim::wait_for([&] {return w.c.connects == 2 || !w.c.started();}, 3000, "again");
	sim::sleep_ms(300);
	CHECK(w.c.is_connected() || !w.c.started(), "a client whose bind failed is left half started");
	sim::outcome(w.c.is_connected() ? "again" : "start failed");
	sim::finish();
}
#endif
// ---- a lost link or a shutdown, with every setting
enum {LOST_CLOSE, LOST_RESET, LOST_GARBAGE, SHUT_FORCE, SHUT_FORCE_RE, SHUT_GRACE, SHUT_GRACE_RE, SHUT_DISC, SHUT_DISC_RE, KINDS};
static const char* kind_name[] = {"peer closes", "peer resets", "garbage", "force_shutdown", "force_shutdown(true)", "graceful_shutdown", "graceful_shutdown(true)", "disconnect", "disconnect(true)"};
static void act(Client& c, int k, int fd)
{
	switch (k)
	{
	case LOST_CLOSE: simnet::close(fd); break;
	case LOST_RESET: simnet::reset(fd); break;
	case LOST_GARBAGE: simnet::send_some(fd, std::string("\0\1", 2)); break;
	case SHUT_FORCE: c.force_shutdown(); break;
	case SHUT_FORCE_RE: c.force_shutdown(true); break;
	case SHUT_GRACE: c.graceful_shutdown(); break;
	case SHUT_GRACE_RE: c.graceful_shutdown(true); break;
	case SHUT_DISC: c.disconnect(); break;
	case SHUT_DISC_RE: c.disconnect(true); break;
	}
}
static bool wants(int k, bool reconnect) {return k <= LOST_GARBAGE ? reconnect : k == SHUT_FORCE_RE || k == SHUT_GRACE_RE || k == SHUT_DISC_RE;}
static bool is_loss(int k) {return k <= LOST_GARBAGE;}
SCENARIO(conn_end, "connected client: every way to end the link, with and without reconnecting enabled, from outside or inside a callback", 1, 3, NULL)
{
	sim::window(false);
	int k = sim::choose(KINDS, "end"); bool re = sim::choose(2, "reconnect");
	bool inside = !is_loss(k) && sim::choose(2, "inside a callback");
	CW w(re);
	w.listen();
	w.start(2);
	int fd = w.accept();
	sim::settle();
	CHECK(w.c.is_connected() && w.c.connects == 1 && w.attempts.size() == 1, "connected");
	if (inside) w.c.handler = [&](const std::string& m) {act(w.c, k, fd); return true;};
	int64_t t0 = sim::now_ms();
	sim::window(true);
	if (inside) simnet::send(fd, lv("go")); else act(w.c, k, fd);
	if (k == SHUT_GRACE || k == SHUT_GRACE_RE) {simnet::recv_all(fd); simnet::close(fd);}
	bool again = wants(k, re);
	CHECK(sim::wait_for([&] {return w.c.closes > 0;}, 300, "closed"), "%s: not closed", kind_name[k]);
	if (again) CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 300, "reconnected"), "%s, reconnect %d: does not reconnect", kind_name[k], re);
	sim::window(false);
	if (again) {fd = w.accept(); sim::settle(); w.c.handler = nullptr; simnet::send(fd, lv("hi")); sim::settle(); CHECK(w.c.got.size() && w.c.got.back() == "hi", "the new link delivers nothing"); w.c.send_msg("ho", 2); sim::settle(); CHECK(simnet::peek_available(fd) == lv("ho"), "the new link sends nothing or something else");}
	w.quiet(kind_name[k], again);
	CHECK(w.c.closes == 1 && w.c.connects == (again ? 2 : 1) && (int) w.attempts.size() == (again ? 2 : 1), "closes %d connects %d attempts %d", w.c.closes, w.c.connects, (int) w.attempts.size());
	CHECK(w.c.retries == 0, "the retry hook was called, but no attempt failed");
	(void) t0;
	sim::finish();
}
// ---- shutdown at any moment: while connecting, between attempts, at the moment of success or failure
SCENARIO(conn_shutdown, "shutdown at any moment of connecting and retrying", 2, 3, [] {simnet::cfg.connect_err = true;})
{
	sim::window(false);
	int k = SHUT_FORCE + sim::choose(4, "shutdown"), when = sim::choose(5, "phase");
	CW w(true);
	bool hole = when == 2;
	simnet::cfg.blackhole = [&](int) {return hole;};
	if (when != 1) w.listen();
	if (when == 0) {sim::window(true); w.start(2);}
	else if (when == 4) {w.start(2); sim::sleep_ms(49); sim::window(true);}
	else
	{
		// 1: between two attempts, 2: while an attempt is pending, 3: connected, the peer closes at the same time
		w.start(2);
		sim::sleep_ms(when == 1 ? 200 : 60);
		sim::window(true);
	}
	int fp = when == 3 ? sim::spawn("peer", [&] {int f = simnet::try_accept(w.l); if (f >= 0) simnet::close(f);}) : -1;
	int cl = w.c.closes;
	act(w.c, k, -1);
	bool again = wants(k, true);
	if (fp >= 0) sim::join(fp);
	hole = false;
	if (again) {if (w.l < 0) w.listen(); CHECK(sim::wait_for([&] {return w.c.is_connected();}, 4000, "connected"), "%s: does not connect again", kind_name[k]);}
	else CHECK(sim::wait_for([&] {return w.c.closes > cl;}, MAX_MS, "closed"), "%s: not closed", kind_name[k]);
	sim::window(false);
	if (again) sim::sleep_ms(MAX_MS);
	w.quiet(kind_name[k], again);
	sim::finish();
}
// ---- two events at once; the last of several shutdown calls wins
SCENARIO(conn_pairs, "a lost link together with a shutdown call", 1, 2, NULL)
{
	sim::window(false);
	int a = sim::choose(3, "loss"), k = SHUT_FORCE + sim::choose(4, "shutdown"); bool re = sim::choose(2, "reconnect");
	CW w(re);
	w.listen();
	w.start(2);
	int fd = w.accept();
	sim::settle();
	sim::window(true);
	int fp = sim::spawn("peer", [&] {act(w.c, a, fd);});
	act(w.c, k, fd);
	sim::join(fp);
	bool again = wants(k, true);
	if (again) CHECK(sim::wait_for([&] {return w.c.connects >= 2 && w.c.is_connected();}, MAX_MS + 1000, "reconnected"), "%s and %s: does not reconnect", kind_name[a], kind_name[k]);
	else CHECK(sim::wait_for([&] {return w.c.closes > 0;}, 300, "closed"), "%s and %s: not closed", kind_name[a], kind_name[k]);
	sim::window(false);
	sim::sleep_ms(again ? MAX_MS : 200);
	w.quiet(kind_name[k], again);
	CHECK(w.c.closes >= 1 && w.c.closes <= 2 && w.c.connects == w.c.closes + (again ? 1 : 0), "closes %d connects %d", w.c.closes, w.c.connects);
	sim::finish();
}
// ---- restart by hand after it was closed
SCENARIO(conn_restart, "a closed client is started again, twice in a row and from two threads", 1, 2, NULL)
{
	sim::window(false);
	CW w(false);
	w.listen();
	w.start(2);
	int fd = w.accept();
	sim::settle();
	int how = sim::choose(3, "how");
	int k = sim::choose(2, "end") ? LOST_CLOSE : SHUT_FORCE;
	act(w.c, k, fd);
	bool early = sim::choose(2, "start early");
	if (!early) {CHECK(sim::wait_for([&] {return w.c.closes > 0 && w.c.obsoleted();}, 300, "closed"), "not closed");}
	sim::window(true);
	if (how == 0) w.c.start();
	else if (how == 1) {w.c.start(); w.c.start();}
	else {int f = sim::spawn("s", [&] {w.c.start();}); w.c.start(); sim::join(f);}
	if (early) {sim::wait_for([&] {return w.c.closes > 0;}, 300, "closed"); sim::window(false); sim::sleep_ms(200); w.c.start();}
	CHECK(sim::wait_for([&] {return w.c.is_connected();}, 300, "connected"), "the restarted client does not connect");
	sim::window(false);
	sim::settle();
	w.quiet("restarted", true);
	CHECK(w.c.connects == 2 && w.attempts.size() == 2, "connects %d attempts %d", w.c.connects, (int) w.attempts.size());
	sim::finish();
}
// ---- service stop and restart in any phase
SCENARIO(conn_service, "the service is stopped in any phase of the client's life and restarted", 1, 2, [] {simnet::cfg.connect_err = true;})
{
	sim::window(false);
	int when = sim::choose(4, "phase"); bool re = sim::choose(2, "reconnect");
	CW w(re);
	bool hole = when == 2;
	simnet::cfg.blackhole = [&](int) {return hole;};
	if (when != 1) w.listen();
	if (when == 0) sim::window(true);
	w.start(2);
	if (when) {sim::sleep_ms(when == 1 ? 200 : 60); sim::window(true);}
	int fp = when == 3 ? sim::spawn("peer", [&] {int f = simnet::try_accept(w.l); if (f >= 0) {simnet::recv_all(f); simnet::close(f);}}) : -1;
	w.sp.stop_service();
	sim::window(false);
	if (fp >= 0) sim::join(fp);
	CHECK(!w.c.started() && !w.c.live, "the service has stopped, the client has not");
	CHECK(w.open_links() == 0, "a link is still open after the service has stopped");
	CHECK(w.c.closes == w.c.connects || (w.c.connects == 0 && w.c.closes <= 1), "closes %d connects %d", w.c.closes, w.c.connects);
	hole = false;
	if (w.l < 0) w.listen();
	int co = w.c.connects;
	w.c.set_reconnect(true);
	w.sp.start_service(1);
	CHECK(sim::wait_for([&] {return w.c.is_connected();}, 3000, "connected"), "does not connect after the service was restarted");
	sim::settle();
	CHECK(w.c.connects == co + 1, "connects");
	sim::finish();
}
