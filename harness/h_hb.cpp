// C28: heartbeats
#include "srvfix.h"
#include "ext/udp.h"
#include <time.h>
static const std::string HBT = lv("");
#ifdef ST_ASIO_ALWAYS_SEND_HEARTBEAT
static const bool ALWAYS = true;
#else
static const bool ALWAYS = false;
#endif
static int64_t NOW() {return sim::now_ms();}
struct Ev {int64_t ms; time_t s; std::string d;};
static Ev ev(const std::string& d) {return Ev{NOW(), time(NULL), d};}

// watches what the link writes, with times
struct Watch
{
	int fd;
	std::vector<Ev> sent; // one per message (heartbeats are empty)
	bool ended = false;
	int64_t end_ms = 0;
	std::string rest;
	Watch(int fd_) : fd(fd_) {}
	void poll()
	{
		if (ended) return;
		rest += simnet::peek_available(fd);
		std::string r;
		for (auto& m : unlv(rest, &r)) sent.push_back(ev(m));
		rest = r;
		if (simnet::at_eof(fd) || simnet::was_reset(fd)) {ended = true; end_ms = NOW();}
	}
};
// ---- one link, every timing of traffic: what the library counts in whole seconds is computed by a model
template<typename L, typename FD> static void timing(L& c, int I, int M, FD get_fd, int steps)
{
	// the link has just been announced
	const int64_t t0 = NOW();
	Watch w(get_fd());
	time_t last_recv = time(NULL), last_sent = 0;
	std::vector<std::string> want, wire;
	int64_t broken = -1;
	int hbs = 0;
	// traffic happens at 250 + 500 * k ms, checks at 1000 * I * k
	int total = 2 * I * (M + 2) + steps;
	std::vector<int> what(total, 0);
	for (int k = 0; k < steps; ++k) what[k] = sim::choose(4, "event");
	int64_t next_check = t0 + 1000 * I;
	for (int k = 0; k <= total && broken < 0; ++k)
	{
		int64_t at = t0 + 250 + 500 * k;
		// let the checks before this event happen one after the other
		while (next_check <= at)
		{
			sim::sleep_ms(next_check - NOW() - 1);
			w.poll();
			CHECK(w.sent.size() == wire.size(), "something is sent %d ms after the start without a reason", (int) (NOW() - t0));
			CHECK(!w.ended && c.hb_errors == 0 && c.closes == 0, "declared broken %d ms after the start, received last at second %d of %d", (int) (NOW() - t0), (int) last_recv, (int) time(NULL));
			sim::sleep_ms(2); // now the check has happened, but with the time of 1 ms ago
			time_t s = (time_t) ((0)) + time(NULL); // seconds don't change at 1 ms after a check, see the phases
			sim::settle();
			w.poll();
			if (s - last_recv >= I * M) {broken = next_check; break;}
			if (ALWAYS || s - last_sent >= I) {wire.push_back(""); last_sent = s; ++hbs;}
			CHECK(w.sent.size() == wire.size(), "%d ms after the start (last sent at second %d, now %d, interval %d): %d messages on the wire instead of %d",
				(int) (NOW() - t0), (int) last_sent, (int) s, I, (int) w.sent.size(), (int) wire.size());
			next_check += 1000 * I;
		}
		if (broken >= 0 || k == total) break;
		sim::sleep_ms(at - NOW());
		if (what[k])
		{
			std::string m(1, 'a' + k);
			if (what[k] == 1) {simnet::send(w.fd, lv(m)); want.push_back(m); last_recv = time(NULL);}
			else if (what[k] == 2) {simnet::send(w.fd, HBT); last_recv = time(NULL);}
			else {{std::string x = m; CHECK(c.send_msg(x, false), "refused");} wire.push_back(m); last_sent = time(NULL);}
			sim::settle();
			w.poll();
		}
		CHECK(c.got == want, "delivered %s instead of %s", join_str(c.got).c_str(), join_str(want).c_str());
	}
	std::vector<std::string> got;
	for (auto& e : w.sent) got.push_back(e.d);
	CHECK(got == wire, "sent %s instead of %s", join_str(got).c_str(), join_str(wire).c_str());
	CHECK(broken >= 0, "nothing received for %d s, but not declared broken", I * M);
	CHECK(c.hb_errors == 1, "%d notifications of a broken link", c.hb_errors);
	CHECK(sim::wait_for([&] {return c.closes == 1;}, 300, "closed"), "declared broken, but not closed");
	sim::sleep_ms(3000 * I);
	w.poll();
	CHECK(w.ended && w.sent.size() == wire.size() && c.hb_errors == 1 && c.closes == 1, "events after the end");
}
#if ST_ASIO_HEARTBEAT_INTERVAL <= 0
SCENARIO(hb_client, "a client link with every short history of traffic in both directions, intervals 1-2, maximum absence 1-3, at different fractions of a second", 0, 0, NULL)
{
	sim::window(false);
	int I = 1 + sim::choose(2, "interval"), M = 1 + sim::choose(3, "max absence"), ph = sim::choose(3, "phase");
	World w;
	w.c.connect_hook = [&] {w.c.start_heartbeat(I, M);};
	// the announcement happens at 50 ms; fractions .1, .4 and .85 of a second
	sim::sleep_ms(1000 - NOW() % 1000 + (ph == 0 ? 50 : ph == 1 ? 350 : 800));
	w.sp.start_service(1);
	w.fd = simnet::accept(w.l);
	sim::settle();
	CHECK(w.c.is_connected(), "not connected");
	timing(w.c, I, M, [&] {return w.fd;}, (int) sim::param("steps", 4));
	sim::finish();
}
SCENARIO(hb_server, "the same for a server link", 0, 0, NULL)
{
	sim::window(false);
	int I = 1 + sim::choose(2, "interval"), M = 1 + sim::choose(3, "max absence"), ph = sim::choose(2, "phase");
	SWorld w;
	sh().start = [&](SSock& s) {s.start_heartbeat(I, M);};
	w.start(1);
	SSock* p = NULL;
	sim::sleep_ms(1000 - NOW() % 1000 + (ph == 0 ? 150 : 700));
	int fd = w.peer(&p);
	boost::shared_ptr<SSock> hold = w.s.find(p->id());
	CHECK(hold, "not found");
	timing(*p, I, M, [&] {return fd;}, (int) sim::param("steps", 3));
	hold.reset();
	sim::finish();
}
// ---- races: data arriving, being sent, shutdown and peer close just when the check runs
SCENARIO(hb_race, "a message sent, a message received, a shutdown or the peer's close exactly when the check runs", 1, 2, NULL)
{
	sim::window(false);
	int what = sim::choose(6, "event"), when = sim::choose(2, "check");
	World w;
	w.c.connect_hook = [&] {w.c.start_heartbeat(1, 2);};
	sim::sleep_ms(1000 - NOW() % 1000 + 350);
	w.start(2);
	Watch x(w.fd);
	int64_t t0 = NOW();
	sim::sleep_ms(t0 + 1000 * (when + 1) - NOW() - 1);
	x.poll();
	size_t base = x.sent.size();
	CHECK(base == (size_t) when, "%d heartbeats before", (int) base);
	sim::window(true);
	int f = sim::spawn("event", [&] {
		sim::sleep_ms(1);
		switch (what)
		{
		case 0: simnet::send(w.fd, lv("in")); break;
		case 1: w.c.send_msg(std::string("out"), false); break;
		case 2: w.c.force_shutdown(); break;
		case 3: w.c.graceful_shutdown(); break;
		case 4: simnet::close(w.fd); x.ended = true; break;
		case 5: simnet::reset(w.fd); x.ended = true; break;
		}
	});
	sim::sleep_ms(2);
	sim::join(f);
	sim::settle();
	sim::window(false);
	x.poll();
	std::vector<std::string> got;
	for (size_t i = base; i < x.sent.size(); ++i) got.push_back(x.sent[i].d);
	// absence is 1 (2) seconds at the first (second) check
	if (what == 0)
	{
		bool err = w.c.hb_errors > 0;
		CHECK(when == 1 || !err, "declared broken too early");
		if (!err) CHECK(w.c.got.size() == 1 && w.c.got[0] == "in" && got == std::vector<std::string>(1, ""), "delivered %s, sent %s", join_str(w.c.got).c_str(), join_str(got).c_str());
	}
	else if (what == 1)
	{
		int outs = 0, h = 0;
		for (auto& m : got) m == "out" ? ++outs : ++h;
		CHECK(h <= 1, "%d heartbeats at once", h);
		CHECK((w.c.hb_errors == 1) == (when == 1), "%d errors at check %d", w.c.hb_errors, when);
		if (when == 0) CHECK(outs == 1, "the message is lost: %s", join_str(got).c_str());
		if (h == 0 && when == 0) CHECK(outs == 1, "neither a heartbeat nor a message");
	}
	else
	{
		CHECK(sim::wait_for([&] {return w.c.closes == 1;}, 7000, "closed"), "not closed");
		CHECK(got.size() <= 1, "%d heartbeats at once", (int) got.size());
	}
	sim::sleep_ms(4000);
	CHECK(w.c.closes <= 1 && w.c.hb_errors <= 1, "closed %d times, %d errors", w.c.closes, w.c.hb_errors);
	if (what == 0 || what == 1) CHECK(w.c.closes == 1 && w.c.hb_errors == 1, "silent for long, but not broken");
	sim::finish();
}
// ---- the buffer of the peer is full: no heartbeats pile up, the peer that keeps sending isn't declared broken
SCENARIO(hb_blocked, "sending is blocked for seconds while the peer sends heartbeats, or doesn't", 0, 1, NULL)
{
	sim::window(false);
	int alive = sim::choose(2, "peer sends");
	World w;
	w.c.connect_hook = [&] {w.c.start_heartbeat(1, 3);};
	w.start(1);
	Watch x(w.fd);
	simnet::set_rx_cap(w.fd, 8);
	sim::window(true);
	std::vector<std::string> want;
	for (int i = 0; i < 4; ++i) {want.push_back("msg" + num(i)); std::string x = want.back(); CHECK(w.c.send_msg(x, true), "refused");}
	for (int i = 0; i < 12; ++i) {if (alive) simnet::send(w.fd, HBT); sim::sleep_ms(500);}
	if (alive)
	{
		CHECK(w.c.hb_errors == 0 && w.c.is_connected(), "broken although the peer sends heartbeats");
		simnet::set_rx_cap(w.fd, 1000);
		int64_t t = NOW();
		for (int i = 0; i < 4; ++i) {x.poll(); sim::settle();}
		x.poll();
		std::vector<std::string> got; int h = 0;
		for (auto& e : x.sent) if (e.d.empty()) ++h; else got.push_back(e.d);
		CHECK(got == want, "received %s", join_str(got).c_str());
		if (!ALWAYS) CHECK(h <= 1, "%d heartbeats have piled up", h);
		(void) t;
	}
	else CHECK(w.c.hb_errors == 1 && w.c.closes == 1, "silent for 6 s, but not broken");
	CHECK(w.c.got.empty(), "heartbeats delivered");
	sim::finish();
}
#else
// ---- configured at compile time; both ends are library objects
SCENARIO(hb_pair, "a server and a reconnecting client with heartbeats: idle, chatting, disturbed; never broken by a check; broken links come back with working heartbeats", 0, 1, NULL)
{
	sim::window(false);
	int ph = sim::choose(4, "phase"), chat = sim::choose(4, "chat"), second = sim::choose(2, "second link");
	service_pump sp;
	Srv s(sp);
	SClient c(sp);
	s.set_server_addr(PORT, "127.0.0.1");
	c.set_server_addr(PORT, "127.0.0.1");
	c.set_reconnect(true);
	SSock* link = NULL;
	sh().start = [&](SSock& x) {link = &x;};
	sim::sleep_ms(ph * 230);
	sp.start_service(2);
	CHECK(sim::wait_for([&] {return c.connects == 1 && link;}, 2000, "connected"), "no link");
	sim::window(true);
	auto run = [&](int ms) {
		int64_t end = NOW() + ms;
		std::vector<std::string> a, b;
		size_t ga = c.got.size(), gb = link->got.size();
		for (int i = 0; NOW() < end; ++i)
		{
			sim::sleep_ms(310);
			if ((chat & 1) && i % 5 == 2) {a.push_back("c" + num(i)); std::string x = a.back(); c.send_msg(x, false);}
			if ((chat & 2) && i % 7 == 3) {b.push_back("s" + num(i)); std::string x = b.back(); link->send_msg(x, false);}
		}
		sim::settle();
		CHECK(c.hb_errors == 0 && link->hb_errors == 0, "a link with heartbeats in both directions is declared broken");
		CHECK(c.is_connected() && link->is_connected(), "not connected any more");
		CHECK(std::vector<std::string>(link->got.begin() + gb, link->got.end()) == a && std::vector<std::string>(c.got.begin() + ga, c.got.end()) == b, "delivered %s and %s", join_str(link->got).c_str(), join_str(c.got).c_str());
	};
	run(9000);
	if (second)
	{
		sim::window(false);
		SSock* old = link;
		link = NULL;
		old->force_shutdown();
		CHECK(sim::wait_for([&] {return c.connects == 2 && link;}, 2000, "connected again"), "no second link");
		run(9000);
	}
	sim::finish();
}
SCENARIO(hb_dead, "the peer vanishes: the link is declared broken in time and the client reconnects, again and again", 0, 1, NULL)
{
	sim::window(false);
	const int I = ST_ASIO_HEARTBEAT_INTERVAL, M = ST_ASIO_HEARTBEAT_MAX_ABSENCE;
	int ph = sim::choose(4, "phase"), talk = sim::choose(3, "talks");
	World w;
	w.c.set_reconnect(true);
	sim::sleep_ms(ph * 230);
	w.sp.start_service(2);
	sim::window(true);
	for (int r = 0; r < 3; ++r)
	{
		int fd = simnet::accept(w.l);
		CHECK(sim::wait_for([&] {return w.c.connects == r + 1;}, 100, "connected"), "not announced");
		int64_t last = NOW();
		for (int i = 0; i < talk; ++i) {sim::sleep_ms(700 * I); simnet::send(fd, i % 2 ? HBT : lv("x")); last = NOW();}
		CHECK(sim::wait_for([&] {return w.c.hb_errors == r + 1;}, 1000 * I * (M + 1) + 1000, "broken"), "nothing received for %d s, but not declared broken", I * (M + 1) + 1);
		CHECK(NOW() - last > 1000 * (I * M - 1), "declared broken after %d ms", (int) (NOW() - last));
		CHECK(NOW() - last <= 1000 * I * (M + 1) + 1000, "declared broken after %d ms", (int) (NOW() - last));
		CHECK(sim::wait_for([&] {return w.c.closes == r + 1;}, 300, "closed"), "not closed");
	}
	sim::finish();
}
#endif
// ---- UDP
struct UHB : public st_asio_wrapper::ext::udp::single_socket_service
{
	typedef st_asio_wrapper::ext::udp::single_socket_service super;
	UHB(service_pump& sp) : super(sp) {}
	int errs = 0, closes = 0;
	std::vector<int64_t> at;
	std::vector<std::string> got;
	virtual bool on_heartbeat_error() {++errs; at.push_back(NOW()); return super::on_heartbeat_error();}
	virtual void on_close() {++closes; super::on_close();}
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
	virtual bool on_msg_handle(out_msg_type& msg) {got.push_back(std::string(msg.data(), msg.size())); return true;}
#else
	virtual size_t on_msg_handle(out_queue_type& q)
	{
		out_container_type ms;
		q.move_items_out(ms);
		for (out_container_type::iterator i = ms.begin(); i != ms.end(); ++i) got.push_back(std::string(i->data(), i->size()));
		return ms.size();
	}
#endif
};
SCENARIO(hb_udp, "a UDP socket with heartbeats: silence is reported once per maximum absence, heartbeats go to the peer, the socket stays open", 0, 1, NULL)
{
	sim::window(false);
	int I = 1, M = 1 + sim::choose(3, "max absence"), ph = sim::choose(3, "phase"), talk = sim::choose(3, "peer talks");
	int a = simnet::udp(7001);
	service_pump sp;
	UHB u(sp);
	u.set_local_addr(7000, "127.0.0.1");
	u.set_peer_addr(7001, "127.0.0.1");
	sim::sleep_ms(1000 - NOW() % 1000 + ph * 300 + 50);
	sp.start_service(1);
	sim::settle();
	CHECK(u.is_ready(), "not started");
#if ST_ASIO_HEARTBEAT_INTERVAL <= 0
	u.start_heartbeat(1, M);
#else
	M = ST_ASIO_HEARTBEAT_MAX_ABSENCE;
	I = ST_ASIO_HEARTBEAT_INTERVAL;
#endif
	int64_t t0 = NOW();
	sim::window(true);
	int n = 0;
	for (int k = 0; k < 16; ++k)
	{
		sim::sleep_ms(t0 + 500 * k + 250 - NOW());
		if (talk == 1 && k % 2 == 0) {simnet::udp_send(a, 7000, "hello"); ++n;}
		if (talk == 2 && k == 4) {simnet::udp_send(a, 7000, "once"); ++n;}
	}
	sim::settle();
	CHECK((int) u.got.size() == n, "%d of %d messages delivered", (int) u.got.size(), n);
	CHECK(u.closes == 0 && u.is_ready(), "the socket was closed");
	std::string d; int from, h = 0;
	while (simnet::udp_try_recv(a, d, &from)) {CHECK(d == HBT, "a datagram %s that is not a heartbeat", hex(d).c_str()); ++h;}
	CHECK(h >= 7 / I - 1 && h <= 7 / I + 1, "%d heartbeats in 7.75 s", h);
	if (talk == 1 && M > 1) CHECK(u.errs == 0, "%d errors although datagrams arrive", u.errs);
	if (talk == 0) CHECK(u.errs >= 7 / (I * M) - 1 && u.errs <= 7 / (I * M) + 1, "%d errors, maximum absence %d", u.errs, M);
	for (size_t i = 1; i < u.at.size(); ++i) CHECK(u.at[i] - u.at[i - 1] > 1000 * (I * M - 1), "reported again after %d ms", (int) (u.at[i] - u.at[i - 1]));
	sim::finish();
}
