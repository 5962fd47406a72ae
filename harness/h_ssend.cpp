// C13: synchronous sending over TCP
#include "tcpfix.h"
static void small_net() {simnet::cfg.send_eagain = simnet::cfg.send_short = true;}
static void reset_net() {simnet::cfg.send_reset = simnet::cfg.send_short = true;}
typedef ext::packer<>::msg_type msg_t;

static sync_call_result submit(SClient& c, int form, const std::string& b, unsigned dur, bool over = true, bool prior = false)
{
	switch (form)
	{
	case 0: return c.sync_send_msg(b.data(), b.size(), dur, over, prior);
	case 1: {const char* p[2] = {b.data(), b.data() + 1}; size_t n[2] = {1, b.size() - 1}; return c.sync_send_msg(p, n, 2, dur, over, prior);}
	case 2: {std::string w = lv(b); return c.sync_send_native_msg(w, dur, over, prior);}
	case 3: {msg_t m = lv(b); return c.direct_sync_send_msg(m, dur, over, prior);}
	case 4: {const msg_t m = lv(b); return c.direct_sync_send_msg(m, dur, over, prior);}
	case 5: {std::string w = lv(b); list<msg_t> l; l.push_back(w.substr(0, 1)); l.push_back(w.substr(1)); return c.direct_sync_send_msg(l, dur, over, prior);}
	case 6: {const msg_t m = b; return c.sync_send_msg(m, dur, over, prior);}
	case 7: {msg_t m1 = b.substr(0, 1), m2 = b.substr(1); return c.sync_send_msg(m1, m2, dur, over, prior);}
	case 8: {const msg_t m1 = b.substr(0, 1), m2 = b.substr(1); return c.sync_send_msg(m1, m2, dur, over, prior);}
	case 9: {list<msg_t> l; l.push_back(b.substr(0, 1)); l.push_back(b.substr(1)); return c.sync_send_msg(l, dur, over, prior);}
	case 10: {std::string w = lv(b); list<msg_t> l; l.push_back(w.substr(0, 2)); l.push_back(w.substr(2)); return c.sync_send_native_msg(l, dur, over, prior);}
	case 11: return c.sync_safe_send_msg(b, dur, over, prior);
	case 12: {msg_t m = b; return c.sync_send_msg(m, dur, over, prior);}
	default: {std::string a = lv(b); return c.sync_send_native_msg(a.data(), a.size(), dur, over, prior);}
	}
}
static const int FORMS = 14;
static const char* rs(int r) {return r == SUCCESS ? "ok" : r == NOT_APPLICABLE ? "na" : r == TIMEOUT ? "timeout" : r == DUPLICATE ? "dup" : "?";}

struct Sender {std::string body; int result = -1; int64_t took = 0; int fiber = -1; std::string at_return;};
// the bytes the library has put on the current link so far
struct Wire
{
	int fd; std::string data;
	void fetch() {if (fd >= 0) data += simnet::peek_available(fd);}
	int count(const std::string& b) {fetch(); int n = 0; for (auto& m : unlv(data)) n += m == b; return n;}
};
static void go(SClient& c, Sender& s, int form, unsigned dur, bool over = true, bool prior = false)
{
	s.fiber = sim::spawn("sync sender", [&c, &s, form, dur, over, prior] {
		int64_t t0 = sim::now_ms();
		try {s.result = submit(c, form, s.body, dur, over, prior);}
		catch (const std::exception& e) {CHECK(false, "a synchronous send threw '%s'", e.what());}
		s.took = sim::now_ms() - t0;
		sim::logf("sync send '%s' returned %s", s.body.c_str(), rs(s.result));
	});
}
static void wait_all(std::vector<Sender*> v, int64_t ms, const char* when)
{
	bool ok = sim::wait_for([&] {for (auto s : v) if (s->result < 0) return false; return true;}, ms, "synchronous senders");
	std::string st;
	for (auto s : v) st += s->body + "=" + (s->result < 0 ? "waiting" : rs(s->result)) + " ";
	CHECK(ok, "a synchronous send did not return %s: %s", when, st.c_str());
}

static void ok_n(int n, int threads, bool mix, const std::vector<int>& forms)
{
	World w;
	w.start(threads);
	sim::window(true);
	Wire wire{w.fd};
	std::vector<Sender> s(n);
	std::vector<std::string> want;
	for (int i = 0; i < n; ++i)
	{
		s[i].body = std::string(1, 'a' + i) + num(i);
		want.push_back(s[i].body);
		Sender* p = &s[i];
		int f = forms[i % forms.size()];
		p->fiber = sim::spawn("sync sender", [&w, p, f, &wire] {
			try {p->result = submit(w.c, f, p->body, 0);} catch (const std::exception& e) {CHECK(false, "a synchronous send threw '%s'", e.what());}
			sim::NoPreempt np;
			CHECK(p->result == SUCCESS, "synchronous send on a healthy link returned %s", rs(p->result));
			CHECK(wire.count(p->body) == 1, "success was reported when the message had not been written completely: %s", hex(wire.data).c_str());
		});
	}
	int af = mix ? sim::spawn("sender", [&] {w.c.send_msg("zz", 2, true);}) : -1;
	std::vector<Sender*> v;
	for (auto& x : s) v.push_back(&x);
	wait_all(v, 1000, "although the link is healthy");
	for (auto& x : s) sim::join(x.fiber);
	if (mix) {sim::join(af); want.push_back("zz");}
	sim::settle();
	wire.fetch();
	std::string rest;
	std::vector<std::string> got = unlv(wire.data, &rest);
	std::string order = join_str(got);
	std::sort(got.begin(), got.end());
	CHECK(got == want && rest.empty(), "on the wire: %s", hex(wire.data).c_str());
	sim::outcome(order);
	sim::finish();
}
SCENARIO(ssend_ok, "2 synchronous and 1 asynchronous sender, 2 service threads, short and blocked writes", 2, 3, small_net) {ok_n(2, 2, true, {0, 5});}
SCENARIO(ssend_ok3, "3 synchronous senders, 1 service thread, short and blocked writes", 2, 3, small_net) {ok_n(3, 1, false, {3, 8, 10});}
SCENARIO(ssend_forms, "every interface, alone and together with every other", 0, 1, NULL)
{
	int a = sim::choose(FORMS, "form"), b = sim::choose(FORMS, "other form");
	ok_n(2, 1, false, {a, b});
}

SCENARIO(ssend_timeout, "the peer opens its window before, at or after the time limit", 1, 2, NULL)
{
	simnet::cfg.rx_cap = 3;
	World w;
	w.start(1 + sim::choose(2, "threads"));
	int form = sim::choose(3, "form") * 5;
	unsigned dur = 30;
	int64_t open_at = sim::choose(4, "window opens") * 15;
	sim::window(true);
	Sender s, s2;
	s.body = "abcdef"; s2.body = "xyz";
	int64_t t0 = sim::now_ms();
	go(w.c, s, form, dur);
	bool two = sim::choose(2, "second sender");
	if (two) go(w.c, s2, 3, 2 * dur);
	sim::sleep_ms(open_at);
	CHECK(open_at >= 30 || s.result < 0, "a message the peer cannot have taken returned %s after %d ms", rs(s.result), (int) (sim::now_ms() - t0));
	Wire wire{w.fd};
	sim::window(false);
	simnet::set_rx_cap(w.fd, 1000);
	wire.fetch();
	sim::window(true);
	wait_all(two ? std::vector<Sender*>{&s, &s2} : std::vector<Sender*>{&s}, 200, "within its time limit");
	for (Sender* p : {&s, &s2}) if (p == &s || two)
	{
		unsigned d = p == &s ? dur : 2 * dur;
		CHECK(p->result == SUCCESS || p->result == TIMEOUT, "returned %s", rs(p->result));
		if (p->result == TIMEOUT) CHECK(p->took >= d && p->took <= d + 5, "timeout of %u ms reported after %d ms", d, (int) p->took);
		if (open_at + 15 <= (int64_t) d) CHECK(p->result == SUCCESS, "returned %s although the message was written in time", rs(p->result));
	}
	sim::settle();
	CHECK(wire.count(s.body) == 1 && (!two || wire.count(s2.body) == 1), "on the wire: %s", hex(wire.data).c_str());
	sim::outcome(rs(s.result));
	sim::finish();
}

SCENARIO(ssend_refused, "full buffer: refused; queued messages taken back by another thread", 2, 3, NULL)
{
	simnet::cfg.rx_cap = 3;
	World w;
	w.start(2);
	w.c.send_buf_size(4);
	sim::window(true);
	int form = sim::choose(FORMS, "form");
	if (form == 11) form = 0;
	CHECK(w.c.send_msg("aaaaaa", 6, true), "refused");      // being written, blocked
	sim::settle();
	Sender s1, s2, s3, s4;
	s1.body = "bb"; s2.body = "cc"; s3.body = "dd"; s4.body = "ee";
	int f1 = form == 11 ? 0 : form;
	go(w.c, s1, 0, 0);
	sim::settle();
	go(w.c, s3, f1, 0, false);                              // the buffer is full: refused
	wait_all({&s3}, 20, "although the send buffer is full");
	CHECK(s3.result == NOT_APPLICABLE, "a message refused because of a full buffer returned %s", rs(s3.result));
	go(w.c, s2, 3, 0);
	sim::settle();
	go(w.c, s4, 4, 0, true, true);                          // goes to the front
	sim::settle();
	Wire wire{w.fd};
	int how = sim::choose(3, "taken back by");
	std::vector<std::string> taken;
	int popper = sim::spawn("popper", [&] {
		if (how == 0) {SClient::in_container_type can; w.c.pop_all_pending_send_msg(can); for (auto& m : can) taken.push_back(Client::body(m));}
		else {SClient::in_msg m; w.c.pop_first_pending_send_msg(m); if (!m.empty()) taken.push_back(Client::body(m)); if (how == 2) {SClient::in_msg m2; w.c.pop_first_pending_send_msg(m2); if (!m2.empty()) taken.push_back(Client::body(m2));}}
	});
	simnet::set_rx_cap(w.fd, 1000);
	sim::join(popper);
	wait_all({&s1, &s2, &s4}, 100, "although the window is open");
	sim::settle();
	CHECK(wire.count("aaaaaa") == 1 && wire.count(s3.body) == 0, "on the wire: %s", hex(wire.data).c_str());
	for (Sender* p : {&s1, &s2, &s4})
	{
		bool t = std::find(taken.begin(), taken.end(), p->body) != taken.end();
		CHECK(p->result == (t ? NOT_APPLICABLE : SUCCESS), "message '%s' was %s, its sender got %s", p->body.c_str(), t ? "taken back" : "sent", rs(p->result));
		CHECK(wire.count(p->body) == (t ? 0 : 1), "message '%s' was %s, on the wire: %s", p->body.c_str(), t ? "taken back" : "sent", hex(wire.data).c_str());
	}
	sim::outcome(join_str(taken));
	sim::finish();
}

// senders without time limit wait on a link that ends in every possible way
static void ends(bool reconnect, bool slow = false)
{
	simnet::cfg.rx_cap = 3;
	World w;
	w.c.set_reconnect(reconnect);
	w.start(2);
	Wire wire{w.fd};
	static const int fast_ends[] = {0, 1, 2, 4, 6}, slow_ends[] = {3, 5};
	int how = reconnect ? sim::choose(3, "link ends by") : slow ? slow_ends[sim::choose(2, "link ends by")] : fast_ends[sim::choose(5, "link ends by")];
	int f1 = sim::choose(4, "form") * 3;                   // 0 3 6 9
	sim::window(true);
	Sender s1, s2, s3;
	s1.body = "abcdef"; s2.body = "gh"; s3.body = "ij";
	go(w.c, s1, 0, 0);
	sim::settle();
	go(w.c, s2, f1, 0);
	go(w.c, s3, 5, 0);
	if (how != 2) sim::settle();
	switch (how)
	{
	case 0: wire.fetch(); wire.fd = -1; simnet::reset(w.fd); break;
	case 1: wire.fetch(); wire.fd = -1; simnet::close(w.fd); break;
	case 2: w.c.force_shutdown(reconnect); break;
	case 3: w.c.graceful_shutdown(false); break;
	case 4: sim::spawn("closer", [&] {w.c.disconnect();}); simnet::shutdown_wr(w.fd); break;
	case 5: sim::spawn("stopper", [&] {w.sp.stop_service();}); break;
	case 6: simnet::shutdown_wr(w.fd); break;
	}
	if (!reconnect)
	{
		wait_all({&s1, &s2, &s3}, 7000, "although the link was closed");
		wire.fetch();
		for (Sender* p : {&s1, &s2, &s3})
			CHECK(p->result == NOT_APPLICABLE || (p->result == SUCCESS && (how == 1 || wire.count(p->body) == 1)), "the link ended, '%s' returned %s; on the wire: %s", p->body.c_str(), rs(p->result), hex(wire.data).c_str());
		if (how == 0 || how == 2) CHECK(s1.result == NOT_APPLICABLE, "a message cut off returned %s", rs(s1.result));
		// and afterwards
		sim::sleep_ms(100);
		Sender s4;
		s4.body = "kl";
		go(w.c, s4, f1, 0);
		wait_all({&s4}, 7000, "on a link that is closed for good");
		CHECK(s4.result == NOT_APPLICABLE, "a send on a closed link returned %s", rs(s4.result));
		sim::outcome(std::string(rs(s1.result)) + rs(s2.result) + rs(s3.result));
		sim::finish();
	}
	Wire w2{simnet::accept(w.l)};
	simnet::set_rx_cap(w2.fd, 1000);
	wait_all({&s1, &s2, &s3}, 7000, "although the link was closed and established again");
	sim::sleep_ms(100);
	for (Sender* p : {&s1, &s2, &s3})
	{
		int n = w2.count(p->body), n1 = wire.count(p->body);
		CHECK(p->result == SUCCESS || p->result == NOT_APPLICABLE, "'%s' returned %s", p->body.c_str(), rs(p->result));
		if (p->result == NOT_APPLICABLE) CHECK(n == 0, "'%s' returned na but was written later: %s", p->body.c_str(), hex(w2.data).c_str());
		else CHECK(n + n1 == 1 || (how == 1 && n == 0), "'%s' returned ok, on the wires: %s %s", p->body.c_str(), hex(wire.data).c_str(), hex(w2.data).c_str());
	}
	std::string rest;
	unlv(w2.data, &rest);
	CHECK(rest.empty(), "an incomplete message on the new link: %s", hex(w2.data).c_str());
	sim::outcome(std::string(rs(s1.result)) + rs(s2.result) + rs(s3.result));
	sim::finish();
}
SCENARIO(ssend_end, "the link is reset, closed or shut down while 3 senders wait without time limit", 1, 2, NULL) {ends(false);}
SCENARIO(ssend_end_slow, "the link is shut down gracefully or its service stopped while 3 senders wait without time limit", 0, 1, NULL) {ends(false, true);}
SCENARIO(ssend_reconnect, "the link is reset, closed or shut down while 3 senders wait without time limit, the client reconnects", 1, 2, NULL) {ends(true);}

SCENARIO(ssend_reset, "a reset injected at every write, 2 senders", 2, 3, reset_net)
{
	World w;
	w.start(2);
	sim::window(true);
	Wire wire{w.fd};
	Sender s1, s2;
	s1.body = "abc"; s2.body = "def";
	go(w.c, s1, 0, 0);
	go(w.c, s2, 9, 0);
	bool ok = sim::wait_for([&] {return (s1.result >= 0 && s2.result >= 0) || w.c.closes > 0;}, 1000, "senders or link");
	CHECK(ok, "a synchronous send did not return on a healthy link");
	wait_all({&s1, &s2}, 200, "although the link was reset");
	for (Sender* p : {&s1, &s2}) if (w.c.closes == 0) CHECK(p->result == SUCCESS || simnet::was_reset(w.fd), "'%s' returned %s", p->body.c_str(), rs(p->result));
	sim::outcome(std::string(rs(s1.result)) + rs(s2.result));
	sim::finish();
}

SCENARIO(ssend_stop_restart, "the service is stopped while a sender waits, then started again", 1, 2, NULL)
{
	simnet::cfg.rx_cap = 3;
	World w;
	w.start(1);
	sim::window(true);
	Sender s1, s2;
	s1.body = "abcdef"; s2.body = "gh";
	go(w.c, s1, 0, 0);
	go(w.c, s2, 3, 0);
	sim::settle();
	bool force = sim::choose(2, "force");
	if (force) w.c.force_shutdown();
	w.sp.stop_service();
	wait_all({&s1, &s2}, 1000, "although the service was stopped");
	CHECK(s1.result == NOT_APPLICABLE && s2.result == NOT_APPLICABLE, "the service was stopped: %s %s", rs(s1.result), rs(s2.result));
	w.c.set_reconnect(false);
	simnet::cfg.rx_cap = 1000;
	w.sp.start_service(1);
	Wire w2{simnet::accept(w.l)};
	simnet::set_rx_cap(w2.fd, 1000);
	sim::wait_until([&] {return w.c.is_connected();}, "connected");
	Sender s3;
	s3.body = "mn";
	go(w.c, s3, 0, 0);
	wait_all({&s3}, 200, "after the service was restarted");
	CHECK(s3.result == SUCCESS, "returned %s", rs(s3.result));
	sim::settle();
	CHECK(w2.count(s3.body) == 1 && w2.count(s1.body) == 0 && w2.count(s2.body) == 0, "on the new wire: %s", hex(w2.data).c_str());
	sim::finish();
}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
SCENARIO(ssend_shrink, "queued synchronous messages are discarded by shrinking", 2, 3, NULL)
{
	simnet::cfg.rx_cap = 3;
	World w;
	w.start(2);
	w.c.send_buf_size(6);
	w.c.shrink_hook = [&](size_t n) {return n / 2 + 1;};
	sim::window(true);
	CHECK(w.c.send_msg("aaaaaa", 6, true), "refused");
	sim::settle();
	Sender s1, s2, s3;
	s1.body = "bb"; s2.body = "cc"; s3.body = "dd";
	go(w.c, s1, 0, 0);
	sim::settle();
	go(w.c, s2, 3, 0);
	sim::settle();
	Wire wire{w.fd};
	go(w.c, s3, sim::choose(3, "form") * 3, 0, false);
	if (sim::choose(2, "pause")) sim::settle();
	simnet::set_rx_cap(w.fd, 1000);
	wait_all({&s1, &s2, &s3}, 100, "although the window is open");
	sim::settle();
	for (Sender* p : {&s1, &s2, &s3})
	{
		bool t = std::find(w.c.discarded.begin(), w.c.discarded.end(), p->body) != w.c.discarded.end();
		CHECK(p->result == (t ? NOT_APPLICABLE : SUCCESS), "message '%s' was %s, its sender got %s", p->body.c_str(), t ? "discarded" : "sent", rs(p->result));
		CHECK(wire.count(p->body) == (t ? 0 : 1), "message '%s' was %s, on the wire: %s", p->body.c_str(), t ? "discarded" : "sent", hex(wire.data).c_str());
	}
	sim::outcome(join_str(w.c.discarded));
	sim::finish();
}
#endif
