// C16, C17: the end of a link
#include "srvfix.h"
static std::string big(size_t n) {return std::string(n, 'x');}

#if ST_ASIO_DELAY_CLOSE > 0
static const int EXTRA = ST_ASIO_DELAY_CLOSE * 1000 + 100;
#else
static const int EXTRA = 0;
#endif
static const int MAX_MS = ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION * 1000 + 200 + EXTRA;

// what can end a link
enum {PEER_CLOSE, PEER_RESET, PEER_EOF, GARBAGE, FORCE, GRACEFUL, IN_CALLBACK, ENDS};
static const char* end_name[] = {"peer closes", "peer resets", "peer half-closes", "garbage arrives", "forced shutdown", "graceful shutdown", "shutdown in a callback"};

template<typename L> struct Fight
{
	L& c; int& fd;
	int timer_calls = 0, posts = 0;
	bool stop_now = false;
	// user activity that must be over when the link is closed
	void busy(int activity)
	{
		c.handler = [this](const std::string& m) {if (m == "stop" || stop_now) {c.force_shutdown(); return true;} return m != "no";};
		auto timer = [this](unsigned short) {CHECK(c.live, "a timer of the link fired after the link was closed"); ++timer_calls; return true;};
		if (activity & 1) c.set_timer(L::TIMER_END + 1, 20, boost::function<bool (unsigned short)>(timer));
		if (activity & 2) simnet::send(fd, lv("no"));        // refused, offered again and again
		if (activity & 4) {c.send_msg(big(20), true); c.send_msg("zz", 2, true);}
	}
	void post() {c.post([this] {CHECK(c.live, "a posted call of the link ran after the link was closed"); ++posts;});}
	int end(int how)
	{
		switch (how)
		{
		case PEER_CLOSE: return sim::spawn("peer", [this] {if (fd >= 0) {int f = fd; fd = -1; simnet::close(f);}});
		case PEER_RESET: return sim::spawn("peer", [this] {if (fd >= 0) {int f = fd; fd = -1; simnet::reset(f);}});
		case PEER_EOF: return sim::spawn("peer", [this] {if (fd >= 0) simnet::shutdown_wr(fd);});
		case GARBAGE: return sim::spawn("peer", [this] {if (fd >= 0) simnet::send_some(fd, std::string("\0\1", 2));});
		case FORCE: return sim::spawn("closer", [this] {c.force_shutdown();});
		case GRACEFUL: return sim::spawn("graceful", [this] {c.graceful_shutdown();});
		default: return sim::spawn("peer", [this] {stop_now = true; if (fd >= 0) simnet::send_some(fd, lv("stop"));});
		}
	}
};
static void fight_client(int a, int b, int activity, int threads)
{
	sim::window(false);
	if (activity & 4) simnet::cfg.rx_cap = 8;
	int l = srv_listen();
	service_pump sp;
	sp.start_service(threads);
	Client* c = new Client(sp.assign_io_context());
	srv_addr(*c);
	c->start();
	int fd = simnet::accept(l);
	sim::wait_until([&] {return c->is_connected();}, "connected");
	sim::settle();
	Fight<Client> f{*c, fd};
	f.busy(activity);
	sim::settle();
	// whoever owns the object frees it as soon as it is free to use
	int closes = 0;
	c->close_hook = [&] {++closes; CHECK(closes == 1, "closed twice");};
	bool deleted = false;
	int owner = sim::spawn("owner", [&] {
		sim::wait_until([&] {return c->obsoleted();}, "obsolete");
		CHECK(closes == 1, "the object is shown as obsolete, but the link was closed %d times", closes);
		CHECK(c->running == 0, "the object is shown as obsolete while a callback is running");
		CHECK(!c->started() && !c->is_ready(), "the object is shown as obsolete, but also as started or ready");
		delete c;
		deleted = true;
	});
	sim::window(true);
	int fa = f.end(a), fb = -1;
	if (b >= 0) fb = f.end(b);
	if (activity & 8) f.post();
	sim::join(fa);
	if (fb >= 0) sim::join(fb);
	CHECK(sim::wait_for([&] {return closes > 0;}, MAX_MS, "closed"), "%s, %s: the link is never closed", end_name[a], b < 0 ? "" : end_name[b]);
	sim::window(false);
	CHECK(sim::wait_for([&] {return deleted;}, 1000 + EXTRA, "obsolete"), "the closed object never becomes obsolete");
	sim::join(owner);
	int t = f.timer_calls;
	sim::sleep_ms(200);
	CHECK(t == f.timer_calls && closes == 1, "something happened after the close notification");
	sim::finish();
}
SCENARIO(close_client, "client link: every pair of events that end it, no other activity", 1, 2, NULL)
{
	int a = sim::choose(ENDS, "first"), b = sim::choose(ENDS + 1, "second") - 1;
	if (b >= 0 && b < a) b = -1;
	fight_client(a, b, 0, 2);
}
SCENARIO(close_client_busy, "client link with timers, refused messages, blocked writes and posted calls", 1, 2, NULL)
{
	int a = sim::choose(ENDS, "end");
	fight_client(a, -1, sim::choose(2, "activity") ? 15 : 9, 2);
}
SCENARIO(close_client_err, "client link, short and failing reads and writes", 1, 2, [] {simnet::cfg.send_reset = simnet::cfg.recv_reset = simnet::cfg.recv_short = true;})
{
	fight_client(sim::choose(2, "end") ? FORCE : GARBAGE, -1, 4 + 8, 2);
}

static void fight_server(int a, int b, int activity, int threads)
{
	if (activity & 4) simnet::cfg.rx_cap = 8;
	SWorld w;
	w.start(threads);
	SSock* c = NULL;
	int fd = w.peer(&c), fd2 = w.peer();
	boost::uint_fast64_t id = c->id();
	Fight<SSock> f{*c, fd};
	f.busy(activity);
	sim::settle();
	int closes = 0, destroyed = 0;
	sh().close = [&](SSock& s) {if (&s == c) {++closes; CHECK(closes == 1, "closed twice");}};
	sh().destroy = [&](SSock& s) {if (&s == c) {++destroyed; CHECK(closes == 1, "freed before it was closed");}};
	bool stop = false;
	int owner = sim::spawn("owner", [&] {while (!stop) {sim::wait_until([&] {sim::NoPreempt np; return stop || destroyed == 0;}, "owner"); if (stop) break; w.s.free_object(); sim::sleep_ms(5);}});
	sim::window(true);
	int fa = f.end(a), fb = -1;
	if (b >= 0) fb = f.end(b);
	if (activity & 8) f.post();
	sim::join(fa);
	if (fb >= 0) sim::join(fb);
	CHECK(sim::wait_for([&] {return closes > 0;}, MAX_MS, "closed"), "%s, %s: the link is never closed", end_name[a], b < 0 ? "" : end_name[b]);
	sim::window(false);
	sim::sleep_ms(100 + EXTRA);
	CHECK(!w.s.exist(id), "a closed link is still in the pool");
	w.s.free_object();
	CHECK(destroyed == 1, "the closed link is never freed");
	CHECK(w.s.size() == 1, "another link disappeared");
	int t = f.timer_calls;
	sim::sleep_ms(200);
	CHECK(t == f.timer_calls && closes == 1, "something happened after the close notification");
	(void) fd2;
	sim::finish();
}
SCENARIO(close_server, "server link: every pair of events that end it, the pool is cleaned up all the time", 1, 2, NULL)
{
	int a = sim::choose(ENDS, "first"), b = sim::choose(ENDS + 1, "second") - 1;
	if (b >= 0 && b < a) b = -1;
	fight_server(a, b, 0, 2);
}
SCENARIO(close_server_busy, "server link with timers, refused messages, blocked writes and posted calls", 1, 2, NULL)
{
	int a = sim::choose(ENDS, "end");
	fight_server(a, -1, sim::choose(2, "activity") ? 15 : 9, 2);
}

// ------------------------------------------------------------------------------------------------ C17
// G: what a graceful shutdown guarantees. Both ends of the library are tried: a client link and a server link.
template<typename L> struct Graceful
{
	L& c; int& fd; std::function<bool()> closed;
	std::string up;                 // bytes the peer has received
	std::vector<std::string> before, during, after, down;
	bool eof = false;
	void go(int senders, int peer_kind, int shut_kind)
	{
		int nb = sim::choose(3, "messages sent before");
		for (int i = 0; i < nb; ++i) {before.push_back("b" + num(i)); CHECK(c.send_msg(before.back().data(), before.back().size(), true), "refused");}
		if (sim::choose(2, "let them be written first")) sim::settle();
		bool down_early = peer_kind == 1;
		sim::window(true);
		int fs = -1;
		bool shut = false;
		if (senders) fs = sim::spawn("sender", [&] {for (int i = 0; i < 2; ++i) {std::string m = "d" + num(i); if (c.send_msg(m.data(), m.size(), true)) during.push_back(m);}});
		// the peer: keeps sending for a while after it has seen end of stream, then closes (or never does)
		int fp = sim::spawn("peer", [&] {
			if (down_early) for (int i = 0; i < 2; ++i) {down.push_back("e" + num(i)); CHECK(simnet::send(fd, lv(down.back())), "link lost");}
			up = simnet::recv_all(fd);
			CHECK(simnet::at_eof(fd) && !simnet::was_reset(fd), "no end of stream");
			eof = true;
			for (int i = 0; i < 2; ++i) {down.push_back("l" + num(i)); CHECK(simnet::send(fd, lv(down.back())), "the link went away although the peer was still sending");}
			if (peer_kind == 2) {sim::sleep_ms(300); down.push_back("late"); CHECK(simnet::send(fd, lv(down.back())), "the link went away although the peer was still sending");}
			if (peer_kind < 3) simnet::close(fd);
		});
		uint64_t t0 = sim::now_ms();
		if (shut_kind == 0) {c.graceful_shutdown(); shut = true;}
		else
		{
			int g = sim::spawn("graceful", [&] {c.graceful_shutdown();});
			if (shut_kind == 2) c.graceful_shutdown();
			sim::join(g);
		}
		if (shut_kind == 0 && sim::choose_dev(2, "send after the shutdown")) {if (c.is_shutting_down()) after.push_back("x"); c.send_msg("x", 1, true);}
		if (fs >= 0) sim::join(fs);
		if (peer_kind < 3) sim::join(fp);
		CHECK(sim::wait_for([&] {return closed();}, peer_kind < 3 ? 200 + EXTRA : MAX_MS, "closed"), peer_kind < 3 ? "the peer has closed, but the link is not closed" : "not closed within the maximum duration");
		if (peer_kind == 3) CHECK(eof, "the link ended without the peer seeing end of stream");
		uint64_t t = sim::now_ms() - t0;
		sim::window(false);
		// upstream: a prefix of what was submitted before, and at least everything notified as sent
		std::vector<std::string> v = unlv(up), all = before;
		// the last message may have been cut by the shutdown
		CHECK(up.compare(0, all_lv(v).size(), all_lv(v)) == 0, "unpacking");
		std::string rest = up.substr(all_lv(v).size());
		bool known = rest.empty();
		for (auto& m : before) known |= lv(m).compare(0, rest.size(), rest) == 0;
		for (auto& m : during) known |= lv(m).compare(0, rest.size(), rest) == 0;
		known |= lv("x").compare(0, rest.size(), rest) == 0;
		CHECK(known, "the peer received something that was never sent: %s", hex(up).c_str());
		std::set<std::string> s(v.begin(), v.end());
		CHECK(s.size() == v.size(), "received twice: %s", join_str(v).c_str());
		for (auto& m : c.sent) CHECK(s.count(m), "'%s' was notified as sent, but the peer did not receive it before the end of the stream", m.c_str());
		for (auto& m : after) CHECK(!s.count(m), "a message submitted after the shutdown went out");
		size_t k = 0;
		for (auto& m : before) {if (k < v.size() && v[k] == m) ++k; else CHECK(!s.count(m), "order: %s", join_str(v).c_str());}
		// downstream: everything
		CHECK(join_str(c.got) == join_str(down), "the peer sent %s, delivered were %s", join_str(down).c_str(), join_str(c.got).c_str());
		CHECK(c.closes == 1, "closed %d times", c.closes);
		sim::outcome("up " + num(v.size()) + " at " + num(t));
		sim::sleep_ms(300);
		CHECK(c.closes == 1, "closed again");
		sim::finish();
	}
};
static void graceful_client(int senders, int kind, int shut_kind)
{
	sim::window(false);
	World w;
	w.start(2);
	Graceful<Client> g{w.c, w.fd, [&] {return w.c.closes > 0;}};
	g.go(senders, kind, shut_kind);
}
static void graceful_server(int senders, int kind, int shut_kind)
{
	SWorld w;
	w.start(2);
	SSock* c = NULL;
	int fd = w.peer(&c);
	boost::shared_ptr<SSock> keep = w.s.find(c->id());
	Graceful<SSock> g{*c, fd, [&] {return keep->closes > 0;}};
	g.go(senders, kind, shut_kind);
}
SCENARIO(grace_client, "client link: graceful shutdown, the peer sends before, after, late and closes or never closes", 1, 2, NULL) {int k = sim::choose(4, "peer"); graceful_client(0, k, sim::choose(3, "shutdown"));}
SCENARIO(grace_server, "server link: same", 1, 2, NULL) {int k = sim::choose(4, "peer"); graceful_server(0, k, sim::choose(3, "shutdown"));}
SCENARIO(grace_client_send, "client link: graceful shutdown against a sending thread", 1, 2, [] {simnet::cfg.send_short = simnet::cfg.recv_short = simnet::cfg.send_eagain = true;}) {int k = sim::choose(3, "peer"); graceful_client(1, k, 1);}
SCENARIO(grace_server_send, "server link: same", 1, 2, [] {simnet::cfg.send_short = simnet::cfg.recv_short = simnet::cfg.send_eagain = true;}) {int k = sim::choose(3, "peer"); graceful_server(1, k, 1);}
