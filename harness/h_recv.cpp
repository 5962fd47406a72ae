// C10, C11, C12, C14: receiving and dispatching over TCP
#include "tcpfix.h"

static void short_recv() {simnet::cfg.recv_short = true;}
static std::vector<std::string> msgs(int n, char c = 'a') {std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(std::string(1, c) + num(i)); return v;}
static std::vector<std::string> prefix(const std::vector<std::string>& v, size_t n) {return std::vector<std::string>(v.begin(), v.begin() + std::min(n, v.size()));}
// accepted messages are a prefix of (or all of) what the peer sent, every offer is the next unaccepted message
static void check_prefix(Client& c, const std::vector<std::string>& want)
{
	CHECK(c.got.size() <= want.size() && c.got == prefix(want, c.got.size()), "delivered %s, the peer sent %s", join_str(c.got).c_str(), join_str(want).c_str());
}
static void check_offers(Client& c, const std::vector<std::string>& want)
{
	size_t acc = 0;
	(void) acc;
	for (size_t i = 0, k = 0; i < c.offered.size(); ++i)
	{
		CHECK(k < want.size() && (c.offered[i] == want[k] || (k + 1 < want.size() && c.offered[i] == want[k + 1])), "offered %s", join_str(c.offered).c_str());
		if (c.offered[i] != want[k]) ++k;
	}
}
#if !defined(ST_ASIO_PASSIVE_RECV) && !defined(ST_ASIO_SYNC_DISPATCH) && !defined(ST_ASIO_DISPATCH_BATCH_MSG) && !defined(ST_ASIO_SYNC_RECV)
// all segmentations and all accept / refuse patterns, one service thread
SCENARIO(dispatch_seq, "every cut of the stream into reads, every pattern of refusals, messages keep arriving", 0, 1, NULL)
{
	World w;
	w.start(1);
	std::vector<std::string> want = msgs(3);
	int refusals = sim::param("refusals", 3);
	std::string held;
	w.c.handler = [&](const std::string& m) {
		if (!held.empty()) CHECK(m == held, "message '%s' was refused, then '%s' was offered", held.c_str(), m.c_str());
		held.clear();
		if (refusals > 0 && sim::choose(2, "accept/refuse")) {--refusals; held = m; return false;}
		return true;
	};
	sim::window(true);
	std::string s = all_lv(want);
	size_t p = 0;
	int cuts = 3;
	while (p < s.size())
	{
		size_t n = cuts > 0 ? 1 + sim::choose(s.size() - p, "segment") : s.size() - p;
		--cuts;
		simnet::send(w.fd, s.substr(p, n));
		p += n;
		if (sim::choose(2, "pause")) sim::sleep_ms(30); else sim::settle();
	}
	bool ok = sim::wait_for([&] {return w.c.got.size() >= want.size();}, 3000, "all delivered");
	sim::settle();
	check_prefix(w.c, want);
	CHECK(ok, "delivered only %s of %s", join_str(w.c.got).c_str(), join_str(want).c_str());
	sim::sleep_ms(200);
	CHECK(w.c.got == want, "delivered again after being accepted: %s", join_str(w.c.got).c_str());
	CHECK(w.c.get_pending_recv_msg_size() == 0 && !w.c.is_dispatching(), "pending %d dispatching %d after everything was accepted", (int) w.c.get_pending_recv_msg_size(), (int) w.c.is_dispatching());
	sim::outcome(join_str(w.c.offered));
	sim::finish();
}
static void race(int threads, int nmsg, int refuse_mask, int heartbeat = 0)
{
	World w;
	w.start(threads);
	std::vector<std::string> want = msgs(nmsg);
	int offers = 0;
	w.c.handler = [&](const std::string& m) {return !((refuse_mask >> offers++) & 1);};
	sim::window(true);
	for (size_t i = 0; i < want.size(); ++i) {simnet::send(w.fd, lv(want[i])); sim::yield_point();}
	bool ok = sim::wait_for([&] {return w.c.got.size() >= want.size();}, 3000, "all delivered");
	sim::settle();
	check_prefix(w.c, want);
	CHECK(ok, "delivered only %s of %s", join_str(w.c.got).c_str(), join_str(want).c_str());
	sim::window(false);
	sim::sleep_ms(200);
	CHECK(w.c.got == want, "delivered again after being accepted: %s", join_str(w.c.got).c_str());
	sim::outcome(join_str(w.c.offered));
	sim::finish();
}
SCENARIO(dispatch_race, "3 messages, the first offers refused, 2 service threads, short reads", 2, 3, short_recv) {race(2, 3, 2);}
SCENARIO(dispatch_race3, "3 messages, 3 service threads", 2, 3, NULL) {race(3, 3, 1);}
SCENARIO(dispatch_pop, "another thread takes messages out of the receive buffer", 2, 3, NULL)
{
	World w;
	w.start(2);
	std::vector<std::string> want = msgs(4), popped;
	int offers = 0;
	w.c.handler = [&](const std::string&) {return offers++ != 0;};
	sim::window(true);
	simnet::send(w.fd, all_lv(want));
	int f = sim::spawn("popper", [&] {
		SClient::out_msg m; w.c.pop_first_pending_recv_msg(m); if (!m.empty()) popped.push_back(Client::str(m));
		SClient::out_container_type can; w.c.pop_all_pending_recv_msg(can); for (auto& x : can) popped.push_back(Client::str(x));
	});
	sim::wait_for([&] {return w.c.got.size() + popped.size() >= 4;}, 2000, "delivered");
	sim::join(f);
	sim::sleep_ms(200);
	std::vector<std::string> all = w.c.got;
	for (size_t i = 1; i < w.c.got.size(); ++i) CHECK(w.c.got[i - 1] < w.c.got[i], "order %s", join_str(w.c.got).c_str());
	all.insert(all.end(), popped.begin(), popped.end());
	std::sort(all.begin(), all.end());
	CHECK(all == want, "delivered %s, taken %s", join_str(w.c.got).c_str(), join_str(popped).c_str());
	sim::outcome(join_str(w.c.got) + "|" + join_str(popped));
	sim::finish();
}
// the link breaks with messages undelivered or refused, the client reconnects
SCENARIO(dispatch_reconnect, "the link breaks while a message is refused or queued, the client reconnects", 1, 2, NULL)
{
	World w;
	w.c.set_reconnect(true);
	w.start(1 + sim::choose(2, "threads"));
	int offers = 0, refuse = sim::choose(3, "number of refusals");
	w.c.handler = [&](const std::string&) {return offers++ >= refuse;};
	int pause = sim::choose(3, "break the link after 0 / 20 / 70 ms");
	sim::window(true);
	simnet::send(w.fd, all_lv(msgs(2)));
	if (pause) sim::sleep_ms(pause == 1 ? 20 : 70); else sim::settle();
	simnet::close(w.fd);
	w.fd = simnet::accept(w.l);
	simnet::send(w.fd, all_lv(msgs(2, 'b')));
	sim::sleep_ms(1000);
	std::vector<std::string> a, b;
	for (auto& m : w.c.got) (m[0] == 'a' ? a : b).push_back(m);
	CHECK(b == msgs(2, 'b'), "messages of the second link: delivered %s (all: %s)", join_str(b).c_str(), join_str(w.c.got).c_str());
	for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < i; ++k) CHECK(a[i] > a[k], "messages of the first link: %s", join_str(a).c_str());
	sim::outcome(join_str(w.c.got));
	sim::finish();
}
// ------------------------------------------------------------------------------------------------ C11
#endif
#if !defined(ST_ASIO_PASSIVE_RECV) && !defined(ST_ASIO_SYNC_DISPATCH) && !defined(ST_ASIO_DISPATCH_BATCH_MSG) && !defined(ST_ASIO_SYNC_RECV) && ST_ASIO_MSG_BUFFER_SIZE < 100
static void overflow(int threads, bool race)
{
	World w;
	w.start(threads);
	const size_t lim = race ? 4 : 3 + 2 * sim::choose(3, "limit");
	w.c.recv_buf_size(lim);
	unsigned interval = race ? 50 : 20 + 60 * sim::choose(2, "resuming interval");
	w.c.msg_resuming_interval(interval);
	bool accept = race;
	int offers = 0;
	w.c.handler = [&](const std::string&) {return race ? offers++ >= 2 : accept;};
	size_t worst = 0;
	w.c.any_hook = [&] {worst = std::max(worst, (size_t) w.c.get_pending_recv_msg_size());};
	sim::window(true);
	std::vector<std::string> want = msgs(8);
	simnet::send(w.fd, all_lv(prefix(want, 6)));
	if (race)
	{
		simnet::send(w.fd, lv(want[6]) + lv(want[7]));
		bool ok = sim::wait_for([&] {return w.c.got.size() >= want.size();}, 3000, "all delivered");
		check_prefix(w.c, want);
		CHECK(ok, "reading did not resume: delivered only %s", join_str(w.c.got).c_str());
	}
	else
	{
		int k = sim::choose(3, "refuse for");
		sim::sleep_ms(k * 45);
		sim::settle();
		size_t pend = w.c.get_pending_recv_msg_size();
		// 6 messages of 2 bytes: one is being dispatched, the rest cannot all be buffered
		if (pend >= lim)
		{
			CHECK(w.c.is_recv_idle(), "reading is suspended (%d of %d bytes) but not shown as idle", (int) pend, (int) lim);
			CHECK(!w.c.is_recv_buffer_available(), "buffer shown as available");
			size_t got = 0;
			(void) got;
			simnet::send(w.fd, lv(want[6]));
			sim::sleep_ms(k * 45 + 200);
			CHECK(w.c.get_pending_recv_msg_size() == pend, "another read was made although the buffer holds %d of %d bytes", (int) pend, (int) lim);
		}
		else simnet::send(w.fd, lv(want[6]));
		simnet::send(w.fd, lv(want[7]));
		accept = true;
		int64_t t0 = sim::now_ms();
		// the refused message is offered again within the handling interval, then draining takes no time; each suspension lasts at most one interval
		bool ok = sim::wait_for([&] {return w.c.got.size() >= want.size();}, 5000, "all delivered");
		check_prefix(w.c, want);
		CHECK(ok, "reading did not resume: delivered only %s", join_str(w.c.got).c_str());
		CHECK(sim::now_ms() - t0 <= 50 + 4 * (int64_t) interval + 5, "draining took %lld ms", (long long) (sim::now_ms() - t0));
	}
	sim::settle();
	sim::sleep_ms(interval + 10);
	CHECK(w.c.got == want, "delivered %s", join_str(w.c.got).c_str());
	CHECK(!w.c.is_recv_idle(), "still shown as idle after resuming");
	CHECK(worst < lim + 14, "the buffer held %d bytes with a limit of %d", (int) worst, (int) lim);
	sim::outcome(num(w.c.offered.size()));
	sim::finish();
}
SCENARIO(overflow_seq, "limit, interval and refusal pattern enumerated", 0, 2, NULL) {overflow(1, false);}
SCENARIO(overflow_race, "dispatcher, resume timer and reader race on a buffer of one message", 2, 3, NULL) {overflow(2, true);}
// resume within the interval: after the suspension began the application drains with pop
SCENARIO(overflow_pop, "the application drains the buffer itself", 1, 2, NULL)
{
	World w;
	w.start(2);
	w.c.recv_buf_size(4);
	bool accept = false;
	w.c.handler = [&](const std::string&) {return accept;};
	std::vector<std::string> want = msgs(8), popped;
	simnet::send(w.fd, all_lv(want));
	sim::sleep_ms(10);
	CHECK(w.c.is_recv_idle() && w.c.get_pending_recv_msg_size() >= 4, "setup");
	sim::window(true);
	int loops = 0;
	while (popped.size() < 7 && loops++ < 40)
	{
		SClient::out_container_type can;
		w.c.pop_all_pending_recv_msg(can);
		for (auto& m : can) popped.push_back(Client::str(m));
		size_t n = popped.size();
		if (n >= 7) break;
		bool ok = sim::wait_for([&] {return w.c.get_pending_recv_msg_size() > 0;}, 60, "resumed");
		CHECK(ok, "reading did not resume within the interval after the buffer was drained (%d of 8 messages seen)", (int) n + 1);
	}
	accept = true;
	sim::sleep_ms(200);
	std::vector<std::string> all = w.c.got;
	all.insert(all.end(), popped.begin(), popped.end());
	CHECK(all == want, "delivered %s, taken %s", join_str(w.c.got).c_str(), join_str(popped).c_str());
	CHECK(!w.c.is_recv_idle(), "still idle");
	sim::finish();
}
#endif

#if defined(ST_ASIO_DISPATCH_BATCH_MSG) && !defined(ST_ASIO_PASSIVE_RECV)
// the application takes any prefix of the queue at each offer
static void batch(int threads, bool chosen)
{
	World w;
	w.start(threads);
	std::vector<std::string> want = msgs(4);
	int n = 0, zero = 0, budget = 2;
	w.c.batch_handler = [&](SClient::out_queue_type& q) -> size_t {
		int k = chosen ? sim::choose(budget > 0 ? 3 : 2, "take one / all / none") : (n++ % 3 == 0 ? 2 : n % 3);
		if (k == 2) {--budget; ++zero; return 0;}
		SClient::out_container_type can;
		if (k == 0) q.move_items_out(can, 1); else q.swap(can);
		for (auto& m : can) w.c.offer(Client::str(m));
		sim::yield_point();
		return can.size();
	};
	sim::window(true);
	for (auto& m : want) {simnet::send(w.fd, lv(m)); if (chosen) {if (sim::choose(2, "pause")) sim::settle();} else sim::yield_point();}
	bool ok = sim::wait_for([&] {return w.c.got.size() >= want.size();}, 3000, "all delivered");
	sim::settle();
	check_prefix(w.c, want);
	CHECK(ok, "delivered only %s of %s", join_str(w.c.got).c_str(), join_str(want).c_str());
	sim::sleep_ms(100);
	CHECK(w.c.got == want && !w.c.is_dispatching(), "after acceptance: %s", join_str(w.c.got).c_str());
	sim::outcome(num(zero));
	sim::finish();
}
SCENARIO(batch_seq, "batch dispatching: every pattern of taking one, all or none", 0, 1, NULL) {batch(1, true);}
SCENARIO(batch_race, "batch dispatching with 2 service threads, short reads", 2, 3, short_recv) {batch(2, false);}
SCENARIO(batch_reconnect, "the link breaks while a batch is refused, the client reconnects", 1, 2, NULL)
{
	World w;
	w.c.set_reconnect(true);
	w.start(1);
	int refuse = 1 + sim::choose(2, "refusals");
	w.c.batch_handler = [&](SClient::out_queue_type& q) -> size_t {
		if (refuse-- > 0) return 0;
		SClient::out_container_type can; q.swap(can);
		for (auto& m : can) w.c.offer(Client::str(m));
		return can.size();
	};
	int pause = sim::choose(2, "break the link after 0 / 20 ms");
	sim::window(true);
	simnet::send(w.fd, all_lv(msgs(2)));
	if (pause) sim::sleep_ms(20); else sim::settle();
	simnet::close(w.fd);
	w.fd = simnet::accept(w.l);
	simnet::send(w.fd, all_lv(msgs(2, 'b')));
	sim::sleep_ms(1000);
	std::vector<std::string> b;
	for (auto& m : w.c.got) if (m[0] == 'b') b.push_back(m);
	CHECK(b == msgs(2, 'b'), "messages of the second link: delivered %s (all: %s)", join_str(b).c_str(), join_str(w.c.got).c_str());
	sim::finish();
}
#endif
#if defined(ST_ASIO_SYNC_DISPATCH) && !defined(ST_ASIO_PASSIVE_RECV) && !defined(ST_ASIO_SYNC_RECV)
// synchronous dispatching: the application consumes any part of the list, the rest is dispatched asynchronously
static void syncdisp(int threads, bool chosen)
{
	World w;
	w.start(threads);
	std::vector<std::string> want = msgs(4);
	int n = 0;
	w.c.sync_handler = [&](list<SClient::out_msg_type>& can) -> size_t {
		CHECK(!can.empty(), "on_msg called without messages");
		int k = chosen ? sim::choose(can.size() + 1, "consume") : n++ % 2;
		size_t c = 0;
		for (; k > 0 && !can.empty(); --k, ++c) {w.c.got_sync.push_back(Client::str(can.front())); can.pop_front();}
		return c;
	};
	int offers = 0, budget = 2;
	w.c.handler = [&](const std::string&) {if (chosen) {if (budget > 0 && sim::choose(2, "accept/refuse")) {--budget; return false;} return true;} return offers++ != 1;};
	sim::window(true);
	for (auto& m : want) {simnet::send(w.fd, lv(m)); if (chosen) {if (sim::choose(2, "pause")) sim::settle();} else sim::yield_point();}
	bool ok = sim::wait_for([&] {return w.c.got.size() + w.c.got_sync.size() >= want.size();}, 3000, "all delivered");
	sim::sleep_ms(150);
	for (size_t i = 1; i < w.c.got.size(); ++i) CHECK(w.c.got[i - 1] < w.c.got[i], "asynchronous order %s", join_str(w.c.got).c_str());
	for (size_t i = 1; i < w.c.got_sync.size(); ++i) CHECK(w.c.got_sync[i - 1] < w.c.got_sync[i], "synchronous order %s", join_str(w.c.got_sync).c_str());
	std::vector<std::string> all = w.c.got;
	all.insert(all.end(), w.c.got_sync.begin(), w.c.got_sync.end());
	std::sort(all.begin(), all.end());
	CHECK(ok && all == want, "consumed %s, dispatched %s", join_str(w.c.got_sync).c_str(), join_str(w.c.got).c_str());
	sim::outcome(join_str(w.c.got_sync) + "|" + join_str(w.c.offered));
	sim::finish();
}
SCENARIO(sync_dispatch_seq, "every pattern of partial consumption and refusal", 0, 1, NULL) {syncdisp(1, true);}
SCENARIO(sync_dispatch_race, "partial consumption with 2 service threads, short reads", 2, 3, short_recv) {syncdisp(2, false);}
#endif

#if defined(ST_ASIO_PASSIVE_RECV)
// counts reads: one prepare_next_recv per started read, one parse_msg per completed read with data
struct Reads {static int started, completed;};
int Reads::started = 0, Reads::completed = 0;
struct Counting : public ext::unpacker<>
{
	virtual buffer_type prepare_next_recv() {++Reads::started; CHECK(Reads::started - Reads::completed <= 1, "a second read started while one is outstanding"); return ext::unpacker<>::prepare_next_recv();}
	virtual bool parse_msg(size_t n, container_type& can) {++Reads::completed; return ext::unpacker<>::parse_msg(n, can);}
};
static void count_reads(World& w) {w.c.unpacker(boost::make_shared<Counting>()); Reads::started = Reads::completed = 0;}
static int outstanding() {return Reads::started - Reads::completed;}
#endif

#if defined(ST_ASIO_PASSIVE_RECV) && !defined(ST_ASIO_SYNC_RECV)
static int handled = 0;     // callbacks the application got
static void setup_passive(World& w, const std::function<void()>& cb)
{
	handled = 0;
#if defined(ST_ASIO_SYNC_DISPATCH)
	w.c.sync_handler = [&w, cb](list<SClient::out_msg_type>& can) -> size_t {
		++handled;
		if (cb) cb();
		for (auto& m : can) w.c.got.push_back(Client::str(m));
		can.clear();
		return 1;
	};
#elif defined(ST_ASIO_DISPATCH_BATCH_MSG)
	w.c.batch_handler = [&w, cb](SClient::out_queue_type& q) -> size_t {
		SClient::out_container_type can;
		q.swap(can);
		handled += can.size();
		if (cb) cb();
		for (auto& m : can) if (!m.empty()) w.c.got.push_back(Client::str(m));
		return can.size();
	};
#else
	w.c.handler = [cb](const std::string&) {++handled; if (cb) cb(); return true;};
#endif
}
static std::vector<std::string> nonempty(const std::vector<std::string>& v) {std::vector<std::string> r; for (auto& m : v) if (!m.empty()) r.push_back(m); return r;}

SCENARIO(passive_exact, "every pattern of requests from outside and from the callback: exactly the requested reads happen", 0, 1, NULL)
{
	World w;
	count_reads(w);
	int ask = 0;
	bool cb_ask = false;
	setup_passive(w, [&] {if (cb_ask) {++ask; w.c.recv_msg();}});
	w.start(1 + sim::choose(2, "threads"));
	sim::window(true);
	CHECK(Reads::started == 1 && w.c.is_reading(), "%d reads started with the link", Reads::started);
	std::vector<std::string> want;
	size_t unread = 0;      // messages sent that wait for a read
	int total = 0;
	for (int i = 0; i < (int) sim::param("steps", 5); ++i)
	{
		int out0 = outstanding(), st0 = Reads::started, h0 = handled;
		int act = sim::choose(4, "request / message / message and request in the callback / half a message");
		std::string m = "m" + num(total);
		switch (act)
		{
		case 0:
		{
			int asks = 1 + sim::choose(2, "ask twice");
			for (int k = 0; k < asks; ++k) w.c.recv_msg();
			sim::settle();
			if (out0) CHECK(Reads::started == st0, "a read was started although one was outstanding");
			else CHECK(Reads::started > st0 && Reads::started <= st0 + (unread ? asks : 1), "%d requests made while nothing was outstanding started %d reads", asks, Reads::started - st0);
			if (unread && !out0) {CHECK(outstanding() < asks, "data did not complete the read"); CHECK(handled > h0, "a completed read without callback"); unread = 0;}
		}
			break;
		case 1: case 2: case 3:
			cb_ask = act == 2;
			if (act == 3) {if (unread) break; simnet::send(w.fd, lv(m).substr(0, 3)); sim::settle(); CHECK(outstanding() == out0 || (outstanding() == 0 && handled > h0), "a completed read without callback");
				// a read waits for a complete message unless the unpacker says otherwise: complete it
				simnet::send(w.fd, lv(m).substr(3)); sim::settle(); want.push_back(m); ++total; unread += out0 ? (outstanding() ? 1 : 0) : 1;
				if (w.c.got.size() < want.size() && unread == 0) unread = 1;
				cb_ask = false;
				break;}
			simnet::send(w.fd, lv(m)); want.push_back(m); ++total;
			sim::settle();
			if (!out0) {CHECK(Reads::started == st0 && handled == h0, "a read happened without being requested"); ++unread;}
			else
			{
				CHECK(handled == h0 + 1, "%d callbacks for one completed read with one message", handled - h0);
				if (act == 2) CHECK(outstanding() == 1, "the request made in the callback was lost");
				else CHECK(outstanding() == 0, "a read was started without being requested");
			}
			cb_ask = false;
			break;
		}
		CHECK(w.c.is_reading() == (outstanding() == 1), "is_reading() %d with %d reads outstanding", (int) w.c.is_reading(), outstanding());
	}
	std::vector<std::string> got = nonempty(w.c.got);
	CHECK(got == prefix(want, got.size()) && want.size() - got.size() <= (outstanding() ? 0 : want.size()), "delivered %s, sent %s, %d outstanding", join_str(got).c_str(), join_str(want).c_str(), outstanding());
	sim::outcome(join_str(got) + num(outstanding()));
	sim::finish();
}
static void passive_all(int threads, int foreign)
{
	World w;
	count_reads(w);
	setup_passive(w, [&] {w.c.recv_msg();});
	w.start(threads);
	std::vector<std::string> want = msgs(3);
	sim::window(true);
	std::vector<int> fs;
	for (int i = 0; i < foreign; ++i) fs.push_back(sim::spawn("requester", [&] {w.c.recv_msg(); sim::yield_point(); w.c.recv_msg();}));
	simnet::send(w.fd, lv(want[0]).substr(0, 3)); sim::yield_point();
	simnet::send(w.fd, lv(want[0]).substr(3) + lv("") + lv(want[1])); sim::yield_point();   // with a heartbeat
	simnet::send(w.fd, lv(want[2]));
	for (int f : fs) sim::join(f);
	bool ok = sim::wait_for([&] {return nonempty(w.c.got).size() >= 3;}, 1000, "delivered");
	sim::settle();
	CHECK(ok, "every callback asked for more, still only %s was delivered", join_str(nonempty(w.c.got)).c_str());
	CHECK(nonempty(w.c.got) == want, "delivered %s", join_str(w.c.got).c_str());
	CHECK(outstanding() == 1, "%d reads outstanding although the last callback asked for one", outstanding());
	simnet::send(w.fd, lv("")); sim::settle();
	CHECK(outstanding() == 1, "after a heartbeat the application got no chance to ask again");
	sim::finish();
}
SCENARIO(passive_race, "requests from callbacks and from two foreign threads against completing reads, short reads", 2, 3, short_recv) {passive_all(2, 2);}
SCENARIO(passive_lost, "a request made while nothing is outstanding is never lost", 2, 3, NULL)
{
	World w;
	count_reads(w);
	setup_passive(w, NULL);
	w.start(2);
	simnet::send(w.fd, lv("a0")); sim::settle();
	CHECK(outstanding() == 0 && nonempty(w.c.got).size() == 1, "setup");
	sim::window(true);
	int f = sim::spawn("req1", [&] {w.c.recv_msg();});
	int g = sim::spawn("req2", [&] {w.c.recv_msg();});
	simnet::send(w.fd, lv("a1"));
	sim::join(f); sim::join(g);
	sim::settle();
	CHECK(nonempty(w.c.got).size() == 2, "two requests, nothing read: %s", join_str(w.c.got).c_str());
	CHECK(outstanding() <= 1 && Reads::completed == 2, "reads %d/%d", Reads::started, Reads::completed);
	sim::outcome(num(outstanding()));
	sim::finish();
}
#endif

#if defined(ST_ASIO_SYNC_RECV)
// exactly once: every message is either returned by a synchronous receive or handed to the callbacks
struct SyncGot {std::vector<std::string> v; std::vector<sync_call_result> r;};
static sync_call_result sync_once(World& w, SyncGot& g, unsigned ms)
{
	list<SClient::out_msg_type> can;
	int64_t t0 = sim::now_ms();
	sync_call_result r = w.c.sync_recv_msg(can, ms);
	g.r.push_back(r);
	CHECK(r == SUCCESS || can.empty(), "messages returned with result %d", (int) r);
	if (r == TIMEOUT) CHECK(ms > 0 && sim::now_ms() - t0 >= (int64_t) ms, "timeout reported after %lld of %u ms", (long long) (sim::now_ms() - t0), ms);
	for (auto& m : can) g.v.push_back(Client::str(m));
	sim::logf("sync_recv_msg -> %d %s", (int) r, join_str(g.v).c_str());
	return r;
}
static std::string rs(const SyncGot& g) {std::string s; for (auto r : g.r) s += num(r); return s + ":" + join_str(g.v);}
static void check_split(World& w, const SyncGot& g, const std::vector<std::string>& want, bool complete)
{
	std::vector<std::string> a, all = g.v;
	for (auto& m : w.c.got) if (!m.empty()) a.push_back(m);
	for (size_t i = 1; i < a.size(); ++i) CHECK(a[i - 1] < a[i], "callbacks out of order %s", join_str(a).c_str());
	for (size_t i = 1; i < g.v.size(); ++i) CHECK(g.v[i - 1] < g.v[i], "synchronous receives out of order %s", join_str(g.v).c_str());
	all.insert(all.end(), a.begin(), a.end());
	std::sort(all.begin(), all.end());
	for (size_t i = 1; i < all.size(); ++i) CHECK(all[i - 1] != all[i], "message '%s' delivered twice: sync %s, callbacks %s", all[i].c_str(), join_str(g.v).c_str(), join_str(a).c_str());
	if (complete) CHECK(all == want, "lost messages: sync %s, callbacks %s", join_str(g.v).c_str(), join_str(a).c_str());
	sim::outcome(rs(g) + "|" + join_str(a));
}
SCENARIO(sync_recv_data, "a receiver with and without time limit against arriving data", 2, 3, short_recv)
{
	World w;
#ifdef ST_ASIO_PASSIVE_RECV
	count_reads(w);
	w.start(2);
#ifdef ST_ASIO_PASSIVE_RECV
	CHECK(Reads::started == 0 && !w.c.is_reading(), "a read was started although both passive and synchronous receiving are enabled");
#endif
#else
	w.start(2);
#endif
	std::vector<std::string> want = msgs(3);
	SyncGot g;
	sim::window(true);
	int f = sim::spawn("receiver", [&] {sync_call_result r = sync_once(w, g, 0); CHECK(r == SUCCESS, "result %d on a healthy link with data", (int) r); sync_once(w, g, 20);});
	for (auto& m : want) {simnet::send(w.fd, lv(m)); sim::yield_point();}
	sim::wait_for([&] {return !g.r.empty();}, 100, "first receive");
	if (g.r.empty()) {want.push_back("a3"); simnet::send(w.fd, lv("a3"));}   // everything so far went to the callbacks
	sim::join(f);
#ifdef ST_ASIO_PASSIVE_RECV
	sim::settle();
	int k = 0;
	while (k++ < 6) {w.c.recv_msg(); sim::settle();}
#else
	sim::sleep_ms(150);
#endif
	check_split(w, g, want, true);
	sim::finish();
}
SCENARIO(sync_recv_timeout, "nothing arrives: timeout, then a late message goes to the callbacks or to the next receive", 1, 2, NULL)
{
	World w;
	w.start(1);
	std::vector<std::string> want = msgs(2);
	SyncGot g;
	int late = sim::choose(3, "message at 5 / 10 / 15 ms");
	sim::window(true);
	int f = sim::spawn("receiver", [&] {sync_once(w, g, 10); if (g.r[0] == TIMEOUT) {sim::sleep_ms(10); sync_once(w, g, 10);}});
	sim::sleep_ms(5 + late * 5);
	simnet::send(w.fd, lv(want[0]));
	sim::sleep_ms(1);
	sim::join(f);
	if (late == 0) CHECK(g.r[0] == SUCCESS, "a message arrived in time, result %d", (int) g.r[0]);
	if (late == 2) CHECK(g.r[0] == TIMEOUT, "no message arrived in time, result %d", (int) g.r[0]);
	simnet::send(w.fd, lv(want[1]));
#ifdef ST_ASIO_PASSIVE_RECV
	for (int k = 0; k < 4; ++k) {w.c.recv_msg(); sim::settle();}
#endif
	sim::sleep_ms(100);
	check_split(w, g, want, true);
	sim::finish();
}
SCENARIO(sync_recv_dup, "a second concurrent receiver is refused", 2, 3, NULL)
{
	World w;
	w.start(1);
	std::vector<std::string> want = msgs(2);
	SyncGot g1, g2;
	bool in1 = false;
	sim::window(true);
	int f = sim::spawn("receiver1", [&] {in1 = true; sync_once(w, g1, 0); in1 = false;});
	int h = sim::spawn("receiver2", [&] {sync_once(w, g2, 30);});
	sim::wait_for([&] {return !g2.r.empty() || !g1.r.empty();}, 25, "one returns");
	if (!g2.r.empty() && g2.r[0] == DUPLICATE) CHECK(in1 || !g1.r.empty(), "refused as duplicate without another receiver");
	CHECK(!g1.r.empty() || !g2.r.empty(), "neither of two concurrent receivers was refused");
	for (auto* g : {&g1, &g2}) if (!g->r.empty()) CHECK(g->r[0] == DUPLICATE, "result %d without data", (int) g->r[0]);
	simnet::send(w.fd, lv(want[0]));
	sim::join(f); sim::join(h);
	CHECK((g1.r[0] == SUCCESS) + (g2.r[0] == SUCCESS) == 1 && (g1.r[0] == DUPLICATE) + (g2.r[0] == DUPLICATE) == 1, "results %d and %d", (int) g1.r[0], (int) g2.r[0]);
	g1.v.insert(g1.v.end(), g2.v.begin(), g2.v.end());
	check_split(w, g1, prefix(want, 1), true);
	sim::finish();
}
// the link ends in every way while a receiver waits or is about to wait
SCENARIO(sync_recv_close, "the link is closed by the peer, reset, shut down from any thread or stopped while a receiver waits without time limit", 2, 3, NULL)
{
	World w;
	w.start(2);
	std::vector<std::string> want = msgs(1);
	int how = sim::choose(5, "peer closes / peer resets / force_shutdown / graceful_shutdown / data then close");
	SyncGot g;
	sim::window(true);
	int f = sim::spawn("receiver", [&] {sync_call_result r = sync_once(w, g, 0); if (r == SUCCESS) sync_once(w, g, 0);});
	switch (how)
	{
	case 0: simnet::close(w.fd); break;
	case 1: simnet::reset(w.fd); break;
	case 2: w.c.force_shutdown(); break;
	case 3: w.c.graceful_shutdown(); sim::settle(); simnet::close(w.fd); break;
	case 4: simnet::send(w.fd, lv(want[0])); simnet::close(w.fd); break;
	}
#ifdef ST_ASIO_PASSIVE_RECV
	// nobody is reading unless the receiver asked in time, so only the library can end the link
	if (how != 2 && how != 3) {sim::wait_for([&] {return !g.r.empty();}, 100, "returned"); if (g.r.empty() || (how == 4 && g.r.size() < 2)) {sim::settle(); w.c.force_shutdown();}}
#endif
	sim::join(f);      // a receiver that never returns is reported as a deadlock or as the end of virtual time
	CHECK(g.r.back() == NOT_APPLICABLE || (how == 4 && g.r.size() == 2), "result %d of a receive ended by the end of the link", (int) g.r.back());
	CHECK(sim::now_ms() < 20000, "returned only after %lld ms", (long long) sim::now_ms());
	if (how != 4) CHECK(g.v.empty(), "messages out of nothing");
	sim::wait_for([&] {return w.c.closes > 0;}, 10000, "closed");
	CHECK(w.c.closes == 1, "closed %d times", w.c.closes);
	check_split(w, g, want, false);
	sim::finish();
}
SCENARIO(sync_recv_stop, "the service is stopped while a receiver waits without time limit", 1, 2, NULL)
{
	World w;
	w.start(2);
	SyncGot g;
	sim::window(true);
	int f = sim::spawn("receiver", [&] {sync_once(w, g, 0);});
	w.sp.stop_service();
	sim::join(f);
	CHECK(g.r[0] == NOT_APPLICABLE, "result %d", (int) g.r[0]);
	sim::outcome(num(sim::now_ms()));
	sim::finish();
}
#if !defined(ST_ASIO_PASSIVE_RECV)
// a receiver waits while reading is suspended (receive buffer full), then the link is shut down
SCENARIO(sync_recv_suspended, "reading is suspended while a receiver waits, the link is shut down", 2, 3, NULL)
{
	World w;
	w.start(1);
	w.c.recv_buf_size(1);
	w.c.msg_resuming_interval(100000);
	w.c.handler = [](const std::string&) {return false;};
	simnet::send(w.fd, lv("a0") + lv("a1") + lv("a2"));
	sim::settle();
	CHECK(w.c.is_recv_idle(), "setup");
	SyncGot g;
	sim::window(true);
	int f = sim::spawn("receiver", [&] {sync_once(w, g, 0);});
	w.c.force_shutdown();
	sim::join(f);
	CHECK(g.r[0] == NOT_APPLICABLE && sim::now_ms() < 10000, "result %d after %lld ms", (int) g.r[0], (long long) sim::now_ms());
	sim::finish();
}
#endif
#endif
