// C29: statistics of links
#include "common.h"
#include "ext/tcp.h"
#include "ext/udp.h"
using namespace st_asio_wrapper;
// a packer and an unpacker that take time and record how much
struct Costs
{
	int pack = 0, parse = 0;
	std::vector<int64_t> packs, unpacks;
	bool off = false;
};
static Costs& cost() {static Costs c; return c;}
struct Timed
{
	std::vector<int64_t>& v; int64_t t;
	Timed(std::vector<int64_t>& v_, int c) : v(v_), t(sim::now_ms()) {if (c) sim::sleep_ms(c);}
	~Timed() {if (!cost().off) {sim::NoPreempt n; v.push_back(sim::now_ms() - t);}}
};
struct TPacker : public ext::packer<>
{
	typedef ext::packer<> super;
	virtual bool pack_msg(msg_type& msg, container_type& can) {Timed t(cost().packs, cost().pack); return super::pack_msg(msg, can);}
	virtual bool pack_msg(msg_type& m1, msg_type& m2, container_type& can) {Timed t(cost().packs, cost().pack); return super::pack_msg(m1, m2, can);}
	virtual bool pack_msg(container_type& in, container_type& out) {Timed t(cost().packs, cost().pack); return super::pack_msg(in, out);}
	using super::pack_msg;
	virtual bool pack_msg(msg_type& msg, const char* const pstr[], const size_t len[], size_t n, bool native = false) {Timed t(cost().packs, cost().pack); return super::pack_msg(msg, pstr, len, n, native);}
	virtual bool pack_heartbeat(msg_type& msg) {Timed t(cost().packs, cost().pack); return super::pack_heartbeat(msg);}
};
struct TUnpacker : public ext::unpacker<>
{
	typedef ext::unpacker<> super;
	virtual bool parse_msg(size_t n, container_type& can) {Timed t(cost().unpacks, cost().parse); return super::parse_msg(n, can);}
	virtual size_t completion_condition(const boost::system::error_code& ec, size_t n) {Timed t(cost().unpacks, 0); return super::completion_condition(ec, n);}
};
#define CLIENT_SUPER st_asio_wrapper::tcp::client_socket_base<TPacker, TUnpacker>
#define SERVER_SOCKET_SUPER st_asio_wrapper::tcp::server_socket_base<TPacker, TUnpacker>
#include "srvfix.h"
#include <time.h>

static void sleep_until(int64_t t) {if (t > sim::now_ms()) sim::sleep_ms(t - sim::now_ms());}
// what the counters of one link must be
struct Expect
{
	uint64_t sm = 0, sb = 0, rm = 0, rb = 0;
	time_t est = 0, brk = 0, ls = 0, lr = 0;
	template<typename L> static void fresh(L& l)
	{
#ifdef ST_ASIO_FULL_STATISTIC
		const statistic& s = l.get_statistic();
		const statistic::duration* d[] = {&s.send_delay_sum, &s.send_time_sum, &s.dispatch_delay_sum, &s.recv_idle_sum, &s.handle_time_sum};
		for (int i = 0; i < 5; ++i) CHECK(d[i]->num == 0 && d[i]->count() == 0 && d[i]->min_duration.count() == 0 && d[i]->max_duration.count() == 0, "duration %d of a new link isn't zero: %d samples", i, (int) d[i]->num);
		CHECK(s.pack_time_sum.num == 0 && s.unpack_time_sum.max_duration.count() == 0, "packing or unpacking time of a new link isn't zero");
#endif
	}
	template<typename L> void check(L& l, const char* w)
	{
		const statistic& s = l.get_statistic();
		CHECK(s.send_msg_sum == sm && s.send_byte_sum == sb, "%s: sent %d messages with %d bytes instead of %d with %d", w, (int) s.send_msg_sum, (int) s.send_byte_sum, (int) sm, (int) sb);
		CHECK(s.recv_msg_sum == rm && s.recv_byte_sum == rb, "%s: received %d messages with %d bytes instead of %d with %d", w, (int) s.recv_msg_sum, (int) s.recv_byte_sum, (int) rm, (int) rb);
		CHECK(s.establish_time == est, "%s: established at %d instead of %d", w, (int) s.establish_time, (int) est);
		CHECK(s.break_time == brk, "%s: broken at %d instead of %d", w, (int) s.break_time, (int) brk);
		CHECK(s.last_send_time == ls, "%s: last sent at %d instead of %d", w, (int) s.last_send_time, (int) ls);
		CHECK(s.last_recv_time == lr, "%s: last received at %d instead of %d", w, (int) s.last_recv_time, (int) lr);
	}
};
template<typename L> struct Beat {static void send(L& l) {l.start_heartbeat(1, 1000);}};
// one operation on a link; the bytes on the wire are what the peer reads
template<typename L> static void operation(L& l, int fd, Expect& e, int op, int i)
{
	std::string m = std::string(1 + i, 'a' + i), n(2, 'z');
	bool sent = false;
	switch (op)
	{
	case 0: CHECK(l.send_msg(m.data(), m.size(), true), "send"); e.sm += 1; sent = true; break;
	case 1: {const char* p[] = {m.data(), n.data()}; size_t z[] = {m.size(), n.size()}; CHECK(l.send_msg(p, z, 2, true), "send"); e.sm += 1; sent = true; break;}
	case 2: {std::string x = lv(m) + lv(n); CHECK(l.send_native_msg(x.data(), x.size(), true), "send"); e.sm += 1; sent = true; break;}
	case 3: {std::string x = lv(m), y = lv(n); CHECK(l.direct_send_msg(x, true), "send"); sim::settle(); CHECK(l.direct_send_msg(y, true), "send"); e.sm += 2; sent = true; break;}
	case 4: simnet::send(fd, lv(m)); e.rm += 1; e.rb += m.size(); e.lr = time(NULL); break;
	case 5: simnet::send(fd, lv(m) + lv("") + lv(n)); e.rm += 2; e.rb += m.size() + n.size(); e.lr = time(NULL); break;
	case 6: simnet::send(fd, lv("")); e.lr = time(NULL); break;
	case 7: simnet::send(fd, lv(m).substr(0, 2 + i)); sim::settle(); sim::sleep_ms(900); simnet::send(fd, lv(m).substr(2 + i)); e.rm += 1; e.rb += m.size(); e.lr = time(NULL); break;
	case 8: sim::sleep_ms(1300); break;
	case 9: {std::string x = m; CHECK(l.send_msg(x, true), "send"); sent = true; break;} // counted below: the packer may produce several pieces
	case 10: {std::string x = lv(m), y = lv(n); CHECK(l.direct_send_msg(x, true) && l.direct_send_msg(y, true), "send"); e.sm += 2; sent = true; break;}
	}
	sim::settle();
	if (sent) e.ls = time(NULL);
	std::string got = simnet::peek_available(fd);
	e.sb += got.size();
	if (op == 9) {uint64_t d = l.get_statistic().send_msg_sum - e.sm; CHECK(d == 1 || d == 2, "one message is counted as %d", (int) d); e.sm += d;}
	if (sent) CHECK(!got.empty(), "nothing arrived");
	e.check(l, ("operation " + num(op)).c_str());
}
SCENARIO(stat_client, "every short history of traffic on a client link that breaks and reconnects", 0, 0, NULL)
{
	sim::window(false);
	World w;
	w.c.set_reconnect(true);
	Expect e;
	e.check(w.c, "new");
	e.fresh(w.c);
	sim::sleep_ms(300);
	w.start(1);
	e.est = e.lr = time(NULL);
	e.check(w.c, "established");
	int n = sim::param("ops", 2), end = sim::choose(5, "end");
	for (int i = 0; i < n; ++i) operation(w.c, w.fd, e, sim::choose(11, "op"), i);
	sim::sleep_ms(1100);
	switch (end)
	{
	case 0: w.c.force_shutdown(true); simnet::close(w.fd); break;
	case 1: simnet::close(w.fd); break;
	case 2: simnet::reset(w.fd); break;
	case 3: simnet::send(w.fd, lv("")); sim::settle(); e.lr = time(NULL); w.c.graceful_shutdown(true); e.brk = 0; sim::settle(); simnet::close(w.fd); break;
	case 4: // malformed: what came before it counts
		simnet::send(w.fd, lv("good") + std::string("\0\0", 2)); e.rm += 1; e.rb += 4; e.lr = time(NULL); sim::settle(); simnet::close(w.fd); break;
	}
	time_t brk = time(NULL);
	CHECK(sim::wait_for([&] {return w.c.closes == 1;}, 3000, "closed"), "not closed");
	e.brk = w.c.get_statistic().break_time; // when closing starts
	CHECK(e.brk == brk || e.brk == time(NULL), "broken at %d instead of %d", (int) e.brk, (int) brk);
	int fd = simnet::accept(w.l);
	CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 3000, "connected again"), "not connected again");
	sim::settle();
	e.est = e.lr = time(NULL);
	e.check(w.c, "established again");
	operation(w.c, fd, e, sim::choose(11, "op"), 3);
	sim::finish();
}
SCENARIO(stat_server, "the same for a server link and the sums of all links of a server; recycled links start at zero", 0, 0, NULL)
{
	sim::window(false);
	SWorld w;
	w.start(1);
	SSock* p[2]; int fd[2]; Expect e[2];
	boost::shared_ptr<SSock> hold[2];
	for (int i = 0; i < 2; ++i) {fd[i] = w.peer(&p[i]); e[i].est = e[i].lr = time(NULL); e[i].check(*p[i], "established"); e[i].fresh(*p[i]); hold[i] = w.s.find(p[i]->id()); sim::sleep_ms(700);}
	int n = sim::param("ops", 2);
	for (int i = 0; i < n; ++i) {int k = sim::choose(2, "link"); operation(*p[k], fd[k], e[k], sim::choose(11, "op"), i + 3 * k);}
	auto sums = [&](int links) {
		statistic s = w.s.get_statistic();
		uint64_t sm = 0, sb = 0, rm = 0, rb = 0;
		for (int k = 2 - links; k < 2; ++k) {sm += e[k].sm; sb += e[k].sb; rm += e[k].rm; rb += e[k].rb;}
		CHECK(s.send_msg_sum == sm && s.send_byte_sum == sb && s.recv_msg_sum == rm && s.recv_byte_sum == rb, "the server's sums are %d/%d sent, %d/%d received instead of %d/%d, %d/%d",
			(int) s.send_msg_sum, (int) s.send_byte_sum, (int) s.recv_msg_sum, (int) s.recv_byte_sum, (int) sm, (int) sb, (int) rm, (int) rb);
	};
	sums(2);
	sim::sleep_ms(1000);
	int end = sim::choose(3, "end");
	if (end == 0) p[0]->force_shutdown(); else if (end == 1) simnet::close(fd[0]); else simnet::reset(fd[0]);
	sim::settle();
	time_t brk = time(NULL);
	CHECK(sim::wait_for([&] {return p[0]->closes == 1;}, 3000, "closed"), "not closed");
	e[0].brk = brk;
	e[0].check(*p[0], "closed");
	e[1].check(*p[1], "the other one");
	sums(1);
	hold[0].reset();
#ifdef ST_ASIO_REUSE_OBJECT
	w.s.clear_obsoleted_object();
	sim::sleep_ms(6000);
	for (int i = 0; i < 4; ++i) // the pending accepts already have their objects
	{
		SSock* q = NULL;
		w.peer(&q);
		Expect z; z.est = z.lr = time(NULL);
		z.fresh(*q);
		z.check(*q, q == p[0] ? "recycled" : "new");
		if (q == p[0]) sim::outcome("recycled");
	}
#endif
	hold[1].reset();
	sim::finish();
}
SCENARIO(stat_race, "two senders, two service threads, a peer sending and reading bit by bit; counters at rest", 1, 2, [] {simnet::cfg.send_short = true; simnet::cfg.recv_short = true; simnet::cfg.send_eagain = true;})
{
	sim::window(false);
	World w;
	w.start(2);
	sim::window(true);
	int a = sim::spawn("a", [&] {std::string x("one"), y("b"); w.c.send_msg(x.data(), x.size(), true); w.c.send_msg(y.data(), y.size(), true);});
	int b = sim::spawn("b", [&] {std::string x("second"); w.c.send_msg(x.data(), x.size(), true);});
	std::string in = lv("in1") + lv("longer in") + lv("") + lv("x");
	simnet::send(w.fd, in.substr(0, 8));
	simnet::send(w.fd, in.substr(8));
	sim::join(a); sim::join(b);
	CHECK(sim::wait_for([&] {return w.c.got.size() == 3 && simnet::available(w.fd) == 16;}, 1000, "transferred"), "not everything arrived");
	sim::settle();
	Expect e; e.sm = 3; e.sb = 16; e.rm = 3; e.rb = 13; e.est = w.c.get_statistic().establish_time; e.ls = e.lr = time(NULL);
	e.check(w.c, "at rest");
	sim::finish();
}
#ifdef ST_ASIO_FULL_STATISTIC
typedef std::vector<int64_t> Samples;
static void samples(const statistic::duration& d, const Samples& s, const char* w)
{
	typedef boost::chrono::milliseconds MS;
	int64_t sum = 0, mn = 0, mx = 0;
	std::string all;
	for (size_t i = 0; i < s.size(); ++i) {sum += s[i]; if (!i || s[i] < mn) mn = s[i]; if (!i || s[i] > mx) mx = s[i]; all += num(s[i]) + " ";}
	auto ms = [](const statistic::duration::super& x) {return (int) boost::chrono::duration_cast<MS>(x).count();};
	CHECK(d.num == (int64_t) s.size(), "%s: %d samples instead of %d (%s)", w, (int) d.num, (int) s.size(), all.c_str());
	CHECK(abs(ms(d) - (int) sum) == 0, "%s: the sum is %d ms instead of %d (%s)", w, ms(d), (int) sum, all.c_str());
	CHECK(abs(ms(d.min_duration) - (int) mn) == 0 && abs(ms(d.max_duration) - (int) mx) == 0, "%s: minimum %d, maximum %d (%s)", w, ms(d.min_duration), ms(d.max_duration), all.c_str());
}
SCENARIO(stat_times, "histories of delayed and blocked sends, slow packing, unpacking and handling, refused messages: every duration against its samples", 0, 0, NULL)
{
	sim::window(false);
	World w;
	w.start(1);
	Samples delay, wr, handle, disp;
	int n = sim::param("ops", 2);
	int busy = 0, refuse = 0;
	w.c.handler = [&](const std::string&) {
		int64_t t = sim::now_ms();
		bool r = refuse == 0;
		if (refuse) --refuse;
		if (busy) sim::sleep_ms(busy);
		handle.push_back(sim::now_ms() - t);
		return r;
	};
	auto send = [&](const char* s) {CHECK(w.c.send_msg(s, strlen(s), true), "send");};
	for (int i = 0; i < n; ++i)
	{
		switch (sim::choose(12, "op"))
		{
		case 0: send("free"); delay.push_back(0); wr.push_back(0); break;
		case 1: // the only service thread is busy
			w.c.post([] {sim::sleep_ms(30);});
			sim::settle();
			send("late1"); sim::sleep_ms(10); send("late2");
			delay.push_back(30); delay.push_back(20); wr.push_back(0);
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
			wr.push_back(0);
#endif
			break;
		case 2: // the peer doesn't read for 40 ms
			simnet::peek_available(w.fd);
			simnet::set_rx_cap(w.fd, 4);
			send("slowly"); sim::sleep_ms(15); send("next"); sim::sleep_ms(25);
			simnet::set_rx_cap(w.fd, 10000);
			delay.push_back(0); wr.push_back(40); delay.push_back(25); wr.push_back(0);
			break;
		case 3: busy = 20; simnet::send(w.fd, lv("in")); disp.push_back(0); break;
		case 4: busy = 20; simnet::send(w.fd, lv("in1") + lv("in2")); disp.push_back(0); disp.push_back(20); break;
		case 5: busy = 10; refuse = 1; simnet::send(w.fd, lv("in")); disp.push_back(0); disp.push_back(50); sim::sleep_ms(20); busy = 0; break;
		case 6: cost().pack = 15; send("packed"); cost().pack = 0; delay.push_back(0); wr.push_back(0); break;
		case 7: cost().parse = 5; simnet::send(w.fd, lv("unpacked")); disp.push_back(0); sim::sleep_ms(10); cost().parse = 0; break;
		case 8: cost().pack = 5; {std::string x = "string"; w.c.send_msg(x, true);} cost().pack = 0; delay.push_back(0); delay.push_back(0); wr.push_back(0);
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
			wr.push_back(0);
#endif
			break;
		case 9: // waits in the receive buffer while its predecessor is handled
			busy = 30; simnet::send(w.fd, lv("first")); sim::sleep_ms(10); simnet::send(w.fd, lv("second"));
			disp.push_back(0); disp.push_back(0); // one thread: the second isn't parsed before the first has been handled
			sim::sleep_ms(70); busy = 0; break;
		case 10: {std::string x = lv("native"); CHECK(w.c.send_native_msg(x.data(), x.size(), true), "send"); delay.push_back(0); wr.push_back(0); break;}
		case 11: // written at once, but the handler of the completion has to wait
			w.c.post([&] {send("done"); sim::sleep_ms(25);});
			delay.push_back(0); wr.push_back(25);
			break;
		}
		sim::sleep_ms(200);
		busy = 0;
		sim::settle();
		const statistic& s = w.c.get_statistic();
		samples(s.send_delay_sum, delay, "send delay");
		samples(s.send_time_sum, wr, "send time");
		samples(s.pack_time_sum, cost().packs, "packing time");
		samples(s.dispatch_delay_sum, disp, "dispatch delay");
		samples(s.handle_time_sum, handle, "handling time");
		samples(s.unpack_time_sum, cost().unpacks, "unpacking time");
		samples(s.recv_idle_sum, Samples(), "suspended reception");
	}
	sim::finish();
}
SCENARIO(stat_idle, "suspended reception: full receive buffers again and again, links that break meanwhile", 0, 1, NULL)
{
	sim::window(false);
	int full = sim::choose(3, "full for"), brk = sim::choose(3, "link breaks"), again = sim::choose(2, "again");
	World w;
	w.c.set_reconnect(true);
	w.start(2);
	w.c.recv_buf_size(4);
	bool accept = true;
	w.c.handler = [&](const std::string&) {return accept;};
	Samples idle;
	int64_t since = -1;
	bool stop = false;
	int poll = sim::spawn("poll", [&] {
		for (; !stop; sim::sleep_ms(1))
		{
			sim::settle();
			bool i = w.c.is_recv_idle() && w.c.is_connected();
			if (i && since < 0) since = sim::now_ms();
			else if (!i && since >= 0) {idle.push_back(sim::now_ms() - since); since = -1;}
		}
	});
	int fd = w.fd;
	for (int r = 0; r < 1 + again; ++r)
	{
		accept = false;
		for (int i = 0; i < 6; ++i) {simnet::send(fd, lv("message")); sim::sleep_ms(3);}
		CHECK(w.c.is_recv_idle(), "not suspended");
		sim::sleep_ms(full == 0 ? 30 : full == 1 ? 120 : 610);
		if (brk == 1 && r == 0)
		{
			w.c.force_shutdown(true);
			fd = simnet::accept(w.l);
			CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 3000, "connected again"), "not connected again");
			sim::sleep_ms(200);
		}
		accept = true;
		sim::sleep_ms(900);
		CHECK(!w.c.is_recv_idle(), "still suspended");
		if (brk == 2) sim::sleep_ms(1000);
	}
	stop = true;
	sim::join(poll);
	// it may resume and be suspended again at once
	typedef boost::chrono::milliseconds MS;
	const statistic::duration& d = w.c.get_statistic().recv_idle_sum;
	int sum = 0, have = boost::chrono::duration_cast<MS>((const statistic::duration::super&) d).count();
	for (auto i : idle) sum += i;
	CHECK(have - sum >= -2 * (int) idle.size() && have - sum <= 2 * (int) idle.size() + (brk == 1 ? 60 : 0) && d.num >= (int) idle.size(), "suspended for %d ms in %d periods instead of %d ms in %d", have, (int) d.num, sum, (int) idle.size());
	sim::finish();
}
#endif
// ---- UDP
struct SU : public st_asio_wrapper::ext::udp::single_socket_service
{
	typedef st_asio_wrapper::ext::udp::single_socket_service super;
	SU(service_pump& sp) : super(sp) {}
	int closes = 0, got = 0;
	virtual void on_close() {++closes; super::on_close();}
	int busy = 0, refuse = 0;
	std::vector<int64_t> handle;
	virtual bool on_msg_handle(out_msg_type& msg)
	{
		++got;
		int64_t t = sim::now_ms();
		bool r = refuse == 0;
		if (refuse) --refuse;
		if (busy) sim::sleep_ms(busy);
		handle.push_back(sim::now_ms() - t);
		return r;
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& msg) {}
#endif
};
SCENARIO(stat_udp, "histories of datagrams in both directions, failing sends included", 0, 1, [] {simnet::cfg.dgram_send_err = true;})
{
	sim::window(false);
	int conn = sim::choose(2, "connected");
	int a = simnet::udp(7001);
	service_pump sp;
	SU u(sp);
	u.set_local_addr(7000, "127.0.0.1");
	u.set_peer_addr(7001, "127.0.0.1");
	if (conn) u.set_connect_mode();
	sim::sleep_ms(400);
	sp.start_service(1);
	sim::settle();
	sim::window(true);
	Expect e;
	e.lr = time(NULL);
	int n = sim::param("ops", 3);
	for (int i = 0; i < n; ++i)
	{
		std::string m(1 + 2 * i, 'a' + i);
		bool sent = false;
		sim::sleep_ms(700);
		switch (sim::choose(5, "op"))
		{
		case 0: sent = u.send_msg(m.data(), m.size(), true); CHECK(sent, "send"); break;
		case 1: sent = u.send_native_msg(m.data(), m.size(), true); CHECK(sent, "send"); break;
		case 2: simnet::udp_send(a, 7000, m); e.rm += 1; e.rb += m.size(); e.lr = time(NULL); break;
		case 3: simnet::udp_send(a, 7000, m); simnet::udp_send(a, 7000, m + "x"); e.rm += 2; e.rb += 2 * m.size() + 1; e.lr = time(NULL); break;
		case 4: {const char* p[] = {m.data(), "yz"}; size_t z[] = {m.size(), 2}; sent = u.send_msg(p, z, 2, true); CHECK(sent, "send"); break;}
		}
		sim::settle();
		std::string d; int from;
		while (simnet::udp_try_recv(a, d, &from)) {e.sm += 1; e.sb += d.size(); e.ls = time(NULL);}
		e.est = u.get_statistic().establish_time; // not set for UDP
		e.check(u, "datagrams");
	}
	sim::sleep_ms(1000);
	u.force_shutdown();
	sim::settle();
	e.brk = time(NULL);
	CHECK(sim::wait_for([&] {return u.closes == 1;}, 3000, "closed"), "not closed");
	e.check(u, "closed");
	sim::finish();
}
#ifdef ST_ASIO_FULL_STATISTIC
SCENARIO(stat_udp_times, "the durations of a UDP socket", 0, 0, NULL)
{
	sim::window(false);
	int conn = sim::choose(2, "connected");
	int a = simnet::udp(7001);
	service_pump sp;
	SU u(sp);
	u.set_local_addr(7000, "127.0.0.1");
	u.set_peer_addr(7001, "127.0.0.1");
	if (conn) u.set_connect_mode();
	sp.start_service(1);
	sim::settle();
	Samples delay, wr, disp;
	int n = sim::param("ops", 2);
	auto send = [&](const char* s) {CHECK(u.send_msg(s, strlen(s), true), "send");};
	for (int i = 0; i < n; ++i)
	{
		switch (sim::choose(6, "op"))
		{
		case 0: send("free"); delay.push_back(0); wr.push_back(0); break;
		case 1:
			u.post([] {sim::sleep_ms(30);});
			sim::settle();
			send("late1"); sim::sleep_ms(10); send("late2");
			delay.push_back(30); delay.push_back(20); wr.push_back(0); wr.push_back(0);
			break;
		case 2: u.post([&] {send("done"); sim::sleep_ms(25);}); delay.push_back(0); wr.push_back(25); break;
		case 3: u.busy = 20; simnet::udp_send(a, 7000, "in"); disp.push_back(0); break;
		case 4: u.busy = 10; u.refuse = 1; simnet::udp_send(a, 7000, "in"); disp.push_back(0); disp.push_back(50); sim::sleep_ms(20); u.busy = 0; break;
		case 5: u.busy = 15; simnet::udp_send(a, 7000, "in1"); simnet::udp_send(a, 7000, "in2"); sim::sleep_ms(100); disp = Samples(); break; // see below
		}
		sim::sleep_ms(200);
		u.busy = 0;
		sim::settle();
		const statistic& s = u.get_statistic();
		samples(s.send_delay_sum, delay, "send delay");
		if (!conn || true) samples(s.send_time_sum, wr, "send time");
		samples(s.handle_time_sum, u.handle, "handling time");
		samples(s.recv_idle_sum, Samples(), "suspended reception");
		if (disp.empty() && u.got) sim::finish(); // the second datagram is read before or after the first one has been handled
		samples(s.dispatch_delay_sum, disp, "dispatch delay");
	}
	sim::finish();
}
#endif
