// C26: UDP sockets; C16/C17 for UDP; with ST_ASIO_SYNC_SEND also C13
#include "common.h"
#include "ext/udp.h"
using namespace st_asio_wrapper;
#ifdef UNIX
typedef boost::asio::local::datagram_protocol Family;
typedef st_asio_wrapper::udp::unix_socket_base<ext::packer<>, ext::udp_unpacker> Super;
#else
typedef boost::asio::ip::udp Family;
typedef st_asio_wrapper::udp::socket_base<ext::packer<>, ext::udp_unpacker> Super;
#endif
typedef Family::endpoint EP;
#ifdef UNIX
static std::string path(int p) {return "/sock" + num(p);}
static EP ep(int p) {return EP(path(p));}
static int port_of(const EP& e) {std::string s = e.path(); return s.size() > 5 ? atoi(s.c_str() + 5) : 0;}
static int peer(int p) {return simnet::udp_path(path(p));}
static void psend(int fd, int to, const std::string& d) {simnet::udp_send_path(fd, path(to), d);}
static bool precv(int fd, std::string& d, int* from) {std::string s; if (!simnet::udp_try_recv_path(fd, d, &s)) return false; *from = s.size() > 5 ? atoi(s.c_str() + 5) : 0; return true;}
#else
static EP ep(int p) {return EP(boost::asio::ip::make_address("127.0.0.1"), p);}
static int port_of(const EP& e) {return e.port();}
static int peer(int p) {return simnet::udp(p);}
static void psend(int fd, int to, const std::string& d) {simnet::udp_send(fd, to, d);}
static bool precv(int fd, std::string& d, int* from) {return simnet::udp_try_recv(fd, d, from);}
#endif
struct Gram {int port; std::string data; bool operator==(const Gram& o) const {return port == o.port && data == o.data;}};
static std::string show(const std::vector<Gram>& v) {std::string s; for (auto& g : v) s += num(g.port) + ":" + hex(g.data) + " "; return s;}
static std::vector<Gram> drain(int fd) {std::vector<Gram> v; Gram g; while (precv(fd, g.data, &g.port)) v.push_back(g); return v;}
struct U : public Super
{
	typedef Super base;
	template<typename A> U(A& a) : Super(a) {}
	int closes = 0, running = 0, handling = 0, recv_errors = 0;
	bool live = true;
	std::vector<Gram> got, offered, sent, failed;
	std::function<bool(const Gram&)> handler;
	std::function<void()> close_hook;
	void set_peer_addr_(int p)
	{
#ifdef UNIX
		set_peer_addr("/sock" + num(p));
#else
		set_peer_addr(p, "127.0.0.1");
#endif
	}
	struct Enter {U& u; Enter(U& u_, const char* n, bool c = false) : u(u_) {++u.running; sim::logf("callback %s", n); CHECK(u.live, "callback %s of a closed socket", n); sim::yield_point();} ~Enter() {--u.running;}};
	virtual void on_close()
	{
		CHECK(live, "two close notifications"); sim::logf("on_close");
		CHECK(running == 0, "close notification while a callback is running");
		live = false; ++closes;
		if (close_hook) close_hook();
		Super::on_close();
	}
	virtual bool do_start() {live = true; return Super::do_start();}
	virtual void on_recv_error(const boost::system::error_code& ec) {Enter e(*this, "on_recv_error"); ++recv_errors; Super::on_recv_error(ec);}
	virtual void on_send_error(const boost::system::error_code& ec, in_msg& m) {Enter e(*this, "on_send_error"); failed.push_back(Gram{port_of(m.peer_addr), std::string(m.data(), m.size())}); Super::on_send_error(ec, m);}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& m) {Enter e(*this, "on_msg_send"); sent.push_back(Gram{port_of(m.peer_addr), std::string(m.data(), m.size())});}
#endif
	bool offer(const Gram& g) {offered.push_back(g); sim::logf("offer %s", hex(g.data).c_str()); bool ok = handler ? handler(g) : true; if (ok) got.push_back(g); return ok;}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(out_queue_type& q)
	{
		Enter e(*this, "on_msg_handle"); CHECK(++handling == 1, "two message callbacks at the same time");
		size_t n = 0;
		out_msg_type m;
		out_container_type can;
		q.move_items_out(can);
		for (auto i = can.begin(); i != can.end();) {if (!offer(Gram{port_of(i->peer_addr), std::string(i->data(), i->size())})) break; can.pop_front(); i = can.begin(); ++n;}
		q.move_items_in_front(can);
		--handling;
		return n;
	}
#else
	virtual bool on_msg_handle(out_msg_type& m) {Enter e(*this, "on_msg_handle"); CHECK(++handling == 1, "two message callbacks at the same time"); bool r = offer(Gram{port_of(m.peer_addr), std::string(m.data(), m.size())}); --handling; return r;}
#endif
};
static const int ME = 7000, A = 7001, B = 7002;
struct UW
{
	int a, b;
	service_pump sp;
	st_asio_wrapper::udp::single_socket_service_base<U> u;
	UW() : a((sim::window(false), peer(A))), b(peer(B)), u(sp)
	{
#ifdef UNIX
		u.set_local_addr(path(ME));
#else
		u.set_local_addr(ME, "127.0.0.1");
#endif
	}
	void to(int p)
	{
#ifdef UNIX
		u.set_peer_addr(path(p));
#else
		u.set_peer_addr(p, "127.0.0.1");
#endif
	}
	void start(int threads) {sp.start_service(threads); sim::settle(); CHECK(u.started() && u.is_ready(), "the socket does not start");}
};
static std::string fresh(int i) {return std::string(1 + i % 3, 'a' + i);}
// sends message m to port p through interface form; the bytes expected in the datagram
static bool send_one(U& u, int form, int p, const std::string& m, std::string& wire, bool over)
{
	const char* ps[2] = {m.data(), m.data() + m.size() / 2}; size_t ln[2] = {m.size() / 2, m.size() - m.size() / 2};
	wire = form % 2 ? m : lv(m);
	switch (form)
	{
	case 0: return u.send_msg(ep(p), m, over);
	case 1: return u.send_native_msg(ep(p), m, over);
	case 2: return u.send_msg(ep(p), m.data(), m.size(), over);
	case 3: return u.send_native_msg(ep(p), ps, ln, 2, over);
	case 4: return u.safe_send_msg(ep(p), ps, ln, 2, over);
	case 5: return u.safe_send_native_msg(ep(p), m.data(), m.size(), over);
	case 6: {u.set_peer_addr_(p); return u.send_msg(m, over);}
	case 7: {u.set_peer_addr_(p); return u.send_native_msg(m.data(), m.size(), over);}
	case 8: {u.set_peer_addr_(p); return u.send_msg(ps, ln, 2, over);}
	case 9: {u.set_peer_addr_(p); return u.safe_send_native_msg(m, over);}
	}
	return false;
}
static void senv() {simnet::cfg.dgram_send_err = true; simnet::cfg.send_eagain = true;}
#ifndef ST_ASIO_SYNC_SEND
static void check_sent(UW& w, std::vector<std::vector<Gram> >& acc)
{
	std::vector<Gram> all, ra = drain(w.a), rb = drain(w.b), out;
	for (auto& g : ra) {CHECK(g.port == ME, "a datagram from %d", g.port); g.port = A;}
	for (auto& g : rb) {CHECK(g.port == ME, "a datagram from %d", g.port); g.port = B;}
	std::vector<Gram> del = ra; del.insert(del.end(), rb.begin(), rb.end());
	for (auto& v : acc) all.insert(all.end(), v.begin(), v.end());
	std::vector<Gram> seen = del; seen.insert(seen.end(), w.u.failed.begin(), w.u.failed.end());
	CHECK(seen.size() == all.size(), "%d accepted, %d sent and %d failed: %s / %s / %s", (int) all.size(), (int) del.size(), (int) w.u.failed.size(), show(all).c_str(), show(del).c_str(), show(w.u.failed).c_str());
	for (auto& g : all) CHECK(std::count(seen.begin(), seen.end(), g) == 1, "message %s accepted for %d was sent or reported %d times", hex(g.data).c_str(), g.port, (int) std::count(seen.begin(), seen.end(), g));
	for (auto& v : acc) for (auto r : {&ra, &rb}) // per sender and destination: in the order accepted
	{
		std::vector<Gram> x, y;
		for (auto& g : v) if (std::count(r->begin(), r->end(), g)) x.push_back(g);
		for (auto& g : *r) if (std::count(v.begin(), v.end(), g)) y.push_back(g);
		CHECK(x == y, "order: accepted %s, arrived %s", show(x).c_str(), show(y).c_str());
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	CHECK(w.u.sent.size() == del.size(), "%d datagrams sent, %d notified", (int) del.size(), (int) w.u.sent.size());
	for (auto& g : del) CHECK(std::count(w.u.sent.begin(), w.u.sent.end(), g) == 1, "a wrong message was notified as sent");
#endif
	CHECK(w.u.get_pending_send_msg_size() == 0, "messages stay queued");
}
static void udp_send(int senders, int per)
{
	UW w;
	int form = sim::choose(10, "interface");
	w.start(1 + sim::choose(2, "threads"));
	std::vector<std::vector<Gram> > acc(senders);
	sim::window(true);
	auto job = [&](int k) {
		for (int i = 0; i < per; ++i)
		{
			int n = k * per + i, p = (form >= 6 ? 0 : n) % 2 ? B : A;
			Gram g; g.port = p;
			bool ok = send_one(w.u, (form + (form < 6 ? n : 0)) % (form < 6 ? 6 : 10), p, fresh(n), g.data, form % 3 == 0);
			CHECK(ok, "message refused");
			acc[k].push_back(g);
		}
	};
	int f[4];
	for (int k = 1; k < senders; ++k) f[k] = sim::spawn("sender", [&, k] {job(k);});
	job(0);
	for (int k = 1; k < senders; ++k) sim::join(f[k]);
	sim::sleep_ms(10);
	sim::settle();
	sim::window(false);
	check_sent(w, acc);
	// and later messages still go out
	std::vector<Gram> more; Gram g; g.port = B; w.u.failed.clear(); w.u.sent.clear();
	CHECK(send_one(w.u, 1, B, "later", g.data, false), "refused");
	more.push_back(g); acc.clear(); acc.push_back(more);
	sim::settle();
	check_sent(w, acc);
	sim::finish();
}
SCENARIO(udp_send, "two senders with two messages each to two addresses through every interface", 2, 3, NULL) {udp_send(2, 2);}
SCENARIO(udp_send_env, "the same with failing and delayed sends", 2, 3, senv) {udp_send(2, 2);}
SCENARIO(udp_send3, "three senders", 1, 3, senv) {udp_send(3, 1);}
SCENARIO(udp_recv, "datagrams of 1 byte up to the buffer size from two peers while the handler refuses some of them for a while", 2, 3, NULL)
{
	UW w;
	int refuse = sim::choose(4, "refused"), times = 1 + sim::choose(2, "times");
	w.start(1 + sim::choose(2, "threads"));
	std::vector<Gram> want;
	int left = refuse ? times : 0;
	std::string target;
	w.u.handler = [&](const Gram& g) {if (g.data == target && left > 0) {--left; return false;} return true;};
	std::string big(ST_ASIO_MSG_BUFFER_SIZE, 'Z');
	struct {int p; std::string d;} in[4] = {{A, "one"}, {B, big}, {A, "x"}, {B, "four"}};
	target = refuse ? in[refuse - 1].d : "";
	sim::window(true);
	for (auto& x : in) {psend(x.p == A ? w.a : w.b, ME, x.d); want.push_back(Gram{x.p, x.d}); if (sim::choose(2, "pause")) sim::settle();}
	sim::sleep_ms(1000);
	sim::window(false);
	sim::settle();
	CHECK(w.u.got == want, "delivered %sinstead of %s", show(w.u.got).c_str(), show(want).c_str());
	CHECK((int) w.u.offered.size() == 4 + (refuse ? times : 0), "%d offers", (int) w.u.offered.size());
	sim::finish();
}
SCENARIO(udp_both, "echo under load: everything received is sent back to its sender while another thread sends too", 2, 3, NULL)
{
	UW w;
	w.start(1 + sim::choose(2, "threads"));
	std::vector<std::vector<Gram> > acc(2);
	w.u.handler = [&](const Gram& g) {CHECK(w.u.send_native_msg(ep(g.port), g.data), "refused"); sim::NoPreempt np; acc[0].push_back(g); return true;};
	sim::window(true);
	int f = sim::spawn("peer", [&] {psend(w.a, ME, "a1"); psend(w.b, ME, "b1"); psend(w.a, ME, "a2");});
	Gram g; g.port = A; send_one(w.u, 1, A, "mine", g.data, false); acc[1].push_back(g);
	sim::join(f);
	sim::settle();
	sim::window(false);
	CHECK(w.u.got.size() == 3, "%d datagrams delivered", (int) w.u.got.size());
	check_sent(w, acc);
	sim::finish();
}
#ifndef UNIX
SCENARIO(udp_connected, "connected mode: nothing from strangers, sends go to the peer, addresses are the peer's", 1, 3, senv)
{
	UW w;
	w.u.set_connect_mode(); w.to(A);
	w.start(1 + sim::choose(2, "threads"));
	CHECK(w.u.connected(), "not connected");
	std::vector<std::vector<Gram> > acc(1);
	sim::window(true);
	psend(w.b, ME, "stranger"); psend(w.a, ME, "peer1"); psend(w.a, ME, "peer2");
	for (int i = 0; i < 2; ++i) {Gram g; g.port = A; g.data = fresh(i); CHECK(w.u.send_native_msg(g.data), "refused"); acc[0].push_back(g);}
	sim::sleep_ms(10); sim::settle();
	sim::window(false);
	std::vector<Gram> want = {{A, "peer1"}, {A, "peer2"}};
	CHECK(w.u.got == want, "delivered %sinstead of %s", show(w.u.got).c_str(), show(want).c_str());
	check_sent(w, acc);
	sim::finish();
}
#endif
SCENARIO(udp_close, "closed by one or two threads, from a callback or with the service while datagrams come and go; then started again", 2, 3, NULL)
{
	UW w;
	int how = sim::choose(4, "how"), threads = 1 + sim::choose(2, "threads");
	bool in_close = false;
	w.u.handler = [&](const Gram& g) {if (how == 2 && g.data == "stop") {if (sim::choose(2, "twice")) w.u.disconnect(); w.u.force_shutdown();} return true;};
	w.u.close_hook = [&] {in_close = true;};
	w.start(threads);
	sim::window(true);
	int f = sim::spawn("peer", [&] {psend(w.a, ME, "one"); psend(w.a, ME, "stop"); psend(w.b, ME, "two");});
	int g = how == 1 ? sim::spawn("closer", [&] {w.u.graceful_shutdown();}) : -1;
	w.u.send_native_msg(ep(A), std::string("m1"), true); w.u.send_native_msg(ep(B), std::string("m2"), true);
	if (how < 2) w.u.force_shutdown();
	if (how == 3) w.sp.stop_service();
	sim::join(f);
	if (g >= 0) sim::join(g);
	CHECK(sim::wait_for([&] {return w.u.closes == 1;}, 1000, "closed"), "closed %d times", w.u.closes);
	sim::window(false);
	sim::sleep_ms(200);
	CHECK(w.u.closes == 1 && !w.u.started(), "closed %d times", w.u.closes);
	std::vector<Gram> a = drain(w.a), b = drain(w.b);
	CHECK(a.size() <= 1 && b.size() <= 1, "sent twice");
	std::vector<Gram> seen = w.u.got;
	for (auto& x : seen) CHECK(std::count(seen.begin(), seen.end(), x) == 1, "delivered twice");
	w.u.got.clear();
	w.u.handler = NULL;
	// again
	if (how == 3) w.sp.start_service(threads);
	else {w.sp.stop_service(&w.u); sim::settle(); w.sp.start_service(&w.u);}
	CHECK(w.u.started() && w.u.live, "not started again");
	sim::settle();
	drain(w.a); drain(w.b);
	sim::window(true);
	psend(w.a, ME, "again"); CHECK(w.u.send_native_msg(ep(B), std::string("back"), true), "refused");
	sim::settle();
	sim::window(false);
	CHECK(!w.u.got.empty() && w.u.got.back() == (Gram{A, "again"}), "nothing is received after starting again");
	b = drain(w.b);
	CHECK(b.size() == 1 && b[0] == (Gram{ME, "back"}), "nothing is sent after starting again: %s", show(b).c_str());
	w.sp.stop_service();
	CHECK(w.u.closes == 2 && sim::live_threads() == 0, "closed %d times", w.u.closes);
	sim::finish();
}
SCENARIO(udp_multi, "a service with two sockets: one is closed while both work; the other goes on; a third one is added", 1, 3, NULL)
{
	sim::window(false);
	int a = peer(A), b = peer(B);
	service_pump sp;
	struct M : public st_asio_wrapper::udp::multi_socket_service_base<U> {M(service_pump& sp) : st_asio_wrapper::udp::multi_socket_service_base<U>(sp) {}} m(sp);
	auto mk = [&](int p) {
#ifdef UNIX
		auto o = m.create_object(); o->set_local_addr(path(p)); CHECK(m.add_socket(o), "add"); return o;
#else
		return m.add_socket((unsigned short) p, "127.0.0.1");
#endif
	};
	auto x = mk(ME), y = mk(ME + 10);
	CHECK(!!x && !!y && m.size() == 2, "sockets");
	sp.start_service(1 + sim::choose(2, "threads"));
	sim::settle();
	sim::window(true);
	int how = sim::choose(3, "how");
	int f = sim::spawn("peer", [&] {psend(a, ME, "x1"); psend(a, ME + 10, "y1"); psend(a, ME, "x2"); psend(b, ME + 10, "y2");});
	y->send_native_msg(ep(A), std::string("from y"), true);
	if (how == 0) x->force_shutdown(); else if (how == 1) m.force_shutdown(x); else m.graceful_shutdown(x);
	auto z = mk(ME + 20);
	CHECK(!!z, "add");
	z->send_native_msg(ep(B), std::string("from z"), true);
	sim::join(f);
	CHECK(sim::wait_for([&] {return x->closes == 1;}, 1000, "closed"), "not closed");
	sim::settle();
	sim::window(false);
	std::vector<Gram> want = {{A, "y1"}, {B, "y2"}};
	CHECK(y->got == want, "the other socket receives %s", show(y->got).c_str());
	std::vector<Gram> ga = drain(a), gb = drain(b);
	CHECK(ga.size() == 1 && ga[0] == (Gram{ME + 10, "from y"}) && gb.size() == 1 && gb[0] == (Gram{ME + 20, "from z"}), "sent %s / %s", show(ga).c_str(), show(gb).c_str());
	CHECK(m.size() == 2 && x->closes == 1 && y->closes == 0 && z->closes == 0, "size %d", (int) m.size());
	sp.stop_service();
	CHECK(x->closes == 1 && y->closes == 1 && z->closes == 1 && sim::live_threads() == 0, "closed %d %d %d times", x->closes, y->closes, z->closes);
	sim::finish();
}
#else
// ------------------------------------------------------------------------------------------------ C13 for UDP
SCENARIO(udp_sync, "two synchronous senders: every wait ends with the result that matches what happened, with failing sends, timeouts and a closing socket", 2, 3, senv)
{
	UW w;
	int close = sim::choose(3, "close"), native = sim::choose(2, "native"), tmo = sim::choose(2, "timeout") ? 50 : 0;
	w.start(1 + sim::choose(2, "threads"));
	sync_call_result r[3] = {NOT_APPLICABLE, NOT_APPLICABLE, NOT_APPLICABLE};
	sim::window(true);
	auto one = [&](int i) {std::string m = fresh(i); r[i] = native ? w.u.sync_send_native_msg(ep(A), m, tmo) : w.u.sync_send_msg(ep(A), m, tmo);};
	int f = sim::spawn("sender", [&] {one(0); one(1);});
	int g = close ? sim::spawn("closer", [&] {if (close == 1) w.u.force_shutdown(); else w.sp.stop_service();}) : -1;
	one(2);
	sim::join(f);
	if (g >= 0) sim::join(g);
	sim::window(false);
	sim::sleep_ms(100);
	std::vector<Gram> a = drain(w.a);
	for (int i = 0; i < 3; ++i)
	{
		Gram e{ME, native ? fresh(i) : lv(fresh(i))};
		int n = (int) std::count(a.begin(), a.end(), e), bad = (int) std::count(w.u.failed.begin(), w.u.failed.end(), Gram{A, e.data});
		CHECK(n <= 1 && bad <= 1 && n + bad <= 1, "message %d was sent %d times and failed %d times", i, n, bad);
		CHECK(r[i] != SUCCESS || n == 1, "success reported for message %d that was not sent", i);
		CHECK(r[i] != NOT_APPLICABLE || n == 0 || close, "failure reported for message %d that was sent", i);
		CHECK(!bad || r[i] != SUCCESS, "success reported for a failed message");
		if (!close && !tmo) CHECK(r[i] == SUCCESS ? n == 1 : bad == 1, "result %d of message %d: sent %d failed %d", r[i], i, n, bad);
	}
	sim::finish();
}
#endif
