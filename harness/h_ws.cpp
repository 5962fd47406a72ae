// C30: WebSocket links
#include "common.h"
#include "wsfix.h"
#ifdef WSS
#define NS st_asio_wrapper::ssl
typedef boost::asio::ssl::context Ctx;
#define CLIENT_SUPER st_asio_wrapper::websocket::ssl::client_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::dummy_unpacker<std::string> >
#define SERVER_SOCKET_SUPER st_asio_wrapper::websocket::ssl::server_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::dummy_unpacker<std::string> >
#else
#define NS st_asio_wrapper::tcp
#define CLIENT_SUPER st_asio_wrapper::websocket::client_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::dummy_unpacker<std::string>, st_asio_wrapper::i_matrix, WatchStream>
#define SERVER_SOCKET_SUPER st_asio_wrapper::websocket::server_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::dummy_unpacker<std::string>, st_asio_wrapper::tcp::i_server, WatchStream>
#endif
#define NO_WORLD
#include "tcpfix.h"
static const int MAX_MS = (ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION + ST_ASIO_DELAY_CLOSE) * 1000 + 300;
static const int OP = ST_ASIO_WEBSOCKET_BINARY ? 2 : 1;
static struct Seed {Seed() {std::seed_seq ss{1, 2, 3, 4, 5, 6, 7, 8}; boost::beast::websocket::seed_prng(ss);}} seed;
struct SSock;
static std::vector<SSock*>& links() {static std::vector<SSock*> v; return v;}
static std::function<void(SSock&)>& on_start() {static std::function<void(SSock&)> f; return f;}
static int &s_starts() {static int n; return n;}
static int &s_closes() {static int n; return n;}
static int &s_shakes() {static int n; return n;}
static int &s_fails() {static int n; return n;}
static bool& echo() {static bool b; return b;}
struct SSock : public Recorder<SERVER_SOCKET_SUPER>
{
#ifdef WSS
	SSock(tcp::i_server& s, Ctx& c) : Rec(s, c)
#else
	SSock(tcp::i_server& s) : Rec(s)
#endif
	{
		handler = [this](const std::string& m) {if (echo()) send_native_msg("re:" + m, true); return true;};
	}
	~SSock() {CHECK(!live && running == 0, "a link is freed while it is alive or one of its callbacks is running");}
	int shaken = 0;
	virtual void on_handshake(const boost::system::error_code& ec) {CHECK(!live, "handshake of an announced link"); ec ? ++s_fails() : ++s_shakes(); shaken = !ec; Rec::on_handshake(ec);}
	virtual void on_connect() {CHECK(shaken, "announced without a handshake"); links().push_back(this); ++s_starts(); if (on_start()) on_start()(*this); Rec::on_connect();}
	virtual void on_close() {++s_closes(); Rec::on_close();}
	virtual void reset() {CHECK(!live && running == 0, "recycled while alive"); shaken = 0; Rec::reset();}
};
typedef NS::server_base<SSock> Server;
struct Cli : public Client
{
#ifdef WSS
	Cli(boost::asio::io_context& io, Ctx& c) : Client(io, c) {}
	Cli(i_matrix& m, Ctx& c) : Client(m, c) {}
#else
	Cli(boost::asio::io_context& io) : Client(io) {}
	Cli(i_matrix& m) : Client(m) {}
#endif
	int shakes = 0, fails = 0; bool shaken = false;
	virtual void on_handshake(const boost::system::error_code& ec) {CHECK(!live, "handshake of an announced link"); ec ? ++fails : ++shakes; shaken = !ec; Client::on_handshake(ec);}
	virtual void on_connect() {CHECK(shaken, "announced without a handshake"); shaken = false; Client::on_connect();}
};
typedef NS::single_client_base<Cli> SCli;
#ifdef WSS
#define CTX_MEMBER boost::shared_ptr<Ctx> ctx;
#define CTX_INIT ctx(boost::make_shared<Ctx>(Ctx::sslv23_client)), c((tls_conf(ctx->native_handle(), true, false), sp), ctx)
#define SRV_INIT s(sp, Ctx::sslv23_server)
#define SRV_CONF tls_conf(s.context().native_handle(), true, true);
#define WATCH ssl_watch() = true,
#else
#define CTX_MEMBER
#define CTX_INIT c(sp)
#define SRV_INIT s(sp)
#define SRV_CONF
#define WATCH
#endif
struct TW
{
	service_pump sp;
	CTX_MEMBER
	SCli c;
	TW() : sp((sim::window(false), WATCH 1)), CTX_INIT {c.set_server_addr(PORT, "127.0.0.1");}
};
struct SW
{
	service_pump sp;
	Server s;
	SW() : sp((sim::window(false), WATCH 1)), SRV_INIT {SRV_CONF s.set_server_addr(PORT, "127.0.0.1");}
};
struct PW : public SW // both ends
{
	CTX_MEMBER
	SCli c;
	PW() : CTX_INIT {c.set_server_addr(PORT, "127.0.0.1");}
	void start(int th)
	{
		sp.start_service(th);
		CHECK(sim::wait_for([&] {return s_starts() == 1 && c.connects == 1;}, 3000, "connected"), "no link: server %d client %d", s_starts(), c.connects);
		sim::settle();
	}
};
enum {C_FORCE, C_GRACE, S_FORCE, S_GRACE, BOTH_GRACE, C_RE, STOP, ENDS};
static const char* end_name[] = {"client force", "client graceful", "server force", "server graceful", "both graceful", "client graceful(true)", "service stop"};
static void end(PW& w, int how)
{
	switch (how)
	{
	case C_FORCE: w.c.force_shutdown(); break;
	case C_GRACE: w.c.graceful_shutdown(); break;
	case S_FORCE: w.s.force_shutdown(); break;
	case S_GRACE: w.s.graceful_shutdown(); break;
	case BOTH_GRACE: {int f = sim::spawn("cg", [&] {w.c.graceful_shutdown();}); w.s.graceful_shutdown(); sim::join(f); break;}
	case C_RE: w.c.graceful_shutdown(true); break;
	default: w.sp.stop_service();
	}
}
SCENARIO(ws_pair, "a client and a server: messages both ways, then every way to end the link, then a new link", 0, 1, NULL)
{
	PW w;
	int n = sim::choose(3, "messages"), how = sim::choose(ENDS, "end"), th = 1 + sim::choose(2, "threads");
	sim::window(true);
	w.start(th);
	echo() = true;
	std::vector<std::string> want, back;
	for (int i = 0; i < n; ++i) {std::string m = "msg" + num(i); want.push_back(m); back.push_back("re:" + m); CHECK(w.c.send_native_msg(m.data(), m.size()), "send_msg");}
	SSock* l = links().back();
	CHECK(sim::wait_for([&] {return (int) w.c.got.size() >= n;}, 1000, "answers"), "%d answers to %d messages", (int) w.c.got.size(), n);
	CHECK(l->offered == want, "the server got '%s' instead of '%s'", join_str(l->offered).c_str(), join_str(want).c_str());
	CHECK(w.c.got == back, "the client got '%s' instead of '%s'", join_str(w.c.got).c_str(), join_str(back).c_str());
	end(w, how);
	CHECK(sim::wait_for([&] {return s_closes() == 1 && w.c.closes == 1;}, 2 * MAX_MS, "closed"), "%s: server %d client %d close notifications", end_name[how], s_closes(), w.c.closes);
	if (how == C_RE) CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 1000, "again"), "does not reconnect");
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	int k = how == C_RE ? 2 : 1;
	CHECK(s_closes() == 1 && w.c.closes == 1 && s_starts() == k && w.c.connects == k, "%s: server %d/%d client %d/%d", end_name[how], s_starts(), s_closes(), w.c.connects, w.c.closes);
	if (how == STOP) w.sp.start_service(1); else if (how != C_RE) w.c.start();
	CHECK(sim::wait_for([&] {return w.c.connects == 2 && s_starts() == 2;}, 1000, "again"), "%s: does not connect again", end_name[how]);
	CHECK(w.c.send_native_msg("hi", 2), "send_msg");
	CHECK(sim::wait_for([&] {return w.c.got.size() == n + 1 && w.c.got.back() == "re:hi";}, 1000, "answer"), "the new link does not work");
	sim::finish();
}
static void any_net() {simnet::cfg.send_eagain = simnet::cfg.send_short = simnet::cfg.recv_short = true;}
SCENARIO(ws_net, "a client and a server over a network that cuts and delays everything", 1, 2, any_net)
{
	PW w;
	int how = sim::choose(4, "end");
	sim::window(true);
	w.start(1);
	echo() = true;
	std::vector<std::string> want, back;
	for (int i = 0; i < 2; ++i) {std::string m = "msg" + num(i); want.push_back(m); back.push_back("re:" + m); CHECK(w.c.send_native_msg(m.data(), m.size()), "send_msg");}
	CHECK(sim::wait_for([&] {return w.c.got.size() >= 2;}, 1000, "answers"), "%d answers to 2 messages", (int) w.c.got.size());
	CHECK(links().back()->offered == want && w.c.got == back, "got '%s' and '%s'", join_str(links().back()->got).c_str(), join_str(w.c.got).c_str());
	end(w, how);
	CHECK(sim::wait_for([&] {return s_closes() == 1 && w.c.closes == 1;}, 2 * MAX_MS, "closed"), "%s: server %d client %d close notifications", end_name[how], s_closes(), w.c.closes);
	sim::finish();
}
SCENARIO(ws_senders, "two threads send on both ends at the same time", 1, 2, any_net)
{
	PW w;
	w.start(1 + sim::choose(2, "threads"));
	sim::window(true);
	SSock* l = links().back();
	auto send = [](std::function<bool(const std::string&)> f, char who) {return [f, who] {for (int i = 0; i < 2; ++i) CHECK(f(std::string(1, who) + num(i)), "send_msg");};};
	int a = sim::spawn("a", send([&](const std::string& m) {return w.c.send_native_msg(m.data(), m.size(), true);}, 'a'));
	int b = sim::spawn("b", send([&](const std::string& m) {return w.c.send_native_msg(m.data(), m.size(), true);}, 'b'));
	int c = sim::spawn("c", send([&](const std::string& m) {return l->send_native_msg(m.data(), m.size(), true);}, 'c'));
	sim::join(a); sim::join(b); sim::join(c);
	CHECK(sim::wait_for([&] {return l->got.size() >= 4 && w.c.got.size() >= 2;}, 2000, "all"), "%d of 4 and %d of 2 messages arrive", (int) l->got.size(), (int) w.c.got.size());
	sim::window(false);
	sim::settle();
	CHECK(w.c.got == (std::vector<std::string>{"c0", "c1"}), "client got '%s'", join_str(w.c.got).c_str());
	std::string x, y;
	for (auto& m : l->got) (m[0] == 'a' ? x : y) += m;
	CHECK(l->got.size() == 4 && x == "a0a1" && y == "b0b1", "server got '%s'", join_str(l->got).c_str());
	sim::finish();
}

// ---------------------------------------------------------------- messages of every shape between the library and a raw peer
static const size_t SIZES[] = {1, 2, 5, 125, 126, 300, 70000};
SCENARIO(ws_client_msgs, "a client and a raw server: messages of every size, fragmented, with pings between them, all kinds of segmentation", 1, 2, any_net)
{
	size_t n = SIZES[sim::choose(7, "size")]; int frag = sim::choose(3, "fragments"); bool ping = sim::choose(2, "ping");
	int l = (sim::window(false), simnet::listen(PORT));
	TW w;
	w.sp.start_service(1);
	int fd = simnet::accept(l);
	WsPeer p(fd, true);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 1000, "connected"), "never announced");
	sim::window(n < 1000);
	std::string big(n, 'x'); big[0] = 'a'; big[n - 1] = 'z';
	std::vector<std::string> want{big, "second"};
	std::string wire;
	if (frag && n > 1) {wire += p.frame(OP, big.substr(0, n / 2), false); if (ping) wire += p.frame(9, "pi"); if (frag == 2) wire += p.frame(0, "", false); wire += p.frame(0, big.substr(n / 2));}
	else {wire += p.frame(OP, big); if (ping) wire += p.frame(9, "pi");}
	wire += p.frame(OP, "second");
	p.tx(wire);
	std::string out = big.substr(0, 3900);
	CHECK(w.c.send_native_msg(out.data(), out.size(), true), "send");
	CHECK(w.c.send_native_msg("2nd", 3, true), "send");
	CHECK(sim::wait_for([&] {return w.c.got.size() >= 2;}, 1000, "messages"), "%d of 2 messages arrive", (int) w.c.got.size());
	CHECK(w.c.offered == want, "size %d fragments %d: wrong messages arrive", (int) n, frag);
	p.wait_msgs(2);
	CHECK(p.msgs == (std::vector<std::string>{out, "2nd"}), "size %d: %d messages arrive at the peer, or wrong ones", (int) n, (int) p.msgs.size());
	CHECK(p.ops == (std::vector<int>{OP, OP}), "wrong message type");
	sim::finish();
}
SCENARIO(ws_server_msgs, "a server and a raw client: messages of every size, fragmented, with pings between them, sent together with the handshake or later", 1, 2, any_net)
{
	size_t n = SIZES[sim::choose(7, "size")]; int frag = sim::choose(3, "fragments"); bool ping = sim::choose(2, "ping"), early = sim::choose(2, "together with the handshake");
	SW w;
	w.sp.start_service(1);
	int fd = simnet::connect(PORT);
	WsPeer p(fd, false);
	std::string big(n, 'x'); big[0] = 'a'; big[n - 1] = 'z';
	std::string wire;
	if (frag && n > 1) {wire += p.frame(OP, big.substr(0, n / 2), false); if (ping) wire += p.frame(9, "pi"); if (frag == 2) wire += p.frame(0, "", false); wire += p.frame(0, big.substr(n / 2));}
	else {wire += p.frame(OP, big); if (ping) wire += p.frame(9, "pi");}
	wire += p.frame(OP, "second");
	if (early) {sim::window(n < 1000); p.shake(); p.tx(WsPeer::request() + wire); CHECK(p.head(), "handshake"); p.buf.erase(0, p.buf.find("\r\n\r\n") + 4);}
	else CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return s_starts() == 1;}, 1000, "connected"), "never announced");
	sim::window(n < 1000);
	SSock& l = *links()[0];
	if (!early) p.tx(wire);
	std::string out = big.substr(0, 3900);
	CHECK(l.send_native_msg(out.data(), out.size(), true), "send");
	CHECK(l.send_native_msg("2nd", 3, true), "send");
	CHECK(sim::wait_for([&] {return l.got.size() >= 2;}, 1000, "messages"), "%d of 2 messages arrive", (int) l.got.size());
	CHECK(l.offered == (std::vector<std::string>{big, "second"}), "size %d fragments %d: wrong messages arrive", (int) n, frag);
	p.wait_msgs(2);
	CHECK(p.msgs == (std::vector<std::string>{out, "2nd"}), "size %d: %d messages arrive at the peer, or wrong ones", (int) n, (int) p.msgs.size());
	CHECK(p.ops == (std::vector<int>{OP, OP}), "wrong message type");
	sim::finish();
}
// ---------------------------------------------------------------- handshakes that do not succeed
enum {H_CLOSE, H_RESET, H_EOF, H_GARBAGE, H_WRONG, H_MID_CLOSE, H_SILENT, HOWS};
static const char* h_name[] = {"peer closes at once", "peer resets", "peer half-closes", "garbage", "wrong or missing key, refusal", "peer closes in the middle", "peer is silent"};
static const std::string GARBAGE("what?\r\n\r\n................");
SCENARIO(ws_fail_client, "a client whose handshake fails in every way, or never ends until it is shut down; then the client is started again", 0, 2, NULL)
{
	int how = sim::choose(HOWS, "how"), shut = how == H_SILENT ? sim::choose(5, "shutdown") : how == H_WRONG ? sim::choose(2, "refuse") : 0; bool re = sim::choose(2, "reconnect"), mid = how == H_SILENT && sim::choose(2, "in the middle");
	int l = (sim::window(false), simnet::listen(PORT));
	TW w;
	w.c.set_reconnect(re);
	sim::window(true);
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::accept(l);
	WsPeer p(fd, true);
	sim::wait_until([&] {return simnet::available(fd) > 0;}, "request");
	CHECK(p.shake(), "TLS handshake");
	auto half = [&] {CHECK(p.head(), "request"); std::string s = p.answer(); p.tx(s.substr(0, s.size() / 2)); sim::settle();};
	switch (how)
	{
	case H_CLOSE: case H_RESET: break;
	case H_EOF: simnet::shutdown_wr(fd); break;
	case H_GARBAGE: p.tx(GARBAGE); break;
	case H_WRONG: CHECK(p.head(), "request"); p.tx(shut ? "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n" : p.answer(true)); break;
	case H_MID_CLOSE: half(); break;
	default:
		if (mid) half();
		sim::sleep_ms(100);
		switch (shut)
		{
		case 0: w.c.force_shutdown(); break;
		case 1: w.c.graceful_shutdown(); break;
		case 2: w.c.force_shutdown(true); break;
		case 3: w.c.graceful_shutdown(true); break;
		default: w.sp.stop_service(); break;
		}
	}
	if (how == H_RESET) simnet::reset(fd);
	else if (how == H_CLOSE || how == H_MID_CLOSE) simnet::close(fd);
	CHECK(sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed"), "%s (%d): the failed handshake does not end the link", h_name[how], shut);
	CHECK(w.c.connects == 0 && w.c.shakes == 0, "%s: announced", h_name[how]);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(w.c.closes == 1 && w.c.connects == 0, "%s (%d): %d close notifications, announced %d", h_name[how], shut, w.c.closes, w.c.connects);
	sim::outcome(num(w.c.started()) + "/" + num(w.c.fails));
	if (w.c.started()) {w.c.force_shutdown(); sim::finish();}
	if (how == H_SILENT && shut == 4) {w.sp.start_service(1);}
	else {CHECK(w.c.obsoleted(), "%s (%d): the failed client never becomes obsolete", h_name[how], shut); w.c.start();}
	int fd2 = simnet::accept(l);
	WsPeer p2(fd2, true);
	CHECK(p2.handshake(), "the second handshake fails");
	CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 1000, "connected"), "never announced");
	p2.send("hello", OP);
	sim::settle();
	CHECK(w.c.got.size() == 1 && w.c.got[0] == "hello", "the new link delivers nothing");
	sim::finish();
}
SCENARIO(ws_fail_server, "a server link whose handshake fails in every way, or never ends until it is shut down, while another link is alive", 0, 2, NULL)
{
	int how = sim::choose(HOWS, "how"), shut = how == H_SILENT ? sim::choose(3, "shutdown") : how == H_WRONG ? sim::choose(2, "which") : 0; bool mid = how == H_SILENT && sim::choose(2, "in the middle"), other = sim::choose(2, "another link");
	SW w;
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd2 = -1; WsPeer* p2 = NULL;
	if (other) {fd2 = simnet::connect(PORT); p2 = new WsPeer(fd2, false); CHECK(p2->handshake(), "handshake"); sim::settle(); CHECK(s_starts() == 1, "not announced");}
	sim::window(true);
	int fd = simnet::connect(PORT);
	WsPeer p(fd, false);
	CHECK(p.shake(), "TLS handshake");
	std::string req = WsPeer::request(), half = req.substr(0, req.size() / 2);
	switch (how)
	{
	case H_CLOSE: simnet::close(fd); break;
	case H_RESET: simnet::reset(fd); break;
	case H_EOF: simnet::shutdown_wr(fd); break;
	case H_GARBAGE: p.tx(GARBAGE); break;
	case H_WRONG: {size_t i = req.find(shut ? "Sec-WebSocket-Key" : "Upgrade: "); p.tx(req.erase(i, req.find("\r\n", i) + 2 - i)); shut = 0; break;}
	case H_MID_CLOSE: p.tx(half); sim::settle(); simnet::close(fd); break;
	default:
		if (mid) {p.tx(half); sim::settle();}
		sim::sleep_ms(100);
		if (shut == 0) w.s.force_shutdown(); else if (shut == 1) w.s.graceful_shutdown(); else w.sp.stop_service();
		if (fd2 >= 0) {p2->pump(); if (!p2->gone()) {p2->close_frame(); p2->bye();}}
	}
	bool gone = how == H_CLOSE || how == H_RESET || how == H_MID_CLOSE;
	if (!gone) CHECK(sim::wait_for([&] {p.feed(); return simnet::at_eof(fd) || simnet::was_reset(fd);}, 2 * MAX_MS, "closed"), "%s (%d): the failed handshake does not end the link", h_name[how], shut);
	sim::window(false);
	sim::sleep_ms(2 * MAX_MS);
	CHECK(s_starts() == (other ? 1 : 0), "%s: announced", h_name[how]);
	bool all = how == H_SILENT;
	if (other && !all)
	{
		CHECK(s_closes() <= 1 && links()[0]->live, "%s: another link ended", h_name[how]);
		echo() = true;
		p2->send("hi", OP);
		p2->wait_msgs(1);
		CHECK(p2->msgs == std::vector<std::string>{"re:hi"}, "another link does not work any more");
	}
	CHECK(w.s.size() == (other && !all ? 1u : 0u), "%s (%d): %d links left", h_name[how], shut, (int) w.s.size());
	CHECK(s_closes() <= 1 + (other && all ? 1 : 0), "%s: %d close notifications", h_name[how], s_closes());
	sim::outcome(num(s_closes()) + "/" + num(s_fails()));
	if (shut == 2) w.sp.start_service(1);
	int n = s_starts();
	int fd3 = simnet::connect(PORT); CHECK(fd3 >= 0, "refused");
	WsPeer p3(fd3, false);
	CHECK(p3.handshake(), "the next handshake fails"); sim::settle(); CHECK(s_starts() == n + 1, "the next link is not announced");
	p3.send("hello", OP);
	sim::settle();
	CHECK(links().back()->got.size() == 1 && links().back()->got[0] == "hello", "the next link delivers nothing");
	sim::finish();
}
// ---------------------------------------------------------------- ends of established links
enum {E_NOTIFY_CLOSE, E_CLOSE, E_RESET, E_PART_CLOSE, E_EOF, E_GARBAGE, E_NOTIFY, E_FORCE, E_GRACE, E_TWICE, E_INSIDE, EHOWS};
static const char* e_name[] = {"close frame and close", "peer closes", "peer resets", "peer closes in the middle of a message", "peer half-closes", "garbage frame", "close frame only", "forced shutdown", "graceful shutdown", "graceful, then forced", "graceful in a callback"};
enum {R_ANSWER, R_CLOSE, R_SILENT, R_TALK, R_LATE, RHOWS};
template<typename L> static void end_link(WsPeer& p, L& l, int how, int react, const std::function<bool()>& closed)
{
	switch (how)
	{
	case E_NOTIFY_CLOSE: p.close_frame(); p.bye(); simnet::close(p.fd); p.fd = -1; break;
	case E_CLOSE: simnet::close(p.fd); p.fd = -1; break;
	case E_RESET: simnet::reset(p.fd); p.fd = -1; break;
	case E_PART_CLOSE: p.tx(p.frame(OP, "the first half", false) + p.frame(0, "second").substr(0, 9)); sim::settle(); simnet::close(p.fd); p.fd = -1; break;
	case E_EOF: simnet::shutdown_wr(p.fd); break;
	case E_GARBAGE: p.tx("\x73\x05garbage"); break;
	case E_NOTIFY: p.close_frame(); break;
	case E_FORCE: l.force_shutdown(); break;
	case E_GRACE: l.graceful_shutdown(); break;
	case E_TWICE: l.graceful_shutdown(); sim::sleep_ms(10); l.force_shutdown(); break;
	default: l.handler = [&](const std::string&) {l.graceful_shutdown(); return true;}; p.send("go", OP);
	}
	if (p.fd < 0) return;
	int64_t t = sim::now_ms();
	if (how == E_EOF && react != R_CLOSE) react = R_SILENT; // it cannot send any more
	if (react == R_CLOSE) {simnet::close(p.fd); p.fd = -1; return;}
	if (react == R_TALK && how >= E_FORCE) for (int i = 0; i < 3; ++i) p.send("late", OP);
	if (react == R_LATE) sim::sleep_ms(500);
	if (react != R_SILENT)
		while (!closed() && sim::now_ms() - t < MAX_MS && !p.got_close) {sim::wait_for([&] {return simnet::available(p.fd) > 0 || p.gone();}, 50, "close frame"); p.pump(); if (p.gone()) break;}
	if (react != R_SILENT) {if (!p.gone() && how >= E_FORCE) p.close_frame(); if (!p.gone()) p.bye(); if (react == R_ANSWER) {simnet::close(p.fd); p.fd = -1;}}
}
SCENARIO(ws_end_client, "an established client link ended in every way, the peer answers, closes, keeps silent, goes on talking or answers late; queued messages or not", 0, 1, NULL)
{
	int how = sim::choose(EHOWS, "how"), react = how >= E_EOF ? sim::choose(how < E_FORCE ? R_TALK : RHOWS, "reaction") : 0; bool queued = sim::choose(2, "queued");
	int l = (sim::window(false), simnet::listen(PORT));
	TW w;
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::accept(l);
	WsPeer p(fd, true);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 1000, "connected"), "never announced");
	sim::settle();
	if (queued) {simnet::set_rx_cap(fd, 10); for (int i = 0; i < 3; ++i) CHECK(w.c.send_native_msg("queued", 6, true), "send_msg"); sim::settle(); if (react != R_SILENT) simnet::set_rx_cap(fd, 100000);}
	sim::window(true);
	end_link(p, w.c, how, react, [&] {return w.c.closes > 0;});
	// after an error or the peer's close frame Beast waits for the peer to close the connection; if it does not, a shutdown must end the link
	if (how < E_FORCE && react == R_SILENT && !sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed")) {sim::outcome("stuck"); w.c.force_shutdown();}
	CHECK(sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed"), "%s (%d): the link is never closed", e_name[how], react);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(w.c.closes == 1 && w.c.connects == 1 && w.c.obsoleted() && !w.c.started(), "%s: %d close notifications", e_name[how], w.c.closes);
	for (int i = 0; i < 20 && p.fd >= 0 && !p.gone(); ++i) {p.pump(); sim::sleep_ms(10);}
	if (p.fd >= 0) CHECK(p.gone(), "%s: closed, but the connection is still open", e_name[how]);
	// the same object again
	w.c.handler = nullptr;
	w.c.got.clear();
	w.c.start();
	int fd2 = simnet::accept(l);
	WsPeer p2(fd2, true);
	CHECK(p2.handshake(), "the second handshake fails");
	CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 1000, "connected"), "never announced again");
	p2.send("hello", OP);
	sim::settle();
	CHECK(w.c.got == std::vector<std::string>{"hello"}, "the new link delivers '%s'", join_str(w.c.got).c_str());
	CHECK(w.c.send_native_msg("back", 4, true), "send");
	for (int i = 0; i < 5 && (p2.msgs.empty() || p2.msgs.back() != "back"); ++i) {p2.pump(); sim::sleep_ms(10);} // messages of the first link may come first
	CHECK(p2.msgs.size() && p2.msgs.back() == "back", "the new link sends nothing");
	sim::finish();
}
SCENARIO(ws_end_server, "an established server link ended in every way, the peer answers, closes, keeps silent, goes on talking or answers late; queued messages or not", 0, 1, NULL)
{
	int how = sim::choose(EHOWS, "how"), react = how >= E_EOF ? sim::choose(how < E_FORCE ? R_TALK : RHOWS, "reaction") : 0; bool queued = sim::choose(2, "queued");
	SW w;
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::connect(PORT);
	WsPeer p(fd, false);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return s_starts() == 1;}, 1000, "connected"), "never announced");
	sim::settle();
	SSock& l = *links()[0];
	if (queued) {simnet::set_rx_cap(fd, 10); for (int i = 0; i < 3; ++i) CHECK(l.send_native_msg("queued", 6, true), "send_msg"); sim::settle(); if (react != R_SILENT) simnet::set_rx_cap(fd, 100000);}
	sim::window(true);
	end_link(p, l, how, react, [&] {return s_closes() > 0;});
	// after an error or the peer's close frame Beast waits for the peer to close the connection; if it does not, a shutdown must end the link
	if (how < E_FORCE && react == R_SILENT && !sim::wait_for([&] {return s_closes() == 1;}, MAX_MS, "closed")) {sim::outcome("stuck"); l.force_shutdown();}
	CHECK(sim::wait_for([&] {return s_closes() == 1;}, MAX_MS, "closed"), "%s (%d): the link is never closed", e_name[how], react);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(s_closes() == 1 && s_starts() == 1 && w.s.size() == 0, "%s: %d close notifications", e_name[how], s_closes());
	for (int i = 0; i < 20 && p.fd >= 0 && !p.gone(); ++i) {p.pump(); sim::sleep_ms(10);}
	if (p.fd >= 0) CHECK(p.gone(), "%s: closed, but the connection is still open", e_name[how]);
	int fd3 = simnet::connect(PORT); CHECK(fd3 >= 0, "refused");
	WsPeer p3(fd3, false);
	CHECK(p3.handshake(), "the next handshake fails"); sim::settle(); CHECK(s_starts() == 2, "the next link is not announced");
	size_t g0 = &l == links()[1] ? l.got.size() : 0; // a recycled object
	(void) g0;
	links()[1]->handler = nullptr;
	p3.send("hello", OP);
	sim::settle();
	CHECK(links()[1]->got.size() && links()[1]->got.back() == "hello", "the next link delivers nothing");
	sim::finish();
}
SCENARIO(ws_empty, "the peer sends an empty message between two others", 0, 1, NULL)
{
	bool srv = sim::choose(2, "server");
	if (srv)
	{
		SW w;
		w.sp.start_service(1);
		int fd = simnet::connect(PORT);
		WsPeer p(fd, false);
		CHECK(p.handshake(), "handshake");
		CHECK(sim::wait_for([&] {return s_starts() == 1;}, 1000, "connected"), "never announced");
		sim::window(true);
		p.tx(p.frame(OP, "a") + p.frame(OP, "") + p.frame(OP, "b"));
		auto& got = links()[0]->got;
		CHECK(sim::wait_for([&] {return got.size() && got.back() == "b";}, 1000, "messages"), "nothing is received after an empty message");
		sim::finish();
	}
	int l = (sim::window(false), simnet::listen(PORT));
	TW w;
	w.sp.start_service(1);
	int fd = simnet::accept(l);
	WsPeer p(fd, true);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 1000, "connected"), "never announced");
	sim::window(true);
	p.tx(p.frame(OP, "a") + p.frame(OP, "") + p.frame(OP, "b"));
	CHECK(sim::wait_for([&] {return w.c.got.size() && w.c.got.back() == "b";}, 1000, "messages"), "nothing is received after an empty message");
	sim::finish();
}
