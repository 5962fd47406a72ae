// C31: TLS links
#include "common.h"
#include "ext/ssl.h"
#define CLIENT_SUPER st_asio_wrapper::ssl::client_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::ext::unpacker<> >
#define SERVER_SOCKET_SUPER st_asio_wrapper::ssl::server_socket_base<st_asio_wrapper::ext::packer<>, st_asio_wrapper::ext::unpacker<> >
#define NO_WORLD
#include "tcpfix.h"
#include "tlsfix.h"
static const int MAX_MS = (ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION + ST_ASIO_DELAY_CLOSE) * 1000 + 300;
typedef boost::asio::ssl::context Ctx;
struct SSock;
static std::vector<SSock*>& links() {static std::vector<SSock*> v; return v;}
static std::function<void(SSock&)>& on_start() {static std::function<void(SSock&)> f; return f;}
static int &s_starts() {static int n; return n;}
static int &s_closes() {static int n; return n;}
static int &s_shakes() {static int n; return n;}
static int &s_fails() {static int n; return n;}
static bool& echo() {static bool b; return b;}
struct SSock : public Recorder<SERVER_SOCKET_SUPER>
{
	SSock(tcp::i_server& s, Ctx& c) : Rec(s, c)
	{
		handler = [this](const std::string& m) {if (echo()) send_msg("re:" + m, true); return true;};
	}
	~SSock() {CHECK(!live && running == 0, "a link is freed while it is alive or one of its callbacks is running");}
	int shaken = 0;
	virtual void on_handshake(const boost::system::error_code& ec) {CHECK(!live, "handshake of an announced link"); ec ? ++s_fails() : ++s_shakes(); shaken = !ec; Rec::on_handshake(ec);}
	virtual void on_connect() {CHECK(shaken, "announced without a handshake"); links().push_back(this); ++s_starts(); if (on_start()) on_start()(*this); Rec::on_connect();}
	virtual void on_close() {++s_closes(); Rec::on_close();}
	virtual void reset() {CHECK(!live && running == 0, "recycled while alive"); shaken = 0; Rec::reset();}
};
typedef st_asio_wrapper::ssl::server_base<SSock> Server;
struct Cli : public Client
{
	Cli(boost::asio::io_context& io, Ctx& c) : Client(io, c) {}
	Cli(i_matrix& m, Ctx& c) : Client(m, c) {}
	int shakes = 0, fails = 0; bool shaken = false;
	virtual void on_handshake(const boost::system::error_code& ec) {CHECK(!live, "handshake of an announced link"); ec ? ++fails : ++shakes; shaken = !ec; Client::on_handshake(ec);}
	virtual void on_connect() {CHECK(shaken, "announced without a handshake"); shaken = false; Client::on_connect();}
};
typedef st_asio_wrapper::ssl::single_client_base<Cli> SCli;
struct TW
{
	bool v13;
	service_pump sp;
	boost::shared_ptr<Ctx> ctx;
	SCli c;
	TW(bool v) : v13((sim::window(false), ssl_watch() = true, v)), ctx(boost::make_shared<Ctx>(Ctx::sslv23_client)), c((tls_conf(ctx->native_handle(), v, false), sp), ctx) {c.set_server_addr(PORT, "127.0.0.1");}
};
struct SW
{
	bool v13;
	service_pump sp;
	Server s;
	SW(bool v, bool bad = false) : v13((sim::window(false), ssl_watch() = true, v)), s(sp, Ctx::sslv23_server) {tls_conf(s.context().native_handle(), v, true, bad); s.set_server_addr(PORT, "127.0.0.1");}
};
struct PW : public SW // both ends
{
	boost::shared_ptr<Ctx> ctx;
	SCli c;
	PW(bool v, bool bad = false) : SW(v, bad), ctx(boost::make_shared<Ctx>(Ctx::sslv23_client)), c((tls_conf(ctx->native_handle(), v, false), sp), ctx) {c.set_server_addr(PORT, "127.0.0.1");}
	void start(int th)
	{
		sp.start_service(th);
		CHECK(sim::wait_for([&] {return s_starts() == 1 && c.connects == 1;}, 3000, "connected"), "no link: server %d client %d", s_starts(), c.connects);
		sim::settle();
	}
};
static bool ver() {return sim::choose(2, "TLS 1.3");}
enum {C_FORCE, C_GRACE, S_FORCE, S_GRACE, BOTH_GRACE, C_RE, STOP, ENDS};
static const char* end_name[] = {"client force", "client graceful", "server force", "server graceful", "both graceful", "client graceful(true)", "service stop"};
static void end(PW& w, int how)
{
	switch (how)
	{
	case C_FORCE: w.c.force_shutdown(); break;
	case C_GRACE: w.c.graceful_shutdown(); break;
	case S_FORCE: w.s.force_shutdown(); break;
	case S_GRACE: w.s.graceful_shutdown(); break;
	case BOTH_GRACE: {int f = sim::spawn("cg", [&] {w.c.graceful_shutdown();}); w.s.graceful_shutdown(); sim::join(f); break;}
	case C_RE: w.c.graceful_shutdown(true); break;
	default: w.sp.stop_service();
	}
}
SCENARIO(tls_pair, "a client and a server: messages both ways, then every way to end the link, then a new link", 0, 1, NULL)
{
	PW w(ver());
	int n = sim::choose(3, "messages"), how = sim::choose(ENDS, "end"), th = 1 + sim::choose(2, "threads");
	sim::window(true);
	w.start(th);
	echo() = true;
	std::vector<std::string> want, back;
	for (int i = 0; i < n; ++i) {std::string m = "msg" + num(i); want.push_back(m); back.push_back("re:" + m); CHECK(w.c.send_msg(m.data(), m.size()), "send_msg");}
	SSock* l = links().back();
	CHECK(sim::wait_for([&] {return (int) w.c.got.size() >= n;}, 1000, "answers"), "%d answers to %d messages", (int) w.c.got.size(), n);
	CHECK(l->offered == want, "the server got '%s' instead of '%s'", join_str(l->offered).c_str(), join_str(want).c_str());
	CHECK(w.c.got == back, "the client got '%s' instead of '%s'", join_str(w.c.got).c_str(), join_str(back).c_str());
	end(w, how);
	CHECK(sim::wait_for([&] {return s_closes() == 1 && w.c.closes == 1;}, 2 * MAX_MS, "closed"), "%s: server %d client %d close notifications", end_name[how], s_closes(), w.c.closes);
	if (how == C_RE) CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 1000, "again"), "does not reconnect");
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	int k = how == C_RE ? 2 : 1;
	CHECK(s_closes() == 1 && w.c.closes == 1 && s_starts() == k && w.c.connects == k, "%s: server %d/%d client %d/%d", end_name[how], s_starts(), s_closes(), w.c.connects, w.c.closes);
	if (how == STOP) w.sp.start_service(1); else if (how != C_RE) w.c.start();
	CHECK(sim::wait_for([&] {return w.c.connects == 2 && s_starts() == 2;}, 1000, "again"), "%s: does not connect again", end_name[how]);
	CHECK(w.c.send_msg("hi", 2), "send_msg");
	CHECK(sim::wait_for([&] {return w.c.got.size() == n + 1 && w.c.got.back() == "re:hi";}, 1000, "answer"), "the new link does not work");
	sim::finish();
}
static void any_net() {simnet::cfg.send_eagain = simnet::cfg.send_short = simnet::cfg.recv_short = true;}
SCENARIO(tls_net, "a client and a server over a network that cuts and delays everything", 1, 2, any_net)
{
	PW w(ver());
	int how = sim::choose(4, "end");
	sim::window(true);
	w.start(1);
	echo() = true;
	std::vector<std::string> want, back;
	for (int i = 0; i < 2; ++i) {std::string m = "msg" + num(i); want.push_back(m); back.push_back("re:" + m); CHECK(w.c.send_msg(m.data(), m.size()), "send_msg");}
	CHECK(sim::wait_for([&] {return w.c.got.size() >= 2;}, 1000, "answers"), "%d answers to 2 messages", (int) w.c.got.size());
	CHECK(links().back()->offered == want && w.c.got == back, "got '%s' and '%s'", join_str(links().back()->got).c_str(), join_str(w.c.got).c_str());
	end(w, how);
	CHECK(sim::wait_for([&] {return s_closes() == 1 && w.c.closes == 1;}, 2 * MAX_MS, "closed"), "%s: server %d client %d close notifications", end_name[how], s_closes(), w.c.closes);
	sim::finish();
}
SCENARIO(tls_senders, "two threads send on both ends at the same time", 1, 2, any_net)
{
	PW w(ver());
	w.start(1 + sim::choose(2, "threads"));
	sim::window(true);
	SSock* l = links().back();
	auto send = [](std::function<bool(const std::string&)> f, char who) {return [f, who] {for (int i = 0; i < 2; ++i) CHECK(f(std::string(1, who) + num(i)), "send_msg");};};
	int a = sim::spawn("a", send([&](const std::string& m) {return w.c.send_msg(m.data(), m.size(), true);}, 'a'));
	int b = sim::spawn("b", send([&](const std::string& m) {return w.c.send_msg(m.data(), m.size(), true);}, 'b'));
	int c = sim::spawn("c", send([&](const std::string& m) {return l->send_msg(m.data(), m.size(), true);}, 'c'));
	sim::join(a); sim::join(b); sim::join(c);
	CHECK(sim::wait_for([&] {return l->got.size() >= 4 && w.c.got.size() >= 2;}, 2000, "all"), "%d of 4 and %d of 2 messages arrive", (int) l->got.size(), (int) w.c.got.size());
	sim::window(false);
	sim::settle();
	CHECK(w.c.got == (std::vector<std::string>{"c0", "c1"}), "client got '%s'", join_str(w.c.got).c_str());
	std::string x, y;
	for (auto& m : l->got) (m[0] == 'a' ? x : y) += m;
	CHECK(l->got.size() == 4 && x == "a0a1" && y == "b0b1", "server got '%s'", join_str(l->got).c_str());
	sim::finish();
}
// ---------------------------------------------------------------- handshakes that do not succeed
enum {H_CLOSE, H_RESET, H_EOF, H_GARBAGE, H_KEY, H_MID_CLOSE, H_SILENT, HOWS};
static const char* h_name[] = {"peer closes at once", "peer resets", "peer half-closes", "garbage", "another key", "peer closes in the middle", "peer is silent"};
static const std::string GARBAGE("GET / HTTP/1.0\r\n\r\n................");
SCENARIO(tls_fail_client, "a client whose handshake fails in every way, or never ends until it is shut down; then the client is started again", 0, 2, NULL)
{
	bool v = ver();
	int how = sim::choose(HOWS, "how"), shut = how == H_SILENT ? sim::choose(5, "shutdown") : 0; bool re = sim::choose(2, "reconnect"), mid = how == H_SILENT && sim::choose(2, "in the middle");
	int l = (sim::window(false), simnet::listen(PORT));
	TW w(v);
	w.c.set_reconnect(re);
	sim::window(true);
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::accept(l);
	TlsPeer p(fd, v, true, how == H_KEY);
	sim::wait_until([&] {return simnet::available(fd) > 0;}, "client hello");
	bool again = false;
	auto half = [&] {p.feed(); ERR_clear_error(); SSL_do_handshake(p.ssl); std::string s = p.take(); CHECK(s.size() > 8, "no answer"); simnet::send(fd, s.substr(0, s.size() / 2)); sim::settle();};
	switch (how)
	{
	case H_CLOSE: case H_RESET: break;
	case H_EOF: simnet::shutdown_wr(fd); break;
	case H_GARBAGE: simnet::send(fd, GARBAGE); break;
	case H_KEY: p.handshake(); break;
	case H_MID_CLOSE: half(); break;
	default:
		if (mid) half();
		sim::sleep_ms(100);
		switch (shut)
		{
		case 0: w.c.force_shutdown(); break;
		case 1: w.c.graceful_shutdown(); break;
		case 2: w.c.force_shutdown(true); again = true; break;
		case 3: w.c.graceful_shutdown(true); again = true; break;
		default: w.sp.stop_service(); break;
		}
	}
	if (how == H_RESET) simnet::reset(fd);
	else if (how == H_CLOSE || how == H_MID_CLOSE) simnet::close(fd);
	(void) again;
	CHECK(sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed"), "%s (%d): the failed handshake does not end the link", h_name[how], shut);
	CHECK(w.c.connects == 0 && w.c.shakes == 0, "%s: announced", h_name[how]);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(w.c.closes == 1 && w.c.connects == 0, "%s (%d): %d close notifications, announced %d", h_name[how], shut, w.c.closes, w.c.connects);
	sim::outcome(num(w.c.started()) + "/" + num(w.c.fails));
	if (w.c.started()) w.c.force_shutdown();
	else if (shut == 4) w.sp.start_service(1);
	else {CHECK(w.c.obsoleted(), "%s (%d): the failed client never becomes obsolete", h_name[how], shut); w.c.start();}
	sim::finish();
}
SCENARIO(tls_fail_server, "a server link whose handshake fails in every way, or never ends until it is shut down, while another link is alive", 0, 2, NULL)
{
	bool v = ver();
	int how = sim::choose(HOWS, "how"), shut = how == H_SILENT ? sim::choose(3, "shutdown") : 0; bool mid = how == H_SILENT && sim::choose(2, "in the middle"), other = sim::choose(2, "another link");
	SW w(v);
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd2 = -1; TlsPeer* p2 = NULL;
	if (other) {fd2 = simnet::connect(PORT); p2 = new TlsPeer(fd2, v, false); CHECK(p2->handshake(), "handshake"); sim::settle(); p2->pump(); CHECK(s_starts() == 1, "not announced");}
	sim::window(true);
	int fd = simnet::connect(PORT);
	TlsPeer p(fd, v, false);
	if (how == H_KEY) SSL_CTX_set_psk_client_callback(p.ctx, [](SSL*, const char*, char* id, unsigned, unsigned char* k, unsigned) -> unsigned {strcpy(id, "me"); memset(k, 9, 16); return 16;});
	auto half = [&] {ERR_clear_error(); SSL_do_handshake(p.ssl); std::string s = p.take(); simnet::send(fd, s.substr(0, s.size() / 2)); sim::settle();};
	if (how == H_KEY) {SSL_free(p.ssl); p.ssl = SSL_new(p.ctx); p.in = BIO_new(BIO_s_mem()); p.out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(p.in, -1); SSL_set_bio(p.ssl, p.in, p.out); SSL_set_connect_state(p.ssl);}
	switch (how)
	{
	case H_CLOSE: simnet::close(fd); break;
	case H_RESET: simnet::reset(fd); break;
	case H_EOF: simnet::shutdown_wr(fd); break;
	case H_GARBAGE: simnet::send(fd, GARBAGE); break;
	case H_KEY: p.handshake(); break;
	case H_MID_CLOSE: half(); simnet::close(fd); break;
	default:
		if (mid) half();
		sim::sleep_ms(100);
		if (shut == 0) w.s.force_shutdown(); else if (shut == 1) w.s.graceful_shutdown(); else w.sp.stop_service();
		if (fd2 >= 0) {p2->pump(); p2->notify();}
	}
	bool gone = how == H_CLOSE || how == H_RESET || how == H_MID_CLOSE;
	if (!gone) CHECK(sim::wait_for([&] {return simnet::at_eof(fd) || simnet::was_reset(fd);}, 2 * MAX_MS, "closed"), "%s (%d): the failed handshake does not end the link", h_name[how], shut);
	sim::window(false);
	sim::sleep_ms(2 * MAX_MS);
	CHECK(s_starts() == (other ? 1 : 0), "%s: announced", h_name[how]);
	bool all = how == H_SILENT;
	if (other && !all)
	{
		CHECK(s_closes() <= 1 && links()[0]->live, "%s: another link ended", h_name[how]);
		echo() = true;
		p2->send(lv("hi"));
		p2->wait_plain(7);
		CHECK(p2->plain == lv("re:hi"), "another link does not work any more");
	}
	CHECK(w.s.size() == (other && !all ? 1u : 0u), "%s (%d): %d links left", h_name[how], shut, (int) w.s.size());
	CHECK(s_closes() <= 1 + (other && all ? 1 : 0), "%s: %d close notifications", h_name[how], s_closes());
	sim::outcome(num(s_closes()) + "/" + num(s_fails()));
	if (shut == 2) w.sp.start_service(1);
	int n = s_starts();
	int fd3 = simnet::connect(PORT); CHECK(fd3 >= 0, "refused");
	TlsPeer p3(fd3, v, false);
	CHECK(p3.handshake(), "the next handshake fails"); sim::settle(); CHECK(s_starts() == n + 1, "the next link is not announced");
	sim::finish();
}
// ---------------------------------------------------------------- ends of established links
enum {E_NOTIFY_CLOSE, E_CLOSE, E_RESET, E_EOF, E_GARBAGE, E_NOTIFY, E_UNPACK, E_FORCE, E_GRACE, E_TWICE, E_INSIDE, EHOWS};
static const char* e_name[] = {"peer notifies and closes", "peer closes", "peer resets", "peer half-closes", "garbage record", "peer notifies only", "unpackable message", "forced shutdown", "graceful shutdown", "graceful, then forced", "graceful in a callback"};
enum {R_ANSWER, R_CLOSE, R_SILENT, R_TALK, R_LATE, RHOWS};
// what a raw peer does with a link that is ended locally or by itself
template<typename L> static void end_link(TlsPeer& p, L& l, int how, int react, const std::function<bool()>& closed)
{
	auto talk = [&] {for (int i = 0; i < 3; ++i) p.send(lv("late"));};
	switch (how)
	{
	case E_NOTIFY_CLOSE: p.notify(); simnet::close(p.fd); p.fd = -1; break;
	case E_CLOSE: simnet::close(p.fd); p.fd = -1; break;
	case E_RESET: simnet::reset(p.fd); p.fd = -1; break;
	case E_EOF: simnet::shutdown_wr(p.fd); break;
	case E_GARBAGE: simnet::send(p.fd, GARBAGE); break;
	case E_NOTIFY: p.notify(); break;
	case E_UNPACK: p.send(std::string("\0\1", 2)); break;
	case E_FORCE: l.force_shutdown(); break;
	case E_GRACE: l.graceful_shutdown(); break;
	case E_TWICE: l.graceful_shutdown(); sim::sleep_ms(10); l.force_shutdown(); break;
	default: l.handler = [&](const std::string&) {l.graceful_shutdown(); return true;}; p.send(lv("go"));
	}
	if (p.fd < 0) return;
	int64_t t = sim::now_ms();
	if (how == E_EOF && react != R_CLOSE) react = R_SILENT; // it cannot send any more
	if (react == R_CLOSE) {simnet::close(p.fd); p.fd = -1; return;}
	if (react == R_TALK) talk();
	if (react == R_LATE) sim::sleep_ms(500);
	if (react != R_SILENT)
		while (!closed() && sim::now_ms() - t < MAX_MS && !p.notified) {sim::wait_for([&] {return simnet::available(p.fd) > 0 || p.gone();}, 50, "close notify"); p.pump(); if (p.gone()) break;}
	if (react != R_SILENT) {if (!p.gone()) p.notify(); if (react == R_ANSWER) {simnet::close(p.fd); p.fd = -1;}}
}
SCENARIO(tls_end_client, "an established client link ended in every way, the peer answers, closes, keeps silent, goes on talking or answers late; queued messages or not", 0, 1, NULL)
{
	bool v = ver();
	int how = sim::choose(EHOWS, "how"), react = how >= E_EOF ? sim::choose(RHOWS, "reaction") : 0; bool queued = sim::choose(2, "queued");
	int l = (sim::window(false), simnet::listen(PORT));
	TW w(v);
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::accept(l);
	TlsPeer p(fd, v, true);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return w.c.connects == 1;}, 1000, "connected"), "never announced");
	sim::settle();
	if (queued) {simnet::set_rx_cap(fd, 10); for (int i = 0; i < 3; ++i) CHECK(w.c.send_msg("queued", 6, true), "send_msg"); sim::settle(); if (react != R_SILENT) simnet::set_rx_cap(fd, 100000);}
	sim::window(true);
	end_link(p, w.c, how, react, [&] {return w.c.closes > 0;});
	// a peer that broke the protocol and does not let the alert out: Asio neither reads nor reports anything before its write has ended, so only a shutdown ends the link
	if (how == E_GARBAGE && queued && (react == R_SILENT || react == R_CLOSE) && !sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed")) {sim::outcome("stuck"); w.c.force_shutdown();}
	CHECK(sim::wait_for([&] {return w.c.closes == 1;}, MAX_MS, "closed"), "%s (%d): the link is never closed", e_name[how], react);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(w.c.closes == 1 && w.c.connects == 1 && w.c.obsoleted() && !w.c.started(), "%s: %d close notifications", e_name[how], w.c.closes);
	for (int i = 0; i < 20 && p.fd >= 0 && !p.gone(); ++i) {p.pump(); sim::sleep_ms(10);}
	if (p.fd >= 0) CHECK(p.gone(), "%s: closed, but the connection is still open", e_name[how]);
	// the same object again
	w.c.handler = nullptr;
	w.c.start();
	int fd2 = simnet::accept(l);
	TlsPeer p2(fd2, v, true);
	CHECK(p2.handshake(), "the second handshake fails");
	CHECK(sim::wait_for([&] {return w.c.connects == 2;}, 1000, "connected"), "never announced again");
	p2.send(lv("hello"));
	sim::settle();
	CHECK(w.c.got.size() && w.c.got.back() == "hello", "the new link delivers nothing");
	sim::finish();
}
SCENARIO(tls_end_server, "an established server link ended in every way, the peer answers, closes, keeps silent, goes on talking or answers late; queued messages or not", 0, 1, NULL)
{
	bool v = ver();
	int how = sim::choose(EHOWS, "how"), react = how >= E_EOF ? sim::choose(RHOWS, "reaction") : 0; bool queued = sim::choose(2, "queued");
	SW w(v);
	w.sp.start_service(1 + sim::choose(2, "threads"));
	int fd = simnet::connect(PORT);
	TlsPeer p(fd, v, false);
	CHECK(p.handshake(), "handshake");
	CHECK(sim::wait_for([&] {return s_starts() == 1;}, 1000, "connected"), "never announced");
	sim::settle(); p.pump();
	SSock& l = *links()[0];
	if (queued) {simnet::set_rx_cap(fd, 10); for (int i = 0; i < 3; ++i) CHECK(l.send_msg("queued", 6, true), "send_msg"); sim::settle(); if (react != R_SILENT) simnet::set_rx_cap(fd, 100000);}
	sim::window(true);
	end_link(p, l, how, react, [&] {return s_closes() > 0;});
	// a peer that broke the protocol and does not let the alert out: Asio neither reads nor reports anything before its write has ended, so only a shutdown ends the link
	if (how == E_GARBAGE && queued && (react == R_SILENT || react == R_CLOSE) && !sim::wait_for([&] {return s_closes() == 1;}, MAX_MS, "closed")) {sim::outcome("stuck"); l.force_shutdown();}
	CHECK(sim::wait_for([&] {return s_closes() == 1;}, MAX_MS, "closed"), "%s (%d): the link is never closed", e_name[how], react);
	sim::window(false);
	sim::sleep_ms(MAX_MS);
	CHECK(s_closes() == 1 && s_starts() == 1 && w.s.size() == 0, "%s: %d close notifications", e_name[how], s_closes());
	for (int i = 0; i < 20 && p.fd >= 0 && !p.gone(); ++i) {p.pump(); sim::sleep_ms(10);}
	if (p.fd >= 0) CHECK(p.gone(), "%s: closed, but the connection is still open", e_name[how]);
	int fd3 = simnet::connect(PORT); CHECK(fd3 >= 0, "refused");
	TlsPeer p3(fd3, v, false);
	CHECK(p3.handshake(), "the next handshake fails"); sim::settle(); CHECK(s_starts() == 2, "the next link is not announced");
	p3.send(lv("hello"));
	sim::settle();
	CHECK(links()[1]->got.size() == 1 && links()[1]->got[0] == "hello", "the next link delivers nothing");
	sim::finish();
}
