// C27: SOCKS4 / SOCKS5 negotiation against every proxy behaviour
#include "tcpfix.h"
#include "tcp/proxy/socks.h"
namespace px = st_asio_wrapper::tcp::proxy;
template<typename B> struct PClient : public Recorder<B>
{
	PClient(boost::asio::io_context& io) : Recorder<B>(io) {this->set_reconnect(false);}
	PClient(i_matrix& m) : Recorder<B>(m) {this->set_reconnect(false);}
};
typedef PClient<px::socks4::client_socket_base<ext::packer<>, ext::unpacker<> > > C4;
typedef PClient<px::socks5::client_socket_base<ext::packer<>, ext::unpacker<> > > C5;
typedef st_asio_wrapper::tcp::single_client_base<C4> S4;
typedef st_asio_wrapper::tcp::single_client_base<C5> S5;

static std::string B(std::initializer_list<int> l) {std::string s; for (int x : l) s += (char) x; return s;}
static const std::string APP = lv("hi") + lv("!");
// sends a reply in the pieces chosen; glue: what follows the reply at once
static void reply(int fd, const std::string& r, int seg, const std::string& glue)
{
	std::string s = r + glue;
	if (seg == 0) simnet::send(fd, s);
	else if (seg == 1) for (char c : s) {simnet::send(fd, std::string(1, c)); sim::settle();}
	else
	{
		// cut after (seg - 1) bytes
		size_t cut = std::min<size_t>(seg - 1, s.size());
		if (cut) simnet::send(fd, s.substr(0, cut));
		sim::settle();
		if (cut < s.size()) simnet::send(fd, s.substr(cut));
	}
	sim::settle();
}
static void expect(int fd, const std::string& want, const char* what)
{
	sim::settle();
	std::string s = simnet::peek_available(fd);
	CHECK(s == want, "%s is %s instead of %s", what, hex(s).c_str(), hex(want).c_str());
}
template<typename C> static void granted(C& c, int fd, int glue)
{
	CHECK(sim::wait_for([&] {return c.connects == 1;}, 100, "connected"), "granted, but never connected");
	sim::settle();
	CHECK(c.is_connected() && c.closes == 0, "granted, but not connected");
	if (glue != 1) simnet::send(fd, APP); // 1: it has already been sent
	CHECK(sim::wait_for([&] {return c.got.size() == 2;}, 200, "messages"), "what followed the reply is lost: %d of 2 messages", (int) c.got.size());
	CHECK(c.got[0] == "hi" && c.got[1] == "!", "what followed the reply is damaged: %s", join_str(c.got).c_str());
	CHECK(c.send_msg(std::string("yo"), false), "sending");
	sim::settle();
	std::string s = simnet::peek_available(fd);
	CHECK(s == lv("yo"), "sent %s to the target", hex(s).c_str());
	CHECK(c.closes == 0 && c.is_connected(), "closed");
	// and it ends like any link
	simnet::close(fd);
	CHECK(sim::wait_for([&] {return c.closes == 1;}, 1000, "closed"), "peer closed, but the link isn't");
}
template<typename C> static void denied(C& c, int fd, bool closed_by_proxy)
{
	CHECK(sim::wait_for([&] {return c.closes == 1;}, 1000, "closed"), "the negotiation failed, but the attempt is never ended");
	sim::settle();
	CHECK(c.connects == 0 && !c.is_connected(), "the negotiation failed, but the link has been announced");
	if (!closed_by_proxy)
		CHECK(simnet::at_eof(fd) || simnet::was_reset(fd), "the negotiation failed, but the connection to the proxy isn't closed");
	if (!closed_by_proxy) CHECK(simnet::peek_available(fd) == "", "bytes sent after the negotiation failed");
	sim::sleep_ms(1200);
	CHECK(c.closes == 1 && c.connects == 0, "more events after the failure");
	CHECK(simnet::connecting_or_connected_to(PORT) == 0, "still connected");
}

SCENARIO(socks4_all, "SOCKS4: targets, every kind of reply, cut anywhere, application bytes glued to it or not, proxy closing at any time", 0, 1, [] {simnet::cfg.send_short = simnet::cfg.recv_short = simnet::cfg.send_reset = false;})
{
	sim::window(false);
	int l = simnet::listen(PORT);
	service_pump sp;
	S4 c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	int t = sim::choose(4, "target");
	std::string req;
	if (t == 0) {CHECK(c.set_target_addr(80, "10.20.30.40"), "target"); req = B({4, 1, 0, 80, 10, 20, 30, 40});}
	else if (t == 1) {CHECK(c.set_target_addr(0xFEDC, "255.254.129.0"), "target"); req = B({4, 1, 0xFE, 0xDC, 255, 254, 129, 0});}
	else if (t == 2)
	{
		CHECK(c.set_target_addr(80, "1.2.3.4"), "target");
		CHECK(c.set_target_addr(443, "200.0.0.1"), "target"); // the last one counts
		req = B({4, 1, 443 >> 8, 443 & 255, 200, 0, 0, 1});
	}
	else
	{
		CHECK(!c.set_target_addr(80, "::1"), "SOCKS4 accepts an IPv6 target");
		CHECK(!c.set_target_addr(80, ""), "SOCKS4 accepts an empty target");
		CHECK(!c.set_target_addr(0, "1.2.3.4"), "SOCKS4 accepts port 0");
		CHECK(!c.set_target_addr(80, "some.name"), "SOCKS4 accepts a name");
		CHECK(c.set_target_addr(80, "1.2.3.4"), "target");
		req = B({4, 1, 0, 80, 1, 2, 3, 4});
	}
	sp.start_service(1);
	int fd = simnet::accept(l);
	sim::settle();
	std::string s = simnet::peek_available(fd);
	// the user id is the client's business, but there must be one terminated by zero
	CHECK(s.size() >= 9 && s.substr(0, 8) == req && s.find('\0', 8) == s.size() - 1, "request %s", hex(s).c_str());
	CHECK(c.connects == 0, "announced before the reply");
	static const int codes[] = {90, 91, 92, 93, 0, 89, 255, 0x5a + 128};
	int code = sim::choose(9, "reply");
	sim::window(true);
	if (code == 8)
	{
		// no reply: part of it, then the end
		int n = sim::choose(8, "bytes before the end"), how = sim::choose(2, "end");
		if (n) simnet::send(fd, B({0, 90, 0, 0, 0, 0, 0, 0}).substr(0, n));
		sim::settle();
		CHECK(c.connects == 0, "announced after %d bytes of the reply", n);
		how ? simnet::reset(fd) : simnet::close(fd);
		denied((C4&) c, fd, true);
		sim::finish();
	}
	int glue = codes[code] == 90 ? sim::choose(2, "application bytes") : 0, seg = sim::choose(10, "segmentation");
	reply(fd, B({0, codes[code], 1, 2, 3, 4, 5, 6}), seg, glue ? APP : "");
	if (codes[code] == 90) granted((C4&) c, fd, glue); else denied((C4&) c, fd, false);
	sim::finish();
}

// the conversation of one SOCKS5 negotiation; returns whether the request was granted
struct Conv {int code = 0, atyp = 1, blen = 4, seg = 0, glue = 0;};
static std::string rep5(const Conv& v)
{
	std::string s = B({5, v.code, 0, v.atyp});
	if (v.atyp == 3) s += (char) v.blen;
	s += std::string(v.blen, '\x81') + B({0x1f, 0x90});
	return s;
}
SCENARIO(socks5_all, "SOCKS5: targets, credentials, methods offered and not, every kind of reply, every cut, application bytes glued to the reply or not, proxy closing at any time", 0, 1, NULL)
{
	sim::window(false);
	int l = simnet::listen(PORT);
	service_pump sp;
	S5 c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	int t = sim::choose(7, "target");
	std::string name, req;
	const std::string port80 = B({0, 80});
	if (t == 0) {CHECK(c.set_target_addr(80, "10.20.30.40"), "target"); req = B({5, 1, 0, 1, 10, 20, 30, 40}) + port80;}
	else if (t == 1) {CHECK(c.set_target_addr(0xFEDC, "2001:db8::ff"), "target"); req = B({5, 1, 0, 4, 0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xFE, 0xDC});}
	else if (t == 2) name = "n";
	else if (t == 3) name = "some.name.org";
	else if (t == 4) name = std::string(57, 'x');
	else if (t == 5) {CHECK(c.set_target_addr(81, "old.name"), "target"); CHECK(c.set_target_addr(80, "1.2.3.4"), "target"); req = B({5, 1, 0, 1, 1, 2, 3, 4}) + port80;}
	else {CHECK(c.set_target_addr(81, "1.2.3.4"), "target"); name = "new.name";}
	if (!name.empty()) {CHECK(c.set_target_addr(80, name), "target"); req = B({5, 1, 0, 3, (int) name.size()}) + name + port80;}
	int cr = sim::choose(3, "credentials");
	std::string usr, pwd;
	if (cr == 1) {usr = "me"; pwd = "secret";}
	else if (cr == 2) {usr = std::string(30, 'u'); pwd = std::string(30, 'p');}
	if (cr) CHECK(c.set_auth(usr, pwd), "credentials");
	sp.start_service(1);
	int fd = simnet::accept(l);
	expect(fd, cr ? B({5, 2, 0, 2}) : B({5, 1, 0}), "greeting");
	CHECK(c.connects == 0, "announced before the negotiation");
	sim::window(true);
	// ---- method
	int end = sim::choose(5, "proxy ends"); // 0: no, 1 - 3: instead of the method, authentication, request reply; 4: in the middle of the request reply
	int how = end ? sim::choose(2, "end") : 0;
	auto over = [&] {how ? simnet::reset(fd) : simnet::close(fd); denied((C5&) c, fd, true); sim::finish();};
	if (end == 1) over();
	static const int methods[] = {0, 2, 0xff, 1, 0x80, 3};
	int m = methods[sim::choose(end ? 2 : 6, "method")];
	int s1 = end ? 0 : sim::choose(2, "segmentation");
	reply(fd, B({5, m}), s1, "");
	if (m == 2 && cr)
	{
		expect(fd, B({1, (int) usr.size()}) + usr + B({(int) pwd.size()}) + pwd, "authentication");
		if (end == 2) over();
		static const int au[] = {0, 1, 0xff};
		int a = au[sim::choose(end ? 1 : 3, "authentication reply")];
		reply(fd, B({1, a}), s1, "");
		if (a) {denied((C5&) c, fd, false); sim::finish();}
	}
	else if (m != 0) {denied((C5&) c, fd, false); sim::finish();}
	else if (end == 2) sim::finish();
	expect(fd, req, "request");
	CHECK(c.connects == 0, "announced before the reply to the request");
	if (end == 3) over();
	// ---- request
	Conv v;
	static const int codes[] = {0, 1, 5, 8, 0xff, 0x80};
	static const int lens[] = {0, 1, 40, 57, 58, 127, 128, 200, 255};
	v.atyp = sim::choose(3, "address type") == 0 ? 1 : 3;
	if (v.atyp == 3)
	{
		int x = sim::choose(10, "domain length");
		if (x == 9) {v.atyp = 4; v.blen = 16;} else v.blen = lens[x];
	}
	if (end == 4)
	{
		std::string r = rep5(v);
		static const int cuts[] = {1, 3, 4, 5, 7};
		int k = sim::choose(6, "bytes before the end");
		size_t n = k == 5 ? r.size() - 1 : cuts[k];
		if (n >= r.size()) sim::finish();
		simnet::send(fd, r.substr(0, n));
		sim::settle();
		CHECK(c.connects == 0, "announced after %d of %d bytes of the reply", (int) n, (int) r.size());
		over();
	}
	v.code = codes[sim::choose(6, "reply code")];
	int seg = sim::choose(v.code ? 3 : 11, "segmentation");
	std::string r = rep5(v);
	// everything, byte by byte (short ones), cut at the structural boundaries
	static const int cut[] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
	int sg = seg == 0 ? 0 : seg == 1 ? (r.size() > 60 ? 0 : 1) : seg < 9 ? 1 + cut[seg - 1] : seg == 9 ? (int) r.size() : (int) r.size() + 1;
	v.glue = v.code == 0 ? sim::choose(2, "application bytes") : 0;
	reply(fd, r, sg, v.glue ? APP : "");
	if (v.code == 0) granted((C5&) c, fd, v.glue); else denied((C5&) c, fd, false);
	sim::finish();
}

SCENARIO(socks_cred, "credentials of every length around the limits: accepted ones are sent exactly", 0, 0, NULL)
{
	sim::window(false);
	int l = simnet::listen(PORT);
	service_pump sp;
	S5 c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	CHECK(c.set_target_addr(80, "1.2.3.4"), "target");
	static const int ul[] = {0, 1, 2, 30, 59, 60, 61, 127, 128, 255, 256, 300};
	int u = ul[sim::choose(12, "user")], p = ul[sim::choose(12, "password")];
	if (!c.set_auth(std::string(u, 'u'), std::string(p, 'q'))) {CHECK(u == 0 || p == 0 || u + p > 60, "set_auth refuses %d+%d characters", u, p); sim::finish();}
	CHECK(u > 0 && p > 0 && u < 256 && p < 256, "set_auth accepts %d and %d characters", u, p);
	sp.start_service(1);
	int fd = simnet::accept(l);
	expect(fd, B({5, 2, 0, 2}), "greeting");
	simnet::send(fd, B({5, 2}));
	expect(fd, B({1, u}) + std::string(u, 'u') + B({p}) + std::string(p, 'q'), "authentication");
	sim::finish();
}
SCENARIO(socks_domain, "target names of every length around the limits: accepted ones are sent exactly", 0, 0, NULL)
{
	sim::window(false);
	int l = simnet::listen(PORT);
	service_pump sp;
	S5 c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	static const int nl[] = {1, 56, 57, 58, 126, 127, 128, 129, 200, 254, 255, 256, 300};
	int n = nl[sim::choose(13, "length")];
	if (!c.set_target_addr(0x8182, std::string(n, 'd'))) {CHECK(n > 57, "refuses a name of %d characters", n); sim::finish();}
	CHECK(n < 256, "accepts a name of %d characters", n);
	sp.start_service(1);
	int fd = simnet::accept(l);
	expect(fd, B({5, 1, 0}), "greeting");
	simnet::send(fd, B({5, 0}));
	expect(fd, B({5, 1, 0, 3, n}) + std::string(n, 'd') + B({0x81, 0x82}), "request");
	sim::finish();
}

// ---- schedules: the client is shut down, the service stopped, the proxy closes ... at any time of the negotiation; reconnection negotiates again
template<typename C, typename SCL> static void phases(int proto, const std::string& tgt)
{
	sim::window(false);
	int l = simnet::listen(PORT);
	service_pump sp;
	SCL c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	CHECK(c.set_target_addr(80, tgt), "target");
	int at = sim::choose(4, "phase"), what = sim::choose(5, "event");
	int fd = -1;
	sim::window(true);
	sp.start_service(2);
	bool gone = false;
	auto hit = [&] {
		switch (what)
		{
		case 0: c.post([&] {c.force_shutdown();}); break;
		case 1: c.post([&] {c.graceful_shutdown();}); break;
		case 2: sp.stop_service(); break;
		case 3: gone = true; simnet::close(fd); break;
		case 4: gone = true; simnet::reset(fd); break;
		}
	};
	fd = simnet::accept(l);
	int ev = -1;
	bool more = true;
	auto step = [&](size_t n, const std::string& r, int k) {
		if (!more || gone) return;
		if (k == at) ev = sim::spawn("event", [&] {hit();});
		std::string got;
		if (!sim::wait_for([&] {return gone || simnet::available(fd) >= n || simnet::at_eof(fd) || simnet::was_reset(fd);}, 500, "request") || gone || simnet::available(fd) < n) {more = false; return;}
		sim::NoPreempt np;
		if (gone) return;
		simnet::recv_exact(fd, n, got);
		simnet::send_some(fd, r);
	};
	if (proto == 4) step(16, B({0, 90, 0, 0, 0, 0, 0, 0}), 0), more = more && at != 1;
	else {step(3, B({5, 0}), 0); step(10, B({5, 0, 0, 1, 1, 2, 3, 4, 5, 6}), 1);}
	if (more && at >= 2) {if (at == 3) sim::wait_for([&] {return c.connects == 1;}, 500, "connected"); ev = sim::spawn("event", [&] {hit();});}
	if (ev < 0) {sim::finish();}
	sim::join(ev);
	CHECK(sim::wait_for([&] {return c.closes == 1 || (what == 2 && !c.live && !sp.is_service_started());}, 7000, "ended"), "ended in phase %d by event %d, but not closed", at, what);
	sim::window(false);
	sim::sleep_ms(1200);
	CHECK(c.closes <= 1 && c.connects <= 1, "%d announcements, %d close notifications", c.connects, c.closes);
	CHECK(!c.live && !c.is_connected(), "still connected");
	CHECK(simnet::connecting_or_connected_to(PORT) == 0, "the connection is left open");
	sim::finish();
}
SCENARIO(socks4_end, "SOCKS4: shutdown, service stop, proxy closing at every phase", 1, 2, NULL) {phases<C4, S4>(4, "1.2.3.4");}
SCENARIO(socks5_end, "SOCKS5: shutdown, service stop, proxy closing at every phase", 1, 2, NULL) {phases<C5, S5>(5, "1.2.3.4");}


template<typename SCL> static void again(int proto, int cr, int how)
{
	int l = simnet::listen(PORT);
	service_pump sp;
	SCL c(sp);
	c.set_server_addr(PORT, "127.0.0.1");
	c.set_target_addr(80, "1.2.3.4");
	if constexpr (std::is_same<SCL, S5>::value) if (cr) c.set_auth("a", "b");
	c.set_reconnect(true);
	sim::window(true);
	sp.start_service(2);
	for (int round = 0; round < 2; ++round)
	{
		int fd = simnet::accept(l);
		auto ask = [&](const std::string& want, const std::string& r, const char* what) {
			std::string s;
			CHECK(sim::wait_for([&] {return simnet::available(fd) >= want.size();}, 500, what), "round %d: no %s", round, what);
			simnet::recv_exact(fd, want.size(), s);
			CHECK(s == want, "round %d: %s %s", round, what, hex(s).c_str());
			CHECK(c.connects == round, "round %d: announced too early", round);
			simnet::send(fd, r);
		};
		if (proto == 4) ask(B({4, 1, 0, 80, 1, 2, 3, 4}) + std::string("st_asio", 8), B({0, 90, 0, 0, 0, 0, 0, 0}) + lv("hi"), "request");
		else
		{
			ask(cr ? B({5, 2, 0, 2}) : B({5, 1, 0}), B({5, cr ? 2 : 0}), "greeting");
			if (cr) ask(B({1, 1, 'a', 1, 'b'}), B({1, 0}), "authentication");
			ask(B({5, 1, 0, 1, 1, 2, 3, 4, 0, 80}), B({5, 0, 0, 1, 1, 2, 3, 4, 5, 6}) + lv("hi"), "request");
		}
		CHECK(sim::wait_for([&] {return (int) c.got.size() == round + 1;}, 500, "message"), "round %d: no link", round);
		CHECK(c.connects == round + 1 && c.closes == round, "round %d: %d announcements", round, c.connects);
		how ? simnet::reset(fd) : simnet::close(fd);
	}
	sim::finish();
}
SCENARIO(socks_again, "a broken link negotiates again when it reconnects", 1, 2, NULL)
{
	sim::window(false);
	int v = sim::choose(3, "protocol"), how = sim::choose(2, "broken by");
	v == 0 ? again<S4>(4, 0, how) : again<S5>(5, v - 1, how);
}
