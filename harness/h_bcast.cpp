// C22: broadcast and pool-wide operations on servers and multi-link clients
#include "srvfix.h"
struct MLink : public Recorder<CLIENT_SUPER>
{
	MLink(i_matrix& m) : Rec(m) {set_reconnect(false);}
	int dtor_ok = 1;
	~MLink() {CHECK(!live && running == 0, "a link is freed while it is alive");}
};
struct MC : public st_asio_wrapper::tcp::multi_client_base<MLink>
{
	typedef st_asio_wrapper::tcp::multi_client_base<MLink> super;
	MC(service_pump& sp) : super(sp) {}
	using super::del_object;
	boost::shared_ptr<MLink> add()
	{
#ifdef UNIX
		boost::shared_ptr<MLink> o = create_object();
		srv_addr(*o);
		return add_socket(o) ? o : boost::shared_ptr<MLink>();
#else
		return add_socket(PORT, "127.0.0.1");
#endif
	}
};
struct SrvPool
{
	SWorld w;
	Srv& p;
	typedef SSock Link;
	SrvPool() : p(w.s) {}
	void start(int th) {w.start(th);}
	int add(Link** l) {return w.peer(l);}
	int late() {return srv_connect();}  // from another thread
	void stop() {w.sp.stop_service();}
};
struct CliPool
{
	int l;
	service_pump sp;
	MC p;
	typedef MLink Link;
	CliPool() : l((sim::window(false), srv_listen())), p(sp) {}
	void start(int th) {sp.start_service(th);}
	int add(Link** l_)
	{
		boost::shared_ptr<MLink> o = p.add();
		CHECK(!!o, "add_socket");
		if (l_) *l_ = o.get();
		int fd = simnet::accept(l);
		sim::wait_until([&] {return o->is_connected();}, "connected");
		o.reset();
		sim::settle();
		return fd;
	}
	int late() {boost::shared_ptr<MLink> o = p.add(); CHECK(!!o, "add_socket"); o.reset(); return simnet::accept(l);}
	void stop() {sp.stop_service();}
};
static const int FORMS = 7;
// one message through each overload; returns what has to arrive
template<typename P> static std::string bc(P& p, int kind, int form, const std::string& m, bool over = false, bool prior = false)
{
	bool native = kind & 1;
	const std::string half1 = m.substr(0, m.size() / 2), half2 = m.substr(m.size() / 2);
	const char* ps[3] = {m.data(), m.data() + 1, NULL}; size_t ln[3] = {1, m.size() - 1, 0};
	char buf[64]; memcpy(buf, m.data(), m.size());
	ext::string_buffer sb; sb.assign(m.data(), m.size());
#define FORM(F) switch (form) {case 0: p.F(m, over, prior); break; case 1: p.F(half1, half2, over, prior); break; case 2: p.F(ps, ln, 2, over, prior); break; case 3: p.F(m.data(), m.size(), over, prior); break; \
	case 4: p.F(buf, m.size(), over, prior); break; case 5: p.F(sb, over, prior); break; case 6: p.F(std::string(m), over, prior); break;}
	switch (kind) {case 0: FORM(broadcast_msg) break; case 1: FORM(broadcast_native_msg) break; case 2: FORM(safe_broadcast_msg) break; case 3: FORM(safe_broadcast_native_msg) break;}
	return native ? m : lv(m);
}
template<typename W> static void forms()
{
	W w;
	typedef typename W::Link Link;
	int kind = sim::choose(4, "function"), form = sim::choose(FORMS, "overload"), flags = sim::choose(3, "flags");
	w.start(1);
	Link *a, *b, *c;
	int fa = w.add(&a), fb = w.add(&b), fc = w.add(&c);
	boost::shared_ptr<Link> out = w.p.find(b->id());
	CHECK(w.p.del_object(out->id()), "del_object"); // alive, but not in the pool any more
	std::string sent;
	if (flags == 0) sent = bc(w.p, kind, form, "one") + bc(w.p, kind, form, "second");
	else if (flags == 1) // full buffers
	{
		simnet::set_rx_cap(fa, 2);
		a->send_buf_size(4);
		CHECK(a->send_msg("blocked!", 8, true), "send_msg"); sim::settle(); CHECK(a->send_msg("waiting", 7, true), "send_msg");
		sim::settle();
		std::string m;
		if (kind < 2) m = bc(w.p, kind, form, "one");
		else
		{
			bool done = false;
			int f = sim::spawn("broadcaster", [&] {m = bc(w.p, kind, form, "one"); done = true;});
			sim::sleep_ms(300);
			CHECK(!done, "a safe broadcast returned although a link's buffer is full");
			simnet::set_rx_cap(fa, 1000);
			sim::join(f);
		}
		std::string m2 = bc(w.p, kind, form, "over", true);
		simnet::set_rx_cap(fa, 1000);
		sim::settle();
		std::string ga = simnet::peek_available(fa), want = lv("blocked!") + lv("waiting") + (kind < 2 ? "" : m) + m2;
		CHECK(ga == want, "link with a full buffer gets '%s' instead of '%s'", hex(ga).c_str(), hex(want).c_str());
		sent = m + m2;
		fa = -1;
	}
	else // priority: passes queued messages
	{
		simnet::set_rx_cap(fa, 2);
		CHECK(a->send_msg("blocked!", 8, true), "send_msg"); sim::settle(); CHECK(a->send_msg("waiting", 7, true), "send_msg");
		sim::settle();
		CHECK(a->send_msg("queued", 6, true), "send_msg");
		std::string m = bc(w.p, kind, form, "one", true, true);
		sim::settle();
		simnet::set_rx_cap(fa, 1000);
		sim::settle();
		std::string ga = simnet::peek_available(fa);
		size_t x = ga.find(m);
		CHECK(ga.size() == (lv("blocked!") + lv("waiting") + lv("queued") + m).size() && x != std::string::npos && x < ga.find(lv("queued")), "priority broadcast: '%s'", hex(ga).c_str());
		sent = m;
		fa = -1;
	}
	sim::settle();
	for (int fd : {fa, fc}) if (fd >= 0) {std::string g = simnet::peek_available(fd); CHECK(g == sent, "a link gets '%s' instead of '%s'", hex(g).c_str(), hex(sent).c_str());}
	CHECK(simnet::available(fb) == 0, "a broadcast reaches a link that is not in the pool");
	(void) c;
	sim::finish();
}
SCENARIO(bcast_forms_srv, "every overload of every broadcast function of a server, with free and full buffers and with priority", 0, 1, NULL) {forms<SrvPool>();}
SCENARIO(bcast_forms_cli, "every overload of every broadcast function of a multi-link client", 0, 1, NULL) {forms<CliPool>();}

// messages a1,a2 / b1,b2 of two broadcasters; a link that stays gets all of them, one that comes late a suffix of each sequence, one that goes a prefix
static void check_stream(const std::string& g, int how, const char* who)
{
	std::vector<std::string> v = unlv(g);
	if (how != -1) CHECK(all_lv(v) == g, "%s: '%s' is no sequence of whole messages", who, hex(g).c_str());
	for (char t = 'a'; t <= 'b'; ++t)
	{
		std::string s;
		for (auto& m : v) if (m[0] == t) s += m[1];
		const std::string all = "12";
		bool ok = how == 0 ? s == all : how == 1 ? all.size() >= s.size() && all.substr(all.size() - s.size()) == s : all.substr(0, s.size()) == s;
		CHECK(ok, "%s gets '%s' of broadcaster %c's messages 12", who, s.c_str(), t);
	}
	for (auto& m : v) CHECK(m.size() == 2 && (m[0] == 'a' || m[0] == 'b'), "%s gets '%s'", who, hex(m).c_str());
}
template<typename W> static void race()
{
	W w;
	typedef typename W::Link Link;
	w.start(1 + sim::choose(2, "threads"));
	int go = sim::choose(4, "link goes"), come = sim::choose(2, "link comes"), safe = 2 * sim::choose(2, "safe");
	Link *a, *b;
	int fa = w.add(&a), fb = w.add(&b), fc = -1;
	boost::shared_ptr<Link> hb = w.p.find(b->id());
	sim::window(true);
	std::vector<int> f;
	f.push_back(sim::spawn("broadcaster b", [&] {bc(w.p, safe, 3, "b1"); bc(w.p, safe, 0, "b2");}));
	if (come) f.push_back(sim::spawn("comes", [&] {fc = w.late();}));
	if (go) f.push_back(sim::spawn("goes", [&] {if (go == 1) simnet::close(fb); else if (go == 2) w.p.force_shutdown(hb); else w.p.del_object(b->id());}));
	bc(w.p, safe, 6, "a1");
	bc(w.p, safe, 2, "a2");
	for (int x : f) sim::join(x);
	sim::settle();
	sim::window(false);
	sim::sleep_ms(200);
	check_stream(simnet::peek_available(fa), 0, "a link that stays");
	if (go != 1) check_stream(simnet::peek_available(fb), go ? 2 : 0, go ? "a link that goes" : "a link that stays");
	if (come) {check_stream(simnet::peek_available(fc), 1, "a link that comes");}
	CHECK((int) w.p.size() == 2 + come - (go > 0), "%d links in the pool", (int) w.p.size());
	sim::finish();
}
SCENARIO(bcast_race_srv, "two broadcasters on a server while a link goes and another one comes", 1, 2, NULL) {race<SrvPool>();}
SCENARIO(bcast_race_cli, "two broadcasters on a multi-link client while a link goes and another one comes", 1, 2, NULL) {race<CliPool>();}

template<typename W> static void slow()
{
	W w;
	typedef typename W::Link Link;
	w.start(1 + sim::choose(2, "threads"));
	Link *a, *b, *c;
	int fa = w.add(&a), fb = w.add(&b), fc = w.add(&c), fd = -1;
	int first = sim::choose(2, "who is slow");
	if (first) {std::swap(a, c); std::swap(fa, fc);}
	simnet::set_rx_cap(fa, 2);
	a->send_buf_size(4);
	CHECK(a->send_msg("blocked!", 8, true), "send_msg"); sim::settle(); CHECK(a->send_msg("waiting", 7, true), "send_msg");
	sim::settle();
	int what = sim::choose(5, "meanwhile");
	sim::window(true);
	bool done = false;
	int f = sim::spawn("broadcaster", [&] {w.p.safe_broadcast_msg("hello", 5); done = true;});
	sim::sleep_ms(20);
	switch (what)
	{
	case 0: break;
	case 1: simnet::close(fb); break;                          // another link ends
	case 2: fd = w.late(); break;                              // another link comes
	case 3: {boost::shared_ptr<Link> o = w.p.find(b->id()); if (o) w.p.force_shutdown(o); break;}
	case 4: simnet::reset(fa); break;                          // the slow link ends
	}
	sim::sleep_ms(200);
	if (what < 4) {CHECK(!done, "a safe broadcast returned although a link's buffer is full"); simnet::set_rx_cap(fa, 1000);}
	CHECK(sim::wait_for([&] {return done;}, 5000, "broadcast returns"), "a safe broadcast does not return although the slow link %s", what == 4 ? "has ended" : "accepts data again");
	sim::join(f);
	sim::window(false);
	sim::sleep_ms(200);
	if (what < 4) {std::string g = simnet::peek_available(fa); CHECK(g == lv("blocked!") + lv("waiting") + lv("hello"), "slow link gets '%s'", hex(g).c_str());}
	std::string g = simnet::peek_available(fc);
	CHECK(g == lv("hello"), "another link gets '%s'", hex(g).c_str());
	CHECK((int) w.p.size() == 3 + (what == 2) - (what == 1 || what >= 3), "%d links in the pool", (int) w.p.size());
	(void) fd;
	sim::finish();
}
SCENARIO(bcast_slow_srv, "a safe broadcast waits for a slow link while other links end and come", 1, 2, NULL) {slow<SrvPool>();}
SCENARIO(bcast_slow_cli, "the same on a multi-link client", 1, 2, NULL) {slow<CliPool>();}

static void one_link(Srv& p, const boost::shared_ptr<SSock>& o, int how) {switch (how) {case 0: p.disconnect(o); break; case 1: p.force_shutdown(o); break; case 2: p.graceful_shutdown(o); break; default: CHECK(p.del_socket(o), "del_socket"); CHECK(!p.del_socket(o), "del_socket twice"); break;}}
static void one_link(MC& p, const boost::shared_ptr<MLink>& o, int how) {switch (how) {case 0: p.disconnect(o); break; case 1: p.force_shutdown(o); break; case 2: p.graceful_shutdown(o); break; default: CHECK(p.del_socket(o->id()), "del_socket"); CHECK(!p.del_socket(o->id()), "del_socket twice"); o->force_shutdown(); break;}}
template<typename W> static void shutdowns()
{
	W w;
	typedef typename W::Link Link;
	w.start(1 + sim::choose(2, "threads"));
	int how = sim::choose(7, "operation"), which = sim::choose(2, "which link"), ends = sim::choose(2, "another link ends");
	Link* l[3]; int fd[3];
	for (int i = 0; i < 3; ++i) fd[i] = w.add(&l[i]);
	boost::shared_ptr<Link> h[3];
	for (int i = 0; i < 3; ++i) h[i] = w.p.find(l[i]->id());
	sim::window(true);
	int f = ends ? sim::spawn("peer", [&] {simnet::close(fd[2]);}) : -1;
	int e = how < 4 ? -1 : sim::spawn("watch", [&] {for (int i = 0; i < 3; ++i) if (!ends || i < 2) {CHECK(sim::wait_for([&] {return simnet::at_eof(fd[i]);}, 3000, "end"), "the peer does not see the end of link %d", i); simnet::close(fd[i]);}});
	if (how < 4) {one_link(w.p, h[which], how); CHECK(!w.p.exist(l[which]->id()), "the link is still in the pool after a shutdown that removes it");}
	else if (how == 4) w.p.disconnect();
	else if (how == 5) w.p.force_shutdown();
	else w.p.graceful_shutdown();
	if (f >= 0) sim::join(f);
	if (how >= 4) sim::join(e);
	sim::sleep_ms(100);
	if (how < 4 && !(ends && which == 2)) {CHECK(simnet::at_eof(fd[which]) || simnet::was_reset(fd[which]), "the peer does not see the end of the link"); simnet::close(fd[which]);}
	sim::sleep_ms(300);
	sim::window(false);
	for (int i = 0; i < 3; ++i)
	{
		bool gone = how >= 4 || i == which || (ends && i == 2);
		CHECK(l[i]->closes == (int) gone, "link %d was closed %d times", i, l[i]->closes);
		CHECK(w.p.exist(l[i]->id()) == !gone, "link %d is %sin the pool", i, gone ? "still " : "not ");
		CHECK(l[i]->is_connected() == !gone, "link %d is %sconnected", i, gone ? "still " : "not ");
		if (!gone) {CHECK(!simnet::at_eof(fd[i]) && simnet::send(fd[i], lv("hello")), "send"); sim::settle(); CHECK(l[i]->got.size() == 1, "a link does not work any more after another one was shut down");}
	}
	for (int i = 0; i < 3; ++i) h[i].reset();
	sim::finish();
}
SCENARIO(shut_srv, "every shutdown function for one link and for all links of a server, while another link ends", 1, 2, NULL) {shutdowns<SrvPool>();}
SCENARIO(shut_cli, "the same on a multi-link client", 1, 2, NULL) {shutdowns<CliPool>();}
