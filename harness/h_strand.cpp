// C37: the callbacks of one link's receiving and sending exclude each other
#include "srvfix.h"
#include "ext/udp.h"
// callbacks that belong to receiving or sending
struct Io
{
	int n = 0; const char* who = "";
	void enter(const char* name) {CHECK(n++ == 0, "%s is called while %s of the same link is running", name, who); who = name; sim::yield_point(); sim::yield_point(); --n;}
};
template<typename L> static void watch(L& l, Io& io)
{
	l.send_hook = [&io] {io.enter("on_msg_send");};
	l.all_sent_hook = [&io] {io.enter("on_all_msg_send");};
	l.recv_err_hook = [&io] {io.enter("on_recv_error");};
	l.fail_hook = [&io](typename L::in_container_type&) {io.enter("on_send_error");};
#ifdef ST_ASIO_SYNC_DISPATCH
	l.sync_handler = [&io, &l](list<std::string>& can) {io.enter("on_msg"); size_t n = can.size(); for (auto& m : can) {sim::NoPreempt np; l.got.push_back(m);} can.clear(); return n;};
#endif
}
enum {NOTHING, CLOSE, RESET, BAD, ENDS};
static const char* end_names[] = {"nothing", "close", "reset", "bad message"};
template<typename L> static void traffic(L& l, int fd, int how, int senders)
{
	std::vector<int> f;
	for (int s = 0; s < senders; ++s)
		f.push_back(sim::spawn("sender", [&, s] {for (int i = 0; i < 2; ++i) l.send_msg(std::string(1, 'a' + s) + num(i), true);}));
	f.push_back(sim::spawn("peer", [&, how] {
		simnet::send(fd, lv("one"));
		sim::yield_point();
		simnet::send(fd, lv("two") + lv("three"));
		if (how == CLOSE) simnet::close(fd); else if (how == RESET) simnet::reset(fd); else if (how == BAD) simnet::send(fd, std::string("\0\1", 2));
	}));
	for (int x : f) sim::join(x);
}
struct LClient : public Client
{
	Io io;
	LClient(boost::asio::io_context& c) : Client(c) {watch(*this, io);}
	LClient(i_matrix& m) : Client(m) {watch(*this, io);}
	virtual void on_unpack_error() {io.enter("on_unpack_error"); Client::on_unpack_error();}
};
static void cut() {simnet::cfg.send_short = simnet::cfg.recv_short = true;}
SCENARIO(strand_client, "a client link that sends and receives at the same time and then breaks, two or three service threads", 2, 3, cut)
{
	int l = (sim::window(false), srv_listen());
	service_pump sp;
	st_asio_wrapper::tcp::single_client_base<LClient> c(sp);
	srv_addr(c);
	int how = sim::choose(ENDS, "end");
	sp.start_service(2 + sim::choose(2, "threads"));
	int fd = simnet::accept(l);
	sim::wait_until([&] {return c.is_connected();}, "connected");
	sim::settle();
	sim::window(true);
	traffic(c, fd, how, 1);
	sim::settle();
	if (how == NOTHING) CHECK(c.got.size() == 3, "%d of 3 messages arrived", (int) c.got.size());
	sim::outcome(end_names[how]);
	sim::finish();
}
SCENARIO(strand_server, "a server link that sends and receives at the same time and then breaks, two or three service threads", 2, 3, cut)
{
	sim::window(false);
	static Io io;
	service_pump sp;
	Srv s(sp);
	srv_addr(s);
	sh().start = [](SSock& l) {watch(l, io);};
	int how = sim::choose(ENDS, "end");
	sp.start_service(2 + sim::choose(2, "threads"));
	int fd = srv_connect();
	sim::wait_until([&] {return sh().starts == 1;}, "accepted");
	sim::settle();
	boost::shared_ptr<SSock> l = s.at(0);
	sim::window(true);
	traffic(*l, fd, how, 2);
	sim::settle();
	if (how == NOTHING) CHECK(l->got.size() == 3, "%d of 3 messages arrived", (int) l->got.size());
	sim::outcome(end_names[how]);
	sim::finish();
}
struct USock : public st_asio_wrapper::udp::socket_base<ext::packer<>, ext::udp_unpacker>
{
	typedef st_asio_wrapper::udp::socket_base<ext::packer<>, ext::udp_unpacker> base;
	Io io; int got = 0, sent = 0;
	template<typename A> USock(A& a) : base(a) {}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& m) {++sent; io.enter("on_msg_send");}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_msg_type& m) {io.enter("on_all_msg_send");}
#endif
	virtual void on_send_error(const boost::system::error_code& ec, in_msg& m) {io.enter("on_send_error"); base::on_send_error(ec, m);}
	virtual void on_recv_error(const boost::system::error_code& ec) {io.enter("on_recv_error"); base::on_recv_error(ec);}
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<out_msg_type>& can) {io.enter("on_msg"); size_t n = can.size(); {sim::NoPreempt np; got += n;} can.clear(); return n;}
#endif
};
SCENARIO(strand_udp, "a UDP socket that sends and receives at the same time", 2, 3, [] {simnet::cfg.send_eagain = simnet::cfg.dgram_send_err = true;})
{
	sim::window(false);
	service_pump sp;
	st_asio_wrapper::udp::single_socket_service_base<USock> u(sp);
	u.set_local_addr(PORT, "127.0.0.1");
	u.set_peer_addr(PORT + 1, "127.0.0.1");
	sp.start_service(2 + sim::choose(2, "threads"));
	int fd = simnet::udp(PORT + 1);
	sim::settle();
	sim::window(true);
	int a = sim::spawn("sender", [&] {for (int i = 0; i < 2; ++i) u.send_msg("a" + num(i), true);});
	int b = sim::spawn("peer", [&] {for (int i = 0; i < 3; ++i) simnet::udp_send(fd, PORT, lv("m"));});
	sim::join(a); sim::join(b);
	sim::settle();
#ifdef ST_ASIO_SYNC_DISPATCH
	CHECK(u.got == 3, "%d of 3 datagrams arrived", u.got);
#endif
	sim::finish();
}
