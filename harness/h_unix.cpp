// C34: the library's own UNIX domain classes with each other: servers, single and multi-link clients, datagram sockets
#include <boost/thread.hpp>
#include "common.h"
#include "ext/tcp.h"
#include "ext/udp.h"
using namespace st_asio_wrapper;
typedef ext::tcp::unix_server_socket2<> SockBase;
struct Ev {int starts = 0, closes = 0; std::vector<std::string> got;};
static Ev& sev() {static Ev e; return e;}
static Ev& cev() {static Ev e; return e;}
struct Sock : public SockBase
{
	Sock(st_asio_wrapper::tcp::i_server& s) : SockBase(s) {}
	virtual void on_connect() {++sev().starts; SockBase::on_connect();}
	virtual void on_close() {++sev().closes; SockBase::on_close();}
	virtual bool on_msg_handle(out_msg_type& m)
	{
		sim::yield_point();
		std::string s(m.data(), m.size());
		sev().got.push_back(s);
		send_msg("re:" + s, true);
		return true;
	}
};
typedef ext::tcp::unix_server2<Sock> Server;
template<typename B> struct Cli : public B
{
	template<typename A> Cli(A& a) : B(a) {}
	virtual void on_connect() {++cev().starts; B::on_connect();}
	virtual void on_close() {++cev().closes; B::on_close();}
	virtual bool on_msg_handle(typename B::out_msg_type& m) {sim::yield_point(); cev().got.push_back(std::string(m.data(), m.size())); return true;}
};
typedef Cli<ext::tcp::unix_client_socket> Link;
typedef tcp::single_client_base<Link> Single;
typedef tcp::multi_client_base<Link> Multi;
static std::string all(const std::vector<std::string>& v) {std::string s; for (auto& x : v) s += hex(x) + " "; return s;}

SCENARIO(unix_pair, "a stock server and client, default and chosen path, messages both ways, ended by either side or the service, server first or late, restarted", 1, 2, NULL)
{
	sim::window(false);
	service_pump sp;
	Server s(sp);
	Single c(sp);
	int n = 1 + sim::choose(3, "messages"), end = sim::choose(5, "end");
	bool two = sim::choose(2, "threads");
	int where = end == 4 && two && n == 1 ? sim::choose(3, "path") : 1;
	if (where == 1) {s.set_server_addr("/run/x"); c.set_server_addr("/run/x");}
	else if (where == 2) {s.set_server_addr("rel"); c.set_server_addr("rel");}
	sim::window(true);
	sp.start_service(two ? 2 : 1);
	CHECK(sim::wait_for([&] {return sev().starts == 1 && cev().starts == 1;}, 3000, "connected"), "client and server do not connect");
	std::vector<std::string> want, back;
	for (int i = 0; i < n; ++i) {std::string m = "m" + num(i); want.push_back(m); back.push_back("re:" + m); CHECK(c.send_msg(m, true), "send_msg");}
	CHECK(sim::wait_for([&] {return (int) cev().got.size() >= n;}, 1000, "answers"), "no answers");
	CHECK(all(sev().got) == all(want), "the server got '%s' instead of '%s'", all(sev().got).c_str(), all(want).c_str());
	CHECK(all(cev().got) == all(back), "the client got '%s' instead of '%s'", all(cev().got).c_str(), all(back).c_str());
	switch (end)
	{
	case 0: c.force_shutdown(false); break;
	case 1: c.graceful_shutdown(false); break;
	case 2: c.set_reconnect(false); s.force_shutdown(); break;
	case 3: c.set_reconnect(false); s.graceful_shutdown(); break;
	default: sp.stop_service();
	}
	CHECK(sim::wait_for([&] {return sev().closes == 1 && cev().closes == 1;}, 6000, "closed"), "links ended (%d): server %d client %d close notifications", end, sev().closes, cev().closes);
	sim::window(false);
	sim::settle();
	if (end == 4) sp.start_service(1); else c.start();
	CHECK(sim::wait_for([&] {return sev().starts == 2 && cev().starts == 2;}, 3000, "again"), "does not connect again");
	CHECK(c.send_msg(std::string("again"), true), "send_msg");
	sim::settle();
	CHECK(all(cev().got) == all(back) + "re:again ", "the new link delivers '%s'", all(cev().got).c_str());
	sp.stop_service();
	CHECK(sev().closes == 2 && cev().closes == 2, "closes %d %d", sev().closes, cev().closes);
	sim::finish();
}
SCENARIO(unix_multi, "a stock server and a multi-link client with 1-3 links, broadcasts from both sides, one link goes", 1, 2, NULL)
{
	sim::window(false);
	service_pump sp;
	Server s(sp);
	Multi c(sp);
	int k = 1 + sim::choose(3, "links"), late = sim::choose(2, "links added"), gone = sim::choose(3, "one goes");
	sim::window(true);
	if (late) sp.start_service(2);
	std::vector<boost::shared_ptr<Link> > ls;
	for (int i = 0; i < k; ++i) {ls.push_back(c.add_socket()); CHECK(!!ls.back(), "add_socket");}
	if (!late) sp.start_service(2);
	CHECK(sim::wait_for([&] {return sev().starts == k && cev().starts == k;}, 3000, "connected"), "only %d of %d links connect", cev().starts, k);
	sim::window(false);
	sim::settle();
	CHECK((int) s.size() == k && (int) c.size() == k && (int) c.valid_size() == k, "sizes %d %d", (int) s.size(), (int) c.size());
	sim::window(true);
	if (gone) {if (gone == 1) c.force_shutdown(ls[0]); else {ls[0]->set_reconnect(false); ls[0]->graceful_shutdown(false);}
		CHECK(sim::wait_for([&] {return sev().closes == 1 && cev().closes == 1;}, 3000, "closed"), "one link ended: server %d client %d close notifications", sev().closes, cev().closes);}
	int left = k - (gone ? 1 : 0);
	s.broadcast_msg(std::string("from server"), true);
	c.broadcast_msg(std::string("from client"), true);
	CHECK(sim::wait_for([&] {return (int) cev().got.size() == 2 * left;}, 1000, "all"), "%d messages instead of %d", (int) cev().got.size(), 2 * left);
	CHECK((int) sev().got.size() == left, "server got %d", (int) sev().got.size());
	int a = 0, b = 0;
	for (auto& m : cev().got) {if (m == "from server") ++a; else if (m == "re:from client") ++b; else CHECK(false, "unexpected message");}
	CHECK(a == left && b == left, "%d broadcasts and %d answers for %d links", a, b, left);
	sp.stop_service();
	CHECK(sev().closes == k && cev().closes == k, "closes %d %d for %d links", sev().closes, cev().closes, k);
	sim::finish();
}
// datagram sockets
struct U : public ext::udp::unix_socket
{
	template<typename A> U(A& a) : ext::udp::unix_socket(a) {}
	std::vector<std::string> got; int closes = 0;
	std::string me;
	virtual bool on_msg_handle(out_msg_type& m) {sim::yield_point(); got.push_back(m.peer_addr.path() + "=" + std::string(m.data(), m.size())); return true;}
	virtual void on_close() {++closes; ext::udp::unix_socket::on_close();}
};
SCENARIO(unix_udp, "two or three datagram sockets in a single and a multi-socket service: every message reaches the addressed path, with the sender's path", 1, 2, NULL)
{
	sim::window(false);
	service_pump sp;
	udp::single_socket_service_base<U> a(sp);
	udp::multi_socket_service_base<U> m(sp);
	int k = 1 + sim::choose(2, "sockets"), form = sim::choose(4, "form"); bool native = sim::choose(2, "native");
	a.set_local_addr("/a");
	std::vector<boost::shared_ptr<U> > us;
	for (int i = 0; i < k; ++i)
	{
		boost::shared_ptr<U> u = m.create_object();
		u->me = "/b" + num(i);
		u->set_local_addr(u->me);
		u->set_peer_addr("/a");
		CHECK(m.add_socket(u), "add_socket");
		us.push_back(u);
	}
	a.set_peer_addr("/b0");
	sp.start_service(2);
	sim::settle();
	sim::window(true);
	std::string head = native ? "" : std::string("\0\x04", 2);
	std::string wa;
	for (int i = 0; i < k; ++i)
	{
		std::string s = "x" + num(i);
		bool ok;
		if (form == 0) {ok = native ? us[i]->send_native_msg(s.data(), s.size()) : us[i]->send_msg(s.data(), s.size());}
		else if (form == 1) {std::string t(s); ok = native ? us[i]->send_native_msg(t) : us[i]->send_msg(t);}
		else {boost::asio::local::datagram_protocol::endpoint e("/a"); if (form == 2) ok = native ? us[i]->send_native_msg(e, s.data(), s.size()) : us[i]->send_msg(e, s.data(), s.size()); else {std::string t(s); ok = native ? us[i]->safe_send_native_msg(e, t) : us[i]->safe_send_msg(e, t);}}
		CHECK(ok, "sending is refused");
	}
	std::string t("y0");
	CHECK(native ? a.send_native_msg(t) : a.send_msg(t), "sending is refused");
	CHECK(sim::wait_for([&] {return (int) a.got.size() == k && us[0]->got.size() == 1;}, 1000, "delivered"), "%d and %d datagrams are delivered", (int) a.got.size(), (int) us[0]->got.size());
	sim::window(false);
	sim::settle();
	std::vector<std::string> g = a.got; std::sort(g.begin(), g.end());
	for (int i = 0; i < k; ++i) {std::string w = "/b" + num(i) + "=" + head + "x" + num(i); CHECK((int) g.size() > i && g[i] == w, "got '%s' instead of '%s'", hex((int) g.size() > i ? g[i] : "").c_str(), hex(w).c_str());}
	CHECK(us[0]->got[0] == "/a=" + head + "y0", "got '%s'", hex(us[0]->got[0]).c_str());
	CHECK(k < 2 || us[1]->got.empty(), "a datagram for another path");
	sp.stop_service();
	CHECK(a.closes == 1 && us[0]->closes == 1, "closes");
	sim::finish();
}
