// C33: callbacks registered at run time (ext/callbacks.h)
#include "common.h"
#include "ext/tcp.h"
#include "ext/udp.h"
#include "ext/callbacks.h"
using namespace st_asio_wrapper;
namespace cb = st_asio_wrapper::ext::callbacks;
typedef boost::system::error_code EC;

static std::vector<std::string>& LOG() {static std::vector<std::string> v; return v;}
static bool direct = false;  // the virtual functions are called by the harness, the built-in ones only record
static int cb_ret = 0, built_ret = 0;
static std::map<std::string, int>& rets() {static std::map<std::string, int> m; return m;} // results of callbacks by name when a real link runs
static std::string join_str(const std::vector<std::string>& v) {std::string s; for (auto& x : v) s += "[" + x + "] "; return s;}
static void put(const std::string& s) {sim::NoPreempt n; LOG().push_back(s);}
static std::string arg(const EC& e) {return num(e.value());}
static std::string arg(size_t n) {return num(n);}
template<typename T> static std::string arg(const boost::shared_ptr<T>& p) {char b[32]; snprintf(b, sizeof b, "%p", (void*) p.get()); return b;}
template<typename T> static std::string arg(const T& t) {char b[32]; snprintf(b, sizeof b, "%p", (void*) &t); return b;} // by reference: the same object
static std::string args() {return "";}
template<typename T, typename... R> static std::string args(T& t, R&... r) {return "," + arg(t) + args(r...);}
template<typename S> static std::string who(S* s) {char b[32]; snprintf(b, sizeof b, "%p", (void*) s); return b;}
template<typename R> struct Conv {static R of(int i) {return (R) i;}};
template<> struct Conv<void> {static void of(int) {}};
static int result_of(const char* name, int dflt) {std::map<std::string, int>::iterator i = rets().find(name); return i == rets().end() ? dflt : i->second;}

// the layer under the callbacks: records that the built-in handling is reached
#define BUILT(R, NAME, PARAMS, CALL, ...) virtual R NAME PARAMS {put("built " #NAME " " + who(static_cast<ME*>(this)) + args(__VA_ARGS__)); if (direct) return Conv<R>::of(built_ret); return super::NAME CALL;}
#define BUILT0(R, NAME) virtual R NAME() {put("built " #NAME " " + who(static_cast<ME*>(this))); if (direct) return Conv<R>::of(built_ret); return super::NAME();}
#define COMMON_EVENTS \
	BUILT0(bool, obsoleted) BUILT0(bool, is_ready) BUILT0(void, send_heartbeat) BUILT0(void, reset) BUILT0(bool, on_heartbeat_error) BUILT0(void, on_close) BUILT0(void, after_close) \
	BUILT(void, on_recv_error, (const EC& ec), (ec), ec)
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
#define HANDLE_EVENT BUILT(size_t, on_msg_handle, (typename super::out_queue_type& q), (q), q)
#else
#define HANDLE_EVENT BUILT(bool, on_msg_handle, (typename super::out_msg_type& m), (m), m)
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
#define SYNC_EVENT BUILT(size_t, on_msg, (list<typename super::out_msg_type>& m), (m), m)
#else
#define SYNC_EVENT
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
#define SEND_EVENT virtual void on_msg_send(typename super::in_msg_type& m) {put("built on_msg_send " + who(this) + args(m));}
#else
#define SEND_EVENT
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
#define ALL_EVENT virtual void on_all_msg_send(typename super::in_msg_type& m) {put("built on_all_msg_send " + who(this) + args(m));}
#else
#define ALL_EVENT
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
#define SHRINK_EVENT BUILT(size_t, calc_shrink_size, (size_t n), (n), n) BUILT(void, on_msg_discard, (typename super::in_container_type& c), (c), c)
#else
#define SHRINK_EVENT
#endif
template<typename S> struct UMid : public S
{
	typedef S super; typedef UMid ME;
	template<typename A> UMid(A& a) : S(a) {}
	template<typename A, typename B> UMid(A& a, B& b) : S(a, b) {}
	COMMON_EVENTS HANDLE_EVENT SYNC_EVENT SEND_EVENT ALL_EVENT SHRINK_EVENT
};
template<typename S> struct TMid : public UMid<S>
{
	typedef S super; typedef TMid ME;
	template<typename A> TMid(A& a) : UMid<S>(a) {}
	template<typename A, typename B> TMid(A& a, B& b) : UMid<S>(a, b) {}
	BUILT(void, on_send_error, (const EC& ec, typename super::in_container_type& c), (ec, c), ec, c)
	BUILT0(void, on_connect) BUILT0(void, on_unpack_error) BUILT0(void, on_async_shutdown_error)
};
template<typename S> struct DMid : public UMid<S>
{
	typedef S super; typedef DMid ME;
	template<typename A> DMid(A& a) : UMid<S>(a) {}
	BUILT(void, on_send_error, (const EC& ec, typename super::in_msg& c), (ec, c), ec, c)
};
template<typename S> struct CMid : public TMid<S>
{
	typedef S super; typedef CMid ME;
	template<typename A> CMid(A& a) : TMid<S>(a) {}
	template<typename A, typename B> CMid(A& a, B& b) : TMid<S>(a, b) {}
	BUILT(int, prepare_reconnect, (const EC& ec), (ec), ec)
};
template<typename S> struct SMid : public TMid<S>
{
	typedef S super; typedef SMid ME;
	template<typename A> SMid(A& a) : TMid<S>(a) {}
	BUILT(void, take_over, (boost::shared_ptr<typename S::type_of_object_restore> p), (p), p)
};
typedef cb::c_socket<CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > > > C;
typedef cb::s_socket<SMid<st_asio_wrapper::tcp::server_socket_base<ext::packer<>, ext::unpacker<> > > > L;
typedef cb::udp_socket<DMid<st_asio_wrapper::ext::udp::socket> > U;
template<typename P> struct PMid : public P
{
	typedef P super; typedef PMid ME;
	template<typename A> PMid(A& a) : P(a) {}
	typedef typename P::object_ctype oct;
	BUILT(void, on_create, (oct& p), (p), p)
};
typedef cb::object_pool<PMid<st_asio_wrapper::object_pool<L> > > Pool;
template<typename P> struct SVMid : public P
{
	typedef P super; typedef SVMid ME;
	SVMid(service_pump& sp) : P(sp) {}
	using P::create_object;
	typedef typename P::object_ctype oct;
	BUILT0(int, async_accept_num) BUILT0(void, start_next_accept) BUILT(bool, on_accept, (oct& p), (p), p) BUILT(bool, on_accept_error, (const EC& ec, oct& p), (ec, p), ec, p)
};
typedef cb::server<SVMid<st_asio_wrapper::tcp::server_base<L, Pool> > > Server;
struct Client : public st_asio_wrapper::tcp::single_client_base<C> {Client(service_pump& sp) : st_asio_wrapper::tcp::single_client_base<C>(sp) {}};

// registration in every form; MODES 1..6: functor/function x default/pass on/don't pass on; 7: registered, then replaced; 8: registered, then removed
enum {NONE, MODES = 9};
enum Kind {VOID, COMBINE, RETURN};
static bool passes(int mode, bool dflt) {return mode == 1 || mode == 4 ? dflt : mode == 2 || mode == 5 || mode == 7 ? true : mode == 3 || mode == 6 ? false : true;}
// -- the direct test: registers an event in every mode, calls the virtual function, compares with what must happen
struct Direct
{
	int checked = 0;
	template<typename REG, typename CALL> void run(const char* name, Kind k, bool dflt, REG reg, CALL call, const std::string& self, const std::string& expect_args, int lo, int hi)
	{
		for (int mode = 0; mode < MODES; ++mode)
			for (int c = lo; c <= hi; ++c)
				for (int b = lo; b <= hi; ++b)
				{
					reg(mode);
					cb_ret = c; built_ret = b;
					bool has = mode >= 1 && mode <= 7, pass = passes(mode, dflt);
					std::vector<std::string> want;
					int re = k == COMBINE ? 1 : 0;
					if (has) {want.push_back((mode == 7 ? "cb2 " : "cb ") + std::string(name) + " " + self + expect_args); re = c;}
					if (pass && (k != COMBINE || re)) {want.push_back("built " + std::string(name) + " " + self + expect_args); re = b;}
					for (int twice = 0; twice < 2; ++twice)
					{
						LOG().clear();
						direct = true;
						int r = call();
						direct = false;
						CHECK(LOG() == want, "%s, registered in mode %d: called %s instead of %s", name, mode, join_str(LOG()).c_str(), join_str(want).c_str());
						if (k != VOID) CHECK(r == re, "%s, registered in mode %d: returned %d instead of %d (callback %d, built-in %d)", name, mode, r, re, c, b);
						++checked;
					}
				}
		reg(8); // leave it unregistered
	}
};
template<typename R, typename... A> struct Hit // what a registered function does
{
	const char *w, *n;
	Hit(const char* w_, const char* n_) : w(w_), n(n_) {}
	template<typename S> R go(S* s, A... a) const {put(std::string(w) + " " + n + " " + who(s) + args(a...)); return Conv<R>::of(direct ? cb_ret : result_of(n, cb_ret));}
};
template<typename F, int N> struct Bound; // functor and function pointer from the function type of the event
template<typename R, typename S, typename... A, int N> struct Bound<R(S*, A...), N>
{
	static const char*& name() {static const char* n; return n;}
	const char* w;
	const char* n;
	Bound(const char* w_, const char* n_) : w(w_), n(n_) {}
	R operator()(S* s, A... a) const {return Hit<R, A...>(w, n).go(s, a...);}
	static R fn(S* s, A... a) {return Hit<R, A...>("cb", name()).go(s, a...);}
};
#define REG(O, NAME, N) [&](int mode) { \
	typedef Bound<typename std::remove_reference<decltype(O)>::type::fo_##NAME, N> B; \
	B::name() = #NAME; \
	switch (mode) \
	{ \
	case 0: break; \
	case 1: O.register_##NAME(B("cb", #NAME)); break; \
	case 2: O.register_##NAME(B("cb", #NAME), true); break; \
	case 3: O.register_##NAME(B("cb", #NAME), false); break; \
	case 4: O.register_##NAME(&B::fn); break; \
	case 5: O.register_##NAME(&B::fn, true); break; \
	case 6: O.register_##NAME(&B::fn, false); break; \
	case 7: O.register_##NAME(B("cb", #NAME), false); O.register_##NAME(B("cb2", #NAME), true); break; \
	case 8: O.register_##NAME(B("cb", #NAME), false); O.register_##NAME(boost::function<typename std::remove_reference<decltype(O)>::type::fo_##NAME>(), true); break; \
	}}
#define T0(O, M, NAME, DFLT, N) d.run(#NAME, VOID, DFLT, REG(O, NAME, N), [&] {M.NAME(); return 0;}, who(&M), "", 0, 0)
#define T0B(O, M, NAME, DFLT, N) d.run(#NAME, COMBINE, DFLT, REG(O, NAME, N), [&] {return (int) M.NAME();}, who(&M), "", 0, 1)
template<typename S, typename M> static void common_events(Direct& d, S& s, M& m)
{
	EC ec(boost::asio::error::connection_reset);
	typename M::in_container_type can;
	typename M::in_msg_type im;
	typename M::out_msg_type om;
	T0B(s, m, obsoleted, true, 0); T0B(s, m, is_ready, true, 1); T0(s, m, send_heartbeat, false, 2); T0(s, m, reset, true, 3); T0B(s, m, on_heartbeat_error, true, 4);
	T0(s, m, on_close, true, 5); T0(s, m, after_close, true, 6);
	d.run("on_recv_error", VOID, true, REG(s, on_recv_error, 8), [&] {m.on_recv_error(ec); return 0;}, who(&m), args(ec), 0, 0);
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	typename M::out_queue_type q;
	d.run("on_msg_handle", RETURN, false, REG(s, on_msg_handle, 9), [&] {return (int) m.on_msg_handle(q);}, who(&m), args(q), 0, 3);
#else
	d.run("on_msg_handle", COMBINE, false, REG(s, on_msg_handle, 9), [&] {return (int) m.on_msg_handle(om);}, who(&m), args(om), 0, 1);
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	list<typename M::out_msg_type> ms;
	d.run("on_msg", RETURN, false, REG(s, on_msg, 10), [&] {return (int) m.on_msg(ms);}, who(&m), args(ms), 0, 3);
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	d.run("on_msg_send", VOID, false, REG(s, on_msg_send, 11), [&] {m.on_msg_send(im); return 0;}, who(&m), args(im), 0, 0);
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	d.run("on_all_msg_send", VOID, false, REG(s, on_all_msg_send, 12), [&] {m.on_all_msg_send(im); return 0;}, who(&m), args(im), 0, 0);
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	for (size_t n = 0; n < 3; ++n) d.run("calc_shrink_size", RETURN, false, REG(s, calc_shrink_size, 13), [&] {return (int) m.calc_shrink_size(n);}, who(&m), args(n), 0, 3);
	d.run("on_msg_discard", VOID, false, REG(s, on_msg_discard, 14), [&] {m.on_msg_discard(can); return 0;}, who(&m), args(can), 0, 0);
#endif
}
template<typename S, typename M> static void tcp_events(Direct& d, S& s, M& m)
{
	EC ec(boost::asio::error::connection_reset);
	typename M::in_container_type can;
	d.run("on_send_error", VOID, true, REG(s, on_send_error, 7), [&] {m.on_send_error(ec, can); return 0;}, who(&m), args(ec, can), 0, 0);
	T0(s, m, on_connect, false, 15); T0(s, m, on_unpack_error, true, 16); T0(s, m, on_async_shutdown_error, true, 17);}
template<typename T> struct BaseOf;
template<typename B> struct BaseOf<cb::c_socket<B> > {typedef B type;};
template<typename B> struct BaseOf<cb::s_socket<B> > {typedef B type;};
template<typename B> struct BaseOf<cb::udp_socket<B> > {typedef B type;};
template<typename B> struct BaseOf<cb::server<B> > {typedef B type;};
template<typename B> struct BaseOf<cb::object_pool<B> > {typedef B type;};
SCENARIO(cb_direct, "every callback of every class in every form of registration, with every combination of results", 0, 0, NULL)
{
	sim::window(false);
	Direct d;
	service_pump sp;
	EC ec(boost::asio::error::connection_reset), ok;
	switch (sim::choose(5, "class"))
	{
	case 0:
	{
		Client c(sp);
		C& s = c;
		BaseOf<C>::type& m = c;
		common_events(d, s, m); tcp_events(d, s, m);
		d.run("prepare_reconnect", RETURN, false, REG(s, prepare_reconnect, 20), [&] {return m.prepare_reconnect(ec);}, who(&m), args(ec), -1, 2);
		d.run("prepare_reconnect", RETURN, false, REG(s, prepare_reconnect, 20), [&] {return m.prepare_reconnect(ok);}, who(&m), args(ok), -1, 2);
		break;
	}
	case 1:
	{
		Server sv(sp);
		boost::shared_ptr<L> l = sv.create_object();
		LOG().clear();
		L& s = *l;
		BaseOf<L>::type& m = s;
		common_events(d, s, m); tcp_events(d, s, m);
		boost::shared_ptr<L::type_of_object_restore> p = l;
		d.run("take_over", VOID, false, REG(s, take_over, 21), [&] {m.take_over(p); return 0;}, who(&m), args(p), 0, 0);
		break;
	}
	case 2:
	{
		boost::asio::io_context& io = sp.assign_io_context();
		U u(io);
		BaseOf<U>::type& m = u;
		common_events(d, u, m);
		BaseOf<U>::type::in_msg im;
		d.run("on_send_error", VOID, true, REG(u, on_send_error, 7), [&] {m.on_send_error(ec, im); return 0;}, who(&m), args(ec, im), 0, 0);
		break;
	}
	case 3:
	{
		Server sv(sp);
		BaseOf<Server>::type& m = sv;
		boost::shared_ptr<L> l = sv.create_object();
		BaseOf<Server>::type::object_ctype& p = l;
		d.run("async_accept_num", RETURN, false, REG(sv, async_accept_num, 22), [&] {return m.async_accept_num();}, who(&m), "", 0, 3);
		T0(sv, m, start_next_accept, true, 23);
		d.run("on_accept", COMBINE, true, REG(sv, on_accept, 24), [&] {return (int) m.on_accept(p);}, who(&m), args(p), 0, 1);
		d.run("on_accept_error", COMBINE, true, REG(sv, on_accept_error, 25), [&] {return (int) m.on_accept_error(ec, p);}, who(&m), args(ec, p), 0, 1);
		break;
	}
	case 4:
	{
		Server sv(sp);
		Pool& pool = sv;
		BaseOf<Pool>::type& m = sv;
		boost::shared_ptr<L> l = sv.create_object();
		BaseOf<Pool>::type::object_ctype& p = l;
		d.run("on_create", VOID, false, REG(pool, on_create, 26), [&] {m.on_create(p); return 0;}, who(&m), args(p), 0, 0);
		break;
	}
	}
	sim::outcome(num(d.checked));
	LOG().clear();
	sim::finish();
}
// ---- the whole life of real links: with everything registered and passed on, each built-in event is preceded by exactly one call of its callback, and the life is the same as without callbacks
template<typename S> static void reg_common(S& s, int mode)
{
	REG(s, obsoleted, 0)(mode); REG(s, is_ready, 1)(mode); REG(s, send_heartbeat, 2)(mode); REG(s, reset, 3)(mode); REG(s, on_heartbeat_error, 4)(mode); REG(s, on_recv_error, 8)(mode); REG(s, on_close, 5)(mode); REG(s, after_close, 6)(mode);
	REG(s, on_msg_handle, 9)(mode); REG(s, on_send_error, 7)(mode);
#ifdef ST_ASIO_SYNC_DISPATCH
	REG(s, on_msg, 10)(mode);
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	REG(s, on_msg_send, 11)(mode);
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	REG(s, on_all_msg_send, 12)(mode);
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	REG(s, calc_shrink_size, 13)(mode); REG(s, on_msg_discard, 14)(mode);
#endif
}
template<typename S> static void reg_tcp(S& s, int mode) {reg_common(s, mode); REG(s, on_connect, 15)(mode); REG(s, on_unpack_error, 16)(mode); REG(s, on_async_shutdown_error, 17)(mode);}
static std::vector<std::string> names(bool registered)
{
	std::vector<std::string> v;
	for (size_t i = 0; i < LOG().size(); ++i)
	{
		std::string s = LOG()[i];
		if (s.compare(0, 3, "cb ") == 0)
		{
			CHECK(registered, "a callback that was not registered: %s", s.c_str());
			CHECK(i + 1 < LOG().size() && LOG()[i + 1] == "built " + s.substr(3), "after %s came %s", s.c_str(), i + 1 < LOG().size() ? LOG()[i + 1].c_str() : "nothing");
		}
		else
		{
			CHECK(!registered || (i > 0 && LOG()[i - 1] == "cb " + s.substr(6)), "%s without its callback", s.c_str());
			std::string n = s.substr(6);
			v.push_back(n.substr(0, n.find(' ')));
		}
	}
	return v;
}
static const int P1 = 6001, P2 = 6002;
static std::vector<std::string> client_life(bool reg, int end)
{
	LOG().clear();
	int l = simnet::listen(P1), k = 0;
	service_pump sp;
	Client c(sp);
	c.set_server_addr(P1, "127.0.0.1");
	c.set_reconnect(true);
	if (reg) {C& s = c; reg_tcp(s, 2); REG(s, prepare_reconnect, 20)(2); cb_ret = 1;}
	LOG().clear();
	sp.start_service(1);
	for (; k < 2; ++k)
	{
		int fd = simnet::accept(l);
		CHECK(sim::wait_for([&] {return c.is_connected();}, 1000, "connected"), "not connected");
		c.start_heartbeat(1, 2);
		sim::settle();
		std::string x("hello");
		c.send_msg(x, false);
		simnet::send(fd, lv("one") + lv("two"));
		sim::sleep_ms(50);
		switch (end)
		{
		case 0: simnet::close(fd); break;
		case 1: c.force_shutdown(true); break;
		case 2: simnet::send(fd, std::string("\0\0", 2)); break;
		case 3: sim::sleep_ms(2500); break; // heartbeats, then silence
		case 4: c.graceful_shutdown(true); break;
		case 5: simnet::reset(fd); break;
		}
		sim::sleep_ms(2100);
	}
	c.set_reconnect(false);
	c.force_shutdown();
	sim::sleep_ms(200);
	sp.stop_service();
	std::vector<std::string> v = names(reg);
	simnet::close(l);
	return v;
}
static std::vector<std::string> server_life(bool reg, int end)
{
	LOG().clear();
	service_pump sp;
	Server sv(sp);
	sv.set_server_addr(P2, "127.0.0.1");
	if (reg)
	{
		REG(sv, async_accept_num, 22)(2); REG(sv, start_next_accept, 23)(2); REG(sv, on_accept, 24)(2); REG(sv, on_accept_error, 25)(2);
		Pool& p = sv;
		typedef BaseOf<Pool>::type PB;
		p.register_on_create([](PB* s, PB::object_ctype& o) {Bound<Pool::fo_on_create, 30>("cb", "on_create")(s, o); reg_tcp(*o, 2); REG((*o), take_over, 21)(2);}, true);
		cb_ret = 1;
	}
	sp.start_service(1);
	sim::settle();
	for (int k = 0; k < 2; ++k)
	{
		int fd = simnet::connect(P2);
		sim::settle();
		CHECK(sv.size() == 1, "%d links", (int) sv.size());
		sv.safe_broadcast_msg("hi", 2);
		simnet::send(fd, lv("one") + lv("two"));
		sim::sleep_ms(50);
		if (end == 0) simnet::close(fd); else if (end == 1) sv.force_shutdown(); else if (end == 2) simnet::send(fd, std::string("\0\0", 2)); else if (end == 4) sv.graceful_shutdown(); else if (end == 5) simnet::reset(fd);
		sim::sleep_ms(2100);
		if (end == 3) {sv.force_shutdown(); sim::sleep_ms(500);}
		sv.clear_obsoleted_object();
		sim::sleep_ms(200);
	}
	sp.stop_service();
	sim::settle();
	return names(reg);
}
SCENARIO(cb_life, "the lives of a client and of a server are the same with and without callbacks that pass everything on", 0, 0, NULL)
{
	sim::window(false);
	int what = sim::choose(2, "client/server"), end = sim::choose(6, "end");
	std::vector<std::string> a = what ? client_life(false, end) : server_life(false, end), b = what ? client_life(true, end) : server_life(true, end);
	CHECK(a.size() > 4, "almost nothing happened");
	CHECK(a == b, "%s with callbacks, %s without", join_str(b).c_str(), join_str(a).c_str());
	sim::outcome(join_str(a));
	sim::finish();
}
// ---- the results of callbacks decide
SCENARIO(cb_results, "messages refused, connections vetoed, accept numbers, retries and readiness decided by callbacks", 0, 1, NULL)
{
	sim::window(false);
	int what = sim::choose(6, "what"), n = sim::choose(3, "n");
	service_pump sp;
	int calls = 0;
	if (what < 3)
	{
		int l = simnet::listen(P1);
		Client c(sp);
		c.set_server_addr(P1, "127.0.0.1");
		std::vector<std::string> seen;
		int ready = 1;
		int64_t last = 0;
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
		c.register_on_msg_handle([&](CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > >*, Client::out_queue_type& q) -> size_t {
			++calls;
			if (calls <= n) return 0;
			Client::out_container_type can; q.move_items_out(can);
			for (auto& m : can) seen.push_back(std::string(m.data(), m.size()));
			return can.size();
		});
#else
		c.register_on_msg_handle([&](CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > >*, std::string& m) {++calls; if (calls <= n) return false; seen.push_back(m); return true;});
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
		c.register_on_msg([&](CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > >*, list<std::string>&) -> size_t {return 0;});
#endif
		c.register_prepare_reconnect([&](CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > >*, const EC&) {if (what == 1) {++calls; last = sim::now_ms();} return n == 0 ? -1 : n * 700;});
		c.register_is_ready([&](CMid<st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> > >*) {return ready > 0;}, true);
		sp.start_service(2);
		sim::window(true);
		if (what == 1) {simnet::close(l);}
		int fd = what == 1 ? -1 : simnet::accept(l);
		if (what == 0)
		{
			simnet::send(fd, lv("one") + lv("two"));
			sim::sleep_ms(50 * n + 20);
			CHECK(seen.size() == 2 && seen[0] == "one" && seen[1] == "two", "handled %s after %d refusals", join_str(seen).c_str(), n);
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
			CHECK(calls == n + 2, "offered %d times", calls);
#endif
		}
		else if (what == 1)
		{
			sim::sleep_ms(300 + n * 700 / 2);
			CHECK(calls == 1, "asked %d times", calls);
			int64_t t = last;
			sim::sleep_ms(2000);
			if (n == 0) CHECK(calls == 1, "tried again although the callback said no");
			else CHECK(calls >= 2 && last - t >= n * 700, "asked %d times, the last time after %d ms", calls, (int) (last - t));
		}
		else
		{
			sim::settle();
			std::string x("hi");
			ready = n;
			c.send_msg(x, false);
			sim::settle();
			CHECK(simnet::available(fd) == (n ? 4 : 0), "%d bytes sent, ready: %d", (int) simnet::available(fd), n);
			ready = 1;
		}
		sim::finish();
	}
	Server sv(sp);
	sv.set_server_addr(P2, "127.0.0.1");
	typedef SVMid<st_asio_wrapper::tcp::server_base<L, Pool> > SB;
	std::vector<void*> made;
	sv.register_on_create([&](BaseOf<Pool>::type*, BaseOf<Pool>::type::object_ctype& p) {sim::NoPreempt q; made.push_back(p.get());});
	if (what == 3) sv.register_on_accept([&](SB*, SB::object_ctype& p) {return ++calls != n + 1;});
	if (what == 4) sv.register_async_accept_num([&](SB*) {return n + 1;});
	bool closed = false, destroyed = n == 0;
	if (what == 5) sv.register_on_accept([&](SB*, SB::object_ctype& p) {p->register_obsoleted([&](BaseOf<L>::type*) {return destroyed;}); p->register_on_close([&](BaseOf<L>::type*) {closed = true;}); return true;});
	sp.start_service(2);
	sim::settle();
	sim::window(true);
	if (what == 3)
	{
		int fd[3];
		for (int i = 0; i < 3; ++i) {fd[i] = simnet::connect(P2); sim::settle();}
		sim::sleep_ms(100);
		CHECK(calls == 3 && sv.size() == 2, "%d links, asked %d times", (int) sv.size(), calls);
		for (int i = 0; i < 3; ++i) CHECK((simnet::at_eof(fd[i]) || simnet::was_reset(fd[i])) == (i == n), "connection %d", i);
	}
	else if (what == 4) CHECK((int) made.size() == n + 1, "%d links created for %d accepts", (int) made.size(), n + 1);
	else
	{
		int fd = simnet::connect(P2);
		sim::sleep_ms(100);
		CHECK(sv.size() == 1, "not accepted");
		simnet::close(fd);
		CHECK(sim::wait_for([&] {return closed;}, 500, "closed"), "not closed");
		sim::sleep_ms(200);
		sv.clear_obsoleted_object();
		destroyed = true;
	}
	sim::finish();
}
