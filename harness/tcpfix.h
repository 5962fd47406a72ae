// A recording TCP client link on top of the real single_client_base; every harness for link behaviour builds on it.
#ifndef TCPFIX_H_
#define TCPFIX_H_
#include "common.h"
#include "ext/tcp.h"
using namespace st_asio_wrapper;

#if !defined(CLIENT_SUPER) && defined(UNIX)
#define CLIENT_SUPER st_asio_wrapper::tcp::unix_client_socket_base<ext::packer<>, ext::unpacker<> >
#elif !defined(CLIENT_SUPER)
#define CLIENT_SUPER st_asio_wrapper::tcp::client_socket_base<ext::packer<>, ext::unpacker<> >
#endif
// records every event of a link and checks what holds for any link
template<typename S> struct Recorder : public S
{
	typedef S super;
	typedef Recorder Rec;
	typedef typename S::in_container_type in_container_type; typedef typename S::in_msg_type in_msg_type;
	typedef typename S::out_msg_type out_msg_type; typedef typename S::out_queue_type out_queue_type; typedef typename S::out_container_type out_container_type;
	template<typename A> Recorder(A& a) : super(a) {}
	template<typename A, typename B> Recorder(A& a, B& b) : super(a, b) {}

	// ------------ recorded events
	int connects = 0, closes = 0, recv_errors = 0, unpack_errors = 0, hb_errors = 0, shutdown_errors = 0;
	bool live = false;                         // between on_connect (or start) and on_close
	int running = 0;                           // callbacks currently executing
	int handling = 0;                          // message callbacks currently executing
	std::vector<std::string> got;              // accepted messages
	std::vector<std::string> offered;          // every offer
	std::vector<std::string> sent;             // bodies notified as sent
	std::vector<std::string> failed;           // bodies handed to on_send_error
	std::vector<std::string> discarded;
	int all_sent = 0;
	bool bad_after_close = true;

	// ------------ behaviour supplied by the scenario
	std::function<bool(const std::string&)> handler;              // accept this message?
	std::function<void()> connect_hook, close_hook, recv_err_hook, send_hook, all_sent_hook, any_hook;
	std::function<void(in_container_type&)> fail_hook, discard_hook;
	std::function<int(int)> retry_hook;
	std::function<size_t(size_t)> shrink_hook;

	struct Enter
	{
		Recorder& c; bool end;
		Enter(Recorder& c_, const char* name, bool link = true) : c(c_), end(false)
		{
			++c.running;
			sim::logf("callback %s", name);
			if (link && c.bad_after_close) CHECK(c.live, "callback %s of a link that is not alive (closed or not yet announced)", name);
			if (c.any_hook) c.any_hook();
			sim::yield_point();
		}
		~Enter() {--c.running;}
	};
	void note_connect() {CHECK(!live, "link announced twice without being closed"); live = true; ++connects;}
	virtual void on_connect() {note_connect(); Enter e(*this, "on_connect"); if (connect_hook) connect_hook(); super::on_connect();}
	virtual void on_close()
	{
		Enter e(*this, "on_close", false);
		++closes;
		CHECK(running == 1, "close notification while another callback of the link is running");
		live = false;
		if (close_hook) close_hook();
		super::on_close();
	}
	virtual void on_recv_error(const boost::system::error_code& ec) {Enter e(*this, "on_recv_error"); ++recv_errors; if (recv_err_hook) recv_err_hook(); super::on_recv_error(ec);}
	virtual void on_unpack_error() {Enter e(*this, "on_unpack_error"); ++unpack_errors; super::on_unpack_error();}
	virtual bool on_heartbeat_error() {Enter e(*this, "on_heartbeat_error"); ++hb_errors; return super::on_heartbeat_error();}
	virtual void on_async_shutdown_error() {Enter e(*this, "on_async_shutdown_error"); ++shutdown_errors; super::on_async_shutdown_error();}
	int retries = 0;
	static std::string body(const char* p, size_t n) {std::string s(p, n); std::vector<std::string> v = unlv(s); return v.empty() ? s : v[0];}
	template<typename M> static std::string str(const M& m) {return m.empty() ? std::string() : std::string(m.data(), m.size());}
	template<typename M> static std::string body(const M& m) {return body(m.data(), m.size());}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& msg) {Enter e(*this, "on_msg_send"); sent.push_back(body(msg)); if (send_hook) send_hook();}
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	virtual void on_msg_send(in_container_type& can) {Enter e(*this, "on_msg_send"); CHECK(!can.empty(), "empty batch notified"); for (auto& m : can) sent.push_back(body(m)); if (send_hook) send_hook();}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_msg_type& msg) {Enter e(*this, "on_all_msg_send"); ++all_sent; last_all = msg.empty() ? std::string() : body(msg); if (all_sent_hook) all_sent_hook();}
	std::string last_all;
#endif
	virtual void on_send_error(const boost::system::error_code& ec, in_container_type& can)
	{
		Enter e(*this, "on_send_error");
		for (auto& m : can) {failed.push_back(body(m)); sim::logf("failed %s", hex(str(m)).c_str());}
		if (fail_hook) fail_hook(can);
		super::on_send_error(ec, can);
	}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual size_t calc_shrink_size(size_t s) {return shrink_hook ? shrink_hook(s) : super::calc_shrink_size(s);}
	virtual void on_msg_discard(in_container_type& can) {for (auto& m : can) discarded.push_back(body(m)); if (discard_hook) discard_hook(can);}
#endif

	bool offer(const std::string& m)
	{
		offered.push_back(m);
		sim::logf("offer '%s'", hex(m).c_str());
		bool ok = handler ? handler(m) : true;
		if (ok) got.push_back(m);
		return ok;
	}
	struct Handling {Recorder& c; Handling(Recorder& c_) : c(c_) {CHECK(++c.handling == 1, "two message callbacks of one link run at the same time");} ~Handling() {--c.handling;}};
#ifdef ST_ASIO_SYNC_DISPATCH
	std::vector<std::string> got_sync;
	std::function<size_t(list<out_msg_type>&)> sync_handler;
	virtual size_t on_msg(list<out_msg_type>& can)
	{
		Enter e(*this, "on_msg");
		if (sync_handler) return sync_handler(can);
		return 0;
	}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	std::function<size_t(out_queue_type&)> batch_handler;
	virtual size_t on_msg_handle(out_queue_type& q)
	{
		Enter e(*this, "on_msg_handle");
		Handling h(*this);
		if (batch_handler) return batch_handler(q);
		out_container_type can;
		q.swap(can);
		for (auto& m : can) offer(str(m));
		return can.size();
	}
#else
	virtual bool on_msg_handle(out_msg_type& msg)
	{
		Enter e(*this, "on_msg_handle");
		Handling h(*this);
		return offer(str(msg));
	}
#endif
};
struct Client : public Recorder<CLIENT_SUPER>
{
	typedef CLIENT_SUPER base;
	template<typename A> Client(A& a) : Rec(a) {set_reconnect(false);}          // io_context or matrix
	template<typename A, typename B> Client(A& a, B& b) : Rec(a, b) {set_reconnect(false);}
	virtual int prepare_reconnect(const boost::system::error_code& ec)
	{
		Enter e(*this, "prepare_reconnect", false);
		CHECK(!live, "retry hook called on a live link");
		++retries;
		return retry_hook ? retry_hook(retries) : base::prepare_reconnect(ec);
	}
};
typedef st_asio_wrapper::tcp::single_client_base<Client> SClient;

static const int PORT = 5051;
// where the server of a scenario is, for TCP or UNIX domain sockets
#ifdef UNIX
static inline int srv_listen() {return simnet::listen_path("/sock");}
static inline int srv_connect() {return simnet::connect_path("/sock");}
static inline int srv_users() {return simnet::connecting_or_connected_to_path("/sock");}
template<typename O> void srv_addr(O& o) {o.set_server_addr("/sock");}
template<typename O> void srv_addr_other(O& o) {o.set_server_addr("/other");}
#else
static inline int srv_listen() {return simnet::listen(PORT);}
static inline int srv_connect() {return simnet::connect(PORT);}
static inline int srv_users() {return simnet::connecting_or_connected_to(PORT);}
template<typename O> void srv_addr(O& o) {o.set_server_addr(PORT, "127.0.0.1");}
template<typename O> void srv_addr_other(O& o) {o.set_server_addr(PORT + 1, "127.0.0.1");}
#endif
#ifndef NO_WORLD
// a connected link; the window of explored choices is opened by the scenario
struct World
{
	int l;
	service_pump sp;
	SClient c;
	int fd = -1;
	World() : l((sim::window(false), srv_listen())), c(sp) {srv_addr(c);}
	void start(int threads) {sp.start_service(threads); fd = simnet::accept(l); sim::wait_until([&] {return c.is_connected();}, "connected"); sim::settle();}
};
#endif
static inline std::string join_str(const std::vector<std::string>& v) {std::string s; for (auto& x : v) s += hex(x) + ","; return s;}
static inline std::string all_lv(const std::vector<std::string>& v) {std::string s; for (auto& x : v) s += lv(x); return s;}
#endif
