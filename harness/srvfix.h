// Recording server links on top of the real server_base / object_pool.
#ifndef SRVFIX_H_
#define SRVFIX_H_
#include "tcpfix.h"
#if !defined(SERVER_SOCKET_SUPER) && defined(UNIX)
#define SERVER_SOCKET_SUPER st_asio_wrapper::tcp::unix_server_socket_base<ext::packer<>, ext::unpacker<> >
#elif !defined(SERVER_SOCKET_SUPER)
#define SERVER_SOCKET_SUPER st_asio_wrapper::tcp::server_socket_base<ext::packer<>, ext::unpacker<> >
#endif
struct SSock;
struct SHooks
{
	std::function<void(SSock&)> start, close, reset, destroy;
	std::function<bool(SSock&, const std::string&)> msg;
	std::function<void(SSock&, SSock&)> take;
	int made = 0, destroyed = 0, starts = 0, closes = 0, resets = 0, takes = 0;
};
static SHooks& sh() {static SHooks h; return h;}
struct SSock : public Recorder<SERVER_SOCKET_SUPER>
{
	SSock(st_asio_wrapper::tcp::i_server& s) : Rec(s)
	{
		++sh().made;
		handler = [this](const std::string& m) {return sh().msg ? sh().msg(*this, m) : true;};
	}
	~SSock() {CHECK(!live && running == 0, "a link is freed while it is alive or one of its callbacks is running"); ++sh().destroyed; if (sh().destroy) sh().destroy(*this);}
	int starts = 0, resets = 0;
	boost::uint_fast64_t closed_id = 0;
	virtual void on_connect() {++starts; ++sh().starts; if (sh().start) sh().start(*this); Rec::on_connect();}
	virtual void on_close() {++sh().closes; Rec::on_close(); if (sh().close) sh().close(*this);}
	virtual void reset()
	{
		++resets; ++sh().resets;
		CHECK(!live && running == 0, "a link is recycled while it is alive or one of its callbacks is running");
		Rec::reset();
		got.clear(); offered.clear(); sent.clear(); failed.clear();
		if (sh().reset) sh().reset(*this);
	}
	virtual void take_over(boost::shared_ptr<SERVER_SOCKET_SUPER::type_of_object_restore> p) {++sh().takes; if (sh().take) sh().take(*this, *boost::dynamic_pointer_cast<SSock>(p));}
};
#ifdef UNIX
typedef st_asio_wrapper::tcp::unix_server_base<SSock> SrvBase;
#else
typedef st_asio_wrapper::tcp::server_base<SSock> SrvBase;
#endif
struct Srv : public SrvBase
{
	typedef SrvBase super;
	Srv(service_pump& sp) : super(sp) {}
	int accepts = 0, creates = 0, accept_errors = 0, accept_num = 2;
	std::function<bool(SSock&)> accept_hook;
	std::function<bool(const boost::system::error_code&)> accept_err_hook;
	using super::create_object;
	using super::add_socket;
	using super::add_object;
	using super::del_object;
	using super::start_next_accept;
	using super::init_object_id;
	using super::change_object_id;
	virtual void on_create(object_ctype& p) {++creates;}
	virtual int async_accept_num() {return accept_num;}
	virtual bool on_accept(object_ctype& p) {++accepts; sim::logf("on_accept"); sim::yield_point(); return accept_hook ? accept_hook(*p) : true;}
	virtual bool on_accept_error(const boost::system::error_code& ec, object_ctype& p) {if (ec != boost::asio::error::operation_aborted) ++accept_errors; return accept_err_hook ? accept_err_hook(ec) : super::on_accept_error(ec, p);}
};
// a server with its service pump; the window of explored choices is opened by the scenario
struct SWorld
{
	service_pump sp;
	Srv s;
	SWorld() : s((sim::window(false), sp)) {srv_addr(s);}
	void start(int threads) {sp.start_service(threads);}
	// connects a peer and waits until its link is announced
	int peer(SSock** link = NULL)
	{
		int n = sh().starts;
		SSock* p = NULL;
		std::function<void(SSock&)> old = sh().start;
		sh().start = [&](SSock& s) {p = &s; if (old) old(s);};
		int fd = srv_connect();
		CHECK(fd >= 0, "connection refused");
		sim::wait_until([&] {return sh().starts > n;}, "link announced");
		sim::settle();
		sh().start = old;
		if (link) *link = p;
		return fd;
	}
};
#endif
