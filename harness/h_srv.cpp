// C21: accepting; C20: recycling and restoring links; C22: broadcast and pool-wide operations
#include "srvfix.h"
static int alive(Srv& s) {int n = 0; s.do_something_to_all([&](const boost::shared_ptr<SSock>& o) {n += o->is_connected();}); return n;}
struct Links // links announced by the server, by address
{
	std::vector<SSock*> l;
	std::map<SSock*, int> starts;
	Links() {sh().start = [this](SSock& s) {sim::NoPreempt np; l.push_back(&s); ++starts[&s];};}
};

// ------------------------------------------------------------------------------------------------ C21
SCENARIO(accept_burst, "3 connections at once, 1-3 pending accepts, one or two service threads", 1, 2, NULL)
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(3, "pending accepts");
	int threads = 1 + sim::choose(2, "threads");
	Links k;
	w.start(threads);
	CHECK(w.s.is_listening() && w.s.creates == w.s.accept_num, "%d links prepared instead of %d", w.s.creates, w.s.accept_num);
	sim::window(true);
	std::vector<int> fds;
	int f = sim::spawn("peer", [&] {int x = srv_connect(), y = srv_connect(); sim::NoPreempt np; fds.push_back(x); fds.push_back(y);});
	int z = srv_connect();
	sim::join(f);
	fds.push_back(z);
	CHECK(sim::wait_for([&] {return sh().starts == 3 && w.s.creates == 3 + w.s.accept_num;}, 100, "accepted"), "%d of 3 connections accepted, %d links prepared", sh().starts, w.s.creates);
	sim::window(false);
	sim::settle();
	CHECK(w.s.accepts == 3 && w.s.size() == 3 && alive(w.s) == 3, "accepts %d size %d", w.s.accepts, (int) w.s.size());
	CHECK(k.starts.size() == 3, "a link was announced twice");
	CHECK(w.s.creates == 3 + w.s.accept_num, "%d links created instead of %d", w.s.creates, 3 + w.s.accept_num);
	for (int fd : fds) CHECK(simnet::send(fd, lv("hello")), "send");
	sim::settle();
	for (auto& x : k.starts) CHECK(x.first->got.size() == 1 && x.first->got[0] == "hello", "a link delivers nothing");
	sim::finish();
}
SCENARIO(accept_limit, "more connections than the maximum, vetoed connections, room again after a link has ended", 1, 2, NULL)
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(2, "pending accepts");
	int veto = sim::choose(4, "vetoed connection") - 1, max = 1 + sim::choose(2, "maximum");
	w.s.max_size(max);
	Links k;
	int n = 0;
	w.s.accept_hook = [&](SSock&) {return n++ != veto;};
	w.start(1);
	sim::window(true);
	std::vector<int> fds;
	for (int i = 0; i < 4; ++i) {int fd = srv_connect(); CHECK(fd >= 0, "refused"); fds.push_back(fd); if (sim::choose(2, "pause")) sim::settle();}
	sim::settle();
	sim::window(false);
	sim::settle();
	CHECK(w.s.accepts == 4, "%d of 4 connections accepted", w.s.accepts);
	CHECK((int) w.s.size() == max && alive(w.s) == max && sh().starts == max, "size %d alive %d starts %d maximum %d", (int) w.s.size(), alive(w.s), sh().starts, max);
	int open = 0, dead = 0, one = -1;
	for (int fd : fds) if (simnet::at_eof(fd) || simnet::was_reset(fd)) ++dead; else {++open; one = fd;}
	CHECK(open == max && dead == 4 - max, "%d connections open, %d closed", open, dead);
	CHECK(sh().closes == 0, "a link was closed");
	simnet::close(one);
	sim::sleep_ms(200);
	CHECK((int) w.s.size() == max - 1 && sh().closes == 1, "the ended link is still there");
	int fd = srv_connect();
	sim::settle();
	CHECK(sh().starts == max + 1 && (int) w.s.size() == max && !simnet::at_eof(fd), "a connection there is room for is refused");
	sim::finish();
}
SCENARIO(accept_errors, "accept fails now and then; the hook ignores it, retries later or stops listening (default)", 2, 4, [] {simnet::cfg.accept_err = 2;})
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(2, "pending accepts");
	int kind = sim::choose(3, "hook");
	int errs = 0;
	w.s.accept_err_hook = [&](const boost::system::error_code& ec) {
		if (ec == boost::asio::error::operation_aborted) return false;
		++errs;
		if (kind == 0) return true;
		if (kind == 1) {w.s.set_timer(Srv::TIMER_END + errs, 20, [&](unsigned char) {w.s.start_next_accept(); return false;}); return false;}
		w.s.stop_listen();
		return false;
	};
	w.start(1);
	std::vector<int> fds;
	sim::window(true);
	for (int i = 0; i < 3; ++i) {int fd = srv_connect(); if (kind < 2) CHECK(fd >= 0, "refused"); if (fd >= 0) fds.push_back(fd); sim::settle();}
	sim::sleep_ms(100);
	sim::window(false);
	sim::sleep_ms(100);
	int n3 = 0; // connections that were not aborted before they could be accepted
	for (int fd : fds) n3 += !simnet::was_reset(fd);
	if (kind < 2) CHECK(sh().starts == n3 && w.s.is_listening(), "%d of %d connections accepted after %d errors", sh().starts, n3, errs);
	else
	{
		if (!errs) CHECK(sh().starts == n3, "not accepted");
		else
		{
			CHECK(!w.s.is_listening() && simnet::listening_sockets() == 0, "still listening");
			CHECK(srv_connect() < 0, "still accepting");
			int n = sh().starts;
			CHECK(w.s.start_listen(), "listening again fails");
			int fd = srv_connect();
			sim::settle();
			CHECK(fd >= 0 && sh().starts == n + 1, "does not accept after listening again");
		}
	}
	sim::outcome(num(kind) + " errors " + num(errs));
	sim::finish();
}
SCENARIO(accept_stop, "listening is stopped and started again while connections arrive", 2, 3, NULL)
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(2, "pending accepts");
	int before = sim::choose(2, "link before");
	w.start(2);
	if (before) w.peer();
	sim::window(true);
	int fd1 = -1;
	int f = sim::spawn("peer", [&] {fd1 = srv_connect();});
	w.s.stop_listen();
	bool again = sim::choose(2, "at once");
	if (!again) {sim::join(f); sim::settle(); sim::sleep_ms(50);}
	if (!again)
	{
		CHECK(!w.s.is_listening() && simnet::listening_sockets() == 0, "still listening");
		int n = sh().starts;
		CHECK(srv_connect() < 0, "connected after listening has stopped");
		CHECK(sh().starts == n, "accepted after listening has stopped");
		CHECK(alive(w.s) == sh().starts, "stopping to listen disturbed a link");
	}
	int created = w.s.creates;
	CHECK(w.s.start_listen(), "listening again fails");
	CHECK(!w.s.start_listen(), "listening twice");
	if (again) {sim::join(f); sim::settle(); sim::sleep_ms(50);}
	sim::window(false);
	CHECK(w.s.is_listening() && simnet::listening_sockets() == 1, "not listening");
	if (!again) CHECK(w.s.creates == created + w.s.accept_num, "%d links prepared instead of %d", w.s.creates - created, w.s.accept_num);
	int n = sh().starts;
	for (int i = 0; i < 3; ++i) {int fd = srv_connect(); sim::settle(); CHECK(fd >= 0 && sh().starts == n + i + 1, "connection %d is not accepted after listening was started again", i);}
	(void) created;
	sim::finish();
}
SCENARIO(accept_again, "listening is stopped and started again while a connection is being accepted", 3, 4, NULL)
{
	SWorld w;
	w.s.accept_num = 1;
	bool pause = sim::choose(2, "pause");
	w.start(1);
	int fd1 = srv_connect();
	sim::window(true);
	if (pause) sim::wait_until([&] {return w.s.accepts == 1;}, "accepted");
	w.s.stop_listen();
	sim::yield_point();
	CHECK(w.s.start_listen(), "listening again fails");
	sim::settle();
	sim::window(false);
	CHECK(w.s.is_listening() && simnet::listening_sockets() == 1, "not listening after listening was started again");
	int n = sh().starts;
	for (int i = 0; i < 3; ++i) {int fd = srv_connect(); sim::settle(); CHECK(fd >= 0 && sh().starts == n + i + 1, "connection %d is not accepted after listening was started again", i);}
	(void) fd1;
	sim::finish();
}
SCENARIO(accept_listen_fail, "bind or listen fails", 1, 2, [] {simnet::cfg.bind_err = simnet::cfg.listen_err = true;})
{
	SWorld w;
	sim::window(true);
	bool by_hand = sim::choose(2, "by hand");
	bool ok;
	if (by_hand) {srv_addr_other(w.s); sim::window(false); w.start(1); w.s.stop_listen(); srv_addr(w.s); sim::settle(); sim::window(true); ok = w.s.start_listen();}
	else {w.start(1); ok = w.s.service_started();}
	sim::window(false);
	sim::settle();
	if (!ok)
	{
		CHECK(!w.s.is_listening(), "listening failed, but it is shown as listening");
		CHECK(by_hand ? w.s.start_listen() : (w.sp.start_service(&w.s), w.s.service_started()), "listening cannot be started any more after it has failed once");
	}
	int fd = srv_connect();
	sim::settle();
	CHECK(fd >= 0 && sh().starts == 1, "not accepted");
	sim::outcome(ok ? "ok" : "failed");
	sim::finish();
}
SCENARIO(accept_service, "service stop and restart while connections arrive", 1, 2, NULL)
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(2, "pending accepts");
	w.start(1 + sim::choose(2, "threads"));
	bool before = sim::choose(2, "link before");
	int fd0 = before ? w.peer() : -1;
	sim::window(true);
	int fd1 = -1;
	int f = sim::spawn("peer", [&] {fd1 = srv_connect();});
	w.sp.stop_service();
	sim::join(f);
	sim::window(false);
	CHECK(simnet::listening_sockets() == 0 && !w.s.is_listening(), "still listening");
	CHECK(sh().closes == sh().starts, "%d links announced, %d closed", sh().starts, sh().closes);
	CHECK(w.s.size() == 0, "a link is left in the pool of the stopped service");
	if (fd0 >= 0) CHECK(simnet::at_eof(fd0) || simnet::was_reset(fd0), "a link is open after the service was stopped");
	int n = sh().starts;
	w.sp.start_service(1);
	for (int i = 0; i < 2; ++i) {int fd = srv_connect(); sim::settle(); CHECK(fd >= 0 && sh().starts == n + i + 1, "not accepted after a restart");}
	sim::finish();
}

// ------------------------------------------------------------------------------------------------ C20
#if defined(ST_ASIO_REUSE_OBJECT) && !defined(ST_ASIO_RESTORE_OBJECT)
static std::string words(const std::vector<std::string>& v) {std::string s; for (auto& m : v) s += lv(m); return s;}
// leaves traces of a link behind in every way, ends it, then looks at the link that recycles the object
SCENARIO(reuse_clean, "a link with leftovers of every kind ends in every way; the object is recycled for a new link", 0, 1, NULL)
{
	SWorld w;
	w.s.accept_num = 1;
	int dirt = sim::choose(8, "leftovers"), end = sim::choose(5, "end");
	if (dirt == 4 && end < 2) end += 2; // nobody reads, so the end of the stream is not noticed
	bool held = sim::choose(2, "held"), timer = sim::choose(2, "timer");
	SSock* a = NULL;
	bool refuse = false;
	int handled = 0, fired = 0, posted = 0;
	sh().msg = [&](SSock& s, const std::string&) {++handled; return !(refuse && &s == a);};
	w.start(1);
	int fd = w.peer(&a);
	CHECK(a->id() == 0, "id");
	if (dirt >= 6) {CHECK(simnet::send(fd, lv("first") + lv("second")), "send"); sim::settle(); CHECK(a->send_msg("reply", 5, false), "send_msg"); sim::settle();}
	sim::window(true);
	if (dirt == 1) {std::string s = lv("incomplete"); CHECK(simnet::send(fd, s.substr(0, 1)), "send");}                   // half a header
	if (dirt == 2) {std::string s = lv("incomplete"); CHECK(simnet::send(fd, s.substr(0, 7)), "send");}                   // half a body
	if (dirt == 3) {refuse = true; CHECK(simnet::send(fd, lv("refused") + lv("behind") + lv("x").substr(0, 2)), "send");}  // refused message, another behind it
	if (dirt == 4) {refuse = true; a->recv_buf_size(4); CHECK(simnet::send(fd, lv("refused") + lv("behind it") + lv("third")), "send");} // suspended receiving
	if (dirt == 5) {simnet::set_rx_cap(fd, 4); for (int i = 0; i < 3; ++i) CHECK(a->send_msg("unsent message", 14, false), "send_msg");}
	if (dirt == 7) {CHECK(a->send_msg("reply", 5, false), "send_msg"); a->msg_handling_interval(20);}
	if (timer) a->set_timer(SSock::TIMER_END, 400, [&](unsigned char) {fired += a->closes > 0; return true;});
	sim::settle();
	boost::shared_ptr<SSock> hold;
	if (held) hold = w.s.find(a->id());
	switch (end)
	{
		case 0: simnet::close(fd); break;
		case 1: simnet::reset(fd); break;
		case 2: a->force_shutdown(); break;
		case 3: a->graceful_shutdown(); break;
		default: w.s.force_shutdown(boost::shared_ptr<SSock>(w.s.find(a->id()))); break;
	}
	if (end == 3) CHECK(sim::wait_for([&] {return sh().closes > 0;}, 8000, "closed"), "not closed");
	sim::sleep_ms(200);
	sim::window(false);
	CHECK(sh().closes == 1 && a->closes == 1 && w.s.size() == 0, "not closed");
	a->post([&] {++posted;}); // keeps the object in use until it is executed
	sim::settle();
	CHECK(posted == 1 && fired == 0, "posted call lost or timer fired after the link was closed");
	int busy = held ? 0 : sim::choose(3, "asynchronous call outstanding");
	bool done = false;
	if (busy == 1) {int inc = a->resets; a->set_timer(SSock::TIMER_END + 1, 300, [&, inc](unsigned char) {CHECK(a->resets == inc, "an object was recycled while one of its timers was running"); done = true; return false;});}
	if (busy == 2) // the only service thread is busy, so the posted call stays queued
	{
		int inc = a->resets;
		a->post([&, inc] {CHECK(a->resets == inc, "an object was recycled while one of its asynchronous calls was queued"); done = true;});
		boost::shared_ptr<SSock> n = w.s.create_object();
		CHECK(n.get() != a, "an object was recycled while one of its asynchronous calls was queued");
		sim::settle();
		CHECK(done, "posted call lost");
		sh().made--; w.s.creates--;
	}
	SSock* b = NULL; SSock* c = NULL;
	size_t old_got = handled;
	int fd2 = w.peer(&b); // takes the object prepared while the old link was alive, another one is prepared now
	if (busy == 1)
	{
		CHECK(a->resets == 0 && !done, "an object was recycled while one of its timers was running");
		sim::sleep_ms(400);
		CHECK(done, "the timer did not fire");
		int fdx = w.peer(&c); (void) fdx;
		held = true; // from here on the same: one more link
	}
	CHECK(b != a && b->id() == 1, "the second link has id %d", (int) b->id());
	if (busy != 1) CHECK(a->resets == (held ? 0 : 1), held ? "an object somebody holds was recycled" : "an unused object was not recycled");
	if (hold)
	{
		hold->post([&] {++posted;});
		sim::settle();
		CHECK(posted == 2, "posted call lost");
		hold.reset();
		int fdx = w.peer(&c); (void) fdx;
		CHECK(a->resets == 1 && c != a, "an unused object was not recycled");
	}
	boost::uint_fast64_t want = held || busy == 2 ? 3 : 2;
	CHECK(a->id() == want, "the recycled object has id %d instead of %d", (int) a->id(), (int) want);
	refuse = false;
	simnet::cfg = simnet::Config();
	int fd3 = w.peer(&c);
	CHECK(c == a && a->starts == 2 && a->connects == 2, "the recycled object is not used for the next link");
	CHECK(a->id() == want && w.s.find(want).get() == a && !w.s.exist(0), "the recycled link is not found by its own id");
	const st_asio_wrapper::statistic& st = a->get_statistic();
	CHECK(st.recv_msg_sum == 0 && st.send_msg_sum == 0 && st.recv_byte_sum == 0 && st.send_byte_sum == 0 && st.break_time == 0, "the recycled link starts with the old link's statistics");
	CHECK(!a->is_sending() && !a->is_dispatching() && !a->is_recv_idle(), "the recycled link starts with the old link's state");
	CHECK(a->get_pending_send_msg_size() == 0 && a->get_pending_recv_msg_size() == 0 && a->send_buf_usage() == 0 && a->recv_buf_usage() == 0, "the recycled link starts with the old link's messages");
	CHECK(!a->is_timer(SSock::TIMER_END), "a timer of the old link is still there");
	CHECK(handled == (int) old_got && a->got.empty(), "the recycled link delivers a message nobody sent");
	sim::sleep_ms(1500);
	CHECK(fired == 0, "a timer of the old link fires on the recycled link");
	CHECK(simnet::send(fd3, words({"hello", "world"})), "send");
	CHECK(sim::wait_for([&] {return a->got.size() >= 2;}, 2000, "received"), "the recycled link delivers %d of 2 messages", (int) a->got.size());
	CHECK(a->got[0] == "hello" && a->got[1] == "world", "the recycled link delivers '%s', '%s'", hex(a->got[0]).c_str(), hex(a->got[1]).c_str());
	CHECK(a->send_msg("answer", 6, false), "send_msg");
	sim::sleep_ms(100);
	std::string got = simnet::peek_available(fd3);
	CHECK(got == lv("answer"), "the recycled link sends '%s'", hex(got).c_str());
	CHECK(st.recv_msg_sum == 2 && st.send_msg_sum == 1, "statistics of the recycled link: %d received, %d sent", (int) st.recv_msg_sum, (int) st.send_msg_sum);
	simnet::close(fd3);
	sim::sleep_ms(200);
	CHECK(a->closes == 2 && !w.s.exist(want) && alive(w.s) == (held ? 2 : 1), "the recycled link's end");
	(void) fd2;
	sim::outcome(num(dirt) + num(end));
	sim::finish();
}
// somebody uses the old link's object while it ends and new connections arrive
SCENARIO(reuse_race, "a link ends while a user finds and uses it and new connections want its object", 1, 2, NULL)
{
	SWorld w;
	w.s.accept_num = 1;
	int end = sim::choose(3, "end"), use = sim::choose(4, "use");
	SSock* a = NULL;
	w.start(2);
	int fd = w.peer(&a), fd1 = -1, fd2 = -1;
	int ran = 0, wrong = 0;
	sim::window(true);
	int u = sim::spawn("user", [&] {
		boost::shared_ptr<SSock> o = w.s.find(0);
		if (!o) return;
		SSock* raw = o.get();
		CHECK(raw == a && o->id() == 0, "find(0) returns another link");
		int inc = raw->resets;
		std::function<void()> work = [&, raw, inc] {++ran; if (raw->resets != inc) ++wrong;};
		if (use == 0) o->post(work);
		if (use == 1) o->set_timer(SSock::TIMER_END, 20, [work](unsigned char) {work(); return false;});
		if (use == 2) o->post([raw, work] {raw->post(work);});
		if (use == 3) {o->send_msg("late", 4, false); sim::yield_point(); if (o->resets != inc) ++wrong;}
	});
	int n = sim::spawn("peers", [&] {fd1 = srv_connect(); sim::yield_point(); fd2 = srv_connect();});
	if (end == 0) simnet::close(fd); else if (end == 1) a->force_shutdown(); else {boost::shared_ptr<SSock> o = w.s.find(0); if (o) w.s.force_shutdown(o);}
	sim::join(u); sim::join(n);
	sim::sleep_ms(200);
	int fd3 = srv_connect();
	sim::sleep_ms(200);
	int fd4 = srv_connect();
	sim::sleep_ms(200);
	sim::window(false);
	CHECK(!wrong, "an object was recycled while somebody was using it");
	CHECK(sh().starts == 5 && sh().closes == 1, "starts %d closes %d", sh().starts, sh().closes);
	CHECK(w.s.size() == 4 && alive(w.s) == 4, "%d links", (int) w.s.size());
	CHECK(a->resets == 1 && a->closes == 1, "the object was recycled %d times", a->resets);
	CHECK(w.s.creates == 6 && sh().made == 5 && sh().destroyed == 0, "created %d made %d", w.s.creates, sh().made);
	std::map<boost::uint_fast64_t, int> ids;
	w.s.do_something_to_all([&](const boost::shared_ptr<SSock>& o) {++ids[o->id()]; CHECK(o->got.empty(), "a message nobody sent");});
	CHECK(ids.size() == 4 && !ids.count(0), "ids are not unique");
	for (int f : {fd1, fd2, fd3, fd4}) {CHECK(!simnet::at_eof(f) && simnet::available(f) == 0, "a new link sends what was meant for the old one, or is closed"); CHECK(simnet::send(f, lv("hi")), "send");}
	sim::settle();
	w.s.do_something_to_all([&](const boost::shared_ptr<SSock>& o) {CHECK(o->got.size() == 1 && o->got[0] == "hi", "a new link does not work");});
	sim::outcome(num(ran) + "," + num(a->starts));
	sim::finish();
}
#endif
#ifdef ST_ASIO_RESTORE_OBJECT
SCENARIO(restore_link, "a new link restores an old one by id while the old one is alive, ending, closed, held, or after it was already restored", 1, 2, NULL)
{
	SWorld w;
	w.s.accept_num = 1 + sim::choose(2, "pending accepts");
	int when = sim::choose(5, "when"); // old link: 0 alive, 1 ends meanwhile, 2 closed, 3 closed but held, 4 no such link
	bool in_callback = sim::choose(2, "in callback"), twice = sim::choose(2, "two links");
	SSock* a = NULL; SSock* b = NULL; SSock* c = NULL;
	w.start(2);
	int fd = w.peer(&a), fdb = w.peer(&b), fdc = twice ? w.peer(&c) : -1;
	a->got.push_back("state of the old link");
	boost::uint_fast64_t ida = when == 4 ? 4711 : a->id(), idb = b->id(), idc = twice ? c->id() : 0;
	std::map<SSock*, int> taken;
	sh().take = [&](SSock& s, SSock& o) {
		sim::NoPreempt np;
		++taken[&s];
		CHECK(&o == a && o.closes == 1 && !o.live && o.running == 0, "a link takes over one which is not closed");
		CHECK(o.obsoleted(), "a link takes over an object that is still in use");
		CHECK(o.got.size() == 1 && o.got[0] == "state of the old link", "the old link's state is gone before it could be taken over");
		CHECK(s.id() == ida && o.id() == ida, "ids when taking over");
		CHECK(!w.s.invalid_object_find(ida), "a restored link can be restored again");
	};
	boost::shared_ptr<SSock> hold;
	if (when == 3) hold = w.s.find(ida);
	if (when == 2 || when == 3) {simnet::close(fd); sim::sleep_ms(200); CHECK(a->closes == 1, "close");}
	std::map<SSock*, int> res;
	std::function<void(SSock&)> restore = [&](SSock& s) {
		boost::uint_fast64_t was = s.id();
		bool ok = w.s.restore_socket(w.s.find(was), ida, false);
		sim::NoPreempt np;
		res[&s] = ok;
		CHECK(s.id() == (ok ? ida : was), "restored %d, but the id is %d", ok, (int) s.id());
		CHECK(taken[&s] == (int) ok, "restored %d, but taken over %d times", ok, taken[&s]);
	};
	sh().msg = [&](SSock& s, const std::string& m) {if (m == "restore") restore(s); return true;};
	sim::window(true);
	std::vector<int> f;
	if (in_callback) {CHECK(simnet::send(fdb, lv("restore")), "send"); if (twice) CHECK(simnet::send(fdc, lv("restore")), "send");}
	else {f.push_back(sim::spawn("r1", [&] {restore(*b);})); if (twice) f.push_back(sim::spawn("r2", [&] {restore(*c);}));}
	if (when == 1) simnet::close(fd);
	for (int x : f) sim::join(x);
	sim::sleep_ms(200);
	sim::window(false);
	CHECK((int) res.size() == 1 + twice, "restore was not called");
	int ok = res[b] + (twice ? res[c] : 0);
	if (when == 0 || when == 3 || when == 4) CHECK(!ok, "restored from a link that is alive, held or does not exist");
	if (when == 2) CHECK(ok == 1 || (twice && ok == 0 && false), "%d of %d links restored the closed one", ok, 1 + twice);
	CHECK(ok <= 1, "two links restored the same one");
	// everything is consistent, restored or not
	CHECK((int) w.s.size() == 1 + twice + (when == 0 || when == 4), "%d links in the pool", (int) w.s.size());
	CHECK((w.s.find(b->id()).get() == b) && (!twice || w.s.find(c->id()).get() == c), "a link is not found by its id");
	if (ok)
	{
		SSock* r = res[b] ? b : c;
		CHECK(w.s.find(ida).get() == r && !w.s.exist(r == b ? idb : idc), "the restored link is not found by the old link's id, or still by its own");
		CHECK(!w.s.invalid_object_find(ida) && w.s.invalid_object_size() == 0 && sh().destroyed == 1, "the old object is still there");
	}
	else
	{
		CHECK(b->id() == idb && (!twice || c->id() == idc), "an id was changed by a failed restoration");
		CHECK(sh().takes == 0 && sh().destroyed == 0, "taken over or freed by a failed restoration");
	}
	// whatever happened before, as soon as the old link is closed and unused it can be restored - once
	if (!ok && when != 4)
	{
		hold.reset();
		if (when == 0) {simnet::close(fd); sim::sleep_ms(200);}
		CHECK(a->closes == 1, "close");
		CHECK(simnet::send(fdb, lv("restore")), "send");
		sim::sleep_ms(100);
		CHECK(b->id() == ida && sh().takes == 1 && w.s.find(ida).get() == b, "a closed and unused link cannot be restored");
		if (twice) {CHECK(simnet::send(fdc, lv("restore")), "send"); sim::sleep_ms(100); CHECK(!res[c] && c->id() == idc && sh().takes == 1, "a link was restored twice");}
	}
	for (int x : {fdb, fdc}) if (x >= 0) {CHECK(simnet::send(x, lv("hello")), "send");}
	sim::settle();
	CHECK(b->got.back() == "hello" && (!twice || c->got.back() == "hello"), "a link does not work after the restoration");
	sim::outcome(num(when) + num(ok));
	sim::finish();
}
SCENARIO(restore_init, "links set their ids (restore_socket with init): free, taken by a link, own, by two links at once", 1, 3, NULL)
{
	SWorld w;
	SSock* a = NULL; SSock* b = NULL; SSock* c = NULL;
	w.start(1);
	int fda = w.peer(&a), fdb = w.peer(&b); w.peer(&c);
	int what = sim::choose(4, "what");
	boost::uint_fast64_t ia = a->id(), ib = b->id(), ic = c->id(), to = what == 0 ? 100 : what == 1 ? ic : what == 2 ? ia : 100;
	sim::window(true);
	bool ra = false, rb = false;
	int f = sim::spawn("b", [&] {rb = w.s.restore_socket(w.s.find(ib), what == 3 ? 100 : 101, true);});
	ra = w.s.restore_socket(w.s.find(ia), to, true);
	sim::join(f);
	sim::window(false);
	sim::settle();
	CHECK(sh().takes == 0, "take over without restoration");
	if (what == 0) CHECK(ra && rb && a->id() == 100 && b->id() == 101, "setting free ids fails");
	if (what == 1) CHECK(!ra && rb && a->id() == ia, "an id was set that belongs to another link");
	if (what == 2) CHECK(ra && a->id() == ia, "setting the own id");
	if (what == 3) CHECK(ra != rb && (ra ? a : b)->id() == 100 && (ra ? b : a)->id() == (ra ? ib : ia), "two links set the same id: %d %d", ra, rb);
	CHECK(w.s.size() == 3 && w.s.find(a->id()).get() == a && w.s.find(b->id()).get() == b && w.s.find(c->id()).get() == c, "a link is not found by its id");
	if (a->id() != ia) CHECK(!w.s.exist(ia), "a link is found by its old id");
	simnet::close(fda); simnet::close(fdb);
	sim::sleep_ms(200);
	CHECK(w.s.size() == 1 && a->closes == 1 && b->closes == 1, "a link whose id was set is not removed when it ends");
	sim::finish();
}
#endif
