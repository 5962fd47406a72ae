// C07, C08, C09: sending over TCP
#include "tcpfix.h"

static void small_net() {simnet::cfg.send_eagain = simnet::cfg.send_short = true;}
static void reset_net() {simnet::cfg.send_reset = simnet::cfg.send_short = true;}
static void eagain_net() {simnet::cfg.send_eagain = true;}

// reads the whole stream of messages the library wrote; bodies are <sender letter><number>
static std::vector<std::string> read_wire(int fd, size_t total_bytes)
{
	std::string wire;
	CHECK(simnet::recv_exact(fd, total_bytes, wire), "link broken while messages were outstanding");
	sim::settle();
	std::string more = simnet::peek_available(fd);
	CHECK(more.empty(), "more bytes on the wire than were sent: %s", hex(more).c_str());
	std::string rest;
	std::vector<std::string> v = unlv(wire, &rest);
	CHECK(rest.empty(), "garbage on the wire: %s", hex(wire).c_str());
	return v;
}
// every sender's messages complete and in order
static void check_order(const std::vector<std::string>& v, const std::vector<int>& per_sender)
{
	std::vector<int> next(per_sender.size(), 0);
	for (auto& m : v)
	{
		int s = m.empty() ? -1 : m[0] - 'a';
		CHECK(s >= 0 && s < (int) per_sender.size() && m.substr(1) == num(next[s]), "message '%s' corrupted, duplicated or out of order on the wire: %s", hex(m).c_str(), join_str(v).c_str());
		++next[s];
	}
	for (size_t i = 0; i < next.size(); ++i) CHECK(next[i] == per_sender[i], "messages of sender %d lost: %s", (int) i, join_str(v).c_str());
	sim::outcome(join_str(v));
}
static std::string body(int s, int m) {return std::string(1, 'a' + s) + num(m);}

// one submission through one of the sending interfaces
static bool submit(SClient& c, int form, const std::string& b, bool over = true, bool prior = false)
{
	switch (form)
	{
	case 0: return c.send_msg(b.data(), b.size(), over, prior);
	case 1: {const char* p[2] = {b.data(), b.data() + 1}; size_t n[2] = {1, b.size() - 1}; return c.send_msg(p, n, 2, over, prior);}
	case 2: {std::string w = lv(b); return c.send_native_msg(w, over, prior);}
	case 3: {ext::packer<>::msg_type m = lv(b); return c.direct_send_msg(m, over, prior);}
	case 4: return c.safe_send_msg(b, over, prior);
	case 5: {const ext::packer<>::msg_type m = lv(b); return c.direct_send_msg(m, over, prior);}
	case 6: {list<ext::packer<>::msg_type> l; l.push_back(lv(b)); return c.direct_send_msg(l, over, prior);}
	case 7: return c.safe_send_native_msg(lv(b), over, prior);
	case 9: return c.send_msg(b, over, prior);
	default: {std::string a = lv(b); return c.send_native_msg(a.data(), a.size(), over, prior);}
	}
}
static void senders(int n, int msgs, int threads, const std::vector<int>& forms)
{
	World w;
	w.start(threads);
	sim::window(true);
	std::vector<int> fs;
	size_t total = 0;
	for (int s = 0; s < n; ++s) for (int m = 0; m < msgs; ++m) total += lv(body(s, m)).size();
	for (int s = 0; s < n; ++s)
		fs.push_back(sim::spawn("sender", [&w, s, msgs, forms] {for (int m = 0; m < msgs; ++m) CHECK(submit(w.c, forms[(s * 2 + m) % forms.size()], body(s, m)), "send refused");}));
	std::vector<std::string> v = read_wire(w.fd, total);
	for (int f : fs) sim::join(f);
	sim::settle();
	sim::window(false);
	CHECK(simnet::available(w.fd) == 0, "more bytes than were sent");
	CHECK(w.c.get_pending_send_msg_size() == 0, "bytes left in the send buffer");
	check_order(v, std::vector<int>(n, msgs));
	sim::finish();
}
SCENARIO(send_2x1, "2 senders, 1 message each, 2 service threads", 3, 4, NULL) {senders(2, 1, 2, {0});}
SCENARIO(send_2x2, "2 senders, 2 messages each through different interfaces, 2 service threads", 2, 3, NULL) {senders(2, 2, 2, {0, 1, 3, 6});}
SCENARIO(send_2x2_env, "2 senders, 2 messages each, 2 service threads, short and blocked writes", 2, 3, small_net) {senders(2, 2, 2, {4, 5, 2, 7});}
SCENARIO(send_3x1_env, "3 senders, 1 message each, 1 service thread, short and blocked writes", 2, 3, small_net) {senders(3, 1, 1, {0, 6, 8});}

// lists of messages, two-message form: the list stays together and in order
SCENARIO(send_lists, "2 senders submitting message lists, 2 service threads, short and blocked writes", 2, 3, small_net)
{
	World w;
	w.start(2);
	sim::window(true);
	int f1 = sim::spawn("sender", [&] {
		list<ext::packer<>::msg_type> l; l.push_back("a"); l.push_back(""); l.push_back("0");
		CHECK(w.c.send_msg(l, true), "refused");       // one message made of fragments
		list<ext::packer<>::msg_type> l2; for (int i = 1; i < 3; ++i) l2.push_back(lv(body(0, i)));
		CHECK(w.c.direct_send_msg(l2, true), "refused");
		ext::packer<>::msg_type m3 = body(0, 3);
		CHECK(w.c.send_msg(m3, true), "refused");
	});
	int f2 = sim::spawn("sender", [&] {
		ext::packer<>::msg_type a = "b", b = "0", c = "b", d = "1";
		CHECK(w.c.send_msg(a, b, true), "refused");    // one message made of two parts
		const ext::packer<>::msg_type e = "b", f = "1";
		CHECK(w.c.send_msg(e, f, true), "refused");
	});
	size_t total = 6 * 4;
	std::vector<std::string> v = read_wire(w.fd, total);
	sim::join(f1); sim::join(f2);
	sim::settle();
	CHECK(simnet::available(w.fd) == 0, "more bytes than were sent");
	check_order(v, {4, 2});
	sim::finish();
}
// a slow peer with a tiny window: writes are blocked most of the time
SCENARIO(send_slow_peer, "2 senders against a peer with a 3 byte window", 1, 2, eagain_net)
{
	World w;
	w.start(2);
	simnet::set_rx_cap(w.fd, 3);
	sim::window(true);
	int f1 = sim::spawn("sender", [&] {for (int m = 0; m < 2; ++m) CHECK(submit(w.c, m, body(0, m)), "refused");});
	int f2 = sim::spawn("sender", [&] {for (int m = 0; m < 2; ++m) CHECK(submit(w.c, 2 + m, body(1, m)), "refused");});
	std::vector<std::string> v = read_wire(w.fd, 16);
	sim::join(f1); sim::join(f2);
	check_order(v, {2, 2});
	sim::finish();
}
// messages sent from callbacks and from a foreign thread
SCENARIO(send_callbacks, "messages sent from the connect and message callbacks and from a foreign thread", 2, 3, eagain_net)
{
	World w;
	w.c.connect_hook = [&] {CHECK(submit(w.c, 0, body(0, 0)), "refused"); CHECK(submit(w.c, 3, body(0, 1)), "refused");};
	int n = 0;
	w.c.handler = [&](const std::string& m) {CHECK(submit(w.c, 1, body(1, n++)), "refused"); return true;};
	w.start(2);
	std::string s;
	CHECK(simnet::recv_exact(w.fd, 8, s) && s == lv("a0") + lv("a1"), "messages sent when the link was announced were lost or damaged: %s", hex(s).c_str());
	sim::window(true);
	int f2 = sim::spawn("sender", [&] {for (int m = 0; m < 2; ++m) CHECK(submit(w.c, m, body(2, m)), "refused");});
	simnet::send(w.fd, lv("x") + lv("y"));
	std::vector<std::string> v = read_wire(w.fd, 16);
	sim::join(f2);
	v.insert(v.begin(), "a1"); v.insert(v.begin(), "a0");
	check_order(v, {2, 2, 2});
	sim::finish();
}
// messages accepted before the link exists and between two links are sent when it comes up
SCENARIO(send_offline, "messages accepted while the link is down are sent once it is up, also after a broken link", 1, 2, NULL)
{
	World w;
	CHECK(submit(w.c, 0, body(0, 0)), "refused");
	CHECK(submit(w.c, 1, body(0, 1)), "refused");
	w.c.set_reconnect(true);
	w.sp.start_service(2);
	sim::window(true);
	int f = sim::spawn("sender", [&] {for (int m = 0; m < 2; ++m) CHECK(submit(w.c, m * 3, body(1, m)), "refused");});
	w.fd = simnet::accept(w.l);
	std::vector<std::string> v = read_wire(w.fd, 16);
	sim::join(f);
	check_order(v, {2, 2});
	sim::settle();
	simnet::close(w.fd);
	// nothing is being written now: whatever is accepted from here on has to show up on the next link
	sim::wait_until([&] {return !w.c.is_connected();}, "link down");
	f = sim::spawn("sender", [&] {for (int m = 2; m < 4; ++m) CHECK(submit(w.c, m, body(1, m)), "refused");});
	int fd2 = simnet::accept(w.l);
	std::string s;
	CHECK(simnet::recv_exact(fd2, 8, s), "broken");
	sim::join(f);
	CHECK(s == lv("b2") + lv("b3"), "messages accepted while the link was down: %s", hex(s).c_str());
	sim::finish();
}
// a write fails, the client reconnects, everything still accepted has to be sent
SCENARIO(send_reset_reconnect, "the link is reset while messages are being written, the client reconnects and sends what is left", 2, 2, reset_net)
{
	World w;
	w.c.set_reconnect(true);
	w.start(1);
	sim::window(true);
	int f = sim::spawn("sender", [&] {for (int m = 0; m < 3; ++m) {CHECK(submit(w.c, m, body(0, m)), "refused");}});
	int fd = w.fd;
	std::vector<std::string> wire;
	std::string cur;
	int n = 0;
	for (;;)
	{
		bool more = sim::wait_for([&] {return simnet::available(fd) > 0 || simnet::at_eof(fd);}, 3000, "data");
		if (!more) break;
		std::string d = simnet::peek_available(fd);
		cur += d;
		if (simnet::at_eof(fd))
		{
			std::string rest;
			for (auto& m : unlv(cur, &rest)) wire.push_back(m);
			cur.clear();
			simnet::close(fd);
			fd = simnet::accept(w.l);
			CHECK(++n < 20, "too many reconnections");
		}
	}
	sim::join(f);
	std::string rest;
	for (auto& m : unlv(cur, &rest)) wire.push_back(m);
	CHECK(rest.empty(), "half a message left on a healthy link: %s", hex(cur).c_str());
	sim::window(false);
	CHECK(w.c.get_pending_send_msg_size() == 0, "accepted messages stay in the send buffer of a healthy link");
	std::set<std::string> seen(wire.begin(), wire.end());
	CHECK(seen.size() == wire.size(), "a message was sent twice: %s", join_str(wire).c_str());
	for (size_t i = 1; i < wire.size(); ++i) CHECK(wire[i - 1] < wire[i], "out of order: %s", join_str(wire).c_str());
	for (int m = 0; m < 3; ++m)
	{
		int k = std::count(w.c.failed.begin(), w.c.failed.end(), body(0, m));
		bool gone = std::count(w.c.sent.begin(), w.c.sent.end(), body(0, m)); // written before the reset, which may discard what the peer hasn't read
		CHECK(k <= 1 && (k || gone || seen.count(body(0, m))), "message %d neither sent nor reported as failed", m);
	}
	sim::outcome(join_str(wire) + "/" + join_str(w.c.failed));
	sim::finish();
}
// priority: everything queued at the moment of the call comes later
static void priority(int threads)
{
	World w;
	w.start(threads);
	simnet::set_rx_cap(w.fd, 2);
	sim::window(true);
	std::vector<std::string> order;        // messages in the order of submission
	std::vector<std::pair<std::string, std::vector<std::string> > > must;  // p before all of these
	int f = sim::spawn("sender", [&] {
		for (int i = 0; i < 5; ++i)
		{
			bool prior = i == 2 || i == 4;
			std::string b = std::string(1, prior ? 'p' : 'n') + num(i);
			sim::NoPreempt np;
			size_t pend = w.c.get_pending_send_msg_size();
			// bytes pending now = the tail of what the wire has not got yet; remember the queue by popping order
			std::vector<std::string> q;
			{
				SClient::in_container_type can;
				// observing the queue through the public interface: pop everything and put it back in the same order
				w.c.pop_all_pending_send_msg(can);
				size_t n = 0;
				for (auto& m : can) {q.push_back(Client::body(m)); n += m.size();}
				CHECK(n == pend, "pending bytes %d, messages hold %d", (int) pend, (int) n);
				list<ext::packer<>::msg_type> l;
				for (auto& m : can) l.push_back(m);
				if (!l.empty()) w.c.direct_send_msg(l, true, false);
			}
			CHECK(submit(w.c, i == 4 ? 6 : i, b, true, prior), "refused");
			if (prior) must.push_back(std::make_pair(b, q));
		}
	});
	std::vector<std::string> v = read_wire(w.fd, 20);
	sim::join(f);
	std::set<std::string> seen(v.begin(), v.end());
	CHECK(seen.size() == 5 && v.size() == 5, "messages lost or duplicated: %s", join_str(v).c_str());
	std::map<std::string, int> pos;
	for (size_t i = 0; i < v.size(); ++i) pos[v[i]] = i;
	CHECK(pos["n0"] < pos["n1"] && pos["n1"] < pos["n3"], "order: %s", join_str(v).c_str());
	for (auto& p : must) for (auto& m : p.second) CHECK(pos[p.first] < pos[m], "priority message '%s' sent after '%s' that was still queued", p.first.c_str(), m.c_str());
	sim::outcome(join_str(v));
	sim::finish();
}
SCENARIO(send_priority, "priority messages overtake the queue and nothing else", 2, 3, eagain_net) {priority(1);}

// ------------------------------------------------------------------------------------------------ C08
// every sequence of sends with and without overflow against a blocked link
SCENARIO(limit_seq, "all sequences of overflow and non-overflow sends of two sizes through all interfaces against a full or empty buffer", 0, 1, NULL)
{
	World w;
	w.start(1);
	simnet::set_rx_cap(w.fd, 4);
	size_t lim = 6 + sim::choose(4, "limit");
	w.c.send_buf_size(lim);
	sim::window(true);
	std::vector<std::string> want;
	size_t bytes = 0;
	int n = sim::param("len", 4);
	for (int i = 0; i < n; ++i)
	{
		bool over = sim::choose(2, "overflow") == 1;
		std::string b(1 + 2 * sim::choose(2, "size"), 'a' + i);
		int form = i == 0 ? 0 : i == n - 1 ? sim::choose(9, "interface") : i;
		if ((form == 4 || form == 7) && !over && w.c.get_pending_send_msg_size() >= lim) form = 0;   // the guaranteed forms would wait
		sim::settle();
		sim::NoPreempt np;
		size_t pend = w.c.get_pending_send_msg_size();
		if (pend >= lim) CHECK(!w.c.is_send_buffer_available(), "buffer reported as available with %d of %d bytes", (int) pend, (int) lim);
		else CHECK(w.c.is_send_buffer_available(), "buffer reported as full with %d of %d bytes", (int) pend, (int) lim);
		bool ok = submit(w.c, form, b, over, false);
		CHECK(ok == (over || pend < lim), "send %s with %d of %d bytes pending, overflow=%d", ok ? "accepted" : "refused", (int) pend, (int) lim, over);
		if (ok) {want.push_back(b); bytes += lv(b).size();}
		else CHECK(w.c.get_pending_send_msg_size() == pend, "a refused message changed the buffer");
	}
	sim::window(false);
	std::vector<std::string> v = read_wire(w.fd, bytes);
	CHECK(v == want, "wire %s, accepted %s", join_str(v).c_str(), join_str(want).c_str());
	sim::outcome(join_str(v));
	sim::finish();
}
// guaranteed sending
SCENARIO(safe_send, "guaranteed sends wait for room, and give up only when the link is not ready", 1, 2, NULL)
{
	World w;
	w.start(2);
	simnet::set_rx_cap(w.fd, 4);
	w.c.send_buf_size(6);
	int end = sim::choose(3, "peer reads / peer closes / nothing more");
	sim::window(true);
	std::vector<int> res(2, -1);
	bool ready_at_false = false;
	for (int m = 0; m < 4; ++m) {CHECK(submit(w.c, 0, body(0, m)), "refused"); if (m < 2) sim::settle();}
	std::vector<int> fs;
	for (int s = 0; s < 2; ++s)
		fs.push_back(sim::spawn("safe", [&w, &res, &ready_at_false, s] {
			bool r = s ? w.c.safe_send_native_msg(lv(body(1 + s, 0)), false) : w.c.safe_send_msg(body(1 + s, 0), false);
			if (!r) ready_at_false = ready_at_false || w.c.is_ready();
			res[s] = r;
		}));
	if (end == 0)
	{
		std::vector<std::string> v = read_wire(w.fd, 24);
		for (int x : fs) sim::join(x);
		CHECK(res[0] == 1 && res[1] == 1, "a guaranteed send gave up on a healthy link");
		check_order(v, {4, 1, 1});
	}
	else if (end == 1)
	{
		simnet::close(w.fd);
		for (int x : fs) sim::join(x);   // deadlock is reported if they never return
		CHECK(!ready_at_false, "a guaranteed send gave up while the link was ready");
		sim::outcome(num(res[0]) + num(res[1]));
	}
	else
	{
		sim::sleep_ms(400);
		CHECK(res[0] == -1 && res[1] == -1, "a guaranteed send returned %d/%d while the buffer was full and the link ready", res[0], res[1]);
	}
	sim::finish();
}
// popped messages are never sent
SCENARIO(pop_pending, "a thread takes messages out of the send buffer while they are being sent", 2, 3, NULL)
{
	World w;
	w.start(2);
	simnet::set_rx_cap(w.fd, 5);
	sim::window(true);
	std::vector<std::string> popped;
	int f = sim::spawn("sender", [&] {for (int m = 0; m < 4; ++m) CHECK(submit(w.c, m, body(0, m)), "refused");});
	int g = sim::spawn("popper", [&] {
		for (int i = 0; i < 2; ++i) {SClient::in_msg m; w.c.pop_first_pending_send_msg(m); if (!m.empty()) popped.push_back(Client::body(m));}
		SClient::in_container_type can; w.c.pop_all_pending_send_msg(can);
		for (auto& m : can) popped.push_back(Client::body(m));
	});
	sim::join(f); sim::join(g);
	std::string wire, rest;
	for (;;) {std::string d = simnet::peek_available(w.fd); wire += d; sim::settle(); if (d.empty() && simnet::available(w.fd) == 0) break;}
	CHECK(w.c.get_pending_send_msg_size() == 0, "messages stay in the send buffer");
	std::vector<std::string> v = unlv(wire, &rest);
	CHECK(rest.empty(), "garbage on the wire");
	for (size_t i = 1; i < v.size(); ++i) CHECK(v[i - 1] < v[i], "out of order %s", join_str(v).c_str());
	for (size_t i = 1; i < popped.size(); ++i) CHECK(popped[i - 1] < popped[i], "popped out of order %s", join_str(popped).c_str());
	std::vector<std::string> all = v; all.insert(all.end(), popped.begin(), popped.end());
	std::sort(all.begin(), all.end());
	CHECK(all == std::vector<std::string>({"a0", "a1", "a2", "a3"}), "sent %s taken back %s", join_str(v).c_str(), join_str(popped).c_str());
	sim::outcome(join_str(v) + "/" + join_str(popped));
	sim::finish();
}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
SCENARIO(shrink_seq, "all sequences of sends against a shrinking buffer with every answer of calc_shrink_size", 0, 1, NULL)
{
	World w;
	w.start(1);
	simnet::set_rx_cap(w.fd, 4);
	const size_t lim = 9;
	w.c.send_buf_size(lim);
	std::vector<std::string> queued, want;     // model of the send buffer, messages expected on the wire
	size_t qbytes = 0, req = 0, called = 0, at = 0;
	w.c.shrink_hook = [&](size_t cur) {++called; at = cur; int k = sim::choose(4, "shrink"); req = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 5 : cur; return req;};
	sim::window(true);
	// the first two messages block the link: one in the peer's window, one in flight
	for (int i = 0; i < 2; ++i) {CHECK(submit(w.c, 0, std::string(2, 'A' + i)), "refused"); want.push_back(std::string(2, 'A' + i)); sim::settle();}
	CHECK(w.c.get_pending_send_msg_size() == 0, "setup");
	int n = sim::param("len", 5);
	for (int i = 0; i < n; ++i)
	{
		bool over = i > 2 && sim::choose(2, "overflow") == 1;
		std::string b(1 + 2 * sim::choose(2, "size"), 'a' + i);
		int form = i == n - 1 ? sim::choose(4, "interface") : 0;
		size_t disc0 = w.c.discarded.size();
		called = 0; req = 0;
		bool ok = submit(w.c, form, b, over, false);
		std::vector<std::string> disc(w.c.discarded.begin() + disc0, w.c.discarded.end());
		if (over || qbytes < lim) CHECK(ok && called == 0 && disc.empty(), "send %d with %d of %d bytes: ok=%d, shrinking asked %d times", i, (int) qbytes, (int) lim, ok, (int) called);
		else
		{
			CHECK(called == 1 && at == qbytes, "calc_shrink_size called %d times with %d, %d bytes pending", (int) called, (int) at, (int) qbytes);
			std::vector<std::string> exp;
			size_t got = 0;
			while (got < req && !queued.empty()) {got += lv(queued[0]).size(); exp.push_back(queued[0]); queued.erase(queued.begin());}
			qbytes -= got;
			CHECK(disc == exp, "asked to free %d bytes, discarded %s, expected %s", (int) req, join_str(disc).c_str(), join_str(exp).c_str());
			CHECK(ok == (req > 0), "send %s although shrinking %s", ok ? "accepted" : "refused", req ? "freed room" : "was declined");
		}
		if (ok) {queued.push_back(b); qbytes += lv(b).size();}
		CHECK(w.c.get_pending_send_msg_size() == qbytes, "buffer holds %d bytes, expected %d", (int) w.c.get_pending_send_msg_size(), (int) qbytes);
	}
	want.insert(want.end(), queued.begin(), queued.end());
	sim::window(false);
	size_t bytes = 0;
	for (auto& m : want) bytes += lv(m).size();
	std::vector<std::string> v = read_wire(w.fd, bytes);
	CHECK(v == want, "wire %s expected %s", join_str(v).c_str(), join_str(want).c_str());
	sim::outcome(join_str(v));
	sim::finish();
}
SCENARIO(shrink_race, "two senders shrink the buffer while the link drains it", 2, 3, NULL)
{
	World w;
	w.start(1);
	simnet::set_rx_cap(w.fd, 6);
	w.c.send_buf_size(5);
	w.c.shrink_hook = [&](size_t cur) {return (size_t) 5;};
	sim::window(true);
	std::vector<int> fs, acc(2, 0);
	for (int s = 0; s < 2; ++s) fs.push_back(sim::spawn("sender", [&, s] {for (int m = 0; m < 3; ++m) {CHECK(submit(w.c, m, body(s, m), false), "refused although shrinking frees room"); ++acc[s];}}));
	std::string wire, rest;
	for (int x : fs) sim::join(x);
	for (;;) {sim::settle(); std::string d = simnet::peek_available(w.fd); wire += d; sim::settle(); if (d.empty() && simnet::available(w.fd) == 0) break;}
	std::vector<std::string> v = unlv(wire, &rest), all = v;
	CHECK(rest.empty(), "garbage");
	all.insert(all.end(), w.c.discarded.begin(), w.c.discarded.end());
	std::sort(all.begin(), all.end());
	CHECK(all == std::vector<std::string>({"a0", "a1", "a2", "b0", "b1", "b2"}), "sent %s discarded %s", join_str(v).c_str(), join_str(w.c.discarded).c_str());
	for (int s = 0; s < 2; ++s)
	{
		std::string last;
		for (auto& m : v) if (m[0] == 'a' + s) {CHECK(last < m, "out of order %s", join_str(v).c_str()); last = m;}
		// callbacks of two threads may be recorded in either order, so the discards are only checked as a set
	}
	sim::outcome(join_str(v) + "/" + join_str(w.c.discarded));
	sim::finish();
}
#endif

// ------------------------------------------------------------------------------------------------ C09
static void notify(int threads, bool resend)
{
	World w;
	w.start(threads);
	sim::window(true);
	const int n = 2, msgs = 2;
	size_t peer_got = 0;
	std::vector<std::string> submitted;      // calls that have returned
	size_t submitted_at_notify = 0;
	bool broken = false;
	w.c.send_hook = [&] {
		submitted_at_notify = submitted.size();
		size_t bytes = 0;
		for (auto& m : w.c.sent) bytes += m.size() + 2;
		size_t have = peer_got + simnet::available(w.fd);
		CHECK(have >= bytes || simnet::was_reset(w.fd), "notified about %d bytes, only %d were written", (int) bytes, (int) have);
	};
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	w.c.all_sent_hook = [&] {
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
		CHECK(w.c.sent.size() >= submitted_at_notify, "'all sent' reported with accepted messages still in the send buffer");
		CHECK(w.c.last_all == w.c.sent.back(), "'all sent' carries '%s' instead of the last message '%s'", hex(w.c.last_all).c_str(), hex(w.c.sent.back()).c_str());
#endif
	};
#endif
	bool resent = false;
	if (resend) w.c.fail_hook = [&](SClient::in_container_type& can) {resent = true;};
	std::vector<int> fs;
	for (int s = 0; s < n; ++s)
		fs.push_back(sim::spawn("sender", [&, s] {for (int m = 0; m < msgs; ++m) {CHECK(submit(w.c, s * 2 + m, body(s, m)), "refused"); sim::logf("submitted %s pending %d", body(s, m).c_str(), (int) w.c.get_pending_send_msg_size()); submitted.push_back(body(s, m));}}));
	std::string wire;
	for (int x : fs) sim::join(x);
	for (;;)
	{
		sim::settle();
		std::string d = simnet::peek_available(w.fd);
		wire += d; peer_got += d.size();
		if (d.empty()) {sim::settle(); if (simnet::available(w.fd) == 0) break;}
	}
	sim::settle();
	broken = simnet::was_reset(w.fd) || simnet::at_eof(w.fd);
	std::vector<std::string> onwire = unlv(wire);
	std::vector<std::string> left;
	SClient::in_container_type can; w.c.pop_all_pending_send_msg(can);
	for (auto& m : can) left.push_back(Client::body(m));
	CHECK(broken || left.empty(), "accepted messages stay in the send buffer of a healthy link");
	if (!broken) CHECK(w.c.failed.empty(), "send error reported on a healthy link");
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	CHECK(w.c.sent.size() <= onwire.size() || broken, "notified %s, on the wire %s", join_str(w.c.sent).c_str(), join_str(onwire).c_str());
	for (size_t i = 0; i < w.c.sent.size() && i < onwire.size(); ++i) CHECK(w.c.sent[i] == onwire[i], "notified %s, on the wire %s", join_str(w.c.sent).c_str(), join_str(onwire).c_str());
	std::vector<std::string> all = w.c.sent;
	all.insert(all.end(), w.c.failed.begin(), w.c.failed.end());
	all.insert(all.end(), left.begin(), left.end());
	for (size_t k = 0; k < all.size(); ++k) for (size_t j = 0; j < k; ++j) CHECK(all[k] != all[j], "message '%s' accounted for twice: sent %s failed %s left %s", all[k].c_str(), join_str(w.c.sent).c_str(), join_str(w.c.failed).c_str(), join_str(left).c_str());
	CHECK(all.size() == (size_t) n * msgs, "messages not accounted for: sent %s failed %s left %s", join_str(w.c.sent).c_str(), join_str(w.c.failed).c_str(), join_str(left).c_str());
	for (int s = 0; s < n; ++s)
	{
		std::string last;
		for (auto& m : all) if (m[0] == 'a' + s) {CHECK(last < m, "reported out of order: sent %s failed %s left %s", join_str(w.c.sent).c_str(), join_str(w.c.failed).c_str(), join_str(left).c_str()); last = m;}
	}
	sim::outcome(join_str(w.c.sent) + "|" + join_str(w.c.failed) + "|" + join_str(left) + "|" + num(w.c.all_sent));
#else
	for (auto& f : w.c.failed) CHECK(std::count(w.c.failed.begin(), w.c.failed.end(), f) == 1 && !std::count(left.begin(), left.end(), f), "failed message reported twice");
	if (broken) ; else CHECK(onwire.size() + w.c.failed.size() + left.size() >= (size_t) n * msgs, "messages not accounted for: wire %s failed %s left %s", join_str(onwire).c_str(), join_str(w.c.failed).c_str(), join_str(left).c_str());
	CHECK(broken || onwire.size() == (size_t) n * msgs, "messages lost");
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	if (!broken) CHECK(w.c.all_sent > 0, "the send buffer went empty without 'all sent'");
#if !defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) && !defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	if (!broken) CHECK(w.c.last_all == onwire.back(), "'all sent' carries '%s', last on the wire is '%s'", hex(w.c.last_all).c_str(), hex(onwire.back()).c_str());
#endif
#endif
	sim::finish();
}
SCENARIO(notify_ok, "2 senders, all notifications, short and blocked writes", 2, 3, small_net) {notify(1, false);}
SCENARIO(notify_err, "2 senders, a reset injected at every write", 2, 3, reset_net) {notify(2, false);}
// deterministic: notifications for every pattern of batches against a blocked link
SCENARIO(notify_batches, "one sender, every pattern of pauses between messages, tiny window: notifications and 'all sent' per write", 0, 1, NULL)
{
	World w;
	w.start(1);
	simnet::set_rx_cap(w.fd, 1 + sim::choose(9, "window"));
	size_t wire = 0;
	std::vector<std::string> sub;
	size_t in_buffer_at_all = 0;
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	w.c.all_sent_hook = [&] {CHECK(w.c.get_pending_send_msg_size() == 0, "'all sent' with %d bytes in the send buffer", (int) w.c.get_pending_send_msg_size()); in_buffer_at_all = sub.size();};
#endif
	sim::window(true);
	std::string data;
	for (int i = 0; i < 4; ++i)
	{
		{sim::NoPreempt np; CHECK(submit(w.c, i, body(0, i)), "refused"); sub.push_back(body(0, i));}
		int act = sim::choose(3, "nothing / run / run and read");
		if (act) sim::settle();
		if (act == 2) data += simnet::peek_available(w.fd);
		sim::settle();
	}
	for (;;) {sim::settle(); std::string d = simnet::peek_available(w.fd); if (d.empty()) break; data += d;}
	CHECK(data == all_lv(sub), "wire %s", hex(data).c_str());
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	CHECK(w.c.sent == sub, "notified %s, sent %s", join_str(w.c.sent).c_str(), join_str(sub).c_str());
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	CHECK(w.c.all_sent >= 1 && in_buffer_at_all == sub.size(), "'all sent' missing after the last message");
#endif
	sim::outcome(num(w.c.all_sent) + data);
	sim::finish();
}
