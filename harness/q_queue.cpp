// C06: the message queues against a reference list, every operation sequence up to a depth
#include "seqcommon.h"
#include <deque>
#include <boost/thread.hpp>
#include "container.h"
#include "ext/ext.h"
using namespace st_asio_wrapper;
static std::string text(const std::string& s) {return s;}
static std::string text(const ext::basic_buffer& b) {return std::string(b.data() ? b.data() : "", b.size());}
template<typename M> static M make(const std::string& s) {M m; m.assign(s.data(), s.size()); return m;}
static std::string show(const std::deque<std::string>& d) {std::string s; for (auto& x : d) s += "'" + x + "' "; return s;}
template<typename Q, typename M> struct Run
{
	typedef boost::container::list<M> Can;
	Q q;
	std::deque<std::string> ref;
	int serial = 0;
	std::string fresh(int size) {std::string s; for (int i = 0; i < size; ++i) s += (char) ('a' + serial % 26); ++serial; return s;}
	static size_t bytes(const std::deque<std::string>& d) {size_t n = 0; for (auto& x : d) n += x.size(); return n;}
	static void same(const Can& c, const std::deque<std::string>& d, const char* what)
	{
		REQUIRE(c.size() == d.size(), "%s: %zu messages instead of %zu", what, c.size(), d.size());
		size_t i = 0;
		for (auto& m : c) {REQUIRE(text(m) == d[i], "%s: message %zu is '%s' instead of '%s'", what, i, text(m).c_str(), d[i].c_str()); ++i;}
	}
	void check(const char* op)
	{
		std::deque<std::string> d;
		q.do_something_to_all([&](M& m) {d.push_back(text(m));});
		REQUIRE(d == ref, "%s: the queue holds %sinstead of %s", op, show(d).c_str(), show(ref).c_str());
		REQUIRE(q.size_in_byte() == bytes(ref), "%s: %zu bytes instead of %zu", op, q.size_in_byte(), bytes(ref));
		REQUIRE(q.size() == ref.size() && q.empty() == ref.empty() && q.is_empty() == ref.empty(), "%s: size or emptiness", op);
		std::string first;
		q.do_something_to_one([&](M& m) {first = "x" + text(m); return true;});
		REQUIRE(first == (ref.empty() ? "" : "x" + ref.front()), "%s: do_something_to_one", op);
	}
	void two(Can& c, std::deque<std::string>& d, int n) {for (int i = 0; i < n; ++i) {d.push_back(fresh(1 + (i + n) % 3)); c.push_back(make<M>(d.back()));}}
	void step()
	{
		int op = seq::choose(30);
		const char* name = "?";
		Can c, pre;
		std::deque<std::string> d, out;
		if (seq::param("pre", 1)) {pre.push_back(make<M>("before")); out.push_back("before");}
		if (op < 8)
		{
			int size = op / 2; // 0..3
			std::string s = fresh(size);
			M m = make<M>(s);
			if (op % 2) {name = "enqueue"; const M& cm = m; if (seq::choose(2)) {REQUIRE(q.enqueue(cm), "enqueue"); REQUIRE(text(m) == s, "the message was changed");} else {REQUIRE(q.enqueue(m), "enqueue"); REQUIRE(m.empty(), "the message was not taken");} ref.push_back(s);}
			else {name = "enqueue_front"; const M& cm = m; if (seq::choose(2)) {REQUIRE(q.enqueue_front(cm), "enqueue_front"); REQUIRE(text(m) == s, "the message was changed");} else {REQUIRE(q.enqueue_front(m), "enqueue_front"); REQUIRE(m.empty(), "the message was not taken");} ref.push_front(s);}
		}
		else if (op < 14)
		{
			int k = op - 8, n = k % 3; // 0..2 messages
			two(c, d, n);
			bool known = n && seq::choose(2);
			if (k < 3) {name = "move_items_in"; if (known) q.move_items_in(c, bytes(d)); else q.move_items_in(c); ref.insert(ref.end(), d.begin(), d.end());}
			else {name = "move_items_in_front"; if (known) q.move_items_in_front(c, bytes(d)); else q.move_items_in_front(c); ref.insert(ref.begin(), d.begin(), d.end());}
			REQUIRE(c.empty(), "%s leaves messages behind", name);
		}
		else if (op < 15)
		{
			name = "try_dequeue";
			M m; bool ok = q.try_dequeue(m);
			REQUIRE(ok == !ref.empty(), "try_dequeue returns %d", ok);
			if (ok) {REQUIRE(text(m) == ref.front(), "try_dequeue gives '%s' instead of '%s'", text(m).c_str(), ref.front().c_str()); ref.pop_front();}
		}
		else if (op < 20)
		{
			name = "move_items_out by count";
			int n = op - 16; // -1 = all, 0..3
			if (n < 0) q.move_items_out(pre); else q.move_items_out(pre, (size_t) n);
			for (size_t k = n < 0 ? ref.size() : n; k > 0 && !ref.empty(); --k) {out.push_back(ref.front()); ref.pop_front();}
			same(pre, out, name);
		}
		else if (op < 27)
		{
			name = "move_items_out by bytes";
			int n = op - 20; // 0 = everything, 1..6
			q.move_items_out(n ? (size_t) n : (size_t) -1, pre);
			for (size_t got = 0; !ref.empty() && (!n || got < (size_t) n);) {got += ref.front().size(); out.push_back(ref.front()); ref.pop_front();}
			same(pre, out, name);
		}
		else if (op < 29)
		{
			name = "swap";
			two(c, d, op == 27 ? 0 : 2);
			q.swap(c);
			same(c, ref, "swap");
			ref = d;
		}
		else {name = "clear"; q.clear(); ref.clear();}
		seq::note(name);
		check(name);
	}
};
template<typename Q, typename M> static void sequences(bool safe)
{
	Run<Q, M> r;
	REQUIRE(r.q.is_thread_safe() == safe, "is_thread_safe");
	int depth = seq::param("depth", 3), fill = seq::choose(4);
	r.check("new queue");
	for (int i = 0; i < fill; ++i) {std::string s = r.fresh(i == 1 ? 0 : i + 1); M m = make<M>(s); r.q.enqueue(m); r.ref.push_back(s);}
	r.check("filled queue");
	for (int i = 0; i < depth; ++i) r.step();
	seq::outcome(show(r.ref));
}
SEQ_SCENARIO(queue_lock, "locking queue of strings") {sequences<lock_queue<boost::container::list<std::string> >, std::string>(true);}
SEQ_SCENARIO(queue_plain, "queue without lock, of strings") {sequences<non_lock_queue<boost::container::list<std::string> >, std::string>(false);}
SEQ_SCENARIO(queue_buffer, "locking queue of buffers") {sequences<lock_queue<boost::container::list<ext::basic_buffer> >, ext::basic_buffer>(true);}
