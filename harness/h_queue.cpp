// C06: concurrent operations on the locking queue, every history compared with all sequential orders
#include "common.h"
#include <deque>
#include <algorithm>
#include <boost/thread.hpp>
#include "container.h"
using namespace st_asio_wrapper;
typedef boost::container::list<std::string> Can;
typedef lock_queue<Can> Q;
static void fine() {sim::opt.fine = true;}
enum {PUSH, PUSH_FRONT, IN2, IN2_FRONT, POP, OUT_ALL, OUT_N1, OUT_B3, SWAP, CLEAR, EMPTY, OPS};
static const char* opname[] = {"enqueue", "enqueue_front", "move_items_in", "move_items_in_front", "try_dequeue", "move_items_out", "move_items_out(1)", "move_items_out(3 bytes)", "swap", "clear", "is_empty"};
struct Op {int op; std::string a, b; std::vector<std::string> out; int64_t t0, t1; int fiber;};
static int64_t tick() {static int64_t t = 0; sim::NoPreempt np; return ++t;}
static void perform(Q& q, Op& o)
{
	Can c;
	o.t0 = tick();
	sim::logf("begin %s", opname[o.op]);
	switch (o.op)
	{
	case PUSH: {std::string m = o.a; if (o.b.empty()) q.enqueue(m); else {const std::string& k = m; q.enqueue(k);} break;}
	case PUSH_FRONT: {std::string m = o.a; if (o.b.empty()) q.enqueue_front(m); else {const std::string& k = m; q.enqueue_front(k);} break;}
	case IN2: c.push_back(o.a); c.push_back(o.b); q.move_items_in(c); break;
	case IN2_FRONT: c.push_back(o.a); c.push_back(o.b); q.move_items_in_front(c); break;
	case POP: {std::string m; if (q.try_dequeue(m)) o.out.push_back(m); break;}
	case OUT_ALL: q.move_items_out(c); break;
	case OUT_N1: q.move_items_out(c, 1); break;
	case OUT_B3: q.move_items_out((size_t) 3, c); break;
	case SWAP: c.push_back(o.a); c.push_back(o.b); q.swap(c); break;
	case CLEAR: q.clear(); break;
	case EMPTY: o.out.push_back(q.is_empty() ? "empty" : "not"); break;
	}
	sim::logf("end %s", opname[o.op]);
	o.t1 = tick();
	sim::NoPreempt np;
	if (o.op != POP && o.op != EMPTY && o.op != IN2 && o.op != IN2_FRONT) for (auto& m : c) o.out.push_back(m);
}
static bool act(std::deque<std::string>& d, const Op& o)
{
	std::vector<std::string> out;
	auto take = [&] {out.push_back(d.front()); d.pop_front();};
	switch (o.op)
	{
	case PUSH: d.push_back(o.a); break;
	case PUSH_FRONT: d.push_front(o.a); break;
	case IN2: d.push_back(o.a); d.push_back(o.b); break;
	case IN2_FRONT: d.push_front(o.b); d.push_front(o.a); break;
	case POP: case OUT_N1: if (!d.empty()) take(); break;
	case OUT_ALL: while (!d.empty()) take(); break;
	case OUT_B3: for (size_t n = 0; !d.empty() && n < 3;) {n += d.front().size(); take();} break;
	case SWAP: while (!d.empty()) take(); d.push_back(o.a); d.push_back(o.b); break;
	case CLEAR: d.clear(); break;
	case EMPTY: out.push_back(d.empty() ? "empty" : "not"); break;
	}
	return out == o.out;
}
static bool explain(const std::vector<Op*>& ops, unsigned done, const std::deque<std::string>& d, const std::deque<std::string>& fin)
{
	if (done + 1 == 1u << ops.size()) return d == fin;
	for (size_t i = 0; i < ops.size(); ++i)
	{
		if (done >> i & 1) continue;
		bool first = true; // nothing that ended before it began is left
		for (size_t k = 0; k < ops.size(); ++k) if (!(done >> k & 1) && k != i && ops[k]->t1 < ops[i]->t0) first = false;
		if (!first) continue;
		std::deque<std::string> e = d;
		if (act(e, *ops[i]) && explain(ops, done | 1u << i, e, fin)) return true;
	}
	return false;
}
static void history(int fibers, int per)
{
	sim::window(false);
	Q q;
	std::deque<std::string> init, fin;
	int fill = sim::choose(3, "messages before") * sim::param("step", 1);
	for (int i = 0; i < fill; ++i) {std::string s(1 + i, 'A' + i); init.push_back(s); q.enqueue(s);}
	std::vector<Op> ops;
	for (int f = 0; f < fibers; ++f)
		for (int i = 0; i < per; ++i)
		{
			Op o; o.op = sim::choose(OPS, "operation"); o.fiber = f;
			int k = f * per + i;
			o.a = std::string(1 + k % 3, 'a' + 2 * k); o.b = std::string(2, 'b' + 2 * k);
			if ((o.op == PUSH || o.op == PUSH_FRONT) && k % 2) o.b.clear();
			ops.push_back(o);
		}
	std::vector<Op*> ptr;
	for (auto& o : ops) ptr.push_back(&o);
	sim::window(true);
	int id[4];
	for (int f = 1; f < fibers; ++f) id[f] = sim::spawn("user", [&, f] {for (int i = 0; i < per; ++i) perform(q, ops[f * per + i]);});
	for (int i = 0; i < per; ++i) perform(q, ops[i]);
	for (int f = 1; f < fibers; ++f) sim::join(id[f]);
	sim::window(false);
	size_t bytes = 0;
	q.do_something_to_all([&](std::string& m) {fin.push_back(m); bytes += m.size();});
	CHECK(q.size_in_byte() == bytes && q.size() == fin.size(), "%zu bytes instead of %zu, %zu messages instead of %zu", q.size_in_byte(), bytes, (size_t) q.size(), fin.size());
	if (!explain(ptr, 0, init, fin))
	{
		std::string s;
		for (auto& o : ops) {s += std::string(opname[o.op]) + "("; for (auto& m : o.out) s += m + " "; s += ") ";}
		s += "left: ";
		for (auto& m : fin) s += m + " ";
		CHECK(false, "no sequential order explains: %s", s.c_str());
	}
	sim::finish();
}
SCENARIO(queue_2x1, "two threads, one operation each, every pair of operations", 3, 5, fine) {history(2, 1);}
SCENARIO(queue_2x2, "two threads, two operations each", 1, 1, NULL) {history(2, 2);}
SCENARIO(queue_3x1, "three threads, one operation each", 1, 2, NULL) {history(3, 1);}
SCENARIO(queue_3x1f, "three threads, one operation each, every memory access", 1, 2, fine) {history(3, 1);}
