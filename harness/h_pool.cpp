// C19 / C20: the object pool under concurrent operations, with minimal objects
#include "common.h"
#include <boost/thread.hpp>
#include "object_pool.h"
using namespace st_asio_wrapper;
#include "poolobj.h"
enum {ADD, DEL_A, DEL_A_ID, DEL_B, HOLD_A, HOLD_C, FREE, CLEAR, CHANGE_B_C, INIT_B_77, INIT_B_A, POP, POP_C, OPS};
static const char* opname[] = {"add new", "del A", "del id A", "del B", "hold A", "hold C", "free", "clear", "change id B->C", "init id B->77", "init id B->A", "pop", "pop C"};
struct PW
{
	service_pump sp; Pool p;
	boost::shared_ptr<Obj> a, b;       // weak use: reset before the threads run where wanted
	Obj *A, *B, *C; uint64_t ia, ib, ic;
	int dels = 0, del_true[3] = {0, 0, 0}, freed = 0, popped = 0, added = 0, refused = 0, cleared = 0, changed = 0;
	std::vector<boost::shared_ptr<Obj> > out; // popped objects
	std::vector<boost::shared_ptr<Obj> > held;
	uint64_t fresh[8]; int nfresh = 0;
	size_t max;
	PW(size_t m) : p((sim::window(false), Obj::next() = 0, sp)), max(m)
	{
		p.max_size(10);
		auto mk = [&] {boost::shared_ptr<Obj> o = p.create(); CHECK(p.add_object(o), "add"); return o;};
		a = mk(); b = mk(); boost::shared_ptr<Obj> c = mk();
		A = a.get(); B = b.get(); C = c.get(); ia = a->id(); ib = b->id(); ic = c->id();
		p.del_object(c);
		C->obs = true;
		p.max_size(max);
	}
	static void keep(std::vector<boost::shared_ptr<Obj> >& v, const boost::shared_ptr<Obj>& o) {sim::NoPreempt np; v.push_back(o);}
	void run(int op)
	{
		sim::logf("op %s", opname[op]);
		switch (op)
		{
		case ADD: {boost::shared_ptr<Obj> o = p.create(); CHECK(!!o, "create"); if (p.add_object(o)) ++added; else ++refused; keep(held, o); break;}
		case DEL_A: del_true[0] += p.del_object(a); break;
		case DEL_A_ID: if (a->id() == ia) del_true[0] += p.del_object(ia); break;
		case DEL_B: del_true[1] += p.del_object(b); break;
		case HOLD_A: {boost::shared_ptr<Obj> o = p.find(ia); if (o) {CHECK(o->id() == ia || o->id() == 77 || o->id() == ic, "id"); keep(held, o);} break;}
		case HOLD_C: {boost::shared_ptr<Obj> o = p.invalid_object_find(ic); if (o) keep(held, o); break;}
		case FREE: freed += p.free_object(); break;
		case CLEAR: cleared += p.clear_obsoleted_object(); break;
		case CHANGE_B_C: {boost::shared_ptr<Obj> o = p.change_object_id(b, ic); if (o) {++changed; CHECK(o.get() == C && o->obs, "a wrong object was consumed"); CHECK(b->id() == ic, "id not changed"); keep(out, o);} break;}
		case INIT_B_77: if (p.init_object_id(b, 77)) ++changed; break;
		case INIT_B_A: if (p.init_object_id(b, ia)) ++changed; break;
		case POP: {boost::shared_ptr<Obj> o = p.invalid_object_pop(); if (o) {CHECK(o->obs, "popped while in use"); ++popped; keep(out, o);} break;}
		case POP_C: {boost::shared_ptr<Obj> o = p.invalid_object_pop(ic); if (o) {CHECK(o->obs, "popped while in use"); ++popped; keep(out, o);} break;}
		}
	}
	void check()
	{
		CHECK(p.size() <= max || added == 0, "more objects than the maximum");
		std::map<Obj*, int> where;
		for (size_t k = 0; k < p.size(); ++k) {boost::shared_ptr<Obj> o = p.at(k); CHECK(o && p.find(o->id()) == o, "an object is not found under its own id"); ++where[o.get()];}
		for (size_t k = 0; k < p.invalid_object_size(); ++k) ++where[p.invalid_object_at(k).get()];
		for (auto& o : out) ++where[o.get()];
		for (auto& w : where) CHECK(w.second == 1, "object %d is in %d places", w.first->serial, w.second);
		auto has = [&](Obj* o) {return where.count(o) > 0;};
		CHECK(Obj::dead()[0] == 0 && Obj::dead()[1] == 0, "an object in use was freed");
		CHECK(has(a.get()) && has(b.get()), "an object was lost");
		bool cheld = false;
		for (auto& o : held) cheld |= o.get() == C;
		CHECK(Obj::dead()[2] + (has(C) || cheld) == 1, "object C is %s", Obj::dead()[2] ? "freed and still there" : "lost");
		CHECK(del_true[0] + del_true[1] <= 2, "removed twice");
		CHECK(freed + popped <= 1, "one object was freed or popped %d times", freed + popped);
		for (size_t i = 0; i < held.size(); ++i) CHECK(!Obj::dead()[held[i]->serial], "a held object was freed");
		std::set<uint64_t> ids;
		for (size_t k = 0; k < p.size(); ++k) CHECK(ids.insert(p.at(k)->id()).second, "an id is used twice");
	}
};
static void pool_pair(int ops_each)
{
	sim::window(false);
	bool a_obs = sim::choose(2, "A obsolete");
	PW w(sim::choose(2, "max") ? 3 : 2);
	w.A->obs = a_obs;
	std::vector<int> t1, t2;
	for (int i = 0; i < ops_each; ++i) {t1.push_back(sim::choose(OPS, "op of thread 1")); t2.push_back(sim::choose(OPS, "op of thread 2"));}
	if (ops_each == 1 && t2[0] < t1[0]) {sim::finish(); return;}
	sim::window(true);
	int f = sim::spawn("t1", [&] {for (int o : t1) w.run(o);});
	for (int o : t2) w.run(o);
	sim::join(f);
	sim::window(false);
	w.check();
	sim::outcome(num(w.p.size()) + "," + num(w.p.invalid_object_size()) + "," + num(w.changed));
	sim::finish();
}
SCENARIO(pool_1x1, "two threads with one operation each", 4, 8, NULL) {pool_pair(1);}
SCENARIO(pool_2x2, "two threads with two operations each", 1, 2, NULL) {pool_pair(2);}
SCENARIO(pool_1x1x1, "three threads with one operation each", 1, 3, NULL)
{
	sim::window(false);
	PW w(3);
	w.A->obs = true;
	int o1 = sim::choose(OPS, "op"), o2 = sim::choose(OPS, "op"), o3 = sim::choose(OPS, "op");
	if (o2 < o1 || o3 < o2) {sim::finish(); return;}
	sim::window(true);
	int f = sim::spawn("t1", [&] {w.run(o1);}), g = sim::spawn("t2", [&] {w.run(o2);});
	w.run(o3);
	sim::join(f); sim::join(g);
	sim::window(false);
	w.check();
	sim::finish();
}
