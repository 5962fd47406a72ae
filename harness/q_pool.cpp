// C19 (and the pool part of C20): object_pool against a reference model, every operation sequence up to a depth
#include "seqcommon.h"
#include <chrono>
#include <boost/thread.hpp>
#include "object_pool.h"
using namespace st_asio_wrapper;
#include "poolobj.h"
#if defined(ST_ASIO_REUSE_OBJECT) && !defined(ST_ASIO_RESTORE_OBJECT)
static const bool REUSE = true;
#else
static const bool REUSE = false;
#endif
static service_pump& pump() {static service_pump sp; return sp;}
static const int MAXO = 3;
enum {OUT, IN, INV, GONE};
struct World
{
	Pool p;
	int n = 0;                         // objects created so far (serials)
	boost::shared_ptr<Obj> h[8];       // references held by the user
	int st[8]; bool obs[8]; uint64_t id[8];
	uint64_t last_id = 0; size_t max_size; int reuses = 0;
	World() : p((Obj::next() = 0, pump())) {max_size = 2; p.max_size(2); for (int i = 0; i < 8; ++i) {st[i] = GONE; obs[i] = false; id[i] = 0; Obj::dead()[i] = 0;}}
	int count(int s) {int c = 0; for (int i = 0; i < n; ++i) c += st[i] == s; return c;}
	int in_pool(uint64_t x) {for (int i = 0; i < n; ++i) if (st[i] == IN && id[i] == x) return i; return -1;}
	bool eligible(int i) {return st[i] == INV && obs[i] && !h[i];}
	int serial(const boost::shared_ptr<Obj>& o) {for (int i = 0; i < n; ++i) if (!Obj::dead()[i] && o->serial == i) return i; REQUIRE(false, "an unknown object"); return -1;}
	void create()
	{
		int before = Obj::next();
		bool can = false;
		for (int i = 0; i < n; ++i) can |= eligible(i);
		boost::shared_ptr<Obj> o = p.create();
		REQUIRE(!!o, "create failed");
		int s = o->serial;
		if (s >= before)
		{
			REQUIRE(!(REUSE && can), "a new object although one could be reused");
			n = s + 1;
		}
		else
		{
			REQUIRE(REUSE, "an object was reused without ST_ASIO_REUSE_OBJECT");
			REQUIRE(eligible(s), "object %d was reused although it is in use or not obsolete", s);
			REQUIRE(o->resets == 1, "a reused object was reset %d times", o->resets);
			o->resets = 0;
			++reuses;
		}
		for (int i = 0; i < n; ++i) if (i != s && st[i] != GONE) REQUIRE(id[i] != o->id() || id[i] == 77 , "id %d is used twice", (int) id[i]);
		st[s] = OUT; obs[s] = false; id[s] = o->id(); h[s] = o;
	}
	void check(const char* op)
	{
		REQUIRE(p.size() == (size_t) count(IN), "%s: size %zu instead of %d", op, p.size(), count(IN));
		REQUIRE(p.invalid_object_size() == (size_t) count(INV), "%s: %zu invalid objects instead of %d", op, p.invalid_object_size(), count(INV));
		std::string a, b;
		for (int i = 0; i < n; ++i)
		{
			REQUIRE(!Obj::dead()[i] == (st[i] != GONE), "%s: object %d is %s", op, i, st[i] == GONE ? "never freed" : "freed although somebody uses it");
			if (st[i] == GONE) continue;
			if (st[i] == IN) {REQUIRE(p.exist(id[i]), "%s: object %d does not exist under its id", op, i); boost::shared_ptr<Obj> f = p.find(id[i]); REQUIRE(f && f->serial == i && f->id() == id[i], "%s: object %d is not found under its id", op, i);}
			else if (in_pool(id[i]) < 0) REQUIRE(!p.exist(id[i]) && !p.find(id[i]), "%s: an id of an object outside the pool is found in it", op);
			if (h[i]) REQUIRE(h[i]->id() == id[i], "%s: object %d has id %d instead of %d", op, i, (int) h[i]->id(), (int) id[i]);
		}
		char seen[8] = {0};
		for (size_t k = 0; k < p.size(); ++k) {boost::shared_ptr<Obj> o = p.at(k); REQUIRE(!!o, "at"); REQUIRE(st[o->serial] == IN && !seen[o->serial]++, "%s: at() yields a wrong object", op);}
		for (size_t k = 0; k < p.invalid_object_size(); ++k) {boost::shared_ptr<Obj> o = p.invalid_object_at(k); REQUIRE(!!o, "at"); REQUIRE(st[o->serial] == INV && !seen[o->serial]++, "%s: invalid_object_at() yields a wrong object or one twice", op);}
		int each = 0;
		p.do_something_to_all([&](const boost::shared_ptr<Obj>& o) {++each; REQUIRE(st[o->serial] == IN, "%s: do_something_to_all yields a wrong object", op);});
		REQUIRE(each == count(IN), "%s: do_something_to_all", op);
	}
	void gone(int i) {if (!h[i]) st[i] = GONE; else st[i] = OUT;}
};
static void step(World& w)
{
	const int n = w.n;
	int op = seq::choose(n ? 12 : 2);
	int i = op >= 2 && op <= 8 ? seq::choose(n) : -1;
	char nm[64];
	switch (op)
	{
	case 0: seq::note("create "); if (n >= MAXO && !REUSE) seq::skip(); w.create(); if (w.n > MAXO) seq::skip(); snprintf(nm, sizeof nm, "create"); break;
	case 1: w.max_size = 1 + seq::choose(2); seq::note("max %d ", (int) w.max_size); w.p.max_size(w.max_size); snprintf(nm, sizeof nm, "max_size"); break;
	case 2: {
		if (!w.h[i] || w.st[i] == INV) seq::skip();
		seq::note("add %d ", i);
		bool r = w.p.add_object(w.h[i]), e = w.count(IN) < (int) w.max_size && w.in_pool(w.id[i]) < 0;
		REQUIRE(r == e, "add_object returned %d", r);
		if (r) w.st[i] = IN;
		break;}
	case 3: {
		if (!w.h[i]) seq::skip();
		seq::note("del %d ", i);
		bool r = w.p.del_object(w.h[i]), e = w.st[i] == IN;
		REQUIRE(r == e, "del_object(object) returned %d", r);
		if (e) w.st[i] = INV;
		break;}
	case 4: {
		seq::note("del id of %d ", i);
		int k = w.in_pool(w.id[i]);
		bool r = w.p.del_object(w.id[i]);
		REQUIRE(r == (k >= 0), "del_object(id) returned %d", r);
		if (k >= 0) w.st[k] = INV;
		break;}
	case 5: {
		if (w.st[i] == GONE || w.obs[i]) seq::skip();
		seq::note("obsolete %d ", i);
		w.obs[i] = true;
		boost::shared_ptr<Obj> o = w.h[i];
		if (!o) o = w.st[i] == IN ? w.p.find(w.id[i]) : w.p.invalid_object_find(w.id[i]);
		if (!o || o->serial != i) seq::skip();
		o->obs = true;
		break;}
	case 6: {
		if (w.st[i] == GONE) seq::skip();
		if (w.h[i]) {seq::note("drop %d ", i); w.h[i].reset(); if (w.st[i] == OUT) w.st[i] = GONE;}
		else if (w.st[i] == IN) {seq::note("hold %d ", i); w.h[i] = w.p.find(w.id[i]);}
		else {boost::shared_ptr<Obj> o = w.p.invalid_object_find(w.id[i]); if (!o || o->serial != i) seq::skip(); seq::note("hold %d ", i); w.h[i] = o;}
		break;}
	case 7: case 8: {
		if (!w.h[i] || w.st[i] == OUT) seq::skip();
		int t = seq::choose(n + 1);
		uint64_t to = t == n ? 77 : w.id[t];
		if (op == 7)
		{
			seq::note("init id %d->%d ", i, (int) to);
			bool e = to == w.id[i] || (w.st[i] == IN && w.in_pool(to) < 0);
			bool r = w.p.init_object_id(w.h[i], to);
			REQUIRE(r == e, "init_object_id returned %d", r);
			if (r) w.id[i] = to;
		}
		else
		{
			if (to == w.id[i]) seq::skip();
			seq::note("change id %d->%d ", i, (int) to);
			int cand = 0, elig = 0;
			for (int k = 0; k < n; ++k) if (w.st[k] == INV && w.id[k] == to) {++cand; elig += w.eligible(k);}
			boost::shared_ptr<Obj> o = w.p.change_object_id(w.h[i], to);
			if (o)
			{
				int s = o->serial;
				REQUIRE(w.st[i] == IN, "change_object_id succeeded for an object that was removed");
				REQUIRE(w.eligible(s) && w.id[s] == to, "change_object_id consumed object %d", s);
				REQUIRE(w.in_pool(to) < 0, "change_object_id succeeded for an id in use");
				w.st[s] = OUT;
				o.reset();
				w.gone(s);
				w.id[i] = to;
			}
			else REQUIRE(w.st[i] != IN || cand != elig || !elig || w.in_pool(to) >= 0, "change_object_id refused");
		}
		break;}
	case 9: {
		int num = seq::choose(2);
		seq::note("free %s ", num ? "1" : "all");
		int e = 0; for (int k = 0; k < n; ++k) e += w.eligible(k);
		size_t r = num ? w.p.free_object(1) : w.p.free_object();
		REQUIRE((int) r == (num && e > 1 ? 1 : e), "free_object returned %zu, %d are free to go", r, e);
		int f = 0;
		for (int k = 0; k < n; ++k) if (w.eligible(k) && Obj::dead()[k]) {w.st[k] = GONE; ++f;}
		REQUIRE(f == (int) r, "free_object freed %d", f);
		break;}
	case 10: {
		seq::note("clear ");
		size_t r = w.p.clear_obsoleted_object(), e = 0;
		for (int k = 0; k < n; ++k) if (w.st[k] == IN && w.obs[k]) {w.st[k] = INV; ++e;}
		REQUIRE(r == e, "clear_obsoleted_object returned %zu", r);
		break;}
	case 11: {
		seq::note("pop ");
		int which = seq::choose(n + 1), e = 0, cand = 0;
		for (int k = 0; k < n; ++k) if (w.st[k] == INV && (which == n || w.id[k] == w.id[which])) {++cand; e += w.eligible(k);}
		boost::shared_ptr<Obj> o = which == n ? w.p.invalid_object_pop() : w.p.invalid_object_pop(w.id[which]);
		if (o) {int s = o->serial; REQUIRE(w.eligible(s), "an object in use was popped"); w.st[s] = OUT; o.reset(); w.gone(s);}
		else REQUIRE(!e || (which < n && cand > e), "nothing popped");
		break;}
	}
	w.check(op == 0 ? "create" : op == 1 ? "max_size" : op == 2 ? "add" : op == 3 ? "del(object)" : op == 4 ? "del(id)" : op == 5 ? "obsolete" : op == 6 ? "hold/drop" : op == 7 ? "init_object_id" : op == 8 ? "change_object_id" : op == 9 ? "free" : op == 10 ? "clear" : "pop");
}
SEQ_SCENARIO(pool_ops, "every sequence of pool operations up to the depth, with three objects and maximum 1 or 2")
{
	World w;
	int start = seq::choose(3); // shorter sequences reach further from here
	if (start) {w.create(); w.p.add_object(w.h[0]); w.st[0] = IN;}
	if (start == 2) {w.create(); w.p.add_object(w.h[1]); w.st[1] = IN; w.p.del_object(w.h[0]); w.st[0] = INV; w.h[0]->obs = w.obs[0] = true; w.h[0].reset(); w.h[1].reset();}
	w.check("start");
	int depth = seq::param("depth", 4);
	for (int k = 0; k < depth; ++k) step(w);
	w.p.finalize();
	REQUIRE(w.p.size() == 0, "finalize leaves objects");
	for (int i = 0; i < 8; ++i) w.h[i].reset();
	seq::outcome(num(w.count(IN)) + num(w.count(INV)) + num(w.reuses));
}
