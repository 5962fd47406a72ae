// C29: arithmetic of statistics: every bounded sequence of samples, sums, differences and resets against a reference
#include "seqcommon.h"
#include "base.h"
using namespace st_asio_wrapper;
#ifdef ST_ASIO_FULL_STATISTIC
typedef statistic::duration D;
typedef D::super T;
static T t(long n) {return T(n);}
struct RD
{
	long sum = 0, num = 0, mn = 0, mx = 0;
	bool ext = true; // minimum and maximum are defined
	void add(long s) {if (!num || s < mn) mn = s; if (!num || s > mx) mx = s; sum += s; ++num;}
	void add(const RD& o) {if (o.num) {if (!num || o.mn < mn) mn = o.mn; if (!num || o.mx > mx) mx = o.mx;} sum += o.sum; num += o.num; ext = ext && o.ext;}
	void sub(const RD& o) {sum -= o.sum; num -= o.num; if (o.num) ext = false;}
	void check(const D& d, const char* w) const
	{
		REQUIRE((const T&) d == t(sum) && d.num == num, "%s: sum %ld of %ld samples instead of %ld of %ld", w, (long) d.count(), (long) d.num, sum, num);
		if (ext) REQUIRE(d.min_duration == t(mn) && d.max_duration == t(mx), "%s: minimum %ld, maximum %ld instead of %ld, %ld", w, (long) d.min_duration.count(), (long) d.max_duration.count(), mn, mx);
		if (num > 0) REQUIRE(d.get_avg() == t(sum) / num, "%s: average %ld", w, (long) d.get_avg().count());
		REQUIRE(D::to_float(d) == d.to_float(), "%s: seconds", w);
		double f = (double) sum * T::period::num / T::period::den, g = d.to_float();
		REQUIRE(g >= f - 1e-6 && g <= f + 1e-6, "%s: %g seconds instead of %g", w, g, f);
	}
};
SEQ_SCENARIO(stat_duration, "every sequence of samples, sums, differences and resets of accumulated durations")
{
	D a, b; RD ra, rb;
	static const long S[] = {0, 1, 2, 5, 2000000000L};
	int n = seq::param("depth", 5);
	for (int i = 0; i < n; ++i)
	{
		int o = seq::choose(14);
		if (o < 5) {a += t(S[o]); ra.add(S[o]);}
		else if (o < 9) {b += t(S[o - 5 + 1]); rb.add(S[o - 5 + 1]);}
		else switch (o)
		{
		case 9: a += b; ra.add(rb); break;
		case 10: a -= b; ra.sub(rb); break;
		case 11: a.reset(); ra = RD(); break;
		case 12: {D c(a); a = b; b = c; RD r(ra); ra = rb; rb = r; break;}
		case 13: {D c(a); c += b; a = c; ra.add(rb); break;}
		}
		ra.check(a, "a"); rb.check(b, "b");
		if (ra.num < 0) seq::skip();
	}
	seq::outcome(std::to_string(ra.sum % 97) + "/" + std::to_string(ra.num));
}
#else
SEQ_SCENARIO(stat_duration, "without full statistics durations do nothing") {statistic::stat_duration a, b; a += b; a -= b; a += statistic::now() - statistic::now();}
#endif
// ---- whole statistics; every member is addressed by its number
static const int NN = 4, ND = 7, NT = 4;
static boost::uint_fast64_t& N(statistic& s, int i) {switch (i) {case 0: return s.send_msg_sum; case 1: return s.send_byte_sum; case 2: return s.recv_msg_sum; default: return s.recv_byte_sum;}}
static time_t& M(statistic& s, int i) {switch (i) {case 0: return s.establish_time; case 1: return s.break_time; case 2: return s.last_send_time; default: return s.last_recv_time;}}
static statistic::stat_duration& DU(statistic& s, int i)
{
	switch (i) {case 0: return s.send_delay_sum; case 1: return s.send_time_sum; case 2: return s.pack_time_sum; case 3: return s.dispatch_delay_sum; case 4: return s.recv_idle_sum; case 5: return s.handle_time_sum; default: return s.unpack_time_sum;}
}
struct RS
{
	long n[NN]; long m[NT];
	RS() {clear_n();}
	void clear_n() {for (auto& x : n) x = 0; for (auto& x : m) x = 0;}
#ifdef ST_ASIO_FULL_STATISTIC
	RD d[ND];
#endif
	void add(const RS& o)
	{
		for (int i = 0; i < NN; ++i) n[i] += o.n[i];
#ifdef ST_ASIO_FULL_STATISTIC
		for (int i = 0; i < ND; ++i) d[i].add(o.d[i]);
#endif
	}
	void sub(const RS& o)
	{
		for (int i = 0; i < NN; ++i) n[i] -= o.n[i];
#ifdef ST_ASIO_FULL_STATISTIC
		for (int i = 0; i < ND; ++i) d[i].sub(o.d[i]);
#endif
	}
	void check(statistic& s, const char* w, bool times = true)
	{
		for (int i = 0; i < NN; ++i) REQUIRE(N(s, i) == (boost::uint_fast64_t) n[i], "%s: counter %d is %ld instead of %ld", w, i, (long) N(s, i), n[i]);
		if (times) for (int i = 0; i < NT; ++i) REQUIRE(M(s, i) == m[i], "%s: time %d is %ld instead of %ld", w, i, (long) M(s, i), m[i]);
#ifdef ST_ASIO_FULL_STATISTIC
		for (int i = 0; i < ND; ++i) d[i].check(DU(s, i), w);
#endif
	}
};
static void put(statistic& s, RS& r, int i, long v)
{
	if (i < NN) {N(s, i) += v; r.n[i] += v;}
	else if (i < NN + NT) {M(s, i - NN) = v; r.m[i - NN] = v;}
#ifdef ST_ASIO_FULL_STATISTIC
	else {DU(s, i - NN - NT) += t(v); r.d[i - NN - NT].add(v);}
#endif
}
SEQ_SCENARIO(stat_whole, "every pair of changed members in two statistics, then every sequence of sums, differences, resets and copies")
{
#ifdef ST_ASIO_FULL_STATISTIC
	const int K = NN + NT + ND;
#else
	const int K = NN + NT;
#endif
	statistic a, b; RS ra, rb;
	ra.check(a, "new");
	int x = seq::choose(K), y = seq::choose(K), all = seq::choose(2);
	if (all) for (int i = 0; i < K; ++i) {put(a, ra, i, 100 + i * 7); put(b, rb, i, 10 + i * 3);}
	put(a, ra, x, 3); put(b, rb, y, 2);
	int n = seq::param("ops", 3);
	for (int i = 0; i < n; ++i)
	{
		switch (seq::choose(9))
		{
		case 0: a += b; ra.add(rb); break;
		case 1: a -= b; ra.sub(rb); break;
		case 2: {statistic c = a + b; RS rc = ra; rc.add(rb); rc.check(c, "a + b", false); break;}
		case 3: {statistic c = a - b; RS rc = ra; rc.sub(rb); rc.check(c, "a - b", false); break;}
		case 4: a.reset(); ra = RS(); break;
		case 5: a.reset_number(); ra.clear_n(); break;
#ifdef ST_ASIO_FULL_STATISTIC
		case 6: a.reset_duration(); for (auto& d : ra.d) d = RD(); break;
#else
		case 6: seq::skip();
#endif
		case 7: {statistic c(b); b = a; a = c; RS rc = rb; rb = ra; ra = rc; break;}
		case 8: a += a; {RS o = ra; ra.add(o);} break;
		}
		ra.check(a, "a"); rb.check(b, "b");
	}
	bool neg = false;
	for (int i = 0; i < NN; ++i) neg |= ra.n[i] < 0;
	if (!neg)
	{
		std::string s = a.to_string();
		size_t p = 0;
		for (int i = 0; i < NN; ++i)
		{
			std::string w = (i % 2 ? "size in bytes: " : "message sum: ") + std::to_string(ra.n[i]);
			size_t q = s.find(w, p);
			REQUIRE(q != std::string::npos, "\"%s\" isn't in \"%s\"", w.c_str(), s.c_str());
			p = q + w.size();
		}
	}
}
