// C01, C02, C03: unpackers driven exactly as boost::asio::async_read drives them, every segmentation
#include "seqcommon.h"
#include "ext/packer.h"
#include "ext/unpacker.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static const size_t B = ST_ASIO_MSG_BUFFER_SIZE, H = ST_ASIO_HEAD_LEN;

static inline size_t bsize(const boost::asio::mutable_buffer& b) {return b.size();}
static inline char* bdata(const boost::asio::mutable_buffer& b) {return (char*) b.data();}
template<typename T> static size_t bsize(const T& v) {REQUIRE(v.size() == 1, "scattered buffer"); return v.begin()->size();}
template<typename T> static char* bdata(const T& v) {return (char*) v.begin()->data();}

enum St {WAIT, ERR, STALL};
static const boost::system::error_code OK;
template<typename U> struct Feeder
{
	U& u;
	bool st;
	std::string s;
	size_t pos;
	std::vector<size_t> cuts; // when not empty, only these offsets are tried
	std::vector<std::string> got;
	std::string trace;
	size_t inflight; // bytes of the read that is still waiting
	Feeder(U& u_) : u(u_), st(((const i_unpacker<typename U::msg_type>&) u_).stripped()), pos(0), inflight(0) {}
	void take(typename U::container_type& can)
	{
		for (auto i = can.begin(); i != can.end(); ++i)
		{
			std::string whole(i->data(), i->size());
			const typename U::msg_type& cm = *i;
			std::string raw(u.raw_data(cm), u.raw_data_len(cm)), raw2(u.raw_data(*i), u.raw_data_len(*i));
			REQUIRE(raw == raw2, "raw_data overloads differ");
			if (st) REQUIRE(raw == whole, "raw data of a stripped message is not the message");
			got.push_back(st ? whole : whole + '\0' + raw); // unstripped: both are checked by the caller
		}
		can.clear();
	}
	St one()
	{
		auto b = u.prepare_next_recv();
		size_t n = bsize(b), total = 0;
		char* p = bdata(b);
		REQUIRE(n > 0 && n <= std::max(B, (size_t) 4000), "empty or too big receive buffer: %zu (%s)", n, trace.c_str());
		size_t max = u.completion_condition(OK, 0);
		for (;;)
		{
			size_t room = std::min(max, n - total);
			if (room == 0) break;
			size_t left = s.size() - pos;
			if (left == 0) {inflight = total; return WAIT;}
			size_t m = std::min(room, left), k = m;
			if (cuts.empty()) k = 1 + seq::choose(m);
			else
			{
				std::vector<size_t> o;
				o.push_back(m);
				for (size_t c : cuts) if (c > pos && c < pos + m) o.push_back(c - pos);
				k = o[seq::choose(o.size())];
			}
			memcpy(p + total, s.data() + pos, k);
			pos += k; total += k;
			if (seq::verbose || seq::single) trace += " read" + num(k);
			if (total == n) break;
			max = u.completion_condition(OK, total);
			if (max == 0) break;
		}
		if (total == 0) return STALL;
		typename U::container_type can;
		bool ok = u.parse_msg(total, can);
		take(can);
		return ok ? WAIT : ERR;
	}
	St run() // until it needs bytes the stream does not have, or an error
	{
		for (size_t guard = 0; ; ++guard)
		{
			REQUIRE(guard < 4 * s.size() + 16, "endless reading without progress");
			size_t p0 = pos;
			St st = one();
			if (st != WAIT) return st;
			if (pos == s.size() && (inflight || p0 == pos)) return WAIT;
		}
	}
	void eof(bool drop = true) // the read in flight ends with an error
	{
		u.completion_condition(boost::asio::error::eof, inflight);
		if (inflight > 0)
		{
			typename U::container_type can;
			if (!u.parse_msg(inflight, can)) u.reset();
			take(can);
		}
		inflight = 0;
	}
};
static std::string join(const std::vector<std::string>& v) {std::string o; for (auto& x : v) o += "[" + hex(x) + "]"; return o;}

static std::string enc(const std::string& body)
{
	size_t n = body.size() + H;
	std::string s;
	for (int i = (int) H - 1; i >= 0; --i) s += (char) (n >> (8 * i));
	return s + body;
}
static std::string body_of(int m, size_t len) {std::string b; for (size_t i = 0; i < len; ++i) b += (char) (0x30 + 0x20 * m + i % 29); return b;}

// ---- C01 ------------------------------------------------------------------------------------------------
template<typename U> struct Setup {static void go(U&) {}};
template<typename U> static void valid_streams(const char* name, bool can_unstrip, size_t maxk, size_t maxbytes, const std::vector<size_t>& sizes, bool cuts)
{
	static U u; // reused: reset between runs is part of what is checked
	u.reset();
	bool stripped = !can_unstrip || 0 == seq::choose(2);
	u.stripped(stripped);
	size_t k = 1 + seq::choose(maxk);
	std::vector<std::string> want;
	Feeder<U> f(u);
	static packer<> pk;
	for (size_t i = 0; i < k; ++i)
	{
		size_t len = sizes[seq::choose(sizes.size())];
		std::string b = body_of(i, len), w;
		if (len == 0) {packer<>::msg_type hb; REQUIRE(pk.pack_heartbeat(hb), "heartbeat"); w = hb; REQUIRE(w == enc(""), "heartbeat bytes");}
		else
		{
			packer<>::msg_type m;
			const char* p[] = {b.data()}; size_t l[] = {b.size()};
			REQUIRE(pk.pack_msg(m, p, l, 1), "pack");
			w = m;
			REQUIRE(w == enc(b), "wire format changed: %s", hex(w).c_str());
			want.push_back(stripped ? b : w + '\0' + b);
		}
		if (cuts) for (size_t c : {(size_t) 1, (size_t) H, (size_t) H + 1, w.size() - 1, w.size()}) f.cuts.push_back(f.s.size() + c);
		f.s += w;
	}
	if (f.s.size() > maxbytes) seq::skip();
	seq::note("%s stripped=%d stream=%s", name, stripped, hex(f.s).c_str());
	St st = f.run();
	REQUIRE(st == WAIT, "%s: a valid stream was %s, delivered %s", name, st == ERR ? "reported as malformed" : "stalled", join(f.got).c_str());
	REQUIRE(f.got == want, "%s: delivered %s, expected %s", name, join(f.got).c_str(), join(want).c_str());
	if (cuts) return;
	seq::outcome(std::string(name) + join(want).substr(0, 80));
}
static std::vector<size_t> upto(size_t n) {std::vector<size_t> v; for (size_t i = 0; i <= n; ++i) v.push_back(i); return v;}

typedef unpacker<> U1;
typedef unpacker<basic_buffer> U2;
typedef flexible_unpacker<> U3;
typedef flexible_unpacker<std::string> U4;
typedef unpacker2<> U5;
typedef unpacker2<unique_buffer<basic_buffer>, basic_buffer, flexible_unpacker<> > U6;
typedef unpacker2<shared_buffer<i_buffer>, string_buffer, unpacker<> > U7;
typedef non_copy_unpacker U8;
#define EACH(M) M(U1, "unpacker<string>", true) M(U2, "unpacker<basic_buffer>", true) M(U3, "flexible<basic_buffer>", true) M(U4, "flexible<string>", true) \
	M(U5, "unpacker2<shared>", true) M(U6, "unpacker2<unique,flexible>", true) M(U8, "non_copy", false)
SEQ_SCENARIO(framing_small, "all message lists, all segmentations, tiny buffer")
{
	size_t maxb = seq::param("bytes", 11);
	std::vector<size_t> z = upto(B - H);
	int c = 0, w = seq::choose(7);
#define DO(T, N, S) if (c++ == w) valid_streams<T>(N, S, 3, maxb, z, false);
	EACH(DO)
#undef DO
}
SEQ_SCENARIO(framing_big, "messages around the 4000 byte buffer of the flexible unpacker and around the limit, cuts at every structural boundary")
{
	std::vector<size_t> z = {0, 1, 4000 - H - 1, 4000 - H, 4000 - H + 1, B - H};
	size_t k = seq::param("msgs", 2);
	int c = 0, w = seq::choose(7);
#define DO(T, N, S) if (c++ == w) valid_streams<T>(N, S, k, 1 << 20, z, true);
	EACH(DO)
#undef DO
}

// ---- C03: streams with malformed headers ---------------------------------------------------------------
// expected: the bodies in front of the malformed header; err: a complete malformed header is in the stream
static bool oracle(const std::string& s, std::vector<std::string>& bodies)
{
	size_t p = 0;
	while (s.size() - p >= H)
	{
		size_t n = 0;
		for (size_t i = 0; i < H; ++i) n = n << 8 | (unsigned char) s[p + i];
		if (n < H || n > B) return true;
		if (s.size() - p < n) return false;
		if (n > H) bodies.push_back(s.substr(p + H, n - H));
		p += n;
	}
	return false;
}
template<typename U> static void fresh(U& u, const char* name, bool stripped)
{
	Feeder<U> g(u);
	std::string b1 = body_of(1, B - H), b2 = body_of(2, 1);
	g.s = enc(b1) + enc(b2);
	g.cuts.push_back(1); g.cuts.push_back(B + 1);
	St st = g.run();
	REQUIRE(st == WAIT && g.got.size() == 2, "%s: fresh stream after reset: status %d, delivered %s", name, st, join(g.got).c_str());
	std::string w1 = stripped ? b1 : enc(b1) + '\0' + b1, w2 = stripped ? b2 : enc(b2) + '\0' + b2;
	REQUIRE(g.got[0] == w1 && g.got[1] == w2, "%s: fresh stream after reset: delivered %s", name, join(g.got).c_str());
}
template<typename U> static void bad_streams(const char* name, bool can_unstrip, size_t maxunits, size_t maxbytes, const std::vector<long>& heads, bool cuts)
{
	static U u;
	u.reset();
	bool stripped = !can_unstrip || 0 == seq::choose(2);
	u.stripped(stripped);
	size_t k = 1 + seq::choose(maxunits);
	Feeder<U> f(u);
	for (size_t i = 0; i < k; ++i)
	{
		unsigned long h = heads[seq::choose(heads.size())];
		std::string w;
		for (int j = (int) H - 1; j >= 0; --j) w += (char) (h >> (8 * j));
		size_t body = h >= H && h <= B ? h - H : 1;
		w += body_of(i, body);
		if (cuts) for (size_t c : {(size_t) 1, (size_t) H, w.size() - 1, w.size()}) f.cuts.push_back(f.s.size() + c);
		f.s += w;
	}
	size_t cut = seq::choose(3); // truncated tail: incomplete, not malformed
	if (cut >= f.s.size()) seq::skip();
	f.s.resize(f.s.size() - cut);
	if (f.s.size() > maxbytes) seq::skip();
	std::vector<std::string> bodies, want;
	bool bad = oracle(f.s, bodies);
	seq::note("%s stripped=%d stream=%s (%s)", name, stripped, hex(f.s).c_str(), bad ? "malformed" : "incomplete or valid");
	for (auto& b : bodies) want.push_back(stripped ? b : enc(b) + '\0' + b);
	St st = f.run();
	REQUIRE(st != STALL, "%s: reception stalled silently, delivered %s", name, join(f.got).c_str());
	REQUIRE((st == ERR) == bad, "%s: %s, delivered %s", name, bad ? "malformed stream not reported" : "incomplete stream reported as malformed", join(f.got).c_str());
	REQUIRE(f.got == want, "%s: delivered %s, expected %s", name, join(f.got).c_str(), join(want).c_str());
	u.dump_left_data();
	if (st == WAIT) {f.eof(); REQUIRE(f.got == want, "%s: more messages at end of stream: %s", name, join(f.got).c_str());}
	u.reset();
	fresh(u, name, stripped);
	if (!cuts) seq::outcome(std::string(name) + (bad ? "bad" : "ok") + join(want).substr(0, 80));
}
SEQ_SCENARIO(malformed_small, "headers below, at and above the limits at every position, all segmentations")
{
	size_t maxb = seq::param("bytes", 9);
	std::vector<long> z = {0, 1, 2, 3, 4, 5, (long) B - 1, (long) B, (long) B + 1, 255, 256, 65535};
	if (H == 4) {z = {0, 3, 4, 5, 6, (long) B, (long) B + 1, 65536 + 6, 0x7fffffff, 0x80000000l, 0xffffffffl};}
	int c = 0, w = seq::choose(7);
#define DO(T, N, S) if (c++ == w) bad_streams<T>(N, S, 3, maxb, z, false);
	EACH(DO)
#undef DO
}
SEQ_SCENARIO(malformed_big, "malformed headers around big messages")
{
	std::vector<long> z = {0, 1, 3, 4000, 4001, (long) B, (long) B + 1, 65535};
	int c = 0, w = seq::choose(7);
#define DO(T, N, S) if (c++ == w) bad_streams<T>(N, S, seq::param("msgs", 2), 1 << 20, z, true);
	EACH(DO)
#undef DO
}

// ---- C02/C03: prefix + suffix --------------------------------------------------------------------------
struct Cfg {const char* p; const char* s;};
static const Cfg cfgs[] = {{"", "s"}, {"p", "s"}, {"", "ss"}, {"pp", "ss"}, {"p", "ps"}, {"ps", "sp"}, {"p", "p"}, {"pps", "s"}};
static bool ps_oracle(const std::string& s, const std::string& p, const std::string& x, std::vector<std::string>& bodies)
{
	size_t pos = 0;
	for (;;)
	{
		size_t n = s.size() - pos;
		if (n >= p.size() && 0 != s.compare(pos, p.size(), p)) return true;
		if (n < p.size()) return false;
		size_t e = s.find(x, pos + p.size());
		if (e == std::string::npos) return n >= B;
		if (e + x.size() - pos > B) return true;
		if (e > pos + p.size()) bodies.push_back(s.substr(pos + p.size(), e - pos - p.size()));
		pos = e + x.size();
	}
}
SEQ_SCENARIO(delimited_all, "every byte string over {p,s,x} up to a length, every segmentation, every prefix/suffix configuration")
{
	static prefix_suffix_unpacker u;
	size_t maxlen = seq::param("len", 7);
	const Cfg& c = cfgs[seq::choose(sizeof cfgs / sizeof *cfgs)];
	std::string P = c.p, S = c.s;
	u.reset();
	u.prefix_suffix(P, S);
	bool stripped = 0 == seq::choose(2);
	u.stripped(stripped);
	Feeder<prefix_suffix_unpacker> f(u);
	size_t len = 1 + seq::choose(maxlen);
	if (len == maxlen && maxlen < B + 2 && seq::param("long", 1)) len = B + 2; // one class of strings beyond the buffer size
	for (size_t i = 0; i < len; ++i) f.s += i < maxlen || len <= maxlen ? "psx"[seq::choose(3)] : 'x';
	std::vector<std::string> bodies, want;
	bool bad = ps_oracle(f.s, P, S, bodies);
	for (auto& b : bodies) want.push_back(stripped ? b : P + b + S + '\0' + b);
	seq::note("prefix=%s suffix=%s stripped=%d stream=%s (%s)", c.p, c.s, stripped, f.s.c_str(), bad ? "malformed" : "incomplete or valid");
	if (len > maxlen) {for (size_t i = 1; i < len; i += 2) f.cuts.push_back(i);}
	St st = f.run();
	REQUIRE(st != STALL, "reception stalled silently, delivered %s", join(f.got).c_str());
	REQUIRE((st == ERR) == bad, "%s, delivered %s", bad ? "malformed stream not reported" : "valid or incomplete stream reported as malformed", join(f.got).c_str());
	REQUIRE(f.got == want, "delivered %s, expected %s", join(f.got).c_str(), join(want).c_str());
	u.dump_left_data();
	if (st == WAIT) {f.eof(); REQUIRE(f.got == want, "more messages at end of stream: %s", join(f.got).c_str());}
	u.reset();
	Feeder<prefix_suffix_unpacker> g(u);
	g.s = P + "xyz" + S + P + "y" + S;
	g.cuts.push_back(1);
	st = g.run();
	std::vector<std::string> w2; w2.push_back(stripped ? "xyz" : P + "xyz" + S + '\0' + "xyz"); w2.push_back(stripped ? "y" : P + "y" + S + '\0' + "y");
	REQUIRE(st == WAIT && g.got == w2, "fresh stream after reset: status %d delivered %s", st, join(g.got).c_str());
	seq::outcome(P + "/" + S + (bad ? "bad" : "ok") + join(want));
}
SEQ_SCENARIO(delimited_valid, "every list of messages whose bodies do not contain the suffix, packed by the packer, every segmentation")
{
	static prefix_suffix_unpacker u;
	static prefix_suffix_packer k;
	const Cfg& c = cfgs[seq::choose(sizeof cfgs / sizeof *cfgs)];
	std::string P = c.p, S = c.s;
	u.reset();
	u.prefix_suffix(P, S); k.prefix_suffix(P, S);
	bool stripped = 0 == seq::choose(2);
	u.stripped(stripped);
	Feeder<prefix_suffix_unpacker> f(u);
	std::vector<std::string> want;
	size_t n = 1 + seq::choose(seq::param("msgs", 3));
	for (size_t i = 0; i < n; ++i)
	{
		size_t len = seq::choose(4);
		std::string b;
		if (len == 3) b = body_of(i, B - P.size() - S.size()); // as long as the limit allows
		else for (size_t j = 0; j < len; ++j) b += std::string("psx\0", 4)[seq::choose(4)];
		if ((P + b + S).find(S, P.size()) != P.size() + b.size()) seq::skip(); // the first suffix is the real one
		std::string m;
		const char* p[] = {b.data()}; size_t l[] = {b.size()};
		if (b.empty()) {REQUIRE(k.pack_heartbeat(m), "heartbeat");}
		else {REQUIRE(k.pack_msg(m, p, l, 1), "pack"); want.push_back(stripped ? b : P + b + S + '\0' + b);}
		REQUIRE(m == P + b + S, "packed %s", hex(m).c_str());
		f.s += m;
	}
	if (f.s.size() > (size_t) seq::param("bytes", 12)) seq::skip();
	seq::note("prefix=%s suffix=%s stripped=%d stream=%s", c.p, c.s, stripped, hex(f.s).c_str());
	St st = f.run();
	REQUIRE(st == WAIT, "a valid stream was %s, delivered %s", st == ERR ? "reported as malformed" : "stalled", join(f.got).c_str());
	REQUIRE(f.got == want, "delivered %s, expected %s", join(f.got).c_str(), join(want).c_str());
	seq::outcome(P + "/" + S + join(want));
}
SEQ_SCENARIO(fixed_all, "fixed length: every length up to the limit, every segmentation, truncated tails")
{
	fixed_length_unpacker u;
	size_t L = 1 + seq::choose(B);
	if (L > 6 && L < B) seq::skip();
	u.fixed_length(L);
	REQUIRE(u.fixed_length() == L, "length");
	bool stripped = 0 == seq::choose(2);
	u.stripped(stripped);
	fixed_length_packer k;
	Feeder<fixed_length_unpacker> f(u);
	size_t n = 1 + seq::choose(3);
	std::vector<std::string> want;
	for (size_t i = 0; i < n; ++i)
	{
		std::string b = body_of(i, L), m;
		const char* p[] = {b.data()}; size_t l[] = {b.size()};
		REQUIRE(k.pack_msg(m, p, l, 1), "pack");
		REQUIRE(m == b, "packed %s", hex(m).c_str());
		want.push_back(stripped ? b : b + '\0' + b);
		f.s += m;
	}
	size_t extra = seq::choose(L < 3 ? L : 3);
	f.s += std::string(extra, 'e');
	if (f.s.size() > (size_t) seq::param("bytes", 13)) seq::skip();
	seq::note("fixed length %zu, %zu messages + %zu bytes", L, n, extra);
	St st = f.run();
	REQUIRE(st == WAIT, "status %d delivered %s", st, join(f.got).c_str());
	REQUIRE(f.got == want, "delivered %s, expected %s", join(f.got).c_str(), join(want).c_str());
	f.eof();
	REQUIRE(f.got == want, "incomplete message delivered at end of stream");
	// the object goes on working on a new stream, also after the length was changed
	size_t L2 = 1 + seq::choose(3);
	u.reset(); u.fixed_length(L2);
	Feeder<fixed_length_unpacker> g(u);
	g.s = body_of(1, L2) + body_of(2, L2);
	std::vector<std::string> w2; for (int i = 1; i <= 2; ++i) w2.push_back(stripped ? body_of(i, L2) : body_of(i, L2) + '\0' + body_of(i, L2));
	REQUIRE(g.run() == WAIT && g.got == w2, "new stream: %s", join(g.got).c_str());
	seq::outcome(num(L) + join(want));
}
SEQ_SCENARIO(stream_all, "stream unpacker: every segmentation")
{
	stream_unpacker u;
	Feeder<stream_unpacker> f(u);
	f.s = body_of(0, 1 + seq::choose(seq::param("bytes", 16)));
	seq::note("stream %s", f.s.c_str());
	St st = f.run();
	std::string all;
	for (auto& m : f.got) {REQUIRE(!m.empty(), "empty message"); all += m;}
	REQUIRE(st == WAIT && all == f.s, "status %d delivered %s", st, join(f.got).c_str());
	seq::outcome(join(f.got));
}

// ---- C28: the heartbeats of every packer between messages are never delivered
template<typename P> static std::string beat() {P p; typename P::msg_type m; REQUIRE(p.pack_heartbeat(m), "no heartbeat"); std::string a(m.data(), m.size()); typename P::msg_type n; REQUIRE(p.pack_heartbeat(n) && std::string(n.data(), n.size()) == a, "the second heartbeat differs"); return a;}
SEQ_SCENARIO(heartbeat_forms, "heartbeats of every packer in front of, between and behind messages, every unpacker, every segmentation")
{
	std::string hb;
	switch (seq::choose(4))
	{
	case 0: hb = beat<packer<> >(); break;
	case 1: hb = beat<packer<std::string> >(); break;
	case 2: hb = beat<packer2<> >(); break;
	case 3: hb = beat<packer2<unique_buffer<std::string>, std::string> >(); break;
	}
	int c = 0, w = seq::choose(7);
	size_t n = 1 + seq::choose(seq::param("n", 4));
	std::vector<std::string> want;
	std::string s;
	for (size_t i = 0; i < n; ++i)
		if (seq::choose(2)) {want.push_back(body_of(i, i ? 1 : B - H)); s += enc(want.back());}
		else s += hb;
#define DO(T, N, S) if (c++ == w) {T u; u.stripped(true); Feeder<T> f(u); f.s = s; seq::note("%s stream=%s", N, hex(s).c_str()); St st = f.run(); REQUIRE(st == WAIT && f.got == want, "%s: status %d, delivered %s", N, st, join(f.got).c_str());}
	EACH(DO)
#undef DO
}
