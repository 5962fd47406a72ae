// C04: packers
#include "seqcommon.h"
#include "ext/packer.h"
#include "ext/unpacker.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
static const size_t B = ST_ASIO_MSG_BUFFER_SIZE, H = ST_ASIO_HEAD_LEN;
static const size_t HMAX = H == 2 ? 65535u : 0xffffffffu;
static std::string big(size_t n, char c) {std::string s(n, c); for (size_t i = 0; i < n && i < 8; ++i) s[i] = (char) (c + i); return s;}
static std::string hd(size_t n) {std::string s; for (int i = (int) H - 1; i >= 0; --i) s += (char) (n >> (8 * i)); return s;}
template<typename M> static std::string str(const M& m) {return m.empty() ? std::string() : std::string(m.data(), m.size());}
template<typename C> static std::string cat(const C& c) {std::string o; for (auto i = c.begin(); i != c.end(); ++i) o += str(*i); return o;}
template<typename M> struct Mk {static void set(M& m, const std::string& s) {M t(s.data(), s.size()); m.swap(t);}};
template<typename T> struct Mk<unique_buffer<T> > {static void set(unique_buffer<T>& m, const std::string& s) {string_buffer* b = new string_buffer(); b->assign(s); m.raw_buffer(b);}};
template<typename T> struct Mk<shared_buffer<T> > {static void set(shared_buffer<T>& m, const std::string& s) {string_buffer* b = new string_buffer(); b->assign(s); m.raw_buffer(b);}};
struct Wire {std::string pre, suf; size_t limit; bool head;};

template<typename P> static void forms(const char* name, P& p, const Wire& w0, const std::vector<size_t>& lens)
{
	typedef typename P::msg_type M;
	typedef typename P::container_type C;
	int form = seq::choose(4); // gather, single -> container, two -> container, container -> container
	size_t n = form == 0 || form == 3 ? seq::choose(4) : (size_t) form;
	bool native = form == 0 && seq::choose(2);
	std::vector<std::string> frag; std::vector<size_t> len; std::vector<const char*> ptr;
	std::string body;
	size_t total = 0; bool over = false;
	for (size_t i = 0; i < n; ++i)
	{
		int extra = form == 0 ? 2 : 0;
		int z = seq::choose((int) lens.size() + extra);
		if (z < (int) lens.size())
		{
			frag.push_back(big(lens[z], (char) ('a' + 8 * i))); len.push_back(lens[z]); ptr.push_back("");
			body += frag.back();
			total += lens[z];
		}
		else if (z == (int) lens.size()) {frag.push_back(""); len.push_back(3); ptr.push_back(NULL);} // a NULL fragment is skipped
		else {frag.push_back(""); len.push_back(seq::choose(2) ? (size_t) -1 : (size_t) -1 - B); ptr.push_back("x"); over = true;} // would wrap around
	}
	for (size_t i = 0; i < n; ++i) if (ptr[i] && len[i] == frag[i].size()) ptr[i] = frag[i].data();
	size_t pre = native ? 0 : w0.pre.size() + w0.suf.size() + (w0.head ? H : 0);
	bool fits = !over && total + pre <= B && (native || !w0.head || total + pre <= HMAX);
	std::string want = native ? body : (w0.head ? hd(total + H) : w0.pre) + body + w0.suf;
	seq::note("%s form=%d native=%d fragments=%zu total=%zu over=%d", name, form, native, n, total, over);
	if (form == 0)
	{
		M m; Mk<M>::set(m, "garbage from before");
		bool ok = p.pack_msg(m, n ? &ptr[0] : (const char* const*) &ptr, n ? &len[0] : (const size_t*) &len, n, native);
		if (total == 0 && !over) {REQUIRE(ok && m.empty(), "a message without body: ok=%d size=%zu", ok, m.size()); return;}
		REQUIRE(ok == fits, "pack_msg returned %d for total %zu", ok, total);
		if (!ok) {REQUIRE(m.size() == 0 || str(m) == "garbage from before", "failed packing left a half-written message of %zu bytes", m.size()); return;}
		REQUIRE(str(m) == want, "packed %s, expected %s", hex(str(m)).c_str(), hex(want).c_str());
		if (!native)
		{
			const M& cm = m;
			REQUIRE(p.raw_data_len(cm) == body.size() && body == std::string(p.raw_data(cm), p.raw_data_len(cm)) && p.raw_data(m) == p.raw_data(cm), "raw data");
		}
		if (n == 1 && ptr[0])
		{
			M m2, m3;
			REQUIRE(p.pack_msg(m2, ptr[0], len[0], native) && str(m2) == want, "pointer form");
			REQUIRE(p.pack_msg(m3, frag[0], native) && str(m3) == want, "string form");
		}
	}
	else
	{
		std::vector<M> v(form == 3 ? 0 : n);
		C in, out;
		bool had = seq::choose(2); // the output may hold something already
		if (had) Mk<M>::set(out.emplace_back(), "old");
		for (size_t i = 0; i < n; ++i) Mk<M>::set(form == 3 ? in.emplace_back() : v[i], frag[i]);
		if (total == 0) seq::skip(); // documented: an empty body is not a message
		bool ok = form == 1 ? p.pack_msg(v[0], out) : form == 2 ? p.pack_msg(v[0], v[1], out) : p.pack_msg(in, out);
		REQUIRE(ok == fits, "pack_msg returned %d for total %zu", ok, total);
		std::string o = had ? "old" : "";
		if (!ok)
		{
			REQUIRE(cat(out) == o, "failed packing changed the output: %s", hex(cat(out)).c_str());
			if (form == 3) REQUIRE(cat(in) == body, "failed packing changed the input");
			else for (size_t i = 0; i < n; ++i) REQUIRE(str(v[i]) == frag[i], "failed packing changed the input");
		}
		else REQUIRE(cat(out) == o + want, "packed %s, expected %s", hex(cat(out)).c_str(), hex(o + want).c_str());
	}
	seq::outcome(std::string(name) + num(form) + num(native) + num(fits) + num(total));
}
template<typename P> static void hb(const char* name, P& p, const std::string& want)
{
	typename P::msg_type m;
	REQUIRE(p.pack_heartbeat(m) && str(m) == want, "%s heartbeat", name);
}
static std::vector<size_t> lens(size_t over)
{
	std::vector<size_t> v;
	if (B < 100) for (size_t i = 0; i <= B + 1; ++i) v.push_back(i);
	else {v = {0, 1, 100, 32768, HMAX < B ? HMAX - H - 1 : 200, HMAX < B ? HMAX - H : 201, HMAX < B ? HMAX - H + 1 : 202, HMAX < B ? HMAX : 203, HMAX < B ? HMAX + 1 : 204, B - H, B - H + 1};}
	return v;
}
SEQ_SCENARIO(pack_forms, "all packing forms of all packers for every combination of fragment lengths around the limits")
{
	Wire w; w.limit = B; w.head = true;
	switch (seq::choose(7))
	{
	case 0: {packer<> p; hb("packer", p, hd(H)); forms("packer<string>", p, w, lens(0)); break;}
	case 1: {packer<basic_buffer> p; hb("packer", p, hd(H)); forms("packer<basic_buffer>", p, w, lens(0)); break;}
	case 2: {packer2<shared_buffer<i_buffer>, string_buffer, packer<> > p; hb("packer2", p, hd(H)); forms("packer2<shared>", p, w, lens(0)); break;}
	case 3: {packer2<> p; hb("packer2", p, hd(H)); forms("packer2<unique>", p, w, lens(0)); break;}
	case 4: {prefix_suffix_packer p; w.head = false; w.pre = "p"; w.suf = "ss"; p.prefix_suffix(w.pre, w.suf); hb("prefix_suffix", p, "pss"); forms("prefix_suffix", p, w, lens(0)); break;}
	case 5: {prefix_suffix_packer p; w.head = false; w.pre = ""; w.suf = "s"; p.prefix_suffix(w.pre, w.suf); hb("prefix_suffix", p, "s"); forms("suffix only", p, w, lens(0)); break;}
	case 6: // fixed length: the body itself, within the limit
		{
			fixed_length_packer p;
			std::vector<size_t> z = lens(0);
			size_t l = z[seq::choose(z.size())];
			if (l == 0) seq::skip();
			int form = seq::choose(4);
			if (form && l > B) seq::skip();
			std::string b = big(l, 'a');
			std::string m(b), m2("tail"); fixed_length_packer::container_type in, out;
			bool ok;
			const char* ps[] = {b.data()}; size_t ls[] = {b.size()};
			if (form == 0) {m.clear(); ok = p.pack_msg(m, ps, ls, 1); REQUIRE(ok == (l <= B), "fixed length: returned %d for %zu", ok, l); REQUIRE(!ok || m == b, "fixed length: packed %s", hex(m).c_str());}
			else
			{
				if (form == 1) ok = p.pack_msg(m, out);
				else if (form == 2) {ok = p.pack_msg(m, m2, out); b += "tail";}
				else {in.emplace_back(b); ok = p.pack_msg(in, out);}
				REQUIRE(ok && cat(out) == b, "fixed length: packed %s", hex(cat(out)).c_str());
			}
			break;
		}
	}
}
