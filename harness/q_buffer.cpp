// C05: basic_buffer against a plain byte string, every operation sequence up to a depth
#include "seqcommon.h"
#include "ext/ext.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
struct Model
{
	std::string s;
	std::string known; // 1 where the content is determined
	void append(const std::string& x) {s += x; known += std::string(x.size(), '1');}
	void append(const Model& x) {std::string a = x.s, k = x.known; s += a; known += k;}
	void resize(size_t n) {s.resize(n, '?'); known.resize(n, '0');}
	void erase(size_t p, size_t n) {s.erase(p, n); known.erase(p, n);}
};
static void same(const basic_buffer& b, const Model& m, const char* where)
{
	REQUIRE(b.size() == m.s.size(), "%s: size %zu instead of %zu", where, b.size(), m.s.size());
	REQUIRE(b.empty() == m.s.empty(), "%s: empty", where);
	REQUIRE(b.capacity() >= b.size(), "%s: capacity %zu below size %zu", where, b.capacity(), b.size());
	for (size_t i = 0; i < m.s.size(); ++i)
		if (m.known[i] == '1') REQUIRE(b.data()[i] == m.s[i], "%s: byte %zu is %02x instead of %02x", where, i, (unsigned char) b.data()[i], (unsigned char) m.s[i]);
	if (b.capacity()) {volatile char c = b.data()[b.capacity() - 1]; (void) c;} // the whole capacity is readable
}
static std::string fresh(size_t n) {static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; return std::string(a).substr(0, n);}
static const size_t LENS[] = {0, 1, 3, 15, 16, 17};
static size_t len() {static const size_t Q[] = {0, 3, 17}; static bool few = seq::param("few", 0); return few ? Q[seq::choose(3)] : LENS[seq::choose(6)];}
SEQ_SCENARIO(buffer_ops, "every sequence of operations up to the depth")
{
	basic_buffer a, other; Model ma, mo;
	std::string log;
	// construction
	static bool few = seq::param("few", 0); static const int FEW[] = {0, 1, 6};
	int c = few ? FEW[seq::choose(3)] : seq::choose(13);
	size_t n;
	switch (c)
	{
	case 0: break;
	case 1: {n = len(); basic_buffer t(n); a.swap(t); ma.resize(n); break;}
	case 2: {n = len(); basic_buffer t((int) n); a.swap(t); ma.resize(n); break;}
	case 3: {basic_buffer t(-3); a.swap(t); break;}
	case 4: {n = len(); basic_buffer t(n, 'x'); a.swap(t); ma.append(std::string(n, 'x')); break;}
	case 5: {n = len(); std::string s = fresh(n); basic_buffer t(s.c_str()); a.swap(t); ma.append(s); break;}
	case 6: {n = len(); std::string s = fresh(n); basic_buffer t((const char*) s.data(), n); a.swap(t); ma.append(s); break;}
	case 7: {n = len(); std::string s = fresh(n); basic_buffer t(s); a.swap(t); ma.append(s); break;}
	case 8: {n = len(); basic_buffer q(n, 'q'); basic_buffer t(q); a.swap(t); ma.append(std::string(n, 'q')); break;}
	case 9: {std::string s = fresh(5); n = seq::choose(7); basic_buffer t(s, n); a.swap(t); if (n < 5) ma.append(s.substr(n)); break;}
	case 10: {std::string s = fresh(5); n = seq::choose(7); static const size_t L[] = {0, 1, 4, 5, 6, (size_t) -1}; size_t l = L[seq::choose(6)]; basic_buffer t(s, n, l); a.swap(t); if (n < 5) ma.append(s.substr(n, l)); log = "ctor(" + num(n) + "," + num(l) + ")"; break;}
	case 11: {char s[] = "array"; n = seq::choose(8); basic_buffer t(s, n); a.swap(t); ma.append(std::string(s, n < sizeof s ? n : sizeof s)); break;}
	case 12: {std::string s = fresh(3); s += '\0'; basic_buffer t((char*) s.data()); a.swap(t); ma.append(s.c_str()); break;}
	}
	if (c) log += " ctor" + num(c);
	seq::note("%s", log.c_str());
	same(a, ma, log.c_str());
	int depth = seq::param("depth", 3);
	for (int d = 0; d < depth; ++d)
	{
		int o = seq::choose(30);
		log += " op" + num(o);
		seq::note("%s on size %zu", log.c_str(), a.size());
		size_t sz = ma.s.size();
		switch (o)
		{
		case 0: n = len(); a.append(fresh(n)); ma.append(fresh(n)); break;
		case 1: a.append('c'); ma.append("c"); break;
		case 2: n = len(); a.append(n, 'z'); ma.append(std::string(n, 'z')); break;
		case 3: {std::string s = fresh(len()); a.append(s.c_str()); ma.append(s); break;}
		case 4: a.append((const char*) NULL, 5); break;
		case 5: a.append(a); ma.append(Model(ma)); break;                         // itself
		case 6: if (sz < 2) seq::skip(); a.append(a.data() + 1, sz - 1); {Model t = ma; t.erase(0, 1); ma.append(t);} break;   // part of itself
		case 7: {std::string s = fresh(2); a.append2(s.c_str()); if (sz && ma.known[sz - 1] == '0') seq::skip(); if (sz && ma.s[sz - 1] == '\0') ma.resize(sz - 1); ma.append(s + '\0'); break;}
		case 8: {if (sz && ma.known[sz - 1] == '0') seq::skip(); a.append2("45", 3); if (sz && ma.s[sz - 1] == '\0') ma.resize(sz - 1); ma.append(std::string("45\0", 3)); break;}
		case 9: a = 'e'; ma.resize(0); ma.append("e"); break;
		case 10: {std::string s = fresh(len()); a = s.c_str(); ma.resize(0); ma.append(s); break;}
		case 11: {std::string s = fresh(len()); a = s; ma.resize(0); ma.append(s); break;}
		case 12: a = (const basic_buffer&) a; break;                              // self assignment
		case 13: a = other; ma.resize(0); ma.append(mo); break;
		case 14: other = a; mo.resize(0); mo.append(ma); break;
		case 15: a.swap(other); std::swap(ma, mo); break;
		case 16: n = len(); a.resize(n); ma.resize(n); break;
		case 17: n = len(); a.reserve(n); REQUIRE(a.capacity() >= n, "capacity after reserve"); break;
		case 18: a.shrink_to_fit(); REQUIRE(a.capacity() < a.size() + 32, "capacity %zu after shrinking", a.capacity()); break;
		case 19: a.clear(); ma.resize(0); break;
		case 20: a.clean(); ma.resize(0); REQUIRE(a.capacity() == 0, "clean"); break;
		case 21: n = len(); a.assign(n); ma.resize(n); break;
		case 22: n = len(); {std::string s = fresh(n); a.assign(s.data(), n);} ma.resize(0); ma.append(fresh(n)); break;
		case 23: if (sz < 2) seq::skip(); a.assign(a.data() + 1, sz - 1); ma.erase(0, 1); break;       // from itself
		case 24: a.erase(); ma.resize(0); break;
		case 25: {size_t p = seq::choose(4); static const size_t L[] = {0, 1, 2, 16, UINT_MAX}; size_t l = L[seq::choose(5)]; log += "(" + num(p) + "," + num(l) + ")";
			bool thrown = false; try {a.erase(p, l);} catch (const std::out_of_range&) {thrown = true;}
			REQUIRE(thrown == (p > sz), "%s: out_of_range %d", log.c_str(), thrown); if (!thrown) ma.erase(p, l); break;}
		case 26: {basic_buffer t(a); same(t, ma, "copy"); t.append('x'); break;}
		case 27: a += other; ma.append(mo); break;
		case 28: {bool thrown = false; try {a.reserve((size_t) UINT_MAX + 1);} catch (const std::length_error&) {thrown = true;} REQUIRE(thrown, "reserve beyond the maximum"); 
			thrown = false; try {a.append((size_t) UINT_MAX + 1, 'x');} catch (const std::length_error&) {thrown = true;} REQUIRE(thrown, "append beyond the maximum"); break;}
		case 29: {char s[] = "arr"; n = seq::choose(6); a.append(s, n); ma.append(std::string(s, n < sizeof s ? n : sizeof s)); break;}
		}
		same(a, ma, log.c_str()); same(other, mo, log.c_str());
	}
	seq::outcome(num(a.size()) + "/" + num(a.capacity()) + "/" + num(other.size()));
}
