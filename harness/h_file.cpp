// C36: the file server and the file client of the repository, with each other and with a raw peer
// The files live in a virtual file system per side, so nothing real is read or written.
#include "common.h"
#define BOOST_TIMER_TIMER_HPP_STUB
#define BOOST_TIMER_TIMER_HPP
namespace boost {namespace timer {struct cpu_times {long long wall, user, system;}; struct cpu_timer {void start() {} cpu_times elapsed() const {cpu_times t = {1000000000LL, 0, 0}; return t;}};}}
#define ST_ASIO_DEFAULT_PACKER packer2<>
#include "ext/tcp.h"
#include <sys/types.h>
using namespace st_asio_wrapper;

struct Vfs
{
	struct File {std::string data; bool readable = true, writable = true; long fail_read_at = -1, fail_write_at = -1;};
	std::map<std::string, File> files;
	bool can_create = true;
	int opened = 0, total = 0;
	struct Cookie {Vfs* fs; File* f; off64_t pos;};
	static ssize_t rd(void* c_, char* b, size_t n)
	{
		Cookie* c = (Cookie*) c_; const std::string& d = c->f->data;
		if (c->f->fail_read_at >= 0 && c->pos + (long) n > c->f->fail_read_at) {errno = EIO; return -1;}
		if (c->pos < 0 || c->pos >= (off64_t) d.size()) return 0;
		n = std::min(n, d.size() - (size_t) c->pos); memcpy(b, d.data() + c->pos, n); c->pos += n; return n;
	}
	static ssize_t wr(void* c_, const char* b, size_t n)
	{
		Cookie* c = (Cookie*) c_; std::string& d = c->f->data;
		if (c->f->fail_write_at >= 0 && c->pos + (long) n > c->f->fail_write_at) {errno = ENOSPC; return 0;}
		if (c->pos < 0 || c->pos + n > (1 << 22)) {errno = EFBIG; return 0;}
		if (d.size() < c->pos + n) d.resize(c->pos + n);
		memcpy(&d[c->pos], b, n); c->pos += n; return n;
	}
	static int sk(void* c_, off64_t* p, int w)
	{
		Cookie* c = (Cookie*) c_;
		off64_t n = *p + (w == SEEK_SET ? 0 : w == SEEK_CUR ? c->pos : (off64_t) c->f->data.size());
		if (n < 0) {errno = EINVAL; return -1;}
		*p = c->pos = n; return 0;
	}
	static int cl(void* c_) {Cookie* c = (Cookie*) c_; --c->fs->opened; delete c; return 0;}
	FILE* open(const char* name, const char* mode)
	{
		sim::NoPreempt np;
		std::map<std::string, File>::iterator i = files.find(name);
		if (*mode == 'w')
		{
			if (i == files.end() ? !can_create : !i->second.writable) return NULL;
			files[name].data.clear(); i = files.find(name);
		}
		else if (i == files.end() || !i->second.readable || (strchr(mode, '+') && !i->second.writable)) return NULL;
		Cookie* c = new Cookie; c->fs = this; c->f = &i->second; c->pos = 0;
		cookie_io_functions_t io = {rd, wr, sk, cl};
		++opened; ++total;
		return fopencookie(c, mode, io);
	}
};
static Vfs& sfs() {static Vfs f; return f;}
static Vfs& cfs() {static Vfs f; return f;}
static std::vector<std::string>& said() {static std::vector<std::string> s; return s;}
static int note(const char* fmt, ...)
{
	sim::NoPreempt np;
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	sim::logf("%s", b); said().push_back(b); return 0;
}
#define printf note
#define puts(s) note("%s", s)
#define fopen(n, m) sfs().open(n, m)
#define file_socket srv_file_socket
#include "../file_server/file_socket.cpp"
#undef file_socket
#undef fopen
#define fopen(n, m) cfs().open(n, m)
#include "../file_client/file_client.h"
#undef fopen
#undef printf
#undef puts
int link_num = 1;
fl_type file_size;
atomic_size transmit_size;

static std::string content(size_t n, int salt) {std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (i * 131 + i / 251 + salt * 17 + 7); return s;}
static bool heard(const char* s) {for (auto& x : said()) if (x.find(s) != std::string::npos) return true; return false;}
static const size_t BLOCK = boost::asio::detail::default_max_transfer_size;

struct FServer : public st_asio_wrapper::tcp::server_base<srv_file_socket>
{
	FServer(service_pump& sp) : server_base(sp) {set_server_addr(5051, "127.0.0.1");}
	using server_base::is_timer;
};
struct FClient : public file_client
{
	FClient(service_pump& sp) : file_client(sp) {}
	bool done() {return !is_timer(UPDATE_PROGRESS) && is_end();}
};
struct Pair
{
	service_pump sp;
	FServer s;
	FClient c;
	Pair(int links, int threads) : s((sim::window(false), sp)), c(sp)
	{
		link_num = links;
		for (int i = 0; i < links; ++i) c.add_socket(5051, "127.0.0.1")->set_index(i);
		sp.start_service(threads);
		for (int i = 0; s.size() < (size_t) link_num || c.valid_size() < (size_t) link_num; ++i) {CHECK(i < 100, "connected: not within five seconds"); sim::sleep_ms(50);}
		sim::settle();
	}
	void wait(const char* what)
	{
		for (int i = 0, n = 0; n < 3; ++i) {CHECK(i < 100, "%s: not within five seconds", what); sim::sleep_ms(50); sim::settle(); n = c.done() ? n + 1 : 0;}
	}
	void end()
	{
		CHECK(sfs().opened == 0 && cfs().opened == 0, "files are left open: %d at the server, %d at the client", sfs().opened, cfs().opened);
		CHECK(s.size() == (size_t) link_num && c.valid_size() == (size_t) link_num, "a link broke");
		sim::window(false);
		sp.stop_service();
		sim::settle();
		sim::finish();
	}
};
enum {GET, PUT};
static boost::container::list<std::string> names(const char* a, const char* b = NULL) {boost::container::list<std::string> l; l.push_back(a); if (b) l.push_back(b); return l;}
static void xfer(FClient& c, int op, const boost::container::list<std::string>& f) {if (op == GET) c.get_file(f); else c.put_file(f);}
static void same(const char* name, const std::string& want, int op)
{
	Vfs& d = op == GET ? cfs() : sfs();
	auto i = d.files.find(name);
	CHECK(i != d.files.end(), "%s does not exist at the receiver", name);
	const std::string& got = i->second.data;
	size_t at = 0; while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
	CHECK(got == want, "%s has %d bytes instead of %d, differs at %d", name, (int) got.size(), (int) want.size(), (int) at);
}
static const size_t sizes[] = {0, 1, 2, 3, 5, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 3, 3 * BLOCK + 1};
static const size_t big[] = {1, 5, 2 * BLOCK + 3};
static void transfer(bool sz)
{
	int op = sim::choose(2, "put");
	int links = 1 + sim::choose(3, "links");
	size_t n = sz ? sizes[sim::choose(sizeof sizes / sizeof *sizes, "size")] : big[sim::choose(3, "size")];
	int old = sz ? sim::choose(2, "target exists") : 1;
	Pair p(links, 2 + sz);
	std::string a = content(n, 1), b = content(links + 1, 2);
	Vfs& src = op == GET ? sfs() : cfs(); Vfs& dst = op == GET ? cfs() : sfs();
	src.files["a"].data = a; src.files["b"].data = b;
	if (old) dst.files["a"].data = content(BLOCK + 77, 3);
	sim::window(true);
	xfer(p.c, op, names("a", "b"));
	p.wait("both transfers finish");
	same("a", a, op); same("b", b, op);
	CHECK(file_size == (fl_type) b.size() && transmit_size == (boost::int_fast64_t) b.size(), "%d of %d bytes are reported for the last transfer", (int) transmit_size, (int) file_size);
	CHECK(!heard("error") && !heard("failed") && !heard("wrong"), "an error is reported");
	if (!sz) {sim::outcome("ok"); p.end(); return;}
	// and once more in the other direction
	src.files.erase("b"); src.files["c"].data = "";
	xfer(p.c, 1 - op, names("b"));
	p.wait("the transfer back finishes");
	same("b", b, 1 - op);
	sim::outcome("ok");
	p.end();
}
SCENARIO(file_sizes, "two files of all sizes around the block size over one to three links in both directions", 0, 1, [] {}) {transfer(true);}
static void net_opts() {simnet::cfg.send_short = simnet::cfg.recv_short = simnet::cfg.send_eagain = true;}
SCENARIO(file_net, "files over one to three links through a network that cuts everything", 1, 2, net_opts) {transfer(false);}
static void jump() {sim::opt.time_jump = true;}
SCENARIO(file_timer, "files over one to three links while the progress timer expires at any time", 1, 2, jump) {transfer(false);}

// ---- transfers that are refused
enum {MISSING, NO_TARGET, NO_REOPEN, REFUSALS};
SCENARIO(file_refused, "a file that cannot be opened or created at one of the sides, followed by a good one", 1, 2, [] {})
{
	int op = sim::choose(2, "put");
	int links = 1 + sim::choose(3, "links");
	int how = sim::choose(REFUSALS, "refusal");
	Pair p(links, 2);
	Vfs& src = op == GET ? sfs() : cfs(); Vfs& dst = op == GET ? cfs() : sfs();
	std::string a = content(links * 3, 1), b = content(links * 2 + 1, 2);
	src.files["b"].data = b;
	if (how != MISSING) src.files["a"].data = a;
	if (how == NO_TARGET) dst.files["a"].writable = false;
	if (how == NO_REOPEN) dst.files["a"].readable = false; // can be truncated, but not be opened again by the other links
	sim::window(true);
	xfer(p.c, op, names("a", "b"));
	p.wait("both transfers finish");
	same("b", b, op);
	CHECK(file_size == (fl_type) b.size() && transmit_size == (boost::int_fast64_t) b.size(), "%d of %d bytes are reported for the last transfer", (int) transmit_size, (int) file_size);
	if (how == MISSING) CHECK(heard("can not open file a"), "the missing file is not reported");
	else if (how == NO_TARGET) CHECK(heard("can't create file a") || heard("can not create or truncate file a"), "the failure is not reported");
	else if (op == PUT) CHECK(heard("put file failed"), "the failure is not reported");
	else if (links > 1) CHECK(heard("can't create file a"), "the failure is not reported");
	else same("a", a, op);
	sim::outcome("ok");
	p.end();
}

// ---- the server and a peer that sends anything
static std::string i64(long long v) {return std::string((const char*) &v, 8);}
struct Order {const char* name; std::string s;};
static const long long BIG = 0x7fffffffffffffffLL;
static std::vector<Order> orders(size_t n)
{
	return {
		{"nothing", ""}, {"one byte", std::string(1, 0)},
		{"get a", std::string(1, 0) + "a"}, {"get missing", std::string(1, 0) + "m"},
		{"all", "\1" + i64(0) + i64(n)}, {"tail", "\1" + i64(n - 1) + i64(1)}, {"too long", "\1" + i64(1) + i64(n)}, {"negative offset", "\1" + i64(-1) + i64(1)},
		{"no length", "\1" + i64(0) + i64(0)}, {"negative length", "\1" + i64(n) + i64(-1)}, {"overflow", "\1" + i64(BIG) + i64(BIG)}, {"overflow 2", "\1" + i64(1) + i64(BIG)}, {"short 1", "\1" + i64(0)},
		{"truncate t", "\12t"}, {"truncate r", "\12r"},
		{"put u", "\13" + i64(1) + i64(3) + "u"}, {"put u big", "\13" + i64(0) + i64(BIG) + "u"}, {"put missing", "\13" + i64(0) + i64(3) + "m"},
		{"put zero", "\13" + i64(0) + i64(0) + "u"}, {"put negative", "\13" + i64(0) + i64(-1) + "u"}, {"put very negative", "\13" + i64(0) + i64(-BIG) + "u"}, {"put negative offset", "\13" + i64(-5) + i64(3) + "u"}, {"short put", "\13" + i64(0) + i64(3)},
		{"talk", "\2hello"}, {"id", "\3" + i64(7)}, {"id own", "\3" + i64(500)}, {"short id", "\3" + i64(7).substr(0, 5)}, {"unknown", "\143abc"},
	};
}
// what a server that is idle replies
static std::string rx(int fd, size_t n) {std::string s; if (n) simnet::recv_exact(fd, n, s); return s;}
struct Model
{
	size_t n; bool prepared = false; long long sink = 0; // sink: bytes it takes as file content from now on
	std::string step(const Order& o, const std::string& a)
	{
		const std::string& s = o.s;
		if (s.size() < 2) return "";
		long long x = 0, y = 0;
		if (s.size() >= 9) memcpy(&x, s.data() + 1, 8);
		if (s.size() >= 17) memcpy(&y, s.data() + 9, 8);
		std::string file;
		switch (s[0])
		{
		case 0: prepared = s[1] == 'a'; return lv(std::string(1, 0) + i64(prepared ? n : -1));
		case 1:
			if (!prepared || s.size() != 17) return "";
			prepared = false;
			if (x >= 0 && y > 0 && x <= (long long) n && y <= (long long) n - x) return a.substr(x, y);
			return "";
		case 10: prepared = false; return lv(std::string("\12") + (s[1] == 'r' ? '\1' : '\0') + s.substr(1));
		case 11:
			if (s.size() <= 17) return "";
			prepared = false;
			{bool ok = s[17] == 'u' && x >= 0 && y > 0; if (ok) sink = y; return lv("\13" + i64(y) + (ok ? '\0' : '\1'));}
		}
		return "";
	}
};
static void peer_orders(int n, bool together)
{
	static const size_t N = 5;
	sim::window(false);
	std::string a = content(N, 1);
	sfs().files["a"].data = a; sfs().files["u"].data = "0123456789"; sfs().files["r"].data = "r"; sfs().files["r"].writable = false;
	std::vector<Order> os = orders(N), seq;
	for (int i = 0; i < n; ++i) seq.push_back(os[1 + sim::choose(os.size() - 1, "order")]);
	service_pump sp;
	FServer s(sp);
	sp.start_service(2);
	sim::settle();
	int fd = simnet::connect(5051);
	sim::settle();
	sim::window(true);
	Model m; m.n = N;
	std::string want, all;
	for (auto& o : seq)
	{
		if (m.sink) break;
		std::string w = m.step(o, a);
		sim::logf("order: %s", o.name);
		if (together) {all += lv(o.s); want += w; continue;}
		simnet::send(fd, lv(o.s));
		std::string r = rx(fd, w.size());
		CHECK(r == w, "the reply to '%s' is '%s' instead of '%s'", o.name, hex(r).c_str(), hex(w).c_str());
		sim::settle();
	}
	if (together)
	{
		simnet::send(fd, all);
		std::string r = rx(fd, want.size());
		CHECK(r == want, "the replies are '%s' instead of '%s'", hex(r).c_str(), hex(want).c_str());
	}
	sim::settle();
	CHECK(simnet::available(fd) == 0, "%d unexpected bytes", (int) simnet::available(fd));
	bool endless = m.sink > 100;
	if (endless) {simnet::send(fd, "xyz"); sim::settle();}
	else if (m.sink)
	{
		simnet::send(fd, std::string("x")); sim::settle(); simnet::send(fd, std::string("yz").substr(0, m.sink - 1)); sim::settle();
		CHECK(sfs().files["u"].data == "0xyz456789", "the file put is '%s'", sfs().files["u"].data.c_str());
	}
	CHECK(simnet::available(fd) == 0, "%d unexpected bytes", (int) simnet::available(fd));
	CHECK(!simnet::at_eof(fd), "the server closed the link");
	// the link, or else another one, still gets files
	if (endless) {simnet::close(fd); sim::settle(); fd = simnet::connect(5051);}
	simnet::send(fd, lv(std::string(1, 0) + "a"));
	std::string w = lv(std::string(1, 0) + i64(N)), r = rx(fd, w.size());
	CHECK(r == w, "the reply to 'get' at the end is '%s'", hex(r).c_str());
	simnet::send(fd, lv("\1" + i64(1) + i64(3)));
	r = rx(fd, 3);
	CHECK(r == a.substr(1, 3), "the content at the end is wrong");
	sim::settle();
	if (!endless) CHECK(sfs().opened == 0, "%d files are left open", sfs().opened);
	sim::outcome("ok");
	sim::window(false);
	simnet::close(fd);
	sp.stop_service();
	sim::settle();
	if (!endless) CHECK(sfs().opened == 0, "%d files are left open after the service was stopped", sfs().opened);
	sim::finish();
}
SCENARIO(file_peer, "a peer that sends any sequence of orders, right and wrong, to the file server and waits for the replies", 0, 1, [] {}) {peer_orders(sim::param("n", 2), false);}
SCENARIO(file_burst, "a peer that sends two orders at once to the file server", 1, 2, [] {}) {peer_orders(2, true);}

// ---- the client and a server that replies anything
SCENARIO(file_reply, "a server that replies anything to the file client", 1, 2, [] {})
{
	sim::window(false);
	int op = sim::choose(2, "put");
	static const long long lens[] = {5, 0, 1, -1, -2, 100, BIG, -BIG};
	long long len = lens[sim::choose(8, "length")];
	enum {GOOD, SHORT, LONG, OTHER, REFUSE, TWICE, KINDS};
	int kind = sim::choose(KINDS, "kind");
	int l = simnet::listen(5051);
	link_num = 1;
	service_pump sp;
	FClient c(sp);
	c.add_socket(5051, "127.0.0.1")->set_index(0);
	sp.start_service(2);
	int fd = simnet::accept(l);
	std::string x = rx(fd, 11), a = content(5, 1);
	CHECK(x == lv("\3" + i64(0)), "the first order is '%s'", hex(x).c_str());
	sim::settle();
	cfs().files["a"].data = a;
	sim::window(true);
	xfer(c, op, names("a"));
	std::string want = op == GET ? lv(std::string("\0a", 2)) : lv("\12a"), r = rx(fd, want.size());
	CHECK(r == want, "the order is '%s'", hex(r).c_str());
	if (op == PUT)
	{
		simnet::send(fd, lv(std::string("\12\0a", 3)));
		want = lv("\13" + i64(0) + i64(5) + "a"); r = rx(fd, want.size());
		CHECK(r == want, "the order is '%s' instead of '%s'", hex(r).c_str(), hex(want).c_str());
	}
	std::string rep = op == GET ? std::string(1, 0) + i64(len) : "\13" + i64(len) + (kind == REFUSE ? '\1' : '\0');
	if (kind == SHORT) rep.resize(rep.size() - 1); else if (kind == LONG) rep += 'x'; else if (kind == OTHER) rep[0] = '\12';
	simnet::send(fd, lv(rep));
	if (kind == TWICE) simnet::send(fd, lv("\2x"));
	bool ok = kind == GOOD || (op == GET && kind == REFUSE);
	if (ok && op == GET && len > 0)
	{
		want = lv("\1" + i64(0) + i64(len)); r = rx(fd, want.size());
		CHECK(r == want, "the order is '%s' instead of '%s'", hex(r).c_str(), hex(want).c_str());
		sim::settle();
		CHECK(!c.is_end(), "the client is idle while its file is awaited");
		std::string b = content(std::min(len, 100LL), 2);
		simnet::send(fd, b.substr(0, b.size() / 2)); sim::settle(); simnet::send(fd, b.substr(b.size() / 2)); sim::settle();
		if (len <= 100) CHECK(c.is_end() && cfs().files["a"].data == b, "the file got is '%s'", hex(cfs().files["a"].data).c_str());
	}
	else if (ok && op == PUT && len > 0 && len <= 5)
	{
		r = rx(fd, len);
		CHECK(r == a.substr(0, len), "the file put is '%s'", hex(r).c_str());
		sim::settle();
		CHECK(c.is_end(), "the client is not idle after the file was sent");
	}
	else if ((ok && (op == GET || len > 5)) || (op == PUT && kind == REFUSE))
	{
		sim::settle();
		CHECK(c.is_end(), "the client is not idle after the transfer was refused");
	}
	else sim::settle();
	bool end = c.is_end();
	if (end) CHECK(cfs().opened == 0, "%d files are left open", cfs().opened);
	CHECK(end || simnet::available(fd) == 0 || kind == TWICE, "%d unexpected bytes", (int) simnet::available(fd));
	sim::outcome(num(end));
	sim::window(false);
	simnet::close(fd); simnet::close(l);
	sp.stop_service();
	sim::settle();
	sim::finish();
}
