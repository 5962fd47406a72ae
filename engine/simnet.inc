// Virtual files: stream/datagram sockets, eventfd, epoll.
namespace simnet {
Config cfg;

enum Type {T_STREAM, T_DGRAM, T_EVENT, T_EPOLL};
struct VFile;
struct Reg {VFile* f; uint32_t events; epoll_data_t data; bool pending; uint64_t seq;};
struct VFile {
	int fd;
	Type type;
	int domain;
	bool nonblock, peer, closed;
	std::string local, remote;   // "4:port", "6:port", "u:path"
	int linger;
	// stream
	VFile* other;
	std::string rx;
	size_t cap;
	bool fin_in, rst, shut_wr, shut_rd, connected, connecting, listening;
	int so_error;
	std::deque<VFile*> backlog;
	int backlog_max;
	// dgram
	std::deque<std::pair<std::string, std::string> > q;
	// event
	uint64_t cnt;
	// epoll
	std::map<int, Reg> regs;
};
static const int VBASE = 1000, VMAX = 1100;
static VFile* vf[VMAX - VBASE];
static int ephemeral = 40000;
static int last_err = 0;
static uint64_t ev_seq = 0;

static inline VFile* get(int fd) {return fd >= VBASE && fd < VMAX ? vf[fd - VBASE] : NULL;}
static inline bool is_v(int fd) {return fd >= VBASE && fd < VMAX;}
static VFile* make(Type t, int domain)
{
	for (int i = 0; i < VMAX - VBASE; ++i)
		if (!vf[i])
		{
			VFile* f = new VFile();
			f->fd = VBASE + i; f->type = t; f->domain = domain; f->nonblock = f->peer = f->closed = false; f->linger = -1;
			f->other = NULL; f->cap = cfg.rx_cap;
			f->fin_in = f->rst = f->shut_wr = f->shut_rd = f->connected = f->connecting = f->listening = false;
			f->so_error = 0; f->cnt = 0; f->backlog_max = 128;
			vf[i] = f;
			return f;
		}
	sim::fail("simnet", 0, "out of file descriptors");
}

static uint32_t mask_of(VFile* f)
{
	switch (f->type)
	{
	case T_EVENT: return (f->cnt ? EPOLLIN : 0) | EPOLLOUT;
	case T_DGRAM: return (!f->q.empty() || f->so_error || f->shut_rd ? EPOLLIN : 0) | EPOLLOUT | (f->so_error ? EPOLLERR : 0) | (f->shut_rd && f->shut_wr ? EPOLLHUP : 0);
	case T_STREAM:
		if (f->listening) return f->backlog.empty() && !f->shut_rd ? 0 : EPOLLIN | (f->shut_rd ? EPOLLHUP : 0);
		if (f->connecting) return 0;
		if (f->so_error && !f->connected) return EPOLLOUT | EPOLLIN | EPOLLERR | EPOLLHUP;
		if (!f->connected) return EPOLLOUT | EPOLLHUP;
		{
			uint32_t m = 0;
			if (!f->rx.empty() || f->fin_in || f->rst || f->shut_rd) m |= EPOLLIN;
			if (f->fin_in || f->rst || f->shut_rd) m |= EPOLLRDHUP;
			if (f->shut_wr || f->rst || !f->other || f->other->closed || f->other->rx.size() < f->other->cap) m |= EPOLLOUT;
			if (((f->fin_in || f->shut_rd) && f->shut_wr) || f->rst) m |= EPOLLHUP;
			if (f->so_error) m |= EPOLLERR;
			return m;
		}
	default: return 0;
	}
}
static void notify(VFile* f)
{
	if (!f) return;
	for (int i = 0; i < VMAX - VBASE; ++i)
		if (vf[i] && vf[i]->type == T_EPOLL)
		{
			auto r = vf[i]->regs.find(f->fd);
			if (r != vf[i]->regs.end() && r->second.f == f && !r->second.pending) {r->second.pending = true; r->second.seq = ++ev_seq;}
		}
}
static bool reg_fires(Reg& r)
{
	if ((r.events & EPOLLET) && !r.pending) return false;
	return mask_of(r.f) & (r.events | EPOLLERR | EPOLLHUP) & 0xffff;
}

// ---------------------------------------------------------------------------------------------- addresses
static std::string to_key(const sockaddr* a, socklen_t l)
{
	char b[160];
	if (a->sa_family == AF_INET) snprintf(b, sizeof b, "4:%d", ntohs(((const sockaddr_in*) a)->sin_port));
	else if (a->sa_family == AF_INET6) snprintf(b, sizeof b, "6:%d", ntohs(((const sockaddr_in6*) a)->sin6_port));
	else if (a->sa_family == AF_UNIX)
	{
		const sockaddr_un* u = (const sockaddr_un*) a;
		size_t n = l > offsetof(sockaddr_un, sun_path) ? l - offsetof(sockaddr_un, sun_path) : 0;
		return "u:" + std::string(u->sun_path, strnlen(u->sun_path, n));
	}
	else return "?";
	return b;
}
static void from_key(const std::string& k, int domain, sockaddr* a, socklen_t* l)
{
	sockaddr_storage s;
	memset(&s, 0, sizeof s);
	socklen_t n;
	if (domain == AF_INET6)
	{
		sockaddr_in6* i = (sockaddr_in6*) &s;
		i->sin6_family = AF_INET6; i->sin6_addr = in6addr_loopback; i->sin6_port = htons(k.size() > 2 ? atoi(k.c_str() + 2) : 0);
		n = sizeof *i;
	}
	else if (domain == AF_UNIX)
	{
		sockaddr_un* u = (sockaddr_un*) &s;
		u->sun_family = AF_UNIX;
		std::string p = k.size() > 2 ? k.substr(2) : "";
		memcpy(u->sun_path, p.data(), p.size());
		n = offsetof(sockaddr_un, sun_path) + (p.empty() ? 0 : p.size() + 1);
	}
	else
	{
		sockaddr_in* i = (sockaddr_in*) &s;
		i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(INADDR_LOOPBACK); i->sin_port = htons(k.size() > 2 ? atoi(k.c_str() + 2) : 0);
		n = sizeof *i;
	}
	if (a && l) {memcpy(a, &s, *l < n ? *l : n); *l = n;}
}
static bool same_port(const std::string& a, const std::string& b) {return a[0] == 'u' || b[0] == 'u' ? a == b : a.substr(2) == b.substr(2);}
static std::string any_port(int domain)
{
	char b[32];
	snprintf(b, sizeof b, "%c:%d", domain == AF_INET6 ? '6' : '4', ephemeral++);
	return b;
}
static VFile* find_listener(const std::string& k)
{
	for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_STREAM && vf[i]->listening && same_port(vf[i]->local, k)) return vf[i];
	return NULL;
}
static VFile* find_dgram(const std::string& k)
{
	for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_DGRAM && !vf[i]->local.empty() && same_port(vf[i]->local, k)) return vf[i];
	return NULL;
}
static int err(int e) {errno = e; return -1;}

// ---------------------------------------------------------------------------------------------- core operations
static int do_bind(VFile* f, std::string k)
{
	if (k[0] != 'u' && k.substr(2) == "0") k = any_port(f->domain);
	for (int i = 0; i < VMAX - VBASE; ++i)
		if (vf[i] && vf[i] != f && vf[i]->type == f->type && !vf[i]->local.empty() && same_port(vf[i]->local, k)
			&& (f->type == T_DGRAM || vf[i]->listening || (!vf[i]->connected && !vf[i]->connecting)))
			return err(EADDRINUSE);
	f->local = k;
	return 0;
}
static int do_connect(VFile* f, const std::string& k)
{
	if (f->type == T_DGRAM) {f->remote = k; if (f->local.empty() && f->domain != AF_UNIX) f->local = any_port(f->domain); return 0;}
	if (f->connected) return err(EISCONN);
	if (f->connecting) return err(EALREADY);
	if (f->so_error) {int e = f->so_error; f->so_error = 0; return err(e);}
	if (f->local.empty() && f->domain != AF_UNIX) f->local = any_port(f->domain);
	f->remote = k;
	int port = k[0] == 'u' ? 0 : atoi(k.c_str() + 2);
	sim::trace("fd %d: connect to %s", f->fd, k.c_str());
	if (!f->peer && cfg.connect_seen) cfg.connect_seen(port);
	if (cfg.blackhole && port && cfg.blackhole(port)) {f->connecting = true; return err(EINPROGRESS);}
	bool refuse = false;
	if (!f->peer && cfg.connect_err) refuse = 1 == sim::choice(sim::C_ENV, 2, "connect: refused");
	VFile* l = find_listener(k);
	if (!l || refuse || (int) l->backlog.size() >= l->backlog_max)
	{
		if (f->domain == AF_UNIX || !f->nonblock) return err(ECONNREFUSED);
		f->so_error = ECONNREFUSED;
		notify(f);
		return err(EINPROGRESS);
	}
	VFile* s = make(T_STREAM, f->domain);
	s->peer = l->peer;
	s->local = l->local; s->remote = f->local;
	s->connected = f->connected = true;
	s->other = f; f->other = s;
	// it is handed out by accept(), until then it has no descriptor of its own from the application's view
	l->backlog.push_back(s);
	notify(l);
	notify(f);
	return f->domain == AF_UNIX || !f->nonblock ? 0 : err(EINPROGRESS);
}
// TCP_CLOSE: reset, or both FINs were exchanged
static bool dead(VFile* f) {return f->rst || (f->fin_in && f->shut_wr);}
// an RST arrives at o (Linux: EPIPE in CLOSE_WAIT; what was received before can still be read)
static void rst_arrives(VFile* o)
{
	if (!o || o->closed || dead(o)) return;
	o->rst = true;
	o->so_error = o->fin_in ? EPIPE : ECONNRESET;
	notify(o);
}
static void do_rst(VFile* f) {if (f->connected && !dead(f)) rst_arrives(f->other);}
static void do_close(VFile* f)
{
	sim::trace("fd %d: close", f->fd);
	if (f->type == T_STREAM)
	{
		if (f->listening) for (size_t i = 0; i < f->backlog.size(); ++i) {do_rst(f->backlog[i]); f->backlog[i]->closed = true; vf[f->backlog[i]->fd - VBASE] = NULL;}
		else if (f->connected)
		{
			VFile* o = f->other;
			if (f->domain == AF_UNIX)
			{
				if (o && !o->closed)
				{
					if (!f->rx.empty()) o->so_error = ECONNRESET;
					o->fin_in = o->shut_wr = true;
					notify(o);
				}
			}
			else if (f->linger == 0 || !f->rx.empty()) do_rst(f);
			else if (o && !o->closed && !f->shut_wr && !dead(f)) {o->fin_in = true; notify(o);}
		}
	}
	if (f->type == T_EPOLL) f->regs.clear();
	for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_EPOLL) vf[i]->regs.erase(f->fd);
	f->closed = true;
	vf[f->fd - VBASE] = NULL;
}
static int do_shutdown(VFile* f, int how)
{
	if (f->type == T_STREAM && f->listening) {f->shut_rd = true; f->listening = false; notify(f); return 0;}
	if (!f->connected && f->type == T_STREAM)
	{
		if (f->connecting) {f->connecting = false; f->so_error = ECONNRESET;} // Linux: ends the attempt
		notify(f);
		return err(ENOTCONN);
	}
	if (f->type == T_DGRAM && f->remote.empty()) {notify(f); return err(ENOTCONN);} // Linux wakes the pollers
	sim::trace("fd %d: shutdown(%d)", f->fd, how);
	if (f->domain != AF_UNIX && dead(f)) {notify(f); return err(ENOTCONN);} // Linux wakes the pollers in every case
	if (how != SHUT_RD && (!f->shut_wr || f->domain == AF_UNIX))
	{
		f->shut_wr = true;
		if (f->other && !f->other->closed) {f->other->fin_in = true; notify(f->other);}
	}
	if (how != SHUT_WR)
	{
		f->shut_rd = true;
		if (f->domain == AF_UNIX && f->other && !f->other->closed) {f->other->shut_wr = true; notify(f->other);}
	}
	notify(f);
	return 0;
}
static bool env_alts(VFile* f) {return !f->peer && sim::active;}

static ssize_t stream_send(VFile* f, const std::string& d)
{
	if (!f->connected) return err(f->connecting ? EAGAIN : f->so_error ? f->so_error : ENOTCONN == 0 ? 0 : EPIPE);
	VFile* o = f->other;
	if (f->so_error && f->domain != AF_UNIX) {int e = f->so_error; f->so_error = 0; return err(e);}
	if (f->rst || f->shut_wr || (f->domain == AF_UNIX && (!o || o->closed || o->shut_rd))) return err(EPIPE);
	if (d.empty()) return 0;
	if (o && !o->closed && o->shut_rd && o->shut_wr) // nobody can ever read this: Linux answers with an RST
	{
		rst_arrives(f);
		if (!dead(o)) {o->rst = true; o->so_error = ECONNRESET; notify(o);}
		return d.size();
	}
	if (!o || o->closed) {f->rst = true; f->so_error = f->fin_in ? EPIPE : ECONNRESET; notify(f); sim::trace("fd %d: send %zu into a closed connection", f->fd, d.size()); return d.size();}
	size_t space = o->cap > o->rx.size() ? o->cap - o->rx.size() : 0;
	if (!space) return err(EAGAIN);
	size_t n = std::min(space, d.size());
	if (env_alts(f))
	{
		int alts = 1, kind[8];
		if (cfg.send_eagain) kind[alts++] = 1;
		if (cfg.send_short && n > 1) kind[alts++] = 2;
		if (cfg.send_short && n > 2) kind[alts++] = 3;
		if (cfg.send_reset) kind[alts++] = 4;
		int c = sim::choice(sim::C_ENV, alts, "send: 1=EAGAIN 2=one byte 3=all but one byte 4=reset (those enabled)");
		if (c) switch (kind[c])
		{
		case 1: notify(f); return err(EAGAIN);
		case 2: n = 1; break;
		case 3: n = n - 1; break;
		case 4: do_rst(f); f->rst = true; f->so_error = 0; notify(f); return err(ECONNRESET);
		}
	}
	if (n < std::min(space, d.size())) notify(f); // a deviation: the rest becomes writable later
	o->rx.append(d, 0, n);
	notify(o);
	sim::trace("fd %d: sent %zu of %zu", f->fd, n, d.size());
	return n;
}
static ssize_t stream_recv(VFile* f, char* p, size_t n, int flags)
{
	if (!f->connected) return f->so_error ? err(f->so_error) : err(f->connecting ? EAGAIN : ENOTCONN);
	if (!n) return 0;
	if (f->rx.empty())
	{
		if (f->so_error && (!f->fin_in || f->domain == AF_UNIX)) {int e = f->so_error; f->so_error = 0; return err(e);}
		if (f->fin_in || f->rst || f->shut_rd) return 0;
		return err(EAGAIN);
	}
	n = std::min(n, f->rx.size());
	size_t whole = n;
	if (env_alts(f))
	{
		int alts = 1, kind[8];
		if (cfg.recv_short && n > 1) kind[alts++] = 1;
		if (cfg.recv_short && n > 2) kind[alts++] = 2;
		if (cfg.recv_reset) kind[alts++] = 3;
		int c = sim::choice(sim::C_ENV, alts, "recv: 1=one byte 2=all but one byte 3=reset (those enabled)");
		if (c) switch (kind[c])
		{
		case 1: n = 1; break;
		case 2: n = n - 1; break;
		case 3: do_rst(f); f->rst = true; f->so_error = 0; f->rx.clear(); notify(f); return err(ECONNRESET);
		}
	}
	memcpy(p, f->rx.data(), n);
	if (flags & MSG_PEEK) return n;
	bool full = f->rx.size() >= f->cap;
	f->rx.erase(0, n);
	if (n < whole) notify(f); // a deviation: the rest arrives later
	if ((full || (f->domain == AF_UNIX && f->rx.empty())) && f->other && !f->other->closed) notify(f->other);
	sim::trace("fd %d: received %zu", f->fd, n);
	return n;
}
static ssize_t dgram_send(VFile* f, const std::string& d, const std::string& to)
{
	if (f->shut_wr) return err(EPIPE);
	std::string k = to.empty() ? f->remote : to;
	if (k.empty()) return err(EDESTADDRREQ);
	if (f->local.empty() && f->domain != AF_UNIX) f->local = any_port(f->domain);
	if (f->so_error && !f->remote.empty()) {int e = f->so_error; f->so_error = 0; return err(e);}
	if (env_alts(f) && (cfg.dgram_send_err || cfg.send_eagain))
	{
		int alts = 1, kind[4];
		if (cfg.dgram_send_err) kind[alts++] = 1;
		if (cfg.send_eagain) kind[alts++] = 2;
		int c = sim::choice(sim::C_ENV, alts, "sendto: error / EAGAIN");
		if (c && kind[c] == 1) return err(ENETUNREACH);
		if (c && kind[c] == 2) {notify(f); return err(EAGAIN);}
	}
	VFile* o = find_dgram(k);
	sim::trace("fd %d: datagram of %zu to %s", f->fd, d.size(), k.c_str());
	if (!o)
	{
		if (f->domain == AF_UNIX) return err(ENOENT);
		if (!f->remote.empty()) {f->so_error = ECONNREFUSED; notify(f);}
		return d.size();
	}
	if (!o->remote.empty() && !same_port(o->remote, f->local)) {if (f->domain == AF_UNIX) return err(EPERM); return d.size();} // filtered
	if (o->q.size() >= cfg.dgram_cap) {if (f->domain == AF_UNIX) return err(EAGAIN); return d.size();}
	o->q.push_back(std::make_pair(f->local, d));
	notify(o);
	return d.size();
}
static ssize_t dgram_recv(VFile* f, char* p, size_t n, std::string& from, int* flags)
{
	if (f->so_error) {int e = f->so_error; f->so_error = 0; return err(e);}
	if (env_alts(f) && cfg.dgram_recv_err && !f->q.empty())
		if (1 == sim::choice(sim::C_ENV, 2, "recvfrom: error")) return err(ECONNREFUSED);
	if (f->q.empty()) return err(EAGAIN);
	std::string d = f->q.front().second;
	from = f->q.front().first;
	f->q.pop_front();
	if (flags && d.size() > n) *flags |= MSG_TRUNC;
	size_t m = std::min(n, d.size());
	memcpy(p, d.data(), m);
	if (f->domain == AF_UNIX) for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_DGRAM) notify(vf[i]);
	sim::trace("fd %d: datagram of %zu received", f->fd, d.size());
	return m;
}
static void wait_mask(VFile* f, uint32_t m)
{
	std::function<bool()> p = [f, m] {return f->closed || (mask_of(f) & (m | EPOLLERR | EPOLLHUP));};
	sim::wait_until(p, "socket");
}
static int do_accept(VFile* l)
{
	if (l->backlog.empty()) return err(l->shut_rd || !l->listening ? EINVAL : EAGAIN);
	if (env_alts(l) && cfg.accept_err)
	{
		int c = cfg.accept_err == 2 ? 2 * sim::choice(sim::C_ENV, 2, "accept: 1=EMFILE") : sim::choice(sim::C_ENV, 3, "accept: 1=ECONNABORTED 2=EMFILE");
		if (1 == c) {VFile* s = l->backlog.front(); l->backlog.pop_front(); do_rst(s); s->closed = true; vf[s->fd - VBASE] = NULL; return err(ECONNABORTED);}
		if (2 == c) {notify(l); return err(EMFILE);}
	}
	VFile* s = l->backlog.front();
	l->backlog.pop_front();
	if (!l->backlog.empty()) notify(l);
	sim::trace("fd %d: accepted fd %d", l->fd, s->fd);
	return s->fd;
}

// ---------------------------------------------------------------------------------------------- harness API
static VFile* need(int fd) {VFile* f = get(fd); if (!f) sim::fail("simnet", 0, "harness: bad descriptor %d", fd); return f;}
static std::string port_key(int port) {char b[16]; snprintf(b, sizeof b, "4:%d", port); return b;}
static int listen_key(const std::string& k)
{
	VFile* f = make(T_STREAM, k[0] == 'u' ? AF_UNIX : AF_INET);
	f->peer = true;
	if (do_bind(f, k) < 0) sim::fail("simnet", 0, "harness: cannot bind");
	f->listening = true;
	return f->fd;
}
int listen(int port) {return listen_key(port_key(port));}
int listen_path(const std::string& p) {return listen_key("u:" + p);}
int accept(int lfd)
{
	VFile* l = need(lfd);
	std::function<bool()> p = [l] {return !l->backlog.empty();};
	sim::wait_until(p, "accept");
	return do_accept(l);
}
int try_accept(int lfd) {VFile* l = need(lfd); return l->backlog.empty() ? -1 : do_accept(l);}
static int connect_key(const std::string& k)
{
	sim::point("peer connect");
	VFile* f = make(T_STREAM, k[0] == 'u' ? AF_UNIX : AF_INET);
	f->peer = true;
	if (do_connect(f, k) < 0) {last_err = errno; do_close(f); return -1;}
	return f->fd;
}
int connect(int port) {return connect_key(port_key(port));}
int connect_path(const std::string& p) {return connect_key("u:" + p);}
bool send(int fd, const std::string& data)
{
	std::string d = data;
	while (!d.empty())
	{
		sim::point("peer send");
		VFile* f = need(fd);
		ssize_t r = stream_send(f, d);
		if (r < 0)
		{
			if (errno == EAGAIN) {wait_mask(f, EPOLLOUT); continue;}
			last_err = errno;
			return false;
		}
		d.erase(0, r);
	}
	return true;
}
int send_some(int fd, const std::string& d) {sim::point("peer send"); ssize_t r = stream_send(need(fd), d); if (r < 0) last_err = errno; return r;}
std::string recv(int fd, size_t max)
{
	sim::point("peer recv");
	VFile* f = need(fd);
	std::string b(max > 65536 ? 65536 : max, 0);
	for (;;)
	{
		ssize_t r = stream_recv(f, &b[0], b.size(), 0);
		if (r >= 0) {last_err = 0; b.resize(r); return b;}
		if (errno != EAGAIN) {last_err = errno; return "";}
		wait_mask(f, EPOLLIN);
	}
}
bool recv_exact(int fd, size_t n, std::string& out)
{
	out.clear();
	while (out.size() < n)
	{
		std::string s = recv(fd, n - out.size());
		if (s.empty()) return false;
		out += s;
	}
	return true;
}
std::string recv_all(int fd) {std::string a; for (;;) {std::string s = recv(fd); if (s.empty()) return a; a += s;}}
std::string peek_available(int fd)
{
	VFile* f = need(fd);
	std::string b(65536, 0), a;
	for (;;)
	{
		ssize_t r = stream_recv(f, &b[0], b.size(), 0);
		if (r <= 0) {last_err = r < 0 ? errno : 0; return a;}
		a.append(b, 0, r);
	}
}
int last_error() {return last_err;}
void shutdown_wr(int fd) {sim::point("peer shutdown"); do_shutdown(need(fd), SHUT_WR);}
void close(int fd) {sim::point("peer close"); do_close(need(fd));}
void reset(int fd) {sim::point("peer reset"); VFile* f = need(fd); f->linger = 0; do_close(f);}
bool at_eof(int fd) {VFile* f = need(fd); return f->rx.empty() && (f->fin_in || f->rst);}
bool was_reset(int fd) {return need(fd)->rst;}
size_t available(int fd) {return need(fd)->rx.size();}
size_t unsent_capacity(int fd) {VFile* f = need(fd); return f->other && f->other->cap > f->other->rx.size() ? f->other->cap - f->other->rx.size() : 0;}
void set_rx_cap(int fd, size_t cap) {VFile* f = need(fd); f->cap = cap; if (f->other && !f->other->closed) notify(f->other);}
static int udp_key(const std::string& k)
{
	VFile* f = make(T_DGRAM, k[0] == 'u' ? AF_UNIX : AF_INET);
	f->peer = true;
	if (do_bind(f, k) < 0) sim::fail("simnet", 0, "harness: cannot bind datagram socket");
	return f->fd;
}
int udp(int port) {return udp_key(port_key(port));}
int udp_path(const std::string& p) {return udp_key("u:" + p);}
void udp_send(int fd, int port, const std::string& d) {sim::point("peer sendto"); dgram_send(need(fd), d, port_key(port));}
void udp_send_path(int fd, const std::string& p, const std::string& d) {sim::point("peer sendto"); dgram_send(need(fd), d, "u:" + p);}
static bool try_recv_key(int fd, std::string& d, std::string& from)
{
	VFile* f = need(fd);
	if (f->q.empty()) return false;
	from = f->q.front().first;
	d = f->q.front().second;
	f->q.pop_front();
	for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_DGRAM) notify(vf[i]);
	return true;
}
bool udp_try_recv(int fd, std::string& d, int* port) {std::string k; if (!try_recv_key(fd, d, k)) return false; if (port) *port = k.size() > 2 ? atoi(k.c_str() + 2) : 0; return true;}
bool udp_try_recv_path(int fd, std::string& d, std::string* from) {std::string k; if (!try_recv_key(fd, d, k)) return false; if (from) *from = k.size() > 2 ? k.substr(2) : ""; return true;}
std::string udp_recv(int fd, int* port)
{
	sim::point("peer recvfrom");
	VFile* f = need(fd);
	std::function<bool()> p = [f] {return !f->q.empty();};
	sim::wait_until(p, "peer recvfrom");
	std::string d;
	udp_try_recv(fd, d, port);
	return d;
}
int port_of(int fd) {VFile* f = need(fd); return f->local.size() > 2 ? atoi(f->local.c_str() + 2) : 0;}
int listening_sockets() {int n = 0; for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && vf[i]->type == T_STREAM && !vf[i]->peer && vf[i]->listening) ++n; return n;}
int open_sockets() {int n = 0; for (int i = 0; i < VMAX - VBASE; ++i) if (vf[i] && (vf[i]->type == T_STREAM || vf[i]->type == T_DGRAM) && !vf[i]->peer) ++n; return n;}
static int using_key(const std::string& k)
{
	int n = 0;
	for (int i = 0; i < VMAX - VBASE; ++i)
		if (vf[i] && vf[i]->type == T_STREAM && !vf[i]->peer && (vf[i]->connecting || (vf[i]->connected && !vf[i]->rst && !vf[i]->shut_rd)) && vf[i]->remote == k) ++n;
	return n;
}
int connecting_or_connected_to(int port) {return using_key(port_key(port));}
int connecting_or_connected_to_path(const std::string& p) {return using_key("u:" + p);}
} // namespace simnet

namespace sim {
static bool epoll_ready(void* ep)
{
	simnet::VFile* e = (simnet::VFile*) ep;
	for (auto& r : e->regs) if (simnet::reg_fires(r.second)) return true;
	return false;
}
}

using simnet::VFile;
static ssize_t gather_send(VFile* f, const std::string& d, const sockaddr* to, socklen_t tl, int flags)
{
	if (f->type == simnet::T_DGRAM) return simnet::dgram_send(f, d, to && tl ? simnet::to_key(to, tl) : std::string());
	for (;;)
	{
		ssize_t r = simnet::stream_send(f, d);
		if (r < 0 && errno == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT)) {simnet::wait_mask(f, EPOLLOUT); continue;}
		return r;
	}
}
static ssize_t scatter_recv(VFile* f, char* p, size_t n, std::string& from, int flags, int* oflags)
{
	for (;;)
	{
		ssize_t r = f->type == simnet::T_DGRAM ? simnet::dgram_recv(f, p, n, from, oflags) : simnet::stream_recv(f, p, n, flags);
		if (r < 0 && errno == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT)) {simnet::wait_mask(f, EPOLLIN); continue;}
		return r;
	}
}
#define VF(fd, real) VFile* f = simnet::get(fd); if (!f) {if (simnet::is_v(fd)) {errno = EBADF; return -1;} return real;}

extern "C" {
int socket(int domain, int type, int proto) noexcept
{
	if (!active) return ::syscall(SYS_socket, domain, type, proto);
	VFile* f = simnet::make((type & 0xf) == SOCK_STREAM ? simnet::T_STREAM : simnet::T_DGRAM, domain);
	f->nonblock = type & SOCK_NONBLOCK;
	sim::trace("fd %d: socket", f->fd);
	return f->fd;
}
int bind(int fd, const sockaddr* a, socklen_t l) noexcept
{
	VF(fd, ::syscall(SYS_bind, fd, a, l));
	if (simnet::env_alts(f) && simnet::cfg.bind_err && 1 == sim::choice(sim::C_ENV, 2, "bind: EADDRINUSE")) return simnet::err(EADDRINUSE);
	return simnet::do_bind(f, simnet::to_key(a, l));
}
int listen(int fd, int n) noexcept
{
	VF(fd, ::syscall(SYS_listen, fd, n));
	if (simnet::env_alts(f) && simnet::cfg.listen_err && 1 == sim::choice(sim::C_ENV, 2, "listen: EADDRINUSE")) return simnet::err(EADDRINUSE);
	f->listening = true; f->backlog_max = n > 0 ? n : 128;
	sim::trace("fd %d: listen on %s", fd, f->local.c_str());
	return 0;
}
int accept(int fd, sockaddr* a, socklen_t* l)
{
	VF(fd, ::syscall(SYS_accept, fd, a, l));
	for (;;)
	{
		int r = simnet::do_accept(f);
		if (r < 0 && errno == EAGAIN && !f->nonblock) {simnet::wait_mask(f, EPOLLIN); continue;}
		if (r >= 0 && a) simnet::from_key(simnet::get(r)->remote, f->domain, a, l);
		return r;
	}
}
int accept4(int fd, sockaddr* a, socklen_t* l, int flags)
{
	VF(fd, ::syscall(SYS_accept4, fd, a, l, flags));
	int r = accept(fd, a, l);
	if (r >= 0 && (flags & SOCK_NONBLOCK)) simnet::get(r)->nonblock = true;
	return r;
}
int connect(int fd, const sockaddr* a, socklen_t l)
{
	VF(fd, ::syscall(SYS_connect, fd, a, l));
	int r = simnet::do_connect(f, simnet::to_key(a, l));
	if (r < 0 && errno == EINPROGRESS && !f->nonblock) {simnet::wait_mask(f, EPOLLOUT); return f->connected ? 0 : simnet::err(f->so_error);}
	return r;
}
ssize_t send(int fd, const void* p, size_t n, int flags) {VF(fd, ::syscall(SYS_sendto, fd, p, n, flags, NULL, 0)); return gather_send(f, std::string((const char*) p, n), NULL, 0, flags);}
ssize_t sendto(int fd, const void* p, size_t n, int flags, const sockaddr* a, socklen_t l)
	{VF(fd, ::syscall(SYS_sendto, fd, p, n, flags, a, l)); return gather_send(f, std::string((const char*) p, n), a, l, flags);}
ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
	VF(fd, ::syscall(SYS_sendmsg, fd, m, flags));
	std::string d;
	for (size_t i = 0; i < m->msg_iovlen; ++i) d.append((const char*) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	return gather_send(f, d, (const sockaddr*) m->msg_name, m->msg_namelen, flags);
}
ssize_t recv(int fd, void* p, size_t n, int flags)
{
	VF(fd, ::syscall(SYS_recvfrom, fd, p, n, flags, NULL, NULL));
	std::string from;
	return scatter_recv(f, (char*) p, n, from, flags, NULL);
}
ssize_t recvfrom(int fd, void* p, size_t n, int flags, sockaddr* a, socklen_t* l)
{
	VF(fd, ::syscall(SYS_recvfrom, fd, p, n, flags, a, l));
	std::string from;
	ssize_t r = scatter_recv(f, (char*) p, n, from, flags, NULL);
	if (r >= 0 && a) simnet::from_key(from, f->domain, a, l);
	return r;
}
ssize_t recvmsg(int fd, msghdr* m, int flags)
{
	VF(fd, ::syscall(SYS_recvmsg, fd, m, flags));
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
	std::string b(n, 0), from;
	m->msg_flags = 0;
	ssize_t r = scatter_recv(f, &b[0], n, from, flags, &m->msg_flags);
	if (r < 0) return r;
	size_t o = 0;
	for (size_t i = 0; i < m->msg_iovlen && o < (size_t) r; ++i)
	{
		size_t k = std::min(m->msg_iov[i].iov_len, (size_t) r - o);
		memcpy(m->msg_iov[i].iov_base, b.data() + o, k);
		o += k;
	}
	if (m->msg_name && m->msg_namelen) simnet::from_key(from, f->domain, (sockaddr*) m->msg_name, &m->msg_namelen);
	return r;
}
ssize_t read(int fd, void* p, size_t n)
{
	VF(fd, ::syscall(SYS_read, fd, p, n));
	if (f->type == simnet::T_EVENT)
	{
		if (!f->cnt) return simnet::err(EAGAIN);
		memcpy(p, &f->cnt, 8); f->cnt = 0;
		return 8;
	}
	return recv(fd, p, n, 0);
}
ssize_t write(int fd, const void* p, size_t n)
{
	VF(fd, ::syscall(SYS_write, fd, p, n));
	if (f->type == simnet::T_EVENT) {uint64_t v; memcpy(&v, p, 8); f->cnt += v; simnet::notify(f); return 8;}
	return send(fd, p, n, 0);
}
ssize_t readv(int fd, const iovec* v, int c)
{
	VF(fd, ::syscall(SYS_readv, fd, v, c));
	msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*) v; m.msg_iovlen = c;
	return recvmsg(fd, &m, 0);
}
ssize_t writev(int fd, const iovec* v, int c)
{
	VF(fd, ::syscall(SYS_writev, fd, v, c));
	msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*) v; m.msg_iovlen = c;
	return sendmsg(fd, &m, 0);
}
int close(int fd)
{
	VF(fd, ::syscall(SYS_close, fd));
	simnet::do_close(f);
	return 0;
}
int shutdown(int fd, int how) noexcept {VF(fd, ::syscall(SYS_shutdown, fd, how)); return simnet::do_shutdown(f, how);}
int ioctl(int fd, unsigned long req, ...) noexcept
{
	va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
	VF(fd, ::syscall(SYS_ioctl, fd, req, a));
	if (req == FIONBIO) f->nonblock = *(int*) a;
	else if (req == FIONREAD) *(int*) a = f->type == simnet::T_DGRAM ? (f->q.empty() ? 0 : f->q.front().second.size()) : f->rx.size();
	return 0;
}
int fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
	VF(fd, ::syscall(SYS_fcntl, fd, cmd, a));
	if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) f->nonblock = (intptr_t) a & O_NONBLOCK;
	return 0;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* l) noexcept
{
	VF(fd, ::syscall(SYS_getsockopt, fd, level, name, v, l));
	if (v && *l >= sizeof(int))
	{
		*(int*) v = 0;
		if (level == SOL_SOCKET && name == SO_ERROR) {*(int*) v = f->so_error; f->so_error = 0;}
		else if (level == SOL_SOCKET && name == SO_TYPE) *(int*) v = f->type == simnet::T_STREAM ? SOCK_STREAM : SOCK_DGRAM;
		*l = sizeof(int);
	}
	return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t l) noexcept
{
	VF(fd, ::syscall(SYS_setsockopt, fd, level, name, v, l));
	if (level == SOL_SOCKET && name == SO_LINGER) {const linger* g = (const linger*) v; f->linger = g->l_onoff ? g->l_linger : -1;}
	return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept {VF(fd, ::syscall(SYS_getsockname, fd, a, l)); simnet::from_key(f->local, f->domain, a, l); return 0;}
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept
{
	VF(fd, ::syscall(SYS_getpeername, fd, a, l));
	if (f->type == simnet::T_STREAM ? !f->connected || f->rst : f->remote.empty()) return simnet::err(ENOTCONN);
	simnet::from_key(f->remote, f->domain, a, l);
	return 0;
}
int eventfd(unsigned n, int flags) noexcept
{
	if (!active) return ::syscall(SYS_eventfd2, n, flags);
	VFile* f = simnet::make(simnet::T_EVENT, 0);
	f->cnt = n; f->nonblock = flags & EFD_NONBLOCK; f->peer = true;
	return f->fd;
}
int timerfd_create(int, int) noexcept {errno = EINVAL; return -1;}
int timerfd_settime(int, int, const itimerspec*, itimerspec*) noexcept {errno = EINVAL; return -1;}
int epoll_create1(int) noexcept {VFile* f = simnet::make(simnet::T_EPOLL, 0); f->peer = true; return f->fd;}
int epoll_create(int) noexcept {return epoll_create1(0);}
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept
{
	VFile* e = simnet::get(ep);
	VFile* f = simnet::get(fd);
	if (!e || !f) {errno = EBADF; return -1;}
	if (op == EPOLL_CTL_DEL) {if (!e->regs.erase(fd)) {errno = ENOENT; return -1;} return 0;}
	bool have = e->regs.count(fd) && e->regs[fd].f == f;
	if (op == EPOLL_CTL_ADD && have) {errno = EEXIST; return -1;}
	if (op == EPOLL_CTL_MOD && !have) {errno = ENOENT; return -1;}
	simnet::Reg r;
	r.f = f; r.events = ev->events; r.data = ev->data; r.pending = true; r.seq = ++simnet::ev_seq;
	e->regs[fd] = r;
	return 0;
}
int epoll_wait(int ep, epoll_event* evs, int max, int timeout)
{
	VFile* e = simnet::get(ep);
	if (!e) {errno = EBADF; return -1;}
	if (!sim::epoll_ready(e) && timeout != 0)
	{
		Fiber& f = fibers[cur];
		f.wait = W_EPOLL; f.obj = e; f.deadline = timeout < 0 ? -1 : now_ns + timeout * 1000000ll;
		block();
		f.deadline = -1;
	}
	std::vector<simnet::Reg*> v;
	for (auto& r : e->regs) if (simnet::reg_fires(r.second)) v.push_back(&r.second);
	std::sort(v.begin(), v.end(), [](simnet::Reg* a, simnet::Reg* b) {return a->seq < b->seq;});
	int n = 0;
	for (size_t i = 0; i < v.size() && n < max; ++i)
	{
		simnet::Reg& r = *v[i];
		evs[n].events = simnet::mask_of(r.f) & (r.events | EPOLLERR | EPOLLHUP) & 0xffff;
		evs[n].data = r.data;
		r.pending = false;
		++n;
	}
	return n;
}
int poll(pollfd* p, nfds_t n, int timeout)
{
	bool virt = false;
	for (nfds_t i = 0; i < n; ++i) if (simnet::is_v(p[i].fd)) virt = true;
	if (!virt) return ::syscall(SYS_poll, p, n, timeout);
	auto test = [p, n] {
		int k = 0;
		for (nfds_t i = 0; i < n; ++i)
		{
			VFile* f = simnet::get(p[i].fd);
			p[i].revents = f ? simnet::mask_of(f) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL;
			if (p[i].revents) ++k;
		}
		return k;
	};
	int k = test();
	if (k || !timeout) return k;
	std::function<bool()> pr = [&test] {return test() > 0;};
	sim::wait_for(pr, timeout < 0 ? -1 : timeout, "poll");
	return test();
}
}
