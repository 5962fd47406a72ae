// Every sequence of socket operations up to a depth on a connected pair; what each returns and which edges epoll reports.
// Compiled twice: against Linux (real.cpp) and against the virtual kernel (virt.cpp).
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <sys/un.h>
#include <string>
static bool use_unix = false;
static std::string num_(long v) {char b[24]; snprintf(b, sizeof b, "%ld", v); return b;}
static std::string en(int r) {return r >= 0 ? num_(r) : errno == EAGAIN ? "EAGAIN" : errno == EPIPE ? "EPIPE" : errno == ECONNRESET ? "ECONNRESET" : errno == ENOTCONN ? "ENOTCONN" : errno == ECONNREFUSED ? "ECONNREFUSED" : "E" + num_(errno);}
static void nonblock(int fd) {int on = 1; ioctl(fd, FIONBIO, &on);}
static sockaddr_in local(int port) {sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a;}
static void reg(int ep, int fd) {epoll_event e; memset(&e, 0, sizeof e); e.events = EPOLLIN | EPOLLOUT | EPOLLPRI | EPOLLERR | EPOLLHUP | EPOLLET; e.data.fd = fd; epoll_ctl(ep, EPOLL_CTL_ADD, fd, &e);}
static std::string edges(int ep)
{
	epoll_event e[4]; int n = epoll_wait(ep, e, 4, 0); std::string s;
	for (int i = 0; i < n; ++i) {unsigned v = e[i].events; s += (v & EPOLLIN ? "I" : ""); s += (v & EPOLLOUT ? "O" : ""); s += (v & EPOLLERR ? "E" : ""); s += (v & EPOLLHUP ? "H" : ""); s += (v & EPOLLPRI ? "P" : "");}
	return s.empty() ? "-" : s;
}
struct Pair_
{
	int l, a, b, ea, eb;
	Pair_(int port)
	{
		if (use_unix)
		{
			sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strcpy(u.sun_path, ("conform_" + num_(port) + ".sock").data());
			l = socket(AF_UNIX, SOCK_STREAM, 0); ::unlink(u.sun_path); if (::bind(l, (sockaddr*) &u, sizeof u)) perror("bind"); ::listen(l, 4);
			a = socket(AF_UNIX, SOCK_STREAM, 0); nonblock(a); ::connect(a, (sockaddr*) &u, sizeof u);
			b = ::accept(l, NULL, NULL); nonblock(b); ::unlink(u.sun_path);
			ea = epoll_create1(0); eb = epoll_create1(0); reg(ea, a); reg(eb, b); edges(ea); edges(eb);
			return;
		}
		l = socket(AF_INET, SOCK_STREAM, 0); int on = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
		sockaddr_in s = local(port); if (bind(l, (sockaddr*) &s, sizeof s)) perror("bind"); listen(l, 4);
		a = socket(AF_INET, SOCK_STREAM, 0); nonblock(a);
		s = local(port); connect(a, (sockaddr*) &s, sizeof s);
		b = ::accept(l, NULL, NULL); nonblock(b);
		setsockopt(a, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); setsockopt(b, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
		ea = epoll_create1(0); eb = epoll_create1(0); reg(ea, a); reg(eb, b); edges(ea); edges(eb);
	}
	~Pair_() {if (a >= 0) {linger g = {1, 0}; setsockopt(a, SOL_SOCKET, SO_LINGER, &g, sizeof g); ::close(a);} if (b >= 0) {linger g = {1, 0}; setsockopt(b, SOL_SOCKET, SO_LINGER, &g, sizeof g); ::close(b);} ::close(l); ::close(ea); ::close(eb);}
	enum {OPS = 11};
	static const char* name(int o) {static const char* n[] = {"A.send", "B.send", "A.recv2", "B.recv9", "A.fin", "B.fin", "B.close", "B.rst", "A.err", "A.recv9", "A.finrd"}; return n[o];}
	std::string op(int o)
	{
		char d[16]; std::string r;
		if (b < 0 && (o == 1 || o == 3 || o == 5 || o == 6 || o == 7)) return "";
		switch (o)
		{
		case 0: r = en(::send(a, "abc", 3, MSG_NOSIGNAL)); break;
		case 1: r = en(::send(b, "xyz", 3, MSG_NOSIGNAL)); break;
		case 2: r = en(::recv(a, d, 2, 0)); break;
		case 3: r = en(::recv(b, d, 9, 0)); break;
		case 4: r = en(::shutdown(a, SHUT_WR)); break;
		case 5: r = en(::shutdown(b, SHUT_WR)); break;
		case 6: r = en(::close(b)); b = -1; break;
		case 7: {linger g = {1, 0}; setsockopt(b, SOL_SOCKET, SO_LINGER, &g, sizeof g); r = en(::close(b)); b = -1; break;}
		case 8: {int e = 0; socklen_t n = sizeof e; getsockopt(a, SOL_SOCKET, SO_ERROR, &e, &n); errno = e; r = e ? en(-1) : "0"; break;}
		case 9: r = en(::recv(a, d, 9, 0)); break;
		case 10: r = en(::shutdown(a, SHUT_RDWR)); break;
		}
		return std::string(name(o)) + "=" + r + " A:" + edges(ea) + (b >= 0 ? " B:" + edges(eb) : "") + "; ";
	}
};
static std::string run_seq(int port, long code, int depth)
{
	Pair_ p(port); std::string s;
	for (int i = 0; i < depth; ++i, code /= Pair_::OPS)
	{
		std::string r = p.op(code % Pair_::OPS);
		if (r.empty()) return "";
		s += r;
	}
	return s;
}
static long total(int depth) {long n = 1; while (depth--) n *= Pair_::OPS; return n;}
