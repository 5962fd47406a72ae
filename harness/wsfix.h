// WebSocket: a transport that notices concurrent use and raw WebSocket peers
#ifndef WSFIX_H_
#define WSFIX_H_
#include <boost/beast.hpp>
#include <boost/asio/ssl.hpp>
#include <openssl/sha.h>
#ifdef WSS
#include "ext/ssl_websocket.h"
#include "tlsfix.h"
#else
#include "ext/websocket.h"
#endif
// everything a beast stream does goes through its transport; two threads in there at the same time share the stream
struct WatchStream : public boost::beast::tcp_stream
{
	typedef boost::beast::tcp_stream base;
	int users = 0;
	template<typename... A> explicit WatchStream(A&&... a) : base(std::forward<A>(a)...) {}
	struct Use {WatchStream& s; Use(WatchStream& s_) : s(s_) {CHECK(s.users++ == 0, "a WebSocket stream is used by two threads at the same time"); sim::yield_point();} ~Use() {--s.users;}};
	template<typename B, typename H> auto async_read_some(const B& b, H&& h) {Use u(*this); return base::async_read_some(b, std::forward<H>(h));}
	template<typename B, typename H> auto async_write_some(const B& b, H&& h) {Use u(*this); return base::async_write_some(b, std::forward<H>(h));}
};
inline void teardown(boost::beast::role_type r, WatchStream& s, boost::system::error_code& ec) {boost::beast::websocket::teardown(r, s.socket(), ec);}
template<typename H> void async_teardown(boost::beast::role_type r, WatchStream& s, H&& h) {boost::beast::websocket::async_teardown(r, s.socket(), std::forward<H>(h));}
inline void beast_close_socket(WatchStream& s) {boost::beast::close_socket(s.socket());}

// a WebSocket end without the library
struct WsPeer
{
	int fd; bool server, failed = false, got_close = false; std::string buf; std::vector<std::string> msgs; std::vector<int> ops; std::string part; int partop = 0;
	bool gone() {return fd < 0 || simnet::at_eof(fd) || simnet::was_reset(fd);}
#ifdef WSS
	TlsPeer tls;
	WsPeer(int fd_, bool server_) : fd(fd_), server(server_), tls(fd_, true, server_) {}
	bool shake() {return tls.handshake();}
	void tx(const std::string& s) {tls.send(s);}
	bool feed() {if (fd < 0) return false; tls.pump(); bool r = tls.plain.size(); buf += tls.plain; tls.plain.clear(); return r;}
	void bye() {tls.notify();}
#else
	WsPeer(int fd_, bool server_) : fd(fd_), server(server_) {}
	bool shake() {return true;}
	void tx(const std::string& s) {simnet::send(fd, s);}
	bool feed() {if (fd < 0 || simnet::available(fd) <= 0) return false; buf += simnet::recv(fd); return true;}
	void bye() {}
#endif
	static std::string request() {return "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";}
	static std::string b64(const unsigned char* p, int n)
	{
		static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		std::string r;
		for (int i = 0; i < n; i += 3)
		{
			unsigned v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
			r += t[v >> 18]; r += t[v >> 12 & 63]; r += i + 1 < n ? t[v >> 6 & 63] : '='; r += i + 2 < n ? t[v & 63] : '=';
		}
		return r;
	}
	std::string answer(bool wrong = false)
	{
		size_t i = buf.find("Sec-WebSocket-Key: ");
		if (i == std::string::npos) return "";
		std::string k = buf.substr(i + 19, buf.find("\r\n", i) - i - 19) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
		unsigned char h[20];
		SHA1((const unsigned char*) k.data(), k.size(), h);
		if (wrong) ++h[3];
		return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + b64(h, 20) + "\r\n\r\n";
	}
	bool head(int ms = 1000) // reads the HTTP header
	{
		while (buf.find("\r\n\r\n") == std::string::npos)
		{
			if (feed()) continue;
			if (!sim::wait_for([&] {return simnet::available(fd) > 0;}, ms, "handshake data")) return false;
		}
		return true;
	}
	bool handshake()
	{
		if (!shake()) return false;
		if (!server) tx(request());
		if (!head()) return false;
		bool ok = true;
		if (server) tx(answer()); else ok = buf.find("HTTP/1.1 101") == 0;
		buf.erase(0, buf.find("\r\n\r\n") + 4);
		return ok;
	}
	std::string frame(int op, const std::string& s, bool fin = true)
	{
		std::string r;
		r += (char) ((fin ? 0x80 : 0) | op);
		int m = server ? 0 : 0x80;
		if (s.size() < 126) r += (char) (m | s.size());
		else if (s.size() > 65535) {r += (char) (m | 127); for (int i = 7; i >= 0; --i) r += (char) ((uint64_t) s.size() >> 8 * i);}
		else {r += (char) (m | 126); r += (char) (s.size() >> 8); r += (char) s.size();}
		if (m) {r += "abcd"; for (size_t i = 0; i < s.size(); ++i) r += (char) (s[i] ^ "abcd"[i % 4]);} else r += s;
		return r;
	}
	void send(const std::string& s, int op = 1) {tx(frame(op, s));}
	void close_frame() {tx(frame(8, std::string("\3\xe8", 2)));}
	void pump() // parses what has arrived
	{
		feed();
		while (buf.size() >= 2)
		{
			int op = buf[0] & 15; bool fin = buf[0] & 0x80, mask = buf[1] & 0x80; size_t n = buf[1] & 127, h = 2;
			if (n == 126) {if (buf.size() < 4) return; n = (unsigned char) buf[2] << 8 | (unsigned char) buf[3]; h = 4;}
			if (n == 127) {if (buf.size() < 10) return; n = 0; for (int i = 2; i < 10; ++i) n = n << 8 | (unsigned char) buf[i]; h = 10;}
			std::string k;
			if (mask) {if (buf.size() < h + 4) return; k = buf.substr(h, 4); h += 4;}
			if (buf.size() < h + n) return;
			CHECK(mask == server, "frame %smasked", mask ? "" : "not ");
			std::string s = buf.substr(h, n);
			if (mask) for (size_t i = 0; i < n; ++i) s[i] ^= k[i % 4];
			buf.erase(0, h + n);
			if (op == 8) got_close = true;
			else if (op == 9) tx(frame(10, s));
			else if (op < 3)
			{
				if (op) partop = op;
				part += s;
				if (fin) {msgs.push_back(part); ops.push_back(partop); part.clear();}
			}
		}
	}
	void wait_msgs(size_t n, int ms = 1000) {int64_t t = sim::now_ms(); while (msgs.size() < n && sim::now_ms() - t < ms) {sim::wait_for([&] {return simnet::available(fd) > 0 || gone();}, 100, "data"); pump(); if (gone()) break;}}
};
#endif
