// TLS contexts (pre-shared keys, so a handshake costs little and has fixed sizes) and raw TLS peers.
#ifndef TLSFIX_H_
#define TLSFIX_H_
#include <boost/asio/ssl.hpp>
#include <map>
static unsigned psk_cli(SSL*, const char*, char* id, unsigned n, unsigned char* psk, unsigned m) {strcpy(id, "me"); memset(psk, 7, 16); return 16;}
static unsigned psk_srv(SSL*, const char*, unsigned char* psk, unsigned m) {memset(psk, 7, 16); return 16;}
static unsigned psk_bad(SSL*, const char*, unsigned char* psk, unsigned m) {memset(psk, 8, 16); return 16;}
static void tls_conf(SSL_CTX* c, bool v13, bool server, bool bad = false)
{
	SSL_CTX_set_min_proto_version(c, v13 ? TLS1_3_VERSION : TLS1_2_VERSION);
	SSL_CTX_set_max_proto_version(c, v13 ? TLS1_3_VERSION : TLS1_2_VERSION);
	SSL_CTX_set_cipher_list(c, "PSK-AES128-GCM-SHA256");
	SSL_CTX_set_ciphersuites(c, "TLS_AES_128_GCM_SHA256");
	SSL_CTX_set_options(c, SSL_OP_ALLOW_NO_DHE_KEX);
	if (server) SSL_CTX_set_psk_server_callback(c, bad ? psk_bad : psk_srv); else SSL_CTX_set_psk_client_callback(c, psk_cli);
}
// a TLS end without the library
struct TlsPeer
{
	int fd; SSL_CTX* ctx; SSL* ssl; BIO *in, *out;
	std::string plain; bool closed = false, failed = false, notified = false;
	TlsPeer(int fd_, bool v13, bool server, bool bad = false) : fd(fd_)
	{
		ctx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
		tls_conf(ctx, v13, server, bad);
		ssl = SSL_new(ctx);
		in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem());
		BIO_set_mem_eof_return(in, -1);
		SSL_set_bio(ssl, in, out);
		if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
	}
	std::string take() {std::string s; char b[4096]; int n; while ((n = BIO_read(out, b, sizeof b)) > 0) s.append(b, n); return s;}
	void flush() {std::string s = take(); if (fd >= 0 && s.size()) simnet::send_some(fd, s);}
	// feeds what has arrived
	bool feed()
	{
		if (fd < 0) return false;
		std::string s;
		if (simnet::available(fd) > 0) s = simnet::recv(fd);
		if (s.size()) BIO_write(in, s.data(), s.size());
		return s.size();
	}
	bool step() // one step of the handshake; true when finished
	{
		ERR_clear_error();
		int r = SSL_do_handshake(ssl);
		if (r == 1) {flush(); return true;}
		if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) failed = true;
		flush();
		return false;
	}
	bool gone() {return fd < 0 || simnet::at_eof(fd) || simnet::was_reset(fd);}
	bool handshake(int ms = 1000)
	{
		while (!step())
		{
			if (failed) return false;
			sim::wait_for([&] {return simnet::available(fd) > 0 || gone();}, ms, "handshake data");
			if (!feed()) return false;
		}
		return true;
	}
	void pump() // reads application data
	{
		feed();
		char b[4096]; int n;
		ERR_clear_error();
		while ((n = SSL_read(ssl, b, sizeof b)) > 0) plain.append(b, n);
		if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) notified = true;
		flush();
	}
	std::string enc(const std::string& s) {ERR_clear_error(); SSL_write(ssl, s.data(), s.size()); return take();}
	void send(const std::string& s) {std::string e = enc(s); simnet::send(fd, e);}
	void notify() {ERR_clear_error(); SSL_shutdown(ssl); flush();}
	void wait_plain(size_t n, int ms = 1000) {sim::wait_for([&] {return false;}, 0, ""); int64_t t = sim::now_ms(); while (plain.size() < n && sim::now_ms() - t < ms) {sim::wait_for([&] {return simnet::available(fd) > 0 || gone();}, 100, "data"); pump();}}
};
// one OpenSSL connection must never be used by two threads at the same time
#include <dlfcn.h>
static std::map<SSL*, int>& ssl_users() {static std::map<SSL*, int> m; return m;}
static bool& ssl_watch() {static bool b; return b;}
struct SslUse
{
	SSL* s; bool on;
	SslUse(SSL* s_, const char* n) : s(s_), on(ssl_watch()) {if (on) {sim::logf("%s", n); CHECK(ssl_users()[s]++ == 0, "an OpenSSL connection is used by two threads at the same time"); sim::yield_point(); ERR_clear_error();}}
	~SslUse() {if (on) --ssl_users()[s];}
};
#define REAL(NAME) static decltype(&NAME) real; if (!real) real = (decltype(&NAME)) dlsym(RTLD_NEXT, #NAME)
extern "C" {
int SSL_read(SSL* s, void* b, int n) {REAL(SSL_read); SslUse u(s, __func__); return real(s, b, n);}
int SSL_write(SSL* s, const void* b, int n) {REAL(SSL_write); SslUse u(s, __func__); return real(s, b, n);}
int SSL_shutdown(SSL* s) {REAL(SSL_shutdown); SslUse u(s, __func__); return real(s);}
int SSL_connect(SSL* s) {REAL(SSL_connect); SslUse u(s, __func__); return real(s);}
int SSL_accept(SSL* s) {REAL(SSL_accept); SslUse u(s, __func__); return real(s);}
}
// everything OpenSSL does once is done before the executions start
struct TlsInit
{
	static void shuttle(SSL* a, BIO* ao, BIO* bi) {char b[4096]; int n; while ((n = BIO_read(ao, b, sizeof b)) > 0) BIO_write(bi, b, n);}
	TlsInit()
	{
		OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
		for (int v = 0; v < 2; ++v)
		{
			SSL_CTX *s = SSL_CTX_new(TLS_server_method()), *c = SSL_CTX_new(TLS_client_method());
			tls_conf(s, v, true); tls_conf(c, v, false);
			SSL *x = SSL_new(s), *y = SSL_new(c);
			BIO *xi = BIO_new(BIO_s_mem()), *xo = BIO_new(BIO_s_mem()), *yi = BIO_new(BIO_s_mem()), *yo = BIO_new(BIO_s_mem());
			SSL_set_bio(x, xi, xo); SSL_set_bio(y, yi, yo);
			SSL_set_accept_state(x); SSL_set_connect_state(y);
			for (int i = 0; i < 10; ++i) {SSL_do_handshake(y); shuttle(y, yo, xi); SSL_do_handshake(x); shuttle(x, xo, yi);}
			char b[16]; SSL_write(x, "a", 1); shuttle(x, xo, yi); SSL_read(y, b, 1); SSL_shutdown(y); shuttle(y, yo, xi); SSL_read(x, b, 1);
			SSL_free(x); SSL_free(y); SSL_CTX_free(s); SSL_CTX_free(c);
		}
		boost::asio::ssl::context k(boost::asio::ssl::context::sslv23_server);
	}
};
static TlsInit tls_init;
#endif
