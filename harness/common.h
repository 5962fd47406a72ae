// Shared by all harnesses that run under the model checker.
#ifndef HARNESS_COMMON_H_
#define HARNESS_COMMON_H_
#include "../engine/sim.h"
#include <stdarg.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>

#define ST_ASIO_CUSTOM_LOG
namespace st_asio_wrapper {
class unified_out
{
private:
	static void out(const char* k, const char* fmt, va_list ap) {if (!sim::verbose()) return; char b[2048]; vsnprintf(b, sizeof b, fmt, ap); sim::logf("%s: %s", k, b);}
#define OUT_(K) va_list ap; va_start(ap, fmt); out(K, fmt, ap); va_end(ap)
public:
	static void fatal_out(const char* fmt, ...) {OUT_("fatal");}
	static void error_out(const char* fmt, ...) {OUT_("error");}
	static void warning_out(const char* fmt, ...) {OUT_("warning");}
	static void info_out(const char* fmt, ...) {OUT_("info");}
	static void debug_out(const char* fmt, ...) {OUT_("debug");}
};
}

static inline std::string hex(const std::string& s)
{
	std::string o;
	char b[8];
	for (size_t i = 0; i < s.size() && i < 64; ++i)
		if (s[i] >= 0x21 && s[i] < 0x7f && s[i] != '\\') o += s[i];
		else {snprintf(b, sizeof b, "\\%02x", (unsigned char) s[i]); o += b;}
	return s.size() > 64 ? o + "..." : o;
}
static inline std::string num(long long n) {char b[24]; snprintf(b, sizeof b, "%lld", n); return b;}
// the length-prefixed wire format: 2 byte big endian total length
static inline std::string lv(const std::string& body) {size_t n = body.size() + 2; std::string s; s += (char) (n >> 8); s += (char) n; return s + body;}
static inline std::vector<std::string> unlv(const std::string& s, std::string* rest = NULL)
{
	std::vector<std::string> v;
	size_t p = 0;
	while (p + 2 <= s.size())
	{
		size_t n = ((unsigned char) s[p] << 8) | (unsigned char) s[p + 1];
		if (n < 2 || p + n > s.size()) break;
		v.push_back(s.substr(p + 2, n - 2));
		p += n;
	}
	if (rest) *rest = s.substr(p);
	return v;
}
#endif
