#ifndef SEQCOMMON_H_
#define SEQCOMMON_H_
#include "seq.h"
#include <stdarg.h>
#include <string>
#include <vector>
#define ST_ASIO_CUSTOM_LOG
namespace st_asio_wrapper {
class unified_out
{
public:
	static void fatal_out(const char* fmt, ...) {}
	static void error_out(const char* fmt, ...) {}
	static void warning_out(const char* fmt, ...) {}
	static void info_out(const char* fmt, ...) {}
	static void debug_out(const char* fmt, ...) {}
};
}
static inline std::string num(long long n) {return std::to_string(n);}
static inline std::string hex(const std::string& s)
{
	std::string o;
	char b[8];
	for (size_t i = 0; i < s.size() && i < 48; ++i)
		if (s[i] >= 0x21 && s[i] < 0x7f && s[i] != '\\') o += s[i];
		else {snprintf(b, sizeof b, "\\%02x", (unsigned char) s[i]); o += b;}
	return s.size() > 48 ? o + "...(" + num(s.size()) + ")" : o;
}
#endif
