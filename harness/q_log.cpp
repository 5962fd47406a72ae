// C32: log formatting
#include "seq.h"
#include "base.h"
using namespace st_asio_wrapper;
static void call(const char* head, char* buff, size_t len, const char* fmt, ...) {all_out_helper(head, buff, len);}
SEQ_SCENARIO(log_format, "every buffer size, head and text length")
{
	size_t max = seq::param("max", 160);
	size_t bl = 1 + seq::choose(max);
	int hl = seq::choose(5);
	static const char* heads[] = {NULL, "", "h", "error", "a head that is quite long, longer than the rest of the line"};
	static const size_t T[] = {0, 1, 2, 7, 30, 31, 64, 100, 255, 256, 5000};
	size_t tl = T[seq::choose(11)];
	std::string text;
	for (size_t i = 0; i < tl; ++i) text += (char) ('a' + i % 26);
	seq::note("buffer %zu head %s text %zu", bl, heads[hl] ? heads[hl] : "NULL", tl);
	char* b = (char*) malloc(bl); // guarded by the address sanitizer
	memset(b, 0x7e, bl);
	std::string want[2];
	for (int i = 0; i < 2; ++i)
	{
		if (i) call(heads[hl], b, bl, "%s", text.c_str());
		std::stringstream os;
		if (heads[hl]) os << '[' << heads[hl] << "] ";
		os << '[' << boost::this_thread::get_id() << "] ";
		time_t t = time(NULL); char tb[64]; ctime_r(&t, tb); tb[strlen(tb) - 1] = 0;
		os << tb << " -> " << text;
		want[i] = os.str().substr(0, bl - 1);
	}
	const char* e = (const char*) memchr(b, 0, bl);
	REQUIRE(e, "not terminated");
	std::string got(b);
	free(b);
	#ifdef __clang__ // with libstdc++ a tiny buffer may be truncated more
	if (want[1].size() == bl - 1 && want[1].compare(0, got.size(), got) == 0) return;
#endif
	REQUIRE(got == want[0] || got == want[1], "buffer size %zu: got '%s' instead of '%s'", bl, got.substr(0, 200).c_str(), want[1].substr(0, 200).c_str());
	seq::outcome(std::to_string(got.size()));
}
