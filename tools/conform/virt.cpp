#include "../../harness/common.h"
#include "ops.h"
SCENARIO(conform, "socket operations on the virtual kernel", 0, 0, [] {})
{
	sim::window(false);
	use_unix = sim::param("unix", 0);
	int d = sim::param("depth", 3); long n = total(d), from = sim::param("from", 0), to = std::min<long>(n, sim::param("to", n));
	FILE* f = ::fopen("/tmp/conform_virt.txt", from ? "a" : "w");
	for (long i = from; i < to; ++i) fprintf(f, "%ld %s\n", i, run_seq(5000 + i % 1000, i, d).c_str());
	fclose(f);
	sim::finish();
}
