// real DEPTH [unix]
#include "ops.h"
#include <stdlib.h>
int main(int c, char** v) {use_unix = c > 2; int d = atoi(v[1]); for (long i = 0; i < total(d); ++i) printf("%ld %s\n", i, run_seq(20000 + i % 10000, i, d).c_str());}
