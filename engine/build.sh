#!/bin/bash
# build.sh OUT SRC [flags...]: compile one harness against /repo/include
out=$1; src=$2; shift 2
B=${VBUILD:-/tmp/vb}; mkdir -p $B
[ $B/sim.o -nt /verif/engine/sim.cpp -a $B/sim.o -nt /verif/engine/simnet.inc -a $B/sim.o -nt /verif/engine/simtsan.inc -a $B/sim.o -nt /verif/engine/simexplore.inc ] || clang++ -std=c++17 -O2 -g -w -c /verif/engine/sim.cpp -o $B/sim.o || exit 1
clang++ -std=c++17 -O1 -g1 -fsanitize=thread -mllvm -tsan-distinguish-volatile=1 -fsanitize-ignorelist=/verif/engine/ignore.txt -w -DNDEBUG -DBOOST_ASIO_NO_DEPRECATED -DBOOST_CHRONO_HEADER_ONLY -DBOOST_ASIO_DISABLE_THREAD_KEYWORD_EXTENSION -I${REPO:-/repo}/include "$@" -c $src -o $B/$out.o && clang++ $B/$out.o $B/sim.o -rdynamic -o $B/$out -lboost_system -lboost_thread -lssl -lcrypto -ldl
