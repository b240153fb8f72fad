#!/bin/bash
# ccmc.sh CheckName : development build of a concurrency check into /tmp/w
mkdir -p /tmp/w; n=$1; shift
[ /tmp/w/mcsched.o -nt /verif/lib/mcsched.cpp ] || g++ -std=c++17 -O2 -g1 -c /verif/lib/mcsched.cpp -o /tmp/w/mcsched.o || exit 1
g++ -std=c++17 -O1 -g1 -march=native -w -fsanitize=thread -c -I${REPO:-/repo} -I/verif/lib /verif/checks/$n.cpp -o /tmp/w/$n.o "$@" && g++ /tmp/w/$n.o /tmp/w/mcsched.o -o /tmp/w/$n -ltbb -lpthread -ldl
