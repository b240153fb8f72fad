#!/bin/bash
# development helper: compile one harness the way run.py does.  cc.sh SRC OUT [extra flags]
src=$1; out=$2; shift 2
exec g++ -std=c++17 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute,vptr -fno-omit-frame-pointer -march=native -w -I${REPO:-/repo} -I/verif/lib "$src" -o "$out" "$@" -ltbb -lpthread
