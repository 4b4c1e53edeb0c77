#!/bin/bash
# replay.sh HARNESS CONFIG ENTRY FILE: run the contract on the recorded values against /repo
set -e
d=$(cd "$(dirname "$0")" && pwd); h=$1; c=$2
case $c in 17) f=-std=c++17;; 20) f=-std=c++20;; 17d) f="-std=c++17 -DDEBUG";; esac
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
s=$(find ${VP_REPO:-/repo}/src/utki -name "*.cpp")
clang++ $f -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -pthread -I"$d/harness" -I${VP_REPO:-/repo}/src -I${VP_REPO:-/repo}/src_deps "$d/harness/$h.cpp" "$d/harness/native.cpp" $s -o "$t/n"
"$t/n" replay "$3" "$4"
