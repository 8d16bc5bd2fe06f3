#!/bin/bash
# run.sh REPO: shows the defects on REPO (a scratch copy), exit status per demo
R=${1:-/repo}; D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d)
for f in "$D"/*.cc; do n=$(basename "$f" .cc); s=
  case $n in v02*|x01*) s=-fsanitize=address;; b02*) s=-fsanitize=thread;; esac
  g++ -std=c++17 -g -O1 $s -I"$R" -o "$O/$n" "$f" $(ls "$R"/rst/*/*.cc | grep -v _test.cc) -lpthread 2>"$O/err" || { tail -5 "$O/err"; continue; }
  timeout 200 "$O/$n" >"$O/out" 2>&1; echo "$n exit $? $(head -c 200 "$O/out" | tr '\n' ' ')"
done
rm -r "$O"
