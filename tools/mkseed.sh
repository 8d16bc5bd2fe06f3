#!/bin/bash
# mkseed.sh ID PROPERTY FILE PERLEXPR [FILE PERLEXPR ...] : writes seeded/ID/patch.diff from a
# perl -0p edit of a scratch copy, and the common demo.sh (demo.cc is written by hand).
cd "$(dirname "$0")/.." ; id=$1; prop=$2; shift 2
S=$(mktemp -d /tmp/mkseedXXXXXX); git -C /repo archive HEAD | tar x -C "$S"; (cd "$S" && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base)
while [ $# -gt 1 ]; do perl -0pi -e "$2" "$S/$1"; git -C "$S" diff --quiet -- "$1" && echo "NOCHANGE $1: $2"; shift 2; done
mkdir -p seeded/$id; git -C "$S" diff > seeded/$id/patch.diff; rm -r "$S"
cat > seeded/$id/demo.sh <<'D'
#!/bin/bash
# Builds demo.cc against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d) || exit 2; trap 'rm -rf "$O"' EXIT
F=$(cat "$D/flags" 2>/dev/null)
g++ -std=c++17 -g -fno-exceptions -fno-rtti $F -I"$PWD" -o "$O/demo" "$D/demo.cc" \
  $(ls "$PWD"/rst/*/*.cc | grep -v '_test\.cc$') -lpthread || exit 2
cd "$O" && timeout 120 ./demo
D
[ -f seeded/$id/meta.json ] || echo "{\"property\": \"$prop\", \"needs\": \"\", \"what_it_breaks\": \"\"}" > seeded/$id/meta.json
cat seeded/$id/patch.diff | grep '^[-+]' 
