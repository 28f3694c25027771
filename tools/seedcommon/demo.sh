#!/bin/bash
# Run in the repository after its build: exit 0 if the behaviour holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
objs=()
for s in "$repo"/src/*.cpp "$here/demo.cpp"; do
  b=$(basename "$s" .cpp)
  [ "$b" = navcmp ] && continue
  g++ -std=c++17 -O1 -w @FLAGS@ -include string -include utility -include limits \
    -I"$repo/src" -I"$here" -c "$s" -o "$t/$b.o" &
  objs+=("$t/$b.o")
done
wait
g++ @FLAGS@ "${objs[@]}" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo > out.txt 2> err.txt
rc=$?
grep '^DEMO' out.txt
exit $rc
