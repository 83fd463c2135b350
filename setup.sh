#!/bin/sh
# Warms the Go build cache for the checks (each check builds what it needs
# itself, so nothing here decides anything).
cd "$(dirname "$0")/harness" || exit 1
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
t=$(mktemp -d) || exit 1
cp go.mod go.sum "$t"/
plain=
for d in checks/*/; do
  d=${d%/}
  c=$(basename "$d" | tr a-z A-Z)
  args=
  [ -x "$d/prebuild" ] && args=$("$d/prebuild" "$t")
  grep -qx "$c" race.txt && args="-race $args"
  if [ -n "$args" ]; then
    go build $args -modfile "$t/go.mod" -buildvcs=false -o "$t/out/" "./$d"
  else
    plain="$plain ./$d"
  fi
done
go build -modfile "$t/go.mod" -buildvcs=false -o "$t/out/" $plain
rm -rf "$t"
exit 0
