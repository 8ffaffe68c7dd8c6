#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property of /repo's working tree.
prop="$1"; tier="${2:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
repo="${VERIF_REPO:-/repo}"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
refuse() {
  mkdir -p "$here/evidence"
  printf '%s\n' "$1" > "$here/evidence/$prop.violation.txt"
  [ -f "$tmp/log" ] && cat "$tmp/log" >> "$here/evidence/$prop.violation.txt" && cat "$tmp/log"
  echo "$1"
  echo "VIOLATION property=$prop replay=$here/evidence/$prop.violation.txt"
  exit 1
}
cp -r "$here/analyzer" "$tmp/src" || refuse "the analyser cannot be copied"
(cd "$tmp/src" && go build -o "$tmp/az" .) > "$tmp/log" 2>&1 || refuse "the analyser cannot be built"
rm -f -- "$tmp/log"
"$tmp/az" -property "$prop" -tier "$tier" -repo "$repo" -verif "$here"
rc=$?
[ $rc -eq 0 ] && exit 0
[ $rc -eq 1 ] && exit 1
refuse "the analysis ended abnormally (exit $rc)"
