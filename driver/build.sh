#!/bin/bash
# build.sh OUT [REPO]: builds the witness search against the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=${2:-/repo}
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace":{'
  for f in "$here"/*.go; do echo "\"$repo/zzverif/$(basename "$f")\":\"$f\","; done
  echo "\"$repo/zz_lex.go\":\"$here/shim/zz_lex.go\"}}"
} > "$tmp/on.json"
grep -v zz_lex.go "$tmp/on.json" | sed '$ s/$/ /' > "$tmp/off.json"
sed -i '$ s/,\? *$//' "$tmp/off.json"; echo '}}' >> "$tmp/off.json"
cd "$repo"
go build -tags zzlex -overlay "$tmp/on.json" -o "$out" ./zzverif 2>"$tmp/err" || go build -overlay "$tmp/off.json" -o "$out" ./zzverif || { cat "$tmp/err"; exit 1; }
