#!/bin/sh
# Applies each planted bug to a copy of /repo and runs its check: seedall.sh [ID...]
H=$(cd "$(dirname "$0")/.." && pwd)
if [ "$1" = one ]; then
	T=$2 s=$3
	p=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$H/seeded/$s/meta.json")
	cp -a /repo "$T/r.$s"
	git -C "$T/r.$s" apply "$H/seeded/$s/patch.diff" || echo "BADPATCH $s"
	mkdir -p "$T/v.$s/evidence"
	cp "$H/known-findings.txt" "$T/v.$s/"
	timeout 850 "$T/gck" -verif "$T/v.$s" -check "$p" -repo "$T/r.$s" >"$T/v.$s/out" 2>&1
	echo "$s $p rc=$? $(grep -m1 VIOLATION "$T/v.$s/out" | cut -c1-100)"
	rm -rf "$T/r.$s" "$T/v.$s"
	exit
fi
T=$(mktemp -d /tmp/seedall.XXXXXX)
(cd "$H/gltfcheck" && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o "$T/gck" .) || exit 2
for s in ${@:-$(ls "$H/seeded")}; do echo "$s"; done | xargs -P 4 -I{} sh "$H/tools/seedall.sh" one "$T" {}
rm -rf "$T"
