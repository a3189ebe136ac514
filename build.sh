#!/bin/bash
# Builds the monitors from the working tree of /repo: build.sh KIND OUTDIR
# KIND: plain (public operations), race (the same with the race detector),
# fake (with the simulated clock of the runtime, build tag faketime),
# internal (inside the module under test, through an overlay).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
kind=$1 out=$2
mkdir -p "$out"
case $kind in
plain) cd "$here/harness" && go build -tags surroundings -o "$out/semmon" . ;;
fake) cd "$here/harness" && go build -tags faketime -o "$out/semmon-fake" . ;;
race) cd "$here/harness" && go build -race -o "$out/semmon-race" . ;;
internal)
	o=$out/overlay
	mkdir -p "$o/store"
	{
		echo '{"Replace": {'
		sep=
		for f in "$here"/harness/*.go "$here"/harness/store/*.go; do
			rel=${f#"$here"/harness/}
			sed 's#"verifharness/store"#"github.com/mem-memov/semnet/internal/zzverif/store"#' "$f" >"$o/$rel" || exit 2
			printf '%s"%s": "%s"\n' "$sep" "$SEMNET/internal/zzverif/$rel" "$o/$rel"
			sep=,
		done
		echo '}}'
	} >"$o/overlay.json"
	cd "$SEMNET" && GOFLAGS=-mod=readonly go build -overlay "$o/overlay.json" -tags semnetinternal -o "$out/semmon-int" ./internal/zzverif
	;;
esac
