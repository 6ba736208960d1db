#!/bin/bash
# check.sh PROP | replay FILE | setup : builds the harness against /repo's
# working tree and runs one check. Nothing outside a scratch folder, the Go
# build cache and /verif/evidence is written.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR="$PWD"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
S=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
cp harness/go.mod "$S/go.mod"; cp harness/go.sum "$S/go.sum"
build() { # name tags [flags]
  (cd harness && go build -modfile "$S/go.mod" -tags "$2" ${3:+$3} ${4:+$4} -o "$S/$1" .) >"$S/$1.log" 2>&1
}
# R03 also runs under the race detector; without it (no runtime for this
# platform) the check goes on with the ordinary build.
race() { if build harness-race "" -race -gcflags=all=-d=checkptr=0; then export VERIF_RACE="$S/harness-race"; fi; }
# A 32-bit build: other integers, and the portable code instead of assembly.
# Left out where the machine cannot run it.
small() { if GOARCH=386 CGO_ENABLED=0 build harness-386 "" && "$S/harness-386" list >/dev/null 2>&1; then export VERIF_386="$S/harness-386"; fi; }
if ! build harness "" ; then
  cat "$S/harness.log" >&2; echo "harness does not build against /repo" >&2; exit 2
fi
case "$1" in
  setup) small; build harness-generic generic; exit $? ;;
  replay) if build harness-generic generic; then export VERIF_GENERIC="$S/harness-generic"; fi
     if grep -q '"build": "race"' "$2"; then race; fi
     if grep -q '"build": "386"' "$2"; then small; fi
     "$S/harness" replay "$2"; exit $? ;;
  B0*) build harness-generic generic || { cat "$S/harness-generic.log" >&2; exit 2; }
     export VERIF_GENERIC="$S/harness-generic" ;;
  R03) race ;;
esac
case "$VERIF_TIER $1" in
  *\ H0*|*\ E01|*\ A01|*\ G05|*\ M02|thorough\ *) small ;;
esac
"$S/harness" check "$1"
