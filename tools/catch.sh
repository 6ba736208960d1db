#!/bin/bash
# catch.sh ID...: apply each planted bug to a scratch copy of /repo, run its
# property's quick check against that copy, and report whether it is seen.
# (CHECK=X01 runs another property's check.)
cd "$(dirname "$0")/.." || exit 2
S=$(mktemp -d /tmp/verif-catch-XXXXXX); trap 'rm -rf -- "$S"' EXIT
mkdir "$S/repo" "$S/v"; git -C /repo archive HEAD | tar x -C "$S/repo"; git -C "$S/repo" init -q
cp -a harness "$S/v/harness"; cp check.sh env.sh known-findings.txt "$S/v/"
sed -i "s#=> /repo#=> $S/repo#" "$S/v/harness/go.mod"
for id in "$@"; do
  P=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C "$S/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  a=$(date +%s); out=$(cd "$S/v"; VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh "$P" quick 2>&1); rc=$?
  git -C "$S/repo" apply -R "$PWD/seeded/$id/patch.diff" || exit 2
  if [ $rc = 1 ] && grep -q "VIOLATION property=$P" <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $P $r $(( $(date +%s)-a ))s $(grep -m1 -B2 VIOLATION <<<"$out" | cut -c1-200 | tr '\n' ' ')"
done
