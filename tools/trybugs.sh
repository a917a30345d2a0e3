#!/bin/bash
# trybugs.sh [ids...]: runs the check of each planted bug's property against a scratch copy of
# /repo with the bug applied, and reports whether it is caught. ALSO="C01 C02" overrides which
# checks are run, SEED the seed.
V="$(cd "$(dirname "$0")/.." && pwd)"; cd "$V" || exit 2
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$W"
git -C "$W/repo" init -q && git -C "$W/repo" add -A && git -C "$W/repo" -c user.email=a@b -c user.name=a commit -qm x
mkdir "$W/verif"; cp -r check.sh known_findings.json properties.jsonl MANIFEST.json harness "$W/verif"; mkdir "$W/verif/evidence"
sed -i "s|=> /repo|=> $W/repo|" "$W/verif/harness/go.mod"
grep -q "$W" "$W/verif/harness/go.mod" || { echo "no replace in go.mod"; exit 2; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$W/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in ${ALSO:-$prop}; do
    s=$(date +%s)
    out=$(VERIF_SEED=${SEED:-1} timeout 900 "$W/verif/check.sh" "$p" quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then r=caught; else r="MISSED(rc=$rc)"; fi
    echo "$id $p $r $(( $(date +%s) - s ))s: $(grep -v '^ \|^{\|^}\|^$\|KNOWN\|^VIOL' <<<"$out" | head -1 | cut -c1-140)"
  done
  git -C "$W/repo" checkout -q -- .
done
