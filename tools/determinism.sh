#!/bin/bash
# bash tools/determinism.sh [runs] [props...]: the same runs in one process, in a
# second one, and in processes that start elsewhere must have the same
# signatures (choices, history, schedule, result).
runs="${1:-400}"; shift
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
props=("$@"); [ ${#props[@]} = 0 ] && read -ra props < "$here/tools/claimed.txt"
d="$(mktemp -d /tmp/det.XXXXXX)"
trap 'rm -rf "$d"' EXIT
cp -a "$here/sim" "$here/check.sh" "$here/known_findings.txt" "$d/"
sed -i "s#^trap .*##; s#^\"\$out/simcheck\" -prop.*#ln -sfn \"\$out\" \"\$here/build/last\"; exit 0#" "$d/check.sh"
bash "$d/check.sh" build >/dev/null
export SIM_KNOWN="$d/known_findings.txt"
cd "$d/sim" || exit 1
for p in "${props[@]}"; do
  s() { "$d/build/last/simcheck" -prop "$p" -seed 1 -dump -worker "$1" 2>&1 | grep -v '^{'; }
  s "0-$runs" > "$d/a"
  s "0-$runs" > "$d/b"
  { for ((i = 0; i < runs; i += 50)); do s "$i-$((i + 50))"; done; } > "$d/c"
  if cmp -s "$d/a" "$d/b" && cmp -s "$d/a" "$d/c"; then
    echo "$p same ($(wc -l < "$d/a") lines, $(sort -u "$d/a" | wc -l) distinct)"
  else
    echo "$p DIFFERENT"; diff "$d/a" "$d/b" | head -3; diff "$d/a" "$d/c" | head -3
  fi
done
