#!/bin/bash
# bash tools/trymut.sh <patch or -> <props...>: runs checks against a scratch
# copy of /repo with a patch applied ("-": none). /repo is not touched.
# EXTRA holds simcheck flags.
patch="$1"; shift
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
d="$(mktemp -d /tmp/mut.XXXXXX)"
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
mkdir "$d/verif"
cp -a "$here/sim" "$here/check.sh" "$here/known_findings.txt" "$d/verif/"
# one build for all the properties
sed -i "s#/repo#$d/repo#g; s#^trap .*##; s#^\"\$out/simcheck\" -prop.*#ln -sfn \"\$out\" \"\$here/build/last\"; exit 0#" "$d/verif/check.sh"
sed -i "s#/repo#$d/repo#g" "$d/verif/sim/go.mod"
if [ "$patch" != - ]; then git -C "$d/repo" apply "$patch" || exit 9; fi
bash "$d/verif/check.sh" build 2>&1 | tail -12
[ -x "$d/verif/build/last/simcheck" ] || { echo "does not build"; exit 1; }
cd "$d/verif/sim" || exit 1
export SIM_KNOWN="$d/verif/known_findings.txt"
for p in "$@"; do
  "$d/verif/build/last/simcheck" -prop "$p" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
    -evidence "$d/verif/evidence/$p.json" -out "$d/verif/out" ${EXTRA:-} 2>&1 | tail -12
  for f in "$d"/verif/out/$p-*.json; do [ -f "$f" ] && python3 -c "
import json,sys
d=json.load(open('$f'));print('   ',d['violation_class'],'|',d['violation'][:400]);print('    choices',d['choices_before_minimising'],'->',len(d['choices']),d['kind'])
for h in d['history'][-6:]: print('      ',h[:200])"; done
done
exit 0
