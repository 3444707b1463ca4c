#!/bin/bash
# seed.sh ID [CHECK...]: applies seeded/ID/patch.diff to a scratch copy of /repo, builds and tests it, runs the
# demonstration with and without it, and the given checks (default: the one of its property) against it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
D=$V/seeded/$id
S=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "${S:?}"' EXIT
cp -a /repo "$S/repo"
cd "$S/repo" || exit 2
make -s -C src clean >/dev/null 2>&1; make -s -C src >/dev/null 2>&1
bash "$D/demo.sh" > "$S/demo0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "$id: does not apply"; exit 1; }
make -s -C src clean >/dev/null 2>&1; make -s -C src > "$S/make" 2>&1 || { echo "$id: does not build"; cat "$S/make"; exit 1; }
bad=0
(cd test && for t in *.asm; do make -s -B CC=gcc ${t%.asm}.out < /dev/null >> "$S/test" 2>&1 || { echo "test $t fails"; exit 1; }; done) || bad=1
bash "$D/demo.sh" > "$S/demo1" 2>&1; r1=$?
echo "$id: demo $r0 -> $r1, tests bad=$bad"
export CRASM_SRC=$S/repo/src SIM_BUILD=$S/build SIM_VERIF=$S
mkdir -p $S/out $S/evidence; ln -s $V/corpus $V/known $V/known-findings $S/
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
"$V/build.sh" > "$S/log" 2>&1 || { echo "simulator does not build"; tail -5 "$S/log"; exit 1; }
for c in "$@"; do
  b=simcheck; [ $c = C11 ] && b=simsan
  s=$(date +%s)
  (cd $V; VERIF_TIER=quick timeout 900 $S/build/$b --check $c --tier quick --seed 1 > "$S/c" 2>&1); r=$?
  echo "   $c: rc $r $(($(date +%s)-s)) s  $(grep '^minimised\|^case' "$S/c" | tail -1 | cut -c1-150)"
done
