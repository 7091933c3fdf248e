#!/bin/bash
# determinism.sh [RUNS [PID...]] : every check explores the same seeds twice, with
# different numbers of worker processes, different hash seeds and different numerical
# thread counts; the digests of all histories have to be identical.
cd "$(dirname "$0")/.." || exit 2
runs=${1:-120}; shift
pids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
rc=0
for p in $pids; do
  PYTHONHASHSEED=1 VERIF_WORKERS=2 OMP_NUM_THREADS=1 /opt/venv/bin/python check.py "$p" --runs "$runs" --digests "$tmp/$p.a" >"$tmp/out.a" 2>&1
  PYTHONHASHSEED=77 VERIF_WORKERS=7 OMP_NUM_THREADS=3 /opt/venv/bin/python check.py "$p" --runs "$runs" --digests "$tmp/$p.b" >"$tmp/out.b" 2>&1
  sort "$tmp/$p.a" >"$tmp/a"; sort "$tmp/$p.b" >"$tmp/b"
  if [ -s "$tmp/a" ] && cmp -s "$tmp/a" "$tmp/b"; then echo "$p same ($(wc -l <"$tmp/a") histories)"
  else echo "$p DIFFERENT: $(diff "$tmp/a" "$tmp/b" | head -4 | tr '\n' ' ')"; rc=1; fi
done
exit $rc
