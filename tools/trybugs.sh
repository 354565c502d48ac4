#!/bin/bash
# trybugs.sh [ID...]: runs each planted bug's check (quick) with the bug applied to a copy of /repo.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for s; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
	W=$(mktemp -d /tmp/trybug.XXXXXX)
	cp -a /repo "$W/repo"
	git -C "$W/repo" apply "$PWD/seeded/$s/patch.diff" || echo "$s DOES NOT APPLY"
	out=$(VERIF_REPO="$W/repo" ./check.sh "$p" "${TIER:-quick}" 2>&1)
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then
		echo "$s caught by $p: $(grep -m1 -o "replay=[^ ]*" <<<"$out" | sed "s,.*/,,;s,.json,,") $(grep -B1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-160)"
	else
		echo "$s MISSED by $p (rc $rc)"
		[ -n "${V:-}" ] && tail -20 <<<"$out"
	fi
	rm -rf "$W"
done
