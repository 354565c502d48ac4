#!/bin/bash
# revertfixes.sh [COMMIT:PROP...]: each recorded fix undone in a copy of /repo, its check must report it.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(sed -n 's/^fixed: property=\(C..\) \([0-9a-f]*\) .*/\2:\1/p' KNOWN_FINDINGS.txt)
for s; do
	c=${s%:*} p=${s#*:}
	W=$(mktemp -d /tmp/revfix.XXXXXX)
	cp -a /repo "$W/repo"
	if ! (cd "$W/repo" && git diff "$c" "$c~" | git apply --3way - 2>/dev/null || git revert -n "$c" >/dev/null 2>&1); then
		echo "$s cannot be reverted automatically"
		rm -rf "$W"
		continue
	fi
	out=$(VERIF_REPO="$W/repo" ./check.sh "$p" "${TIER:-quick}" 2>&1)
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then
		echo "$s caught: $(grep -B1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-160)"
	else
		echo "$s MISSED (rc $rc)"; tail -5 <<<"$out"
	fi
	rm -rf "$W"
done
