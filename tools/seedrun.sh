#!/bin/bash
# seedrun.sh ID [CHECK...]: in a scratch pair of copies (/tmp/pw/{repo,verif}), applies the planted bug and runs the
# checks (default: its own property). ID may also be "none" (unchanged tree) or a path to a patch.
# PW=<dir> names another pair, so that several can run at once.
id=$1; shift
pw=${PW:-/tmp/pw}
src=${SRC:-/verif}
mkdir -p "$pw/repo" "$pw/verif"
[ -d "$pw/repo/.git" ] || cp -a /repo/. "$pw/repo/"
git -C "$pw/repo" checkout -q -- . && git -C "$pw/repo" fetch -q /repo HEAD && git -C "$pw/repo" reset -q --hard FETCH_HEAD
(cd "$src" && find mc/src mc/Cargo.* desktop web tools/needs.txt shim check.sh KNOWN_FINDINGS.md -type f 2>/dev/null) | while read -r f; do
    mkdir -p "$pw/verif/$(dirname "$f")"
    sed "s#/repo\b#$pw/repo#g" "$src/$f" > "$pw/.t"
    cmp -s "$pw/.t" "$pw/verif/$f" || cp "$pw/.t" "$pw/verif/$f"
done
chmod +x "$pw/verif/check.sh"
if [ "$id" != none ]; then
    if [ -f "$id" ]; then p=$id; else
        p=/verif/seeded/$id/patch.diff
        [ $# = 0 ] && set -- "$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")"
    fi
    git -C "$pw/repo" apply "$p" || exit 2
fi
for c in "$@"; do
    t=$(date +%s); out=$(bash "$pw/verif/check.sh" "$c" "${TIER:-quick}" 2>&1); rc=$?
    echo "$id $c rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -m1 VIOLATION)"
    [ "$rc" = 0 -o "$rc" = 1 ] || echo "$out" | tail -5
    [ -n "$SHOW" ] && echo "$out" | tail -${SHOW}
done
git -C "$pw/repo" checkout -q -- .
