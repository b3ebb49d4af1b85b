#!/bin/bash
# tools/replant.sh [ID ...]: run the quick check of every planted bug against a scratch copy that has it
here="$(cd "$(dirname "$0")/.." && pwd)"
one() {
    id="$1"
    d="$(mktemp -d /tmp/replant.XXXXXX)"
    cp -a /repo "$d/repo"
    git -C "$d/repo" apply "$here/seeded/$id/patch.diff" || { echo "$id NO-APPLY"; rm -rf "$d"; return; }
    prop="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")"
    FF_REPO="$d/repo" "$here/check" "$prop" --tier quick > "$d/out" 2>&1
    rc=$?
    laws="$(sed -n "s/^VIOLATION property=$prop replay=.*$prop-\(.*\).json/\1/p" "$d/out" | tr '\n' ' ')"
    echo "$id $prop rc=$rc $laws"
    rm -rf "$d"
}
export -f one
export here
if [ $# -eq 0 ]; then set -- $(ls "$here/seeded"); fi
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
