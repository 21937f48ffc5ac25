#!/bin/bash
# plant.sh validate ID...  : builds, tests and demonstrates seeded/ID in a scratch copy of /repo
# plant.sh check ID [tier] : runs the property's check with the change applied to /repo, then undoes it
# Scratch copy: $PLANT_DIR (default /tmp/plant/repo); remove it when done.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
W="${PLANT_DIR:-/tmp/plant/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
mode="$1"; shift
validate() {
    local id="$1" d="$here/seeded/$1"
    [ -d "$W" ] || { mkdir -p "$(dirname "$W")"; cp -a /repo "$W"; }
    git -C "$W" checkout -q -- . && git -C "$W" pull -q /repo HEAD 2>/dev/null
    git -C "$W" apply --check "$d/patch.diff" || { echo "$id: does not apply"; return 1; }
    # Lines removed must be lines of the original repository.
    python3 - "$d/patch.diff" "$W" <<'P' || { echo "$id: changes lines of our own"; return 1; }
import re,subprocess,sys
patch,w=sys.argv[1:]
base='7e00903'
f=None; ok=True; n=0; anyold=False
for l in open(patch):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'):
        n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C',w,'blame','-s','-l','-L',f'{n},{n}',f],capture_output=True,text=True).stdout
        if base in b[:45]: anyold=True
        else: print('own line:',f,n,l.strip())
        n+=1
    elif l.startswith(' '): n+=1
sys.exit(0 if anyold else 1)
P
    ( cd "$W" && bash "$d/demo.sh" >/tmp/plant/demo.clean.log 2>&1 ); local clean=$?
    git -C "$W" apply "$d/patch.diff"
    ( cd "$W" && rm -rf target/debug/.fingerprint/trane-* && cargo test --workspace --offline --no-fail-fast >/tmp/plant/test.log 2>&1 )
    grep -E '^error|^warning: unused' /tmp/plant/test.log | head -5
    grep -E '^test .* FAILED' /tmp/plant/test.log | head
    local nf; nf=$(grep -cE '^test .* FAILED' /tmp/plant/test.log)
    local np; np=$(grep -cE '^test .* ok$' /tmp/plant/test.log)
    ( cd "$W" && bash "$d/demo.sh" >/tmp/plant/demo.bug.log 2>&1 ); local bug=$?
    git -C "$W" checkout -q -- .
    echo "$id: passed=$np failed=$nf demo clean=$clean bug=$bug : $(tail -1 /tmp/plant/demo.bug.log | cut -c1-150)"
}
check() {
    local id="$1" tier="${2:-quick}" d="$here/seeded/$1" p
    p="$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")"
    git -C /repo diff --quiet || { echo "/repo is not clean"; return 1; }
    git -C /repo apply "$d/patch.diff" || return 1
    "$here/run.sh" "$p" "$tier" >/tmp/plant/check.$id.log 2>&1; local rc=$?
    git -C /repo checkout -q -- .
    echo "$id ($p): rc=$rc $(grep -E '^(VIOLATION|OK|HARNESS)' /tmp/plant/check.$id.log | head -2 | cut -c1-160 | tr '\n' '|')"
}
case "$mode" in
validate) for i in "$@"; do validate "$i"; done ;;
check) check "$@" ;;
checkall) for i in "$@"; do check "$i"; done ;;
esac
