#!/bin/bash
# Compiles demo.rs (beside this script) against the pmcp library built from /repo and runs it: exit 0 iff the behaviour holds.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "${DEMO_REPO:-/repo}" || exit 1
[ -n "$DEMO_REPO" ] && export CARGO_TARGET_DIR="$DEMO_REPO/target"
W=$(mktemp -d)
T=$(basename "$(ls -S tests/*.rs | tail -1)" .rs)
cargo build -p pmcp --all-features --lib --test "$T" --offline --message-format=json > "$W/j" 2> "$W/err" || { tail -20 "$W/err"; rm -r "$W"; exit 1; }
python3 - "$W/j" > "$W/args" <<'P'
import json, sys
a = {}
for l in open(sys.argv[1]):
    if l.startswith("{"):
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith((".rlib", ".so")): a[d["target"]["name"].replace("-", "_")] = f
for n in ("pmcp", "tokio", "serde_json", "serde", "futures", "async_trait", "uuid", "chrono", "url", "reqwest", "axum", "base64", "sha2", "tokio_tungstenite"):
    if n in a: print("--extern\n%s=%s" % (n, a[n]))
P
mapfile -t EXT < "$W/args"
rustc --edition 2021 --cap-lints allow -Cdebug-assertions=on -L "dependency=$CARGO_TARGET_DIR/debug/deps" -o "$W/demo" "$D/demo.rs" "${EXT[@]}" || { rm -r "$W"; exit 1; }
cd "$W" && timeout 200 "$W/demo"
rc=$?
cd / && rm -r "$W"
exit $rc
