# build_demo.sh PKG SRC OUT : compile SRC against the freshly built libraries of PKG
set -e
SRC=$(realpath "$2"); OUT=$3
. /opt/vp/lib/env.sh
ARGS=$(cd /opt/vp/ws && cargo build --offline -p "$1" --message-format=json 2>/dev/null </dev/null | python3 -c '
import json,sys
seen={}
for l in sys.stdin:
    m=json.loads(l)
    if m.get("reason")!="compiler-artifact" or "proc-macro" in m["target"]["kind"] or "custom-build" in m["target"]["kind"]: continue
    for f in m["filenames"]:
        if f.endswith(".rlib"): seen.setdefault(m["target"]["name"].replace("-","_"),[]).append(f)
print(" ".join("--extern %s=%s"%(n,f[0]) for n,f in seen.items() if len(f)==1))')
rustc --edition 2021 -A warnings -C debuginfo=0 $ARGS -L dependency=/opt/vp/ws/target/debug/deps "$SRC" -o "$OUT" 2>&1 | grep -A7 '^error' | head -30 || true
test -x "$OUT"
