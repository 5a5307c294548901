"""mkseed.py SPEC.py: SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, PKG, RS (demo source)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def seed(id, prop, edits, needs, breaks, pkg, rs, env=""):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = "/tmp/mkseed"
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
    for f, old, new in edits:
        s = open(f"{t}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(f"{t}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    open(f"{d}/demo.rs", "w").write(rs)
    shutil.copy(f"{V}/tools/build_demo.sh", d)
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bash "$d/build_demo.sh" {pkg} "$d/demo.rs" "$t/demo" || exit 2
cd "$t" && {env} ./demo
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    print(id, len(diff.splitlines()))

if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
