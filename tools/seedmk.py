"""Make a seeded bug folder: python3 tools/seedmk.py <definition.py>.
The definition sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO_C and/or DEMO_PY.
The patch is made in a scratch worktree of /repo, never in /repo itself."""
import json, os, subprocess, sys, tempfile, shutil

C_SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
gcc -w -g -I"$PWD/liboptv/include" -I"$PWD/liboptv/src" "$d/demo.c" "$PWD"/liboptv/src/*.c -lm -o "$w/demo" || exit 3
cd "$w" && timeout 120 ./demo
"""
PY_SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
export PYTHONPATH="$PWD/_build/mirror/py_bind" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
cp "$d/demo.py" "$w/" && cd "$w" && timeout 120 /opt/optv-venv/bin/python demo.py
"""
g = {}
exec(open(sys.argv[1]).read(), g)
out = os.environ.get("SEED_OUT", "/verif/seeded") + f"/{g['ID']}"
os.makedirs(out, exist_ok=True)
wt = tempfile.mkdtemp(prefix="/tmp/seedwt")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
try:
    for f, old, new in g["EDITS"]:
        p = f"{wt}/{f}"
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", wt, "diff"])
    open(f"{out}/patch.diff", "wb").write(d)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
if "DEMO_C" in g:
    open(f"{out}/demo.c", "w").write(g["DEMO_C"])
    sh = C_SH
else:
    open(f"{out}/demo.py", "w").write(g["DEMO_PY"])
    sh = PY_SH
open(f"{out}/demo.sh", "w").write(sh)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
print("made", out)
