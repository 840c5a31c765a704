#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'OLD\n=====\nNEW': writes seeded/ID/patch.diff by editing a copy of the file. Repeat blocks with a line of #####."""
import sys, os, subprocess, tempfile, shutil
sid = sys.argv[1]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ""
files = {}
for block in sys.stdin.read().split("\n#####\n"):
    head, rest = block.split("\n", 1)
    path = head.strip()
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    if path not in files:
        files[path] = open("/repo/" + path).read()
    assert files[path].count(old) == 1, (path, files[path].count(old), old)
    files[path] = files[path].replace(old, new)
for path, s in files.items():
    with tempfile.NamedTemporaryFile("w", delete=False) as t:
        t.write(s)
    d = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, "/repo/" + path, t.name], capture_output=True, text=True).stdout
    os.unlink(t.name)
    assert d
    out += f"diff --git a/{path} b/{path}\n" + d
os.makedirs(f"{root}/seeded/{sid}", exist_ok=True)
open(f"{root}/seeded/{sid}/patch.diff", "w").write(out)
subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{root}/seeded/{sid}/patch.diff"], check=True)
print(sid, "ok")
