"""mk.py TABLE.py [ID...] : write /verif/seeded/<ID> and try it."""
import importlib.util, json, os, shutil, subprocess, sys
spec = importlib.util.spec_from_file_location("t", sys.argv[1]); t = importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
only = sys.argv[2:]
S = "/verif/seeded"
W = "/tmp/seed/w"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
for b in t.BUGS:
    if only and b["id"] not in only: continue
    d = f"{S}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {W}; git -C /repo worktree prune; mkdir -p {W}; git -C /repo archive HEAD | tar x -C {W}; cd {W} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x")
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    open(f"{d}/meta.json", "w").write(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), indent=1) + "\n")
    kind = b.get("kind", "rust")
    if kind == "rust":
        for f in ("puckdemo.py", "Cargo.lock"): shutil.copy(f"/tmp/seed/common/{f}", d)
        if b.get("html"): shutil.copy("/tmp/seed/common/malvolio.tgz", d)
        if b.get("live"): shutil.copytree("/tmp/seed/common/live", d, dirs_exist_ok=True)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# %s\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n' % b["needs"].replace("\n", " "))
        open(f"{d}/demo.py", "w").write(("from livedemo import *\n\n" if b.get("live") else "from puckdemo import *\n\n") + b["demo"].strip() + "\n")
        if b.get("main"): open(f"{d}/main.rs", "w").write(b["main"].strip() + "\n")
    else:
        for f, text in b["files"].items(): open(f"{d}/{f}", "w").write(text.strip() + "\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", text=True, capture_output=True)
    c = subprocess.run(["bash", f"{d}/demo.sh"], cwd=W, text=True, capture_output=True)
    print(b["id"], b["property"], "clean", a.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "", "| patched", c.returncode, (c.stdout + c.stderr)[-200:].strip(), flush=True)
