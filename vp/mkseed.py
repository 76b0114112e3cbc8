#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes and confirms planted bugs. SPEC defines SEEDS = [dict(id, property, needs, breaks, kind, edits=[(file, old, new)], main)]."""
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
spec = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
def run(*c, cwd=None, **k):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in spec:
    if only and s["id"] not in only:
        continue
    out = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(os.path.join(V, "vp/demo", s["kind"]), out)
    for n, t in s.get("files", {}).items():
        p = os.path.join(out, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    run("bash", "-c", "cd %s && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (R, w, w))
    r0 = run("bash", os.path.join(out, "demo.sh"), cwd=w)
    for f, a, b in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = run("git", "diff", cwd=w).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    r1 = run("bash", os.path.join(out, "demo.sh"), cwd=w)
    ok = r0.returncode == 0 and r1.returncode not in (0, 98, 99)
    print(s["id"], "clean rc", r0.returncode, "patched rc", r1.returncode, "OK" if ok else "BAD")
    if not ok:
        print(r0.stdout[-1500:], "----", r1.stdout[-2500:])
    sys.stdout.flush()
    shutil.rmtree(w)
