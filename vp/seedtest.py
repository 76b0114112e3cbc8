#!/usr/bin/env python3
"""seedtest.py [SUBSTR...]: runs the check of each planted bug on a scratch copy of /repo with the bug applied."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B = "/tmp/m/repo", "/tmp/m/build"
os.makedirs("/tmp/m", exist_ok=True)
os.system("rm -rf /tmp/m/repo && mkdir /tmp/m/repo && cd /repo && git archive HEAD | tar x -C /tmp/m/repo && cd /tmp/m/repo && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")
for n in sorted(os.listdir(V + "/seeded")):
    if sys.argv[1:] and not any(a in n for a in sys.argv[1:]):
        continue
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, n)], cwd=W, check=True)
    t = time.time()
    p = subprocess.run(["python3", V + "/vp/run.py", m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VP_REPO=W, VP_BUILD=B, VP_EVID="/tmp/m/evidence"))
    v = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))]
    print("%-34s %s rc=%d %.0fs %s" % (n, m["property"], p.returncode, time.time() - t, "CAUGHT" if p.returncode == 1 else "MISSED"))
    for l in v if p.returncode != 1 else v[:1]:
        print("     ", l[:200])
    sys.stdout.flush()
    subprocess.run("git checkout -q -- . && git clean -qfd", shell=True, cwd=W, check=True)
