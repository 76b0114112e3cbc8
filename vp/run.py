#!/usr/bin/env python3
"""Decides one property: python3 vp/run.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

For every unit that has harnesses of the property: mirror the current source of /repo into the
unit's build folder, compile it together with the harnesses under Kani (MIR -> GOTO -> CBMC -> SAT),
demand that every assertion (unwinding assertions included) is discharged and every reachability
witness is satisfiable, and replay each counterexample natively before it is reported.
"""
import argparse, fcntl, importlib.util, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
EVID = os.environ.get("VP_EVID", os.path.join(VERIF, "evidence"))
TC = "nightly-2026-08-21"
HARN = re.compile(
    r"((?:^[ \t]*///[^\n]*\n)*)^[ \t]*#\[cfg_attr\(kani, kani::proof\)\]\s*\n((?:^[ \t]*#\[[^\n]*\]\s*\n)*)^[ \t]*pub fn (\w+)\(\)",
    re.M)


def sh(cmd, cwd=None, env=None, timeout=None, inp=None, out=None):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": TC})
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        o, _ = p.communicate(inp, timeout=timeout)
        return p.returncode, o
    except (subprocess.TimeoutExpired, KeyboardInterrupt):
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return -9, o + "\n[timed out]\n"


class Harness:
    def __init__(self, unit, mod, doc, attrs, name):
        self.unit, self.mod, self.name, self.attrs = unit, mod, name, attrs
        self.meta = {}
        txt = [l.strip()[3:].strip() for l in doc.splitlines()]
        key = "about"
        for l in txt:
            m = re.match(r"(bound|encodes|outside|stub|finding|tier|flags|soft):\s*(.*)", l)
            if m:
                key = m.group(1)
                self.meta[key] = m.group(2)
            elif l:
                self.meta[key] = (self.meta.get(key, "") + " " + l).strip()
        m = re.search(r"kani::unwind\((\d+)\)", attrs)
        self.unwind = int(m.group(1)) if m else None
        self.prop = name.split("_")[0].upper()
        self.kf = self.meta.get("finding")
        self.tier = self.meta.get("tier", "quick")
        # a soft harness extends the range of harder ones: it may stay undecided within its time without making the check fail
        self.soft = "soft" in self.meta

    @property
    def path(self):
        return (self.mod + "::" if self.mod else "") + self.name


class Unit:
    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(VERIF, "units", name)
        self.bdir = os.path.join(BUILD, name)
        spec = importlib.util.spec_from_file_location("unit_" + name, os.path.join(self.dir, "unit.py"))
        self.py = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.py)
        self.harnesses = []
        src = os.path.join(self.dir, "harness", "src")
        for root, _, files in os.walk(src):
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, src)[:-3].replace("/", "::")
                mod = "" if rel == "lib" else rel
                mod = getattr(self.py, "MODS", {}).get(mod, mod)
                for m in HARN.finditer(open(p).read()):
                    self.harnesses.append(Harness(self, mod, m.group(1), m.group(2), m.group(3)))

    def put(self, rel, text):
        p = os.path.join(self.bdir, rel)
        self.live.add(os.path.normpath(p))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = text if isinstance(text, bytes) else text.encode()
        if os.path.exists(p) and open(p, "rb").read() == data:
            return
        open(p, "wb").write(data)

    def copy_tree(self, src, rel, edit=None, skip=None):
        for root, dirs, files in os.walk(src):
            dirs[:] = [d for d in dirs if d not in ("target", ".git")]
            for f in files:
                p = os.path.join(root, f)
                r = os.path.relpath(p, src)
                if skip and skip(r):
                    continue
                d = open(p, "rb").read()
                if edit and r.endswith((".rs", ".toml", ".proto")):
                    d = edit(r, d.decode()).encode()
                self.put(os.path.join(rel, r), d)

    def stage(self):
        self.live = set()
        os.makedirs(self.bdir, exist_ok=True)
        self.copy_tree(os.path.join(VERIF, "shims", "vk"), "vk")
        self.py.stage(self, REPO)
        hd = os.path.join(self.dir, "harness")
        self.copy_tree(hd, "harness", getattr(self.py, "edit_harness", None))
        lock = os.path.join(self.dir, "Cargo.lock")
        dst = os.path.join(self.bdir, "harness", "Cargo.lock")
        self.live.add(os.path.normpath(dst))
        if os.path.exists(lock) and not os.path.exists(dst):
            shutil.copy(lock, dst)
        rows = "".join('    ("%s", crate::%s as fn()),\n' % (h.name, h.path) for h in self.harnesses)
        self.put("harness/src/table.rs", "#[cfg(not(kani))]\npub const TABLE: &[(&str, fn())] = &[\n%s];\n" % rows)
        self.put("harness/src/bin/replay.rs",
                 "#[cfg(not(kani))]\nfn main() { vk::replay_main(harness::table::TABLE) }\n#[cfg(kani)]\nfn main() {}\n")
        # files that are gone from the sources are removed from the mirror
        for root, dirs, files in os.walk(self.bdir):
            dirs[:] = [d for d in dirs if d not in ("target-kani", "target-native")]
            for f in files:
                p = os.path.normpath(os.path.join(root, f))
                if p not in self.live and not f.endswith((".json", ".log", ".flock")):
                    os.unlink(p)

    def kani(self, hs, out, jobs, htimeout, extra, timeout):
        cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(self.bdir, "target-kani"),
               "-Z", "unstable-options", "-Z", "stubbing",
               "--no-memory-safety-checks", "--no-assertion-reach-checks",
               "--harness-timeout", "%ds" % htimeout, "--exact"]
        for h in hs:
            cmd += ["--harness", h.path]
        cmd += extra
        if out:
            if os.path.exists(out):
                os.unlink(out)
            cmd += ["--output-format", "terse", "--export-json", out]
            if jobs > 1 and len(hs) > 1:
                cmd += ["-j", str(jobs)]
        return sh(cmd, cwd=os.path.join(self.bdir, "harness"), timeout=timeout)

    def native(self, release=False):
        cmd = ["cargo", "build", "--offline", "--bin", "replay",
               "--target-dir", os.path.join(self.bdir, "target-native")]
        if release:
            cmd.append("--release")
        rc, o = sh(cmd, cwd=os.path.join(self.bdir, "harness"), timeout=600,
                   env={"RUSTFLAGS": "-Awarnings"})
        exe = os.path.join(self.bdir, "target-native", "release" if release else "debug", "replay")
        return (exe if rc == 0 else None), o


def units():
    r = []
    d = os.path.join(VERIF, "units")
    for n in sorted(os.listdir(d)):
        if os.path.exists(os.path.join(d, n, "unit.py")):
            r.append(Unit(n))
    return r


def playback(u, h, htimeout, timeout):
    """Concrete values of each failing check of one harness, replayed natively."""
    rc, o = u.kani([h], None, 1, htimeout,
                   ["-Z", "concrete-playback", "--concrete-playback=print"], timeout)
    vals = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        v = re.findall(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M)
        vals.append(v)
    return vals, o


def known_findings():
    r = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l.strip())
            if m:
                r[m.group(2)] = (m.group(1), m.group(3))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    htimeout = int(os.environ.get("VP_HTIMEOUT", 600 if tier == "quick" else 3 * 3600))
    jobs = int(os.environ.get("VP_JOBS", "8"))
    kfs = known_findings()
    ev = {"units": [], "harnesses": []}
    viol, errors, known, undecided = [], [], [], []
    tot = dict(obligations=0, discharged=0, queries=0, solver_s=0.0, symex_s=0.0, vccs=0, vccs_remaining=0,
               witnesses=0, program_steps=0)
    encoded, bounds, outside, stubs = [], [], [], []
    n_h = 0
    for u in units():
        hs = [h for h in u.harnesses if h.prop == prop and (tier == "thorough" or h.tier == "quick")]
        if a.only:
            hs = [h for h in hs if a.only in h.name]
        if not hs:
            continue
        os.makedirs(u.bdir, exist_ok=True)
        lockf = open(os.path.join(u.bdir, ".flock"), "w")
        fcntl.flock(lockf, fcntl.LOCK_EX)
        u.stage()
        out = os.path.join(u.bdir, "out-%s.json" % prop)
        extra = list(getattr(u.py, "KANI_FLAGS", []))
        res, cb, got = {}, {}, False
        for soft in (False, True):
            g = [h for h in hs if h.soft == soft]
            if not g:
                continue
            left = budget - (time.time() - t0)
            if soft and left < 60:
                break
            ht = min(htimeout, int(left - 30), 200 if tier == "quick" else 3600) if soft else htimeout
            rc, o = u.kani(g, out, jobs, ht, extra, left)
            open(os.path.join(u.bdir, "kani-%s.log" % prop), "a" if got else "w").write(o)
            if not os.path.exists(out):
                if soft and got:
                    break
                print(o[-6000:])
                break
            got = True
            d = json.load(open(out))
            res.update({r["harness_id"]: r for r in d["verification_results"]["results"]})
            cb.update({c["harness_id"]: c for c in d["cbmc"]})
            if not soft and any(r["status"] != "Success" for r in res.values()):
                hs = [h for h in hs if not h.soft]  # already broken: do not spend time on the wider ranges
                break
        if not got:
            errors.append("unit %s: no verdict (compilation of the mirrored source failed or time ran out)" % u.name)
            continue
        exe = None
        todo = []
        for h in hs:
            n_h += 1
            r = res.get(h.path)
            if (r is None or not r.get("checks")) and h.soft:
                undecided.append("%s (%s)" % (h.name, h.meta.get("bound", "")))
                continue
            if r is None:
                errors.append("%s: no result" % h.name)
                continue
            st = (cb.get(h.path) or {}).get("cbmc_stats") or {}
            checks = r.get("checks") or []
            norm = [c for c in checks if c.get("property_class", c.get("category")) != "cover" and c["status"] not in ("Satisfied", "Unsatisfiable", "SATISFIED", "UNSATISFIABLE")]
            cov = [c for c in checks if c not in norm]
            S = lambda c: c["status"].upper()
            ok = [c for c in norm if S(c) in ("SUCCESS", "UNREACHABLE")]
            bad = [c for c in norm if S(c) not in ("SUCCESS", "UNREACHABLE")]
            sat = [c for c in cov if S(c) == "SATISFIED"]
            tot["obligations"] += len(norm)
            tot["discharged"] += len(ok)
            tot["witnesses"] += len(sat)
            tot["queries"] += 1
            tot["vccs"] += int(st.get("vccs_generated") or 0)
            tot["vccs_remaining"] += int(st.get("vccs_remaining") or 0)
            tot["program_steps"] += int(st.get("size_program_expression") or 0)
            tot["solver_s"] += float(st.get("runtime_solver_s") or 0)
            tot["symex_s"] += float(st.get("runtime_symex_s") or 0)
            ev["harnesses"].append(dict(
                unit=u.name, harness=h.path, status=r["status"], about=h.meta.get("about", ""), bound=h.meta.get("bound", ""), unwind=h.unwind,
                checks=len(norm), discharged=len(ok), witnesses="%d/%d" % (len(sat), len(cov)),
                vccs=st.get("vccs_generated"), steps=st.get("size_program_expression"),
                solver_s=st.get("runtime_solver_s"), symex_s=st.get("runtime_symex_s"), wall_ms=r.get("duration_ms")))
            for k, acc in (("encodes", encoded), ("bound", bounds), ("outside", outside), ("stub", stubs)):
                if h.meta.get(k) and h.meta[k] not in acc:
                    acc.append(h.meta[k])
            if r["status"] == "Success" and not bad:
                if len(sat) != len(cov) or not cov:
                    errors.append("%s: %d of %d reachability witnesses satisfiable (vacuous or unreachable)" % (h.name, len(sat), len(cov)))
                elif h.kf:
                    # the finding no longer fails: stay quiet (it was repaired)
                    print("note: finding %s does not fail any more" % h.kf)
                continue
            if not checks:
                errors.append("%s: no verdict (%s)" % (h.name, r["status"]))
                continue
            todo.append((h, bad))
        if todo:
            exe, bo = u.native()
            if exe is None:
                print(bo[-4000:])
                errors.append("unit %s: native replay build failed" % u.name)
                todo = []
        def one(t):
            h, bad = t
            left = budget + 40 - (time.time() - t0)
            vals, o = playback(u, h, htimeout, max(60, left))
            hit = None
            for v in vals:
                rc, ro = sh([exe, h.name], inp="\n".join(v) + "\n", timeout=60)
                if rc == 1 or rc < 0:
                    hit = (v, ro)
                    break
            return h, bad, vals, hit, o
        # the first playback alone (it may rebuild), the rest side by side
        results = []
        if todo:
            results.append(one(todo[0]))
            with ThreadPoolExecutor(4) as ex:
                results += list(ex.map(one, todo[1:]))
        for h, bad, vals, hit, o in results:
            what = "; ".join(sorted({"%s: %s" % (c.get("property_class", c.get("category", "?")), c.get("description", "")) for c in bad if c["status"].upper() == "FAILURE"}))[:400]
            if hit is None:
                open(os.path.join(u.bdir, "playback-%s.log" % h.name), "w").write(o)
                errors.append("%s: solver reports a failure that does not replay natively (%d assignments): %s" % (h.name, len(vals), what))
                continue
            rp = os.path.join(EVID, "replay-%s.txt" % h.name)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                f.write("# property %s, harness %s (unit %s)\n# failing check: %s\n# native: %s\n" % (prop, h.path, u.name, what, hit[1].strip().replace("\n", " | ")))
                f.write("# replay: %s %s < (the lines below)\n" % (exe, h.name))
                f.write("\n".join(hit[0]) + "\n")
            if h.kf and h.kf in kfs and kfs[h.kf][0] == prop:
                known.append((h.kf, kfs[h.kf][1]))
            else:
                viol.append((h, rp, what, hit[1]))
        fcntl.flock(lockf, fcntl.LOCK_UN)
        ev["units"].append(u.name)
    if n_h == 0 and not errors:
        errors.append("no harness for %s" % prop)
    for k, t in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for h, rp, what, ro in viol:
        print("%s: %s\n%s" % (h.name, what, ro.strip()[-1000:]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for e in undecided:
        print("UNDECIDED (wider range, not claimed by this run) %s" % e)
    for e in errors:
        print("ERROR %s" % e)
    cov = dict(
        explanation="Bounded symbolic execution of the compiler's MIR of the current /repo source (Kani -> CBMC -> SAT): every listed "
                    "harness was run with all of its inputs symbolic within the stated bounds and unwinding assertions on; the SAT "
                    "solver discharged every assertion for all values, or produced an assignment that was replayed natively.",
        functions_encoded=encoded, bounds=bounds, outside_the_claim=outside, stubs_and_assumptions=stubs,
        obligations=tot["obligations"], discharged=tot["discharged"], queries=tot["queries"],
        verification_conditions=tot["vccs"], verification_conditions_after_simplification=tot["vccs_remaining"],
        program_expression_steps=tot["program_steps"],
        solver_s=round(tot["solver_s"], 3), symex_s=round(tot["symex_s"], 3),
        reachability_witnesses_satisfied=tot["witnesses"], harnesses=ev["harnesses"],
        undecided_wider_ranges=undecided, known_findings_reproduced=[k for k, _ in known], errors=errors,
        checker_cmd="cargo kani (CBMC 6.11.0, CaDiCaL) on %s" % ", ".join(ev["units"]))
    os.makedirs(EVID, exist_ok=True)
    if not a.only:
        json.dump(dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick",
                       seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
                       assumptions=sorted(set(stubs)), wall_s=round(time.time() - t0, 1), violations=len(viol)),
                  open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for h in ev["harnesses"]:
        print("  %-44s %-8s checks %s/%s witnesses %s  %.1fs" % (h["harness"], h["status"], h["discharged"], h["checks"], h["witnesses"], (h["wall_ms"] or 0) / 1000))
    print("%s: %d harnesses, %d/%d obligations, %.1f s" % (prop, n_h, tot["discharged"], tot["obligations"], time.time() - t0))
    if viol:
        sys.exit(1)
    sys.exit(2 if errors else 0)


main()
