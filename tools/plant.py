"""Planted bugs.
  plant.py make SPEC.py      writes seeded/<id>/ for each entry of BUGS in SPEC.py
  plant.py validate [ID..]   in a scratch copy of /repo: applies, builds, passes the tests, the demo tells it apart
  plant.py catch [-a] [ID..] applies it to /repo, runs its property's check (-a: all checks), undoes it
"""
import importlib.util, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
BASE = "c255454"

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr

def make(spec):
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for b in m.BUGS:
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        w = "/tmp/plant-make"
        shutil.rmtree(w, ignore_errors=True)
        sh(f"mkdir -p {w} && git -C /repo archive HEAD | tar -x -C {w}")
        sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=w)
        for file, old, new in b["edits"]:
            p = os.path.join(w, file)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(b["id"], "edit matches", n, "times in", file, ":", old[:80])
                sys.exit(1)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run("git diff", cwd=w, shell=True, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.rmtree(w)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip("\n"))
        shutil.copy(os.path.join(HERE, "tools/demo_kit.rs"), os.path.join(d, "kit.rs"))
        shutil.copy(os.path.join(HERE, "tools/demo_miri.sh" if b.get("miri") else "tools/demo.sh"), os.path.join(d, "demo.sh"))
        shutil.copy(os.path.join(HERE, "tools/demo.lock"), os.path.join(d, "demo.lock"))
        print("made", b["id"])

def ids(args):
    return args or sorted(x for x in os.listdir(SEED) if os.path.exists(os.path.join(SEED, x, "patch.diff")))

def original_lines(i):
    """Whether the patch removes or changes a line of the original repository."""
    d = open(os.path.join(SEED, i, "patch.diff")).read()
    base = {}
    n = 0
    f = None
    for l in d.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            base[f] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            k = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and base[f][k - 1].lstrip("^").startswith(BASE[:6]):
                n += 1
            k += 1
        elif l.startswith(" "):
            k += 1
    return n

def validate(which):
    W = "/tmp/plant-scratch"
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    for n in ("build", "test"):
        t = open(f"/opt/vp/{n}.sh").read().replace("/repo", W)
        open(f"/tmp/plant-{n}.sh", "w").write(t)
    bad = []
    for i in which:
        d = os.path.join(SEED, i)
        t0 = time.time()
        sh("git checkout -q -- .", cwd=W)
        o = original_lines(i)
        rc0, out0 = sh(f"bash {d}/demo.sh", cwd=W)
        rc, out = sh(f"git apply {d}/patch.diff", cwd=W)
        if rc:
            print(i, "DOES NOT APPLY", out); bad.append(i); continue
        rc, out = sh("bash /tmp/plant-build.sh", cwd=W)
        if rc:
            print(i, "DOES NOT BUILD", out[-3000:]); bad.append(i); continue
        rc, out = sh(f"timeout -k 5 180 bash /tmp/plant-test.sh /tmp/plant-out.json", cwd=W)
        r = json.load(open("/tmp/plant-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        rc1, out1 = sh(f"bash {d}/demo.sh", cwd=W)
        ok = rc0 == 0 and rc1 != 0 and rc1 not in (8, 9) and rc == 0 and o > 0
        print(i, "ok" if ok else "BAD", f"original lines {o}, tests rc {rc}, demo {rc0} -> {rc1}, {time.time()-t0:.0f} s", flush=True)
        if not ok:
            bad.append(i)
            if rc: print(out[-1500:])
            if rc0: print("unchanged:", out0[-1500:])
            if rc1 in (0, 8): print("patched:", out1[-1500:])
    shutil.rmtree(W)
    print("bad:", bad)

def catch(which, every):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    checks = {c["property"]: c for c in m["checks"]}
    if subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip():
        print("/repo is not clean"); sys.exit(1)
    for i in which:
        d = os.path.join(SEED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        if sh(f"git -C /repo apply {d}/patch.diff")[0]:
            print(i, prop, "DOES NOT APPLY", flush=True)
            continue
        try:
            res = {}
            lines = []
            for p in sorted(checks) if every else [prop]:
                t0 = time.time()
                rc, out = sh(checks[p]["quick_cmd"], cwd=HERE)
                res[p] = rc
                if p == prop:
                    dt = time.time() - t0
                    lines = [l for l in out.splitlines() if l.startswith(("VIOLATION", "dst:", "  "))][:3]
        finally:
            sh("git -C /repo checkout -- .")
        print(i, prop, "CAUGHT" if res[prop] == 1 else f"MISSED rc {res[prop]}", f"{dt:.0f} s",
              ("others: " + " ".join(p for p in res if res[p] == 1 and p != prop)) if every else "",
              [p for p in res if res[p] not in (0, 1)] or "", " | ".join(lines)[:300], flush=True)

c, a = sys.argv[1], sys.argv[2:]
if c == "make":
    make(a[0])
elif c == "validate":
    validate(ids(a))
elif c == "catch":
    every = "-a" in a
    catch(ids([x for x in a if x != "-a"]), every)
