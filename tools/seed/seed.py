#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [id ...]   (SPEC defines BUGS = [dict(id,prop,edits,needs,breaks,main,features)])
For each: makes the edit in /repo, writes seeded/<id>/, checks build + tests + demo on both trees, and undoes the edit.
seed.py run ID PROP [tier]: applies seeded/<id>/patch.diff to /repo, runs the check, undoes it."""
import sys, os, subprocess, json, shutil, importlib.util
V = "/verif"; R = "/repo"; HERE = os.path.dirname(os.path.abspath(__file__))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh("git checkout -q -- .", cwd=R)
def tests_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build: " + b.stdout[-1500:]
    sh(f"bash /opt/vp/test.sh /tmp/seed-o-{os.getpid()}.json")
    o = json.load(open(f"/tmp/seed-o-{os.getpid()}.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    names = want if isinstance(want, list) else list(want)
    passed = set(o.get("passed", []))
    miss = [n for n in names if n not in passed]
    return None if not miss else "tests failing: " + ", ".join(map(str, miss[:5]))
def plant(b):
    assert not sh("git status --porcelain", cwd=R).stdout.strip(), "repo not clean"
    d = f"{V}/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        shutil.copy(f"{HERE}/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["main"].strip() + "\n")
        if b.get("features"): open(d + "/features", "w").write(", ".join(f'"{f}"' for f in b["features"]))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        if r0.returncode: return "demo fails on the unchanged tree: " + r0.stdout[-1500:]
        for f, old, new in b["edits"]:
            p = f"{R}/{f}"; s = open(p).read()
            if s.count(old) != 1: return f"{f}: {s.count(old)} occurrences of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=R, text=True, stdout=subprocess.PIPE).stdout)
        t = tests_ok()
        if t: return t
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        if r1.returncode == 0: return "demo passes with the bug"
        if "error" in r1.stdout and "could not compile" in r1.stdout: return "demo does not build with the bug: " + r1.stdout[-800:]
        b["_demo"] = r1.stdout[-300:]
        return None
    finally:
        clean()
def run(i, prop, tier="quick"):
    assert not sh("git status --porcelain", cwd=R).stdout.strip(), "repo not clean"
    a = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=R)
    if a.returncode: return 3, a.stdout
    try:
        r = sh(f"./run.sh {prop} {tier}", cwd=V)
        return r.returncode, r.stdout
    finally:
        clean()
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        rc, out = run(*a[1:]); print(out[-3000:]); print("exit", rc)
        sys.exit()
    spec = importlib.util.spec_from_file_location("s", a[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = a[1:]
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        e = plant(b)
        if e:
            print("DROP", b["id"], e, flush=True)
            if "--keep" not in only: shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
            continue
        rc, out = run(b["id"], b["prop"])
        hit = rc == 1 and f"VIOLATION property={b['prop']}" in out
        print("CAUGHT" if hit else f"MISSED(rc={rc})", b["id"], b["prop"], flush=True)
        if not hit: print(out[-1500:])
