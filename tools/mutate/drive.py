#!/usr/bin/env python3
"""Runs the mutants:  drive.py WORK tests|hits|run [first last]   (results in WORK/res/*.json)"""
import json, os, subprocess, sys, time, glob, resource
from concurrent.futures import ThreadPoolExecutor
w, what = sys.argv[1], sys.argv[2]
os.makedirs(w + "/res", exist_ok=True)
muts = {m["id"]: m for m in json.load(open(w + "/all.json"))}
soft = [i for i in sorted(muts) if not muts[i]["hard"]]
vd = w + "/vd"
os.makedirs(vd + "/evidence", exist_ok=True)
BINS = {f"C{i:02}": f"{w}/ht/debug/c{i:02}" for i in range(1, 26) if i != 19}
BINS["C16"] = w + "/ht16/debug/c16"
if os.path.exists(w + "/htccp/debug/c17"): BINS["C17+"] = w + "/htccp/debug/c17"

def run(cmd, env, t):
    e = dict(os.environ, VERIF_DIR=vd, **env)
    p = subprocess.Popen(cmd, env=e, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                         preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30)), os.nice(19)))
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""

if what == "tests":
    tb = max(glob.glob(w + "/rt/debug/deps/tedium-????????????????"), key=os.path.getmtime)
    assert run([tb], {"MUT": "0"}, 120)[0] == 0
    def one(i): return i, run([tb, "-q", "--test-threads", "2"], {"MUT": str(i)}, 60)[0]
    with ThreadPoolExecutor(4) as ex: r = dict(ex.map(one, soft))
    json.dump(r, open(w + "/res/tests.json", "w"))
    print("survive the tests:", sum(v == 0 for v in r.values()), "of", len(r))
elif what == "hits":
    hits, cost = {}, {}
    for c, b in BINS.items():
        f = f"{w}/res/hits-{c}"
        if os.path.exists(f): os.unlink(f)
        t = time.time()
        rc, out = run([b, "quick"], {"MUT": "0", "MUT_HITS": f, "VERIF_CONFIG": "mut"}, 3600)
        cost[c] = time.time() - t
        hits[c] = sorted({int(x) for x in open(f)} - {0})
        print(c, rc, round(cost[c]), len(hits[c]), flush=True)
        assert rc == 0, out
        json.dump([hits, cost], open(w + "/res/hits.json", "w"))
elif what == "run":
    tests = json.load(open(w + "/res/tests.json"))
    hits, cost = json.load(open(w + "/res/hits.json"))
    hits = {c: set(h) for c, h in hits.items()}
    rf = w + "/res/run.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    order = sorted(hits, key=lambda c: cost[c])
    todo = [i for i in soft if tests[str(i)] == 0 and str(i) not in res]
    if len(sys.argv) > 3: todo = [i for i in todo if int(sys.argv[3]) <= i <= int(sys.argv[4])]
    for i in todo:
        m = muts[i]
        reach = [c for c in order if i in hits[c]]
        got = None
        t = time.time()
        for c in reach:
            rc, out = run([BINS[c], "quick"], {"MUT": str(i), "VERIF_CONFIG": "mut"}, 4 * cost[c] + 60)
            if rc != 0:
                got = [c, rc if rc == "timeout" else int(rc), "VIOLATION" in out]
                break
        res[str(i)] = {"reach": reach, "got": got}
        json.dump(res, open(rf, "w"))
        print(i, m["file"], m["line"], repr(m["old"][:40]), "->", repr(m["new"][:50]), "CAUGHT " + str(got) if got else ("SURVIVES " if reach else "UNREACHED ") + ",".join(reach), f"{time.time()-t:.0f}s", flush=True)
