#!/usr/bin/env python3
"""Drops the alternatives that do not compile:  fit.py WORK [cargo args]  (WORK holds repo0, repo, files.txt)"""
import json, os, subprocess, sys
w = sys.argv[1]; extra = sys.argv[2:]
files = open(w + "/files.txt").read().split()
dis = set(json.load(open(w + "/dis.json")))
env = dict(os.environ, CARGO_TARGET_DIR=w + "/rt", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
while True:
    json.dump(sorted(dis), open(w + "/dis.json", "w"))
    subprocess.run([os.environ.get("MUTATE", w + "/mtarget/release/mutate"), w + "/repo", w + "/dis.json", w + "/all.json", w + "/repo0"] + files, check=True)
    r = subprocess.run(["cargo", "check", "--offline", "--lib", "--message-format=json"] + extra, cwd=w + "/repo", env=env, capture_output=True, text=True)
    bad, near, errs = set(), set(), 0
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        errs += 1
        for s in m["message"]["spans"]:
            f = s["file_name"]
            if not os.path.exists(f"{w}/repo/{f}.spans"): continue
            for i, a, b in json.load(open(f"{w}/repo/{f}.spans")):
                # inside an alternative (or around one, when that is all there is)
                if s["byte_start"] < b + 2 and s["byte_end"] > a - 2: (bad if s["is_primary"] else near).add(i)
    print(errs, "errors,", len(bad), "dropped")
    if not errs: break
    bad = bad - dis or near - dis
    if not bad:
        print(r.stdout[:3000]); sys.exit(1)
    dis |= bad
