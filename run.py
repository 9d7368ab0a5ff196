#!/usr/bin/env python3
"""Builds and runs one check:  run.py Cxx quick|thorough   |   run.py replay FILE   |   run.py setup

Everything is built from /repo's current working tree (path dependency of harness/Cargo.toml) into
harness/target/<configuration>, which git ignores.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")

# configuration name -> cargo arguments
CONFIGS = {
    "default": [],
    "release": ["--release"],
}
FEATURES = [
    "check_complete_parse", "arrayvec_fixseq", "arrayvec_limseq", "serde_impls",
    "enc_len_estimable_override", "relaxed_padding_invariant", "invalid_range_checking",
    "implicit_hexstring", "check_padding", "index_binary_formatting", "unfreeze_spanbuffer",
    "expose_internal", "smallvec_framestack",
]
for f in FEATURES:
    CONFIGS[f] = ["--features", f]
ALL = "all_features"
CONFIGS[ALL] = ["--features", ",".join(FEATURES)]
PAIRS = [
    ("check_complete_parse", "check_padding"), ("check_complete_parse", "implicit_hexstring"),
    ("arrayvec_fixseq", "arrayvec_limseq"), ("arrayvec_limseq", "check_complete_parse"),
    ("enc_len_estimable_override", "relaxed_padding_invariant"), ("check_padding", "relaxed_padding_invariant"),
    ("enc_len_estimable_override", "arrayvec_fixseq"), ("smallvec_framestack", "expose_internal"),
    ("implicit_hexstring", "serde_impls"), ("invalid_range_checking", "check_padding"),
]
for a, b in PAIRS:
    CONFIGS[a + "+" + b] = ["--features", a + "," + b]
# C30 runs under AddressSanitizer, with the alternative containers too, and in Miri
SAFE = "arrayvec_fixseq,arrayvec_limseq,smallvec_framestack"
TRIPLE = "x86_64-unknown-linux-gnu"
CONFIGS["asan"] = ["--target", TRIPLE]
CONFIGS["asan_alt"] = ["--target", TRIPLE, "--features", SAFE]
CONFIGS["asan_release"] = ["--target", TRIPLE, "--release"]
MIRI = os.path.join(VERIF, "miri")
# check -> (configurations of the quick tier, further ones of the thorough tier)
PLAN = {f"C{i:02}": (["default"], ["release"]) for i in range(1, 32)}
PLAN["C08"] = (["default", "enc_len_estimable_override"], ["release"])
PLAN["C13"] = (["default", "arrayvec_limseq", "arrayvec_fixseq"], ["release"])
PLAN["C16"] = (["expose_internal"], [])
PLAN["C17"] = (["default", "check_complete_parse"], ["release"])
PLAN["C21"] = (["default", "implicit_hexstring"], ["release"])
PLAN["C01"] = (["default"], ["smallvec_framestack", "release"])
PLAN["C02"] = (["default", "smallvec_framestack"], ["release"])
PLAN["C23"] = (["default", "serde_impls"], ["release"])
PLAN["C25"] = (["default", "check_padding"], ["relaxed_padding_invariant", "release"])
PLAN["C27"] = (["default", "check_padding", "implicit_hexstring"], ["release"])
PLAN["C31"] = (["default"], ["arrayvec_limseq", "arrayvec_fixseq", "smallvec_framestack", "release"])
PLAN["C30"] = (["asan", "asan_alt"], ["asan_release"])
# C19 compares every configuration with the default one
PLAN["C19"] = (["default"] + FEATURES + [ALL], [a + "+" + b for a, b in PAIRS])


def env_for(cfg):
    e = dict(os.environ)
    e["RUSTC_BOOTSTRAP"] = "mcheck"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", cfg)
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("MIRIFLAGS", None)
    if cfg.startswith("asan"):
        e["RUSTC_BOOTSTRAP"] = "1"
        e["RUSTFLAGS"] += " -Zsanitizer=address"
    return e


def build(cfg, bins):
    cmd = ["cargo", "build", "--offline", "-q"] + CONFIGS[cfg]
    if bins == ["c19"]:
        cmd += ["--profile", "many"]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=HARNESS, env=env_for(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return f"building {cfg} failed:\n" + r.stdout[:6000]
    return None


def exe(cfg, b):
    if cfg.startswith("asan"):
        return os.path.join(HARNESS, "target", cfg, TRIPLE, "release" if cfg == "asan_release" else "debug", b)
    return os.path.join(HARNESS, "target", cfg, "many" if b == "c19" else "release" if cfg == "release" else "debug", b)


def build_all(cfgs, bins, prop=None):
    """True, False (does not build) or "violation" (does not build because the property fails)."""
    t = time.time()
    with ThreadPoolExecutor(max_workers=4) as ex:
        errs = [(c, e) for c, e in zip(cfgs, ex.map(lambda c: build(c, bins), cfgs)) if e]
    if errs:
        for c, e in errs:
            print(e[:4000])
        return "violation" if prop and unbuildable(prop, errs) else False
    print(f"built {','.join(bins)} for {','.join(cfgs)} in {time.time() - t:.1f}s", flush=True)
    return True


def lib_builds(cfg):
    cmd = ["cargo", "build", "--offline", "-q", "-p", "tezos-data-model"] + CONFIGS[cfg]
    return subprocess.run(cmd, cwd=HARNESS, env=env_for(cfg), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def unbuildable(prop, errs):
    """Failures to build that are themselves what a property excludes: a documented feature with which
    the library does not compile although it does without (C19, and C16's expose_internal), macros whose
    output does not compile for declarations the unchanged macros accept (C18, C24), and constants of the
    library that cannot be evaluated for types for which they could be (their evaluation is an execution
    of the library's code, with an input of the check's, by the compiler)."""
    for cfg, e in errs:
        bad = prop in ("C16", "C19") and cfg != "default" and not lib_builds(cfg) and lib_builds("default")
        bad = bad or (prop == "C24" and lib_builds(cfg) and "originates in the derive macro `tedium::" in e)
        bad = bad or (prop == "C18" and lib_builds(cfg) and "originates in the macro `tedium::" in e and not re.search(r"error\[E0(432|433|425|405|412|599|603|616)\]", e))
        bad = bad or (("error[E0080]" in e or "error[E0391]" in e) and lib_builds(cfg))
        if bad:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{cfg}-build.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "config": cfg, "tier": "quick", "section": "build", "case": 0,
                           "case_text": "compiling configuration " + cfg, "observed": e,
                           "replay_cmd": f"cd {VERIF} && ./run.sh replay {path}"}, f, indent=1)
            with open(os.path.join(EVID, prop + ".json"), "w") as f:
                json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": 1, "level": "model_checking",
                           "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False,
                                        "explanation": "the code under test does not compile in configuration " + cfg},
                           "assumptions": [], "wall_s": 0, "violations": 1}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            return True
    return False


def merge(prop, tier, parts, wall):
    """One evidence file out of those of several configurations."""
    js = [json.load(open(p)) for p in parts if os.path.exists(p)]
    if not js:
        return
    out = js[0]
    cov = out["coverage"]
    per = {j["coverage"]["config"]: j["coverage"]["states"] for j in js}
    for j in js[1:]:
        for k in ("states", "transitions", "traces_validated_against_impl", "pruned_prefixes", "sections", "known_finding_cases"):
            cov[k] = cov.get(k, 0) + j["coverage"].get(k, 0)
        for k, v in j["coverage"].get("observed_outcomes", {}).items():
            cov["observed_outcomes"][k] = cov["observed_outcomes"].get(k, 0) + v
        cov["samples"] += j["coverage"]["samples"][:2]
        cov["exhaustive"] = cov["exhaustive"] and j["coverage"]["exhaustive"]
        out["violations"] += j["violations"]
    cov["states_per_config"] = per
    cov["config"] = ",".join(per)
    out["wall_s"] = round(wall, 3)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    for p in parts:
        if os.path.exists(p):
            os.unlink(p)


def run_one(prop, cfg, args, extra_env=None):
    e = dict(os.environ)
    e["VERIF_DIR"] = VERIF
    e["VERIF_CONFIG"] = cfg
    # an error ends the process, which the supervising one reports; leaks are counted case by case
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1"
    e.update(extra_env or {})
    return subprocess.run([exe(cfg, prop.lower())] + args, env=e, cwd=VERIF).returncode


def check(prop, tier):
    quick, more = PLAN[prop]
    cfgs = quick + (more if tier == "thorough" else [])
    os.makedirs(EVID, exist_ok=True)
    t = time.time()
    with ThreadPoolExecutor(max_workers=1) as ex:
        m = ex.submit(miri_builds) if prop == "C30" else None
        b = build_all(cfgs, [prop.lower()], prop)
        no_miri = m and m.result()
    if b is not True:
        return 1 if b == "violation" else 2
    if prop == "C19":
        return c19(tier, cfgs, t)
    parts, code = [], 0
    for cfg in cfgs:
        part = os.path.join(EVID, f".{prop}-{cfg}.part.json")
        if os.path.exists(part):
            os.unlink(part)
        parts.append(part)
        sys.stdout.flush()
        rc = run_one(prop, cfg, [tier], {"VERIF_EVIDENCE_PART": part})
        if rc == 1:
            code = 1
            break
        if rc != 0:
            code = rc
            break
    merge(prop, tier, parts, time.time() - t)
    if prop == "C30" and code == 0:
        code = miri(tier, no_miri, t)
    return code


def miri_run(tier, shard, limit=1000000, announce=False, timeout=None):
    """One shard of C30's sections in the interpreter: (exit code, output, errors)."""
    e = dict(os.environ)
    for k in ("RUSTC_BOOTSTRAP", "VERIF_ANNOUNCE", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(MIRI, "target"),
             CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-provenance-gc=50000",
             VERIF_DIR=VERIF, VERIF_TINY=str(limit), VERIF_SHARD=shard)
    if announce:
        e["VERIF_ANNOUNCE"] = "1"
    try:
        r = subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--bin", "c30", "--", tier], cwd=MIRI, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else x.stdout or "", "out of time"


def miri_builds():
    """None, or why the interpreter cannot be used."""
    rc, out, err = miri_run("quick", "999999/1000000", 0)
    return None if rc == 0 and "explored" in out else (err or out)[-3000:]


def miri(tier, no_miri, t):
    """The same sections over smaller domains in Miri, in parallel shards.  An execution it rejects as
    undefined behaviour, or after which memory or elements are left over, is a violation."""
    path = os.path.join(EVID, "C30.json")
    ev = json.load(open(path))
    cov = ev["coverage"]

    def done(part):
        cov["interpreter"] = part
        ev["wall_s"] = round(time.time() - t, 3)
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)

    if no_miri:
        # the sanitizer part stands on its own; an environment without Miri is no verdict on the code
        print("Miri cannot be used here, only the sanitizer part ran:\n" + no_miri)
        cov["exhaustive"] = False
        done({"not_run": no_miri[-500:]})
        return 0
    # two shards per core balance the load
    n = 2 * (os.cpu_count() or 4)
    limit = t + (780 if tier == "quick" else 6 * 3600)

    def one(i):
        left = limit - time.time()
        return miri_run(tier, f"{i}/{n}", timeout=left) if left > 5 else (None, "", "out of time")

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        rs = list(ex.map(one, range(n)))
    part = {"states": 0, "transitions": 0, "traces": 0, "sections": 0, "shards": n, "out_of_time": 0}
    for rc, out, err in rs:
        if rc == 0:
            x = json.loads(out[out.rindex("explored ") + 9:])
            for k in ("states", "transitions", "traces", "sections"):
                part[k] += x[k]
            part.setdefault("samples", x["samples"][:1])
        elif rc is None:
            part["out_of_time"] += 1
            cov["exhaustive"] = False
    cov["states"] += part["states"]
    cov["transitions"] += part["transitions"]
    cov["traces_validated_against_impl"] += part["traces"]
    bad = [x for x in rs if x[0] is not None and (x[0] != 0 or "\nleft over " in x[1])]
    code = 0
    for rc, out, err in bad[:3]:
        code = max(code, miri_report(tier, rc, out, err, ev))
    if not bad:
        print(f"C30 [miri]: states={part['states']} traces={part['traces']} sections={part['sections']} wall={time.time() - t:.1f}s violations=0"
              + (f", {part['out_of_time']} of {n} shards out of time" if part["out_of_time"] else ""))
    if code == 1:
        ev["violations"] = ev.get("violations", 0) + len(bad)
    done(part)
    return code


MIRI_BAD = ("Undefined Behavior", "memory leaked", "abnormal termination", "the program aborted", "panic in a function that cannot unwind", "left over ")


def miri_case(tier, k):
    """Runs one section with every case announced: (exit code, last case, everything that was said)."""
    rc, out, err = miri_run(tier, f"{k}/1000000", announce=True)
    cases = [l for l in out.splitlines() if l.startswith("case ")]
    return rc, cases[-1] if cases else "", out, err


def miri_report(tier, rc, out, err, ev):
    said = out + err
    if not any(x in said for x in MIRI_BAD):
        print(f"Miri stopped (exit code {rc}) without a verdict:\n" + said[-3000:])
        return 2
    lines = out.splitlines()
    secs = [l for l in lines if l.startswith("section ")]
    left = [i for i, l in enumerate(lines) if l.startswith("left over ")]
    if left:
        _, _, k, text = lines[left[0]].split(" ", 3)
        case, what = text, text
    else:
        k = secs[-1].split(" ", 2)[1] if secs else "0"
        what = "\n".join(err.splitlines()[:40])
        _, case, _, err2 = miri_case(tier, k)
        what = "\n".join(err2.splitlines()[:40]) or what
    name = next((l.split(" ", 2)[2] for l in secs if l.split(" ", 2)[1] == k), "")
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"C30-miri-{k}.json")
    with open(path, "w") as f:
        json.dump({"property": "C30", "config": "miri", "tier": tier, "section": name, "case": int(k), "case_text": case,
                   "observed": what, "replay_cmd": f"cd {VERIF} && ./run.sh replay {path}"}, f, indent=1)
    print(f"  [miri: {name}] {case}\n{what}")
    print(f"VIOLATION property=C30 replay={path}")
    return 1


def c19(tier, cfgs, t):
    """Every configuration writes the digest stream of its observations; compare with the default's."""
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="c19-")
    try:
        def one(cfg):
            return run_one("C19", cfg, [tier], {"VERIF_C19_DIR": d, "VERIF_C19_DUMP": "1", "VERIF_EVIDENCE_PART": os.path.join(d, cfg + ".json")})
        # first the default alone: it fixes the reference stream
        rc = one("default")
        if rc != 0:
            return rc
        code = 0
        with ThreadPoolExecutor(max_workers=4) as ex:
            rcs = list(ex.map(one, [c for c in cfgs if c != "default"]))
        code = 1 if 1 in rcs else max([0] + rcs)
        merge("C19", tier, [os.path.join(d, c + ".json") for c in cfgs], time.time() - t)
        return code
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    j = json.load(open(path))
    prop, cfg = j["property"], j["config"]
    if cfg == "miri":
        print("expected:", j["observed"], flush=True)
        rc, case, out, err = miri_case(j["tier"], j["case"])
        rc2, out2, err2 = (rc, out, err) if rc else miri_run(j["tier"], f"{j['case']}/1000000")
        print(case, err or err2, "\n".join(l for l in out2.splitlines() if l.startswith("left over ")))
        return 1 if any(x in out + err + out2 + err2 for x in MIRI_BAD) else 0
    cfgs = [cfg] if prop != "C19" else sorted({"default", cfg})
    b = build_all(cfgs, [prop.lower()], prop)
    if b is not True:
        return 1 if b == "violation" else 2
    print("expected:", j["observed"], flush=True)
    only = [j["tier"], "--only", j["section"], str(j["case"])]
    if prop != "C19":
        return run_one(prop, cfg, only)
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="c19-")
    try:
        env = {"VERIF_C19_DIR": d, "VERIF_EVIDENCE_PART": os.path.join(d, "ev.json")}
        rc = run_one(prop, "default", [j["tier"]], env)
        return rc if rc != 0 else run_one(prop, cfg, only, env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a == ["setup"]:
        # every check builds what it needs itself; this shows early that the harness builds at all
        return 0 if build_all(["default"], ["c01"]) is True else 2
    if len(a) == 2 and a[0] in PLAN and a[1] in ("quick", "thorough"):
        return check(a[0], a[1])
    print(__doc__)
    return 2


sys.exit(main(sys.argv[1:]))
