#!/usr/bin/env python3
"""Decides one property of /repo with the symbolic executor in engine/.

    verif.py check P01 [--tier quick|thorough]
    verif.py replay FILE          run a recorded counterexample natively
    verif.py setup                build everything once

Exit 0: the property held on everything explored.  Exit 1: a counterexample was
found and reproduced against the really compiled crate (VIOLATION line).
Exit 2: no answer (build failure, unsupported code, resource limit, or a
counterexample that does not reproduce).
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
ENGINE = os.path.join(HERE, "engine")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
COVERS = os.path.join(HERE, "covers.json")

sys.path.insert(0, HERE)
import plan  # noqa: E402

ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def run(cmd, cwd, env=None, timeout=None, stdin=None):
    p = subprocess.run(
        cmd, cwd=cwd, env=env or ENV, timeout=timeout, input=stdin,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
    )
    return p


def must(cmd, cwd, what, env=None, timeout=None):
    p = run(cmd, cwd, env, timeout)
    if p.returncode != 0:
        raise NoAnswer(f"{what} failed:\n{p.stderr[-4000:]}")
    return p


def build_engine():
    must(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")],
         ENGINE, "building the engine")
    return os.path.join(BUILD, "engine", "release", "irsym")


def build_ir(feature):
    """LLVM IR of the harnesses together with all of /repo they reach."""
    tdir = os.path.join(BUILD, "symex-" + feature)
    env = dict(ENV)
    env["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp --cfg symex"
    must(["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib", "--profile", "symex",
          "--features", feature, "--target-dir", tdir, "--", "--emit=llvm-ir"],
         HARNESS, f"compiling /repo with the {feature} harnesses", env)
    lls = glob.glob(os.path.join(tdir, "symex", "deps", "harness-*.ll"))
    if not lls:
        raise NoAnswer("the compiler left no IR file")
    return max(lls, key=os.path.getmtime)


def build_native(features, profile):
    tdir = os.path.join(BUILD, "native-" + profile)
    args = ["cargo", "build", "--offline", "--bin", "replay", "--features", ",".join(features), "--target-dir", tdir]
    if profile == "release":
        args.append("--release")
    must(args, HARNESS, f"native {profile} build")
    out = os.path.join(tdir, "debug" if profile == "dev" else "release", "replay")
    return out


def replay_one(exe, harness, inputs, timeout=30):
    arg = ",".join(str(x) for x in inputs)
    try:
        p = run([exe, harness, arg], HERE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"end": "timeout", "failed": [], "panic": "", "location": "", "panic_ok": False}
    if p.returncode != 0:
        return {"end": "crash", "failed": [], "panic": f"exit status {p.returncode}: {p.stderr[-300:]}",
                "location": "", "panic_ok": False}
    return json.loads(p.stdout.strip().splitlines()[-1])


def replay_batch(exe, items):
    """[(harness, inputs)] -> list of results"""
    text = "".join(f"{h} {','.join(str(x) for x in i)}\n" for h, i in items)
    p = run([exe, "--batch"], HERE, timeout=300, stdin=text)
    if p.returncode != 0:
        raise NoAnswer(f"native replay of sampled paths stopped: {p.stderr[-500:]}")
    return [json.loads(l) for l in p.stdout.splitlines()]


def is_failure(r):
    if r["end"] in ("timeout", "crash"):
        return True
    if r["failed"]:
        return True
    return r["end"] == "panic" and not r["panic_ok"]


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) (\{.*?\}) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(k, harness, v):
    if not re.fullmatch(k.get("harness", ".*"), harness):
        return False
    if "kind" in k and k["kind"] != v["kind"]:
        return False
    if "what" in k and not re.search(k["what"], v["what"]):
        return False
    return k["mark"] in v["marks"]


def engine_run(exe, ll, harnesses, secs, query_ms, threads):
    cmd = [exe, "--ll", ll, "--harness", ",".join(harnesses), "--threads", str(threads), "--secs", str(secs),
           "--query-ms", str(query_ms)]
    try:
        p = run(cmd, HERE, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        raise NoAnswer("the engine ran out of time")
    if p.returncode != 0:
        raise NoAnswer(f"the engine stopped ({p.returncode}): {p.stderr[-2000:]}")
    return [json.loads(l) for l in p.stdout.splitlines()]


def check(prop, tier):
    t0 = time.time()
    P = plan.PROPERTIES[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(EVIDENCE, "replays", prop + "-*")):
        os.remove(f)
    evfile = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    groups = {}  # feature -> [harness]
    for feature, names in P["harnesses"].items():
        for n in names:
            n, _, t = n.partition("@")
            if t == "thorough" and tier != "thorough":
                continue
            groups.setdefault(feature, []).append(n)
    features = sorted(groups)
    budget = plan.BUDGET[tier]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fn = {p: ex.submit(build_native, features, p) for p in ("dev", "release")}
        fi = {f: ex.submit(build_ir, f) for f in features}
        exe = fe.result()
        native = {p: f.result() for p, f in fn.items()}
        irs = {f: x.result() for f, x in fi.items()}
    built = time.time() - t0
    results = []
    problems = []
    for f in features:
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("no time left")
            break
        try:
            results += engine_run(exe, irs[f], groups[f], int(left), plan.QUERY_MS[tier], plan.THREADS)
        except NoAnswer as e:
            problems.append(str(e))
    # counterexamples: reproduce each against the compiled crate
    known = known_findings(prop)
    seen_known, new, unrepro = {}, [], []
    for r in results:
        for e in r["errors"]:
            problems.append(f"{r['harness']}: {e}")
        if r["unknown"]:
            problems.append(f"{r['harness']}: {r['unknown']} solver queries without an answer")
        for v in r["violations"]:
            runs = {p: replay_one(native[p], r["harness"], v["inputs"]) for p in ("dev", "release")}
            v["native"] = runs
            rep = [p for p in runs if is_failure(runs[p])]
            if not rep:
                unrepro.append((r["harness"], v))
                continue
            k = next((k for k in known if matches(k[0], r["harness"], v)), None)
            if k:
                seen_known.setdefault(k[1], []).append((r["harness"], v))
            else:
                new.append((r["harness"], v, rep))
    for h, v in unrepro:
        problems.append(f"{h}: counterexample does not reproduce natively: {v['kind']} {v['what']} {v['inputs']} {v['native']}")
    # sampled explored paths must end the same way natively
    items = [(r["harness"], s) for r in results for s in r["samples"]]
    validated = 0
    if items:
        try:
            got = replay_batch(native["dev"], [(h, s["inputs"]) for h, s in items])
            for (h, s), g in zip(items, got):
                if g["digest"] == s["digest"] and g["end"] == s["end"]:
                    validated += 1
                else:
                    problems.append(f"{h}: explored path {s} ran differently natively: {g}")
        except (NoAnswer, subprocess.TimeoutExpired) as e:
            problems.append(str(e))
    # vacuity: everything that was reached when the harness was written still is
    expected = json.load(open(COVERS)) if os.path.exists(COVERS) else {}
    if not new:
        for r in results:
            miss = [c for c in expected.get(r["harness"], []) if c not in r["covers"]]
            if miss:
                problems.append(f"{r['harness']}: never reached {miss[:5]} ({len(miss)} in all)")
            if r["harness"] not in expected:
                problems.append(f"{r['harness']}: no expected reachability recorded in covers.json")
            if not r["paths"]:
                problems.append(f"{r['harness']}: no path explored")
    tot = lambda k: sum(r[k] for r in results)
    functions = sorted({demangle(f) for r in results for f in r["functions"]})
    own = [f for f in functions if "midi2" in f]
    cov = {
        "states": tot("paths"),
        "transitions": tot("steps"),
        "traces_validated_against_impl": validated,
        "samples": [
            {"harness": h, "inputs": s["inputs"], "end": s["end"]} for h, s in items[:: max(1, len(items) // 12)]
        ][:12],
        "harnesses": {
            r["harness"]: {k: r[k] for k in ("paths", "assumed_away", "panics_allowed", "forks", "steps", "checks",
                                             "queries", "certified", "solver_s", "cpu_s")}
            for r in results
        },
        "assertions_evaluated": tot("checks"),
        "assertions_sent_to_solver": tot("checks_by_solver"),
        "solver_queries": tot("queries"),
        "solver_sat": tot("sat"),
        "solver_unsat": tot("unsat"),
        "solver_unknown": tot("unknown"),
        "solver_answers_reused": tot("reused_answers"),
        "term_simplifications_certified_by_solver": tot("certified"),
        "solver_s": round(tot("solver_s"), 3),
        "slowest_query_s": max([r["slowest_query_s"] for r in results] or [0]),
        "solver": results[0]["z3"] if results else "",
        "bounds": P["bounds"],
        "outside": P.get("outside", ""),
        "functions_encoded": own,
        "functions_encoded_total": len(functions),
        "reached": sum(len(r["covers"]) for r in results),
        "build_s": round(built, 1),
        "known_findings_seen": sorted(seen_known),
        "problems": problems[:20],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": P.get("assumptions", []) + plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    json.dump(ev, open(evfile, "w"), indent=1)
    for text in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {text}")
    for i, (h, v, rep) in enumerate(new):
        path = os.path.join(EVIDENCE, "replays", f"{prop}-{i}.json")
        json.dump({"property": prop, "feature": next(f for f in groups if h in groups[f]), "harness": h,
                   "kind": v["kind"], "what": v["what"], "location": v["location"], "marks": v["marks"],
                   "inputs": v["inputs"], "paths": v["count"], "reproduced_in": rep, "native": v["native"],
                   "rerun": f"python3 verif.py replay {os.path.relpath(path, HERE)}"}, open(path, "w"), indent=1)
        print(f"  {h}: {v['kind']}: {v['what']} {v['location']} inputs={v['inputs']} (reproduced: {', '.join(rep)})")
    if new:
        print(f"VIOLATION property={prop} replay={os.path.join(EVIDENCE, 'replays', prop + '-0.json')}")
        return 1
    if problems:
        for p in problems[:20]:
            print("NO ANSWER: " + p, file=sys.stderr)
        return 2
    print(f"{prop} held: {tot('paths')} paths, {tot('checks')} assertions, {tot('queries')} solver queries "
          f"({tot('certified')} simplifications certified), {validated} sampled paths replayed natively, "
          f"{time.time() - t0:.1f} s")
    return 0


def demangle(n):
    """readable form of a v0/legacy mangled Rust name (path components only)"""
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if m:
        s, out = m.group(1), []
        while s:
            k = re.match(r"\d+", s)
            if not k:
                break
            l = int(k.group())
            out.append(s[k.end():k.end() + l])
            s = s[k.end() + l:]
        t = "::".join(out)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("..", "::"), ("$C$", ","),
                     ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u3b$", ";"), ("$BP$", "*"),
                     ("$LP$", "("), ("$RP$", ")")):
            t = t.replace(a, b)
        return t
    return n


def record_covers(props):
    """(development) remembers which cover points each harness reaches"""
    exe = build_engine()
    cov = json.load(open(COVERS)) if os.path.exists(COVERS) else {}
    feats = {}
    for p in props:
        for f, names in plan.PROPERTIES[p]["harnesses"].items():
            feats.setdefault(f, set()).update(n.partition("@")[0] for n in names)
    for f in sorted(feats):
        ll = build_ir(f)
        for r in engine_run(exe, ll, sorted(feats[f]), 1500, 60000, 8):
            if r["errors"]:
                print(r["harness"], r["errors"][:2])
            cov[r["harness"]] = sorted(r["covers"])
            print(r["harness"], len(r["covers"]), r["paths"], r["cpu_s"])
    json.dump(cov, open(COVERS, "w"), indent=0, sort_keys=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["check"]:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            sys.exit(check(a[1], tier))
        if a[:1] == ["replay"]:
            r = json.load(open(a[1]))
            for prof in ("dev", "release"):
                exe = build_native([r["feature"]], prof)
                print(prof, json.dumps(replay_one(exe, r["harness"], r["inputs"])))
            sys.exit(0)
        if a[:1] == ["setup"]:
            build_engine()
            sys.exit(0)
        if a[:1] == ["covers"]:
            record_covers(a[1:] or sorted(plan.PROPERTIES))
            sys.exit(0)
        print(__doc__)
        sys.exit(2)
    except NoAnswer as e:
        print(f"NO ANSWER: {e}", file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    main()
