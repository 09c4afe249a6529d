#!/usr/bin/env python3
"""check.py <property id> [thorough]

Rebuilds the symbolic and the native executable from /repo's current tree, runs every symbolic
harness of the property (names starting with the property's id), replays each counterexample and a
set of solver-generated sample inputs natively, and writes evidence/<id>.json.

exit 0: held on everything explored;  exit 1 + "VIOLATION property=<id> replay=<path>": a
counterexample that reproduces natively;  exit 2: the check itself could not decide."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
import build as B  # noqa: E402
import variants  # noqa: E402

STRICT = bool(os.environ.get("UP4_STRICT"))
CRASH = {4: "illegal instruction", 6: "the process aborts", 7: "bus error", 8: "arithmetic trap",
         11: "segmentation fault", 14: "does not end within 30 seconds"}
TOL = "equalities up to 1e-6 absolute"


def load_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if line.startswith("finding:"):
            head, _, what = line[len("finding:"):].partition("|")
            d = dict(kv.split("=", 1) for kv in head.split())
            d["what"] = what.strip()
            out.append(d)
    return out


def run_harness(out, name, dirn, lim, seed, dump):
    d = os.path.join(dirn, name)
    os.makedirs(d, exist_ok=True)
    cmd = [os.path.join(out, "sym"), name, d, str(lim["time"]), str(lim["paths"]), str(lim["samples"]),
           "1" if dump else "0", str(seed), str(lim["query_ms"])]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=lim["time"] + 120)
        rc, log = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, log = 99, "timeout " + str(e)[-300:]
    r = {"name": name, "rc": rc, "log": log[-1500:]}
    rp = os.path.join(d, "result.json")
    if os.path.exists(rp):
        try:
            r["res"] = json.load(open(rp))
        except ValueError as e:
            r["log"] += str(e)
    if "res" in r:
        # replay counterexamples and samples natively
        files = [f["replay"] for f in r["res"]["failures"] if f["replay"]] + r["res"]["samples"]
        r["nat"] = {}
        crashes = 0
        while files:
            batch, left = files[:50], 150
            try:
                q = subprocess.run([os.path.join(out, "nat"), name] + batch, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=left)
                text, rc = q.stdout, q.returncode
            except subprocess.TimeoutExpired as e:
                text = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
                rc = 0
            for line in text.splitlines():
                t = line.split("\t")
                if t[0] == "REPLAY" and len(t) >= 4:
                    r["nat"][t[1]] = (t[2], t[3])
            rest = [f for f in batch if f not in r["nat"]]
            if rest and -rc in CRASH:
                # the first one without an answer ended the process
                r["nat"][rest[0]] = ("FAIL", CRASH[-rc])
                crashes += 1
                rest = rest[1:] if crashes < 4 else []
                files = rest + files[50:]
            else:
                files = files[50:]
    return r


def cvc5_check(r, dirn, budget):
    """second solver on a sample of the dumped assertion queries (all must be unsat)"""
    d = os.path.join(dirn, r["name"])
    fs = sorted(f for f in os.listdir(d) if f.endswith(".smt2"))
    done = dis = unk = 0
    t0 = time.time()
    for f in fs:
        if time.time() - t0 > budget:
            break
        try:
            p = subprocess.run(["cvc5", "--tlimit=5000", os.path.join(d, f)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=20)
            t = p.stdout.strip().splitlines()
        except (subprocess.TimeoutExpired, OSError):
            t = []
        if t and t[0] == "unsat":
            done += 1
        elif t and t[0] == "sat":
            dis += 1
        else:
            unk += 1
    return {"queries": len(fs), "agreed_unsat": done, "sat": dis, "no_answer": unk}


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = next(json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if json.loads(l)["id"] == pid)
    info = variants.CHECKS[pid]
    try:
        out = B.build(info.get("variant", "core"))
    except SystemExit as e:
        print("BUILD FAILED:", e)
        return 2
    tb = time.time() - t0
    names = subprocess.run([os.path.join(out, "sym"), "list"], stdout=subprocess.PIPE, text=True).stdout.split()
    pre = pid.lower()
    names = [n for n in names if n.startswith(pre + "_") or (tier == "thorough" and n.startswith(pre + "t_"))]
    if not names:
        print("no harness for", pid)
        return 2
    if tier == "quick":
        lim = dict(time=150, paths=10 ** 9, samples=20, query_ms=4000)
    else:
        lim = dict(time=3000, paths=10 ** 9, samples=200, query_ms=30000)
    os.environ["UP4_TIER"] = tier
    dirn = tempfile.mkdtemp(prefix=f"up4_{pid}_")
    try:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda n: run_harness(out, n, dirn, lim, seed, tier == "thorough"), names))
        return report(pid, prop, info, tier, seed, rs, dirn, tb, t0, lim)
    finally:
        shutil.rmtree(dirn, ignore_errors=True)


def report(pid, prop, info, tier, seed, rs, dirn, tb, t0, lim):
    findings = [f for f in load_findings() if f["property"] == pid]
    keep = os.path.join(VERIF, "evidence", "replays", pid)
    shutil.rmtree(keep, ignore_errors=True)
    viol, known, unconf, mism, errors, samples = [], [], [], [], [], []
    tot = {}
    fns = set()
    covers = {}
    per = []
    cv = []
    for r in rs:
        if "res" not in r or r["rc"] != 0:
            errors.append(f"{r['name']}: rc={r['rc']} {r['log'].strip()[-400:]}")
        if "res" not in r:
            continue
        s = r["res"]
        for k, v in s.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        fns |= set(s["functions"])
        for k, v in s["covers"].items():
            covers[r["name"] + ":" + k] = v
        for f in s["failures"]:
            st, msg = r["nat"].get(f["replay"], ("MISSING", ""))
            entry = dict(harness=r["name"], msg=f["msg"], native=st, native_msg=msg, file=f["replay"], inexact=f["inexact"])
            if st == "FAIL":
                k = next((x for x in findings if x["harness"] == r["name"] and x["msg"].replace("_", " ") in f["msg"].replace("_", " ")), None)
                (known if k else viol).append((entry, k))
            else:
                unconf.append(entry)
        ns = 0
        for f in s["samples"]:
            st, msg = r["nat"].get(f, ("MISSING", ""))
            if st == "FAIL" or st == "MISSING":
                mism.append(dict(harness=r["name"], native=st, msg=msg, input=open(f).read() if os.path.exists(f) else ""))
            else:
                ns += 1
        tot["validated"] = tot.get("validated", 0) + ns
        for f in s["samples"][:1]:
            samples.append({"harness": r["name"], "input": open(f).read().strip().splitlines()[:40]})
        per.append({k: s[k] for k in ("harness", "complete", "paths", "paths_inexact", "assertions", "assertions_solver",
                                      "assertions_normalised", "assertions_unknown", "queries_feasibility",
                                      "queries_assertion", "queries_unknown", "solver_s", "wall_s")})
        if tier == "thorough":
            c = cvc5_check(r, dirn, 60)
            c["harness"] = r["name"]
            cv.append(c)
            if c["sat"]:
                errors.append(f"{r['name']}: cvc5 disagrees on {c['sat']} queries")
    want = {}
    cp = os.path.join(VERIF, "engine", "covers.json")
    if os.path.exists(cp):
        want = json.load(open(cp))
    missing = [c for r in rs for c in want.get(r["name"], []) if r["name"] + ":" + c not in covers]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branch_decisions", 0)) + int(tot.get("concretisations", 0)),
            "traces_validated_against_impl": int(tot.get("validated", 0)),
            "samples": samples[:12],
            "exhaustive": bool(per) and all(p["complete"] for p in per) and not errors,
            "explanation": "states = execution paths (path conditions) of the instrumented code explored; transitions = "
                           "solver-decided branch outcomes and index concretisations; every path's assertions are discharged by "
                           "the solver over all values of the symbolic inputs on that path; traces_validated = solver-generated "
                           "inputs (one per sampled path) whose native run agreed.",
            "functions_encoded": sorted(fns),
            "bounds": info["bounds"],
            "queries": {k: int(tot.get(k, 0)) for k in ("queries_feasibility", "queries_assertion", "queries_model", "queries_unknown")},
            "assertion_counts": {k: int(tot.get(k, 0)) for k in ("assertions", "assertions_solver", "assertions_normalised",
                                                            "assertions_on_concrete_outcome", "assertions_unknown")},
            "solver_s": round(tot.get("solver_s", 0), 3),
            "cover_points": covers, "cover_points_missing": missing,
            "harnesses": per,
            "unconfirmed_candidates": [{k: u[k] for k in ("harness", "msg", "native", "inexact")} for u in unconf][:20],
            "sample_disagreements": mism[:5],
            "build_s": round(tb, 1),
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if cv:
        ev["coverage"]["second_solver_cvc5"] = cv
    if viol or known:
        os.makedirs(keep, exist_ok=True)
    for i, (e, k) in enumerate(viol + known):
        dst = os.path.join(keep, f"{e['harness']}_{i}.replay")
        shutil.copy(e["file"], dst)
        e["file"] = dst
        with open(dst, "a") as f:
            f.write(f"# {e['msg']}; native: {e['native_msg']}\n# run: build/{info.get('variant', 'core')}/bin/nat {e['harness']} {dst}\n")
    ev["coverage"]["violations_found"] = [{k: e[k] for k in ("harness", "msg", "native_msg", "file")} for e, _ in viol][:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for p in per:
        print(f"  {p['harness']:34s} paths={p['paths']:<6} asserts={p['assertions']:<6} unknown={p['assertions_unknown']} "
              f"complete={p['complete']} inexact={p['paths_inexact']} solver={p['solver_s']:.1f}s wall={p['wall_s']:.1f}s")
    print(f"{pid} {prop['title']}: build {tb:.0f}s, total {time.time() - t0:.0f}s, native samples {tot.get('validated', 0)}")
    for e in errors:
        print("CHECK-ERROR", e)
    for m in mism[:5]:
        print("SAMPLE-DISAGREES", m["harness"], m["native"], m["msg"])
    for u in unconf[:8]:
        print("UNCONFIRMED", u["harness"], u["msg"], u["native"], "inexact" if u["inexact"] else "exact")
    if missing:
        print("COVER-MISSING", missing)
    seen = set()
    for e, k in known:
        if k["what"] not in seen:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            seen.add(k["what"])
    for e, _ in viol[:10]:
        print(f"  {e['harness']}: {e['msg']} -- native: {e['native_msg']}")
    if viol:
        print(f"VIOLATION property={pid} replay={viol[0][0]['file']}")
        return 1
    if errors:
        return 2
    if STRICT and (mism or unconf or missing or any(not p["complete"] or p["assertions_unknown"] for p in per)):
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
