#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property for /repo's current working tree:
 1. the deductive verifier (vc/verify.py, z3 + cvc5) generates the obligations of the contracts of PROP from the
    source of /repo and discharges them;
 2. the same contract, evaluated on the running code, searches for a failing input (bounded; never counted as proved).
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
VT = "/usr/local/bin/python3-vt"
REPO = os.environ.get("VERIF_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e


def search(prop, seeds, budget, out, hints=(), start=()):
    ps = []
    for s in seeds:
        f = f"{out}.{s}.json"
        if os.path.exists(f):
            os.remove(f)
        cmd = [VENV, os.path.join(HERE, "oracle", "run.py"), prop, "--seed", str(s), "--budget", str(budget), "--out", f]
        if hints:
            cmd += ["--hints", ",".join(map(str, hints))]
        ps.append((s, f, subprocess.Popen(cmd, env=env(), cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    return ps


def collect(ps, budget):
    res = []
    errs = []
    t = time.time()
    for s, f, p in ps:
        try:
            _, e = p.communicate(timeout=max(5, budget * 2 + 120 - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errs.append(f"seed {s}: no answer in time")
            continue
        if os.path.exists(f):
            res.append(json.load(open(f)))
            os.remove(f)
        else:
            errs.append(f"seed {s}: " + e.decode(errors="replace")[-600:])
    return res, errs


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {"level": "exploration"})
    replay = os.path.join(ev, f"{prop}.replay.json")
    for f in (replay,):
        if os.path.exists(f):
            os.remove(f)
    budget = 20 if tier == "quick" else 240
    workers = 5 if tier == "quick" else 7
    tmp = os.path.join(ev, f".{prop}.{os.getpid()}")
    ps = search(prop, [seed * 1000 + k for k in range(workers)], budget, tmp)
    proof = None
    if os.path.exists(os.path.join(HERE, "vc", "contracts", prop + ".py")):
        pf = tmp + ".proof.json"
        limit = 420 if tier == "quick" else 1500
        cmd = [VT, os.path.join(HERE, "vc", "verify.py"), prop, "--out", pf, "--tier", tier]
        try:
            r = subprocess.run(cmd, env=env(), cwd=HERE, capture_output=True, text=True, timeout=limit)
            proof = json.load(open(pf)) if os.path.exists(pf) else {"error": (r.stderr or r.stdout)[-1500:]}
        except subprocess.TimeoutExpired:
            proof = {"error": f"verifier stopped after {limit} s"}
        if os.path.exists(pf):
            os.remove(pf)
    res, errs = collect(ps, budget)
    fail = next((r["failure"] for r in res if r["failure"]), None)
    open_obl = []
    if proof and "error" not in proof:
        open_obl = [o for o in proof["obligations"] if o["status"] != "discharged"]
    refuted = [o for o in open_obl if o["status"] == "refuted"]
    deep = None
    if not fail and refuted:
        # an obligation of the contract is false in the verifier's semantics: look harder for a failing input
        hints = sorted({h for o in refuted for h in o.get("hints", [])})
        ps = search(prop, [seed * 1000 + 500 + k for k in range(8)], 60 if tier == "quick" else 300, tmp, hints)
        more, e2 = collect(ps, 60)
        res += more
        errs += e2
        fail = next((r["failure"] for r in more if r["failure"]), None)
        deep = len(more)
    if refuted and not fail:
        # not because of a tight time limit: the failing contracts once more, with longer ones
        names = "|".join(sorted({o["name"].split(": ")[0] for o in refuted}))
        left = (800 if tier == "quick" else 3000) - (time.time() - t0)
        pf = tmp + ".again.json"
        try:
            subprocess.run([VT, os.path.join(HERE, "vc", "verify.py"), prop, "--out", pf, "--tier", "quick", "--only", names], env=dict(env(), VC_PATIENCE="3"), cwd=HERE, capture_output=True, text=True, timeout=max(30, min(300, left)))
            again = {o["name"]: o for o in json.load(open(pf))["obligations"]}
            for o in list(refuted):
                if again.get(o["name"], {}).get("status") == "discharged":
                    o.update(again[o["name"]])
            open_obl = [o for o in proof["obligations"] if o["status"] != "discharged"]
            refuted = [o for o in open_obl if o["status"] == "refuted"]
        except (subprocess.TimeoutExpired, OSError, ValueError):
            pass
        if os.path.exists(pf):
            os.remove(pf)
    if not res:
        print("\n".join(errs), file=sys.stderr)
        broken = any("/pointpats/" in e for e in errs)
        if broken:  # the package itself cannot be imported or run
            json.dump({"property": prop, "kind": "import", "output": errs}, open(replay, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 2
    tot = lambda k: sum(r[k] for r in res)
    cov = {"evaluations": tot("evaluations"), "distinct_nontrivial": tot("distinct_nontrivial"), "outside_quantifier": tot("skipped"), "rule": res[0]["rule"], "samples": res[0]["samples"], "search_processes": len(res), "oracle_errors": tot("oracle_errors")}
    if errs:
        cov["search_process_errors"] = errs
    assumptions = []
    level = entry["level"]
    if proof is not None:
        if "error" in proof:
            cov["verifier"] = proof["error"]
            cov.update(obligations=0, discharged=0, checker_cmd=f"{VT} vc/verify.py {prop}", trusted_base=["none used: the verifier gave no answer"])
        else:
            cov["obligations"] = len(proof["obligations"])
            cov["discharged"] = len(proof["obligations"]) - len(open_obl)
            cov["checker_cmd"] = f"{VT} vc/verify.py {prop}"
            cov["trusted_base"] = proof["trusted_base"]
            cov["functions_under_contract"] = proof["functions"]
            cov["back_ends"] = proof["back_ends"]
            cov["solver_time_s"] = proof["solver_time_s"]
            cov["verifier_wall_s"] = proof["wall_s"]
            cov["paths"] = proof["paths"]
            cov["obligation_list"] = proof["obligations"]
            cov["bounded_parts"] = proof.get("bounded", [])
            assumptions = proof["assumptions"]
    out = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if fail or refuted else 0}
    with open(os.path.join(ev, f"{prop}.json"), "w") as f:
        json.dump(out, f, indent=1)
    if fail:
        if refuted:
            fail["failed_obligations"] = refuted
        fail["how_to_replay"] = f"cd /verif && {VENV} oracle/run.py --replay {replay}"
        with open(replay, "w") as f:
            json.dump(fail, f, indent=1)
        print(f"{prop}: {fail['message']}")
        for o in refuted:
            print(f"{prop}: obligation not discharged: {o['name']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if refuted:
        with open(replay, "w") as f:
            json.dump({"property": prop, "failed_obligations": refuted, "searched": {"evaluations": cov["evaluations"]}}, f, indent=1)
        for o in refuted:
            print(f"{prop}: obligation not discharged: {o['name']}: {o.get('detail', '')[:300]}")
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    if proof is None:
        how = ""
    elif "error" in proof:
        how = " (verifier: no answer, bounded search only: " + proof["error"].strip().splitlines()[-1][:200] + ")"
    else:
        how = f"; {cov['discharged']}/{cov['obligations']} obligations discharged" + (f", undecided: {[o['name'] for o in open_obl][:5]}" if open_obl else "")
    print(f"{prop}: held on {cov['distinct_nontrivial']} distinct inputs{how}")
    return 0


sys.exit(main())
