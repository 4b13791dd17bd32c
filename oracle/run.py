"""run.py PROP --seed S --budget SECONDS [--hints a,b] --out OUT.json   |   run.py --replay CASE.json"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import base


def evaluate(mod, case):
    try:
        with base.warnings.catch_warnings():
            base.warnings.simplefilter("ignore")
            return mod.check(case)
    except base.Skip:
        return "SKIP"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "/pointpats/" in f.filename]
        if not inrepo:  # the oracle itself failed: not a verdict on the code
            raise
        f = inrepo[-1]
        return f"raised {type(e).__name__}: {str(e)[:200]} (in {os.path.basename(f.filename)}:{f.name})"


def shrink(mod, case, msg, budget=6.0):
    """drop points while the same kind of failure remains"""
    t = time.time()
    key = getattr(mod, "SHRINK", None)
    if not key:
        return case, msg
    changed = True
    while changed and time.time() - t < budget:
        changed = False
        i = 0
        while i < len(case.get(key[0], [])) and time.time() - t < budget:
            c = json.loads(json.dumps(case))
            for k in key:
                if isinstance(c.get(k), list) and len(c[k]) == len(case[key[0]]):
                    del c[k][i]
            try:
                m = evaluate(mod, c)
            except Exception:
                m = None
            if m and m != "SKIP" and m[:12] == msg[:12]:
                case, msg, changed = c, m, True
            else:
                i += 1
    return case, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--hints", default="")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        mod = importlib.import_module(d["property"])
        m = evaluate(mod, d["case"])
        print("FAILS: " + m if m and m != "SKIP" else "holds")
        sys.exit(1 if m and m != "SKIP" else 0)
    mod = importlib.import_module(a.prop)
    hints = [int(x) for x in a.hints.split(",") if x]
    t0 = time.time()
    n = skipped = 0
    errors = []
    seen = set()
    samples = []
    fail = None
    fixed = list(getattr(mod, "FIXED", []))
    while time.time() - t0 < a.budget and n < a.max:
        if fixed:
            case = fixed.pop(0)
        else:
            case = mod.gen(base.Gen([a.seed, n], hints))
        case = json.loads(json.dumps(case))
        n += 1
        try:
            m = evaluate(mod, case)
        except Exception as e:  # the oracle itself failed: no verdict
            errors.append(f"{type(e).__name__}: {e} | {traceback.format_exc()[-400:]}")
            skipped += 1
            continue
        if m == "SKIP":
            skipped += 1
            continue
        h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()
        seen.add(h)
        if len(samples) < 3:
            samples.append(case)
        if m:
            case, m = shrink(mod, case, m)
            fail = {"property": a.prop, "case": case, "message": m, "found_after_cases": n}
            break
    out = {"property": a.prop, "seed": a.seed, "evaluations": n, "distinct_nontrivial": len(seen), "skipped": skipped, "oracle_errors": len(errors), "oracle_error_sample": errors[:2],
           "samples": [json.loads(json.dumps(s)) if len(json.dumps(s)) < 1500 else {"truncated": json.dumps(s)[:1500]} for s in samples],
           "rule": getattr(mod, "RULE", ""), "wall_s": time.time() - t0, "failure": fail}
    s = json.dumps(out)
    if a.out:
        open(a.out, "w").write(s)
    else:
        out["samples"] = len(samples)
        print(json.dumps(out, indent=1)[:3000])


if __name__ == "__main__":
    main()
