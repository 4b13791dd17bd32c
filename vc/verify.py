"""Driver: python3-vt vc/verify.py PROP --out F --tier T"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc import core, harness  # noqa: E402
from vc.core import Abort, Engine, Failed, PathInfeasible, Unsupported, set_engine  # noqa: E402


def check_contract(c, budget):
    """-> dict(obligations, status) for one contract"""
    E = set_engine(Engine(budget_s=budget))
    out = dict(name=c.name, functions=list(c.functions), error=None, paths=0)
    t0 = time.time()
    seen = {"live": 0}

    def run():
        E.ghost["where"] = c.name
        try:
            c.fn(E)
        except PathInfeasible:
            raise
        except Failed:
            pass
        except Exception as e:
            if isinstance(e, tuple(c.allow)) if c.allow else False:
                pass
            elif E.valid(False, 3000):
                raise PathInfeasible()
            else:
                tb = traceback.extract_tb(e.__traceback__)
                fr = [f for f in tb if "/pointpats/" in f.filename]
                if (not fr and not getattr(e, "modelled", False)) or "/z3/" in tb[-1].filename:
                    raise
                if "/vc/" in tb[-1].filename and not getattr(e, "modelled", False) and (not fr or isinstance(e, (AttributeError, TypeError, NameError, ImportError, AssertionError))):
                    raise  # the engine's own fault: undecided
                loc = f"{os.path.basename(fr[-1].filename)}:{fr[-1].lineno}" if fr else f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
                E.record(f"{c.name}: no exception", False, "execution", 0.0, f"{type(e).__name__}: {e} at {loc}")
                if os.environ.get("VC_TRACE"):
                    traceback.print_exc()
        # the path is live (not vacuous): its assumptions are not contradictory as far as the solver can tell
        seen["live"] += 1
        for nm in list(E.ghost.get("frames", [])):
            if nm not in E.frames_broken:
                E.record(f"{c.name}: frame {nm} not modified", True, "evaluation", 0.0)
    try:
        E.explore(run)
    except Unsupported as e:
        out["error"] = f"outside the verified subset: {e}"
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    except Abort as e:
        out["error"] = f"budget: {e}"
    except RecursionError as e:
        out["error"] = "recursion limit"
    except Exception as e:
        out["error"] = f"engine: {type(e).__name__}: {e}" + (traceback.format_exc()[-2500:] if os.environ.get("VC_TRACE") else "")
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    if not out["error"] and not seen["live"]:
        out["error"] = "vacuous: no feasible path"
    out["obligations"] = E.obligations
    out["paths"] = E.path_no
    out["wall"] = time.time() - t0
    out["solver"] = E.solver_time
    out["calls"] = dict(E.solver_calls)
    out["assumed"] = dict(E.assumed)
    return out


_CS = []


def _one(job):
    """in a forked process of its own, so that names and therefore solver runs do not depend on the other contracts"""
    i, end = job
    return check_contract(_CS[i], max(5, end - time.time()))


def results(cs, budget, t0, jobs):
    if len(cs) == 1 or jobs == 1:
        for c in cs:
            yield check_contract(c, max(5, budget - (time.time() - t0)))
        return
    _CS[:] = cs
    import multiprocessing as mp
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        yield from pool.imap(_one, [(i, t0 + budget) for i in range(len(cs))], chunksize=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=5)
    ap.add_argument("--stop", action="store_true")
    a = ap.parse_args()
    budget = 240 if a.tier == "quick" else 1500
    t0 = time.time()
    res = dict(obligations=[], functions=[], trusted_base=[], assumptions=[], bounded=[], back_ends={}, solver_time_s=0.0, paths=0)
    set_engine(Engine(budget_s=budget))
    mod = importlib.import_module(f"vc.contracts.{a.prop}")
    cs = [c for c in harness.CONTRACTS.get(a.prop, []) if not a.only or c.name in a.only.split("|")]
    assumed = {}
    for c, r in zip(cs, results(cs, budget, t0, a.jobs)):
        res["paths"] += r["paths"]
        res["solver_time_s"] += r["solver"]
        by = {}
        for o in r["obligations"]:
            by.setdefault(o.name, []).append(o)
        for k, v in r["assumed"].items():
            assumed[k] = assumed.get(k, 0) + v
        for name, os_ in by.items():
            bad = [o for o in os_ if o.status != "discharged"]
            for o in os_:
                if o.status == "discharged":
                    res["back_ends"][o.backend] = res["back_ends"].get(o.backend, 0) + 1
            st = "discharged" if not bad else ("refuted" if not r["error"] else "open")
            res["obligations"].append(dict(name=name, status=st, paths=len(os_), secs=round(sum(o.secs for o in os_), 3), detail=bad[0].detail if bad else None))
        if r["error"]:
            res["obligations"].append(dict(name=f"{c.name}: completely executed", status="open", detail=r["error"]))
        elif not by:
            res["obligations"].append(dict(name=f"{c.name}: completely executed", status="open", detail="no obligation generated"))
        if a.stop and any(o["status"] == "refuted" for o in res["obligations"]):
            break
        res["functions"] += [f for f in c.functions if f not in res["functions"]]
        if not a.out:
            bad = [o for o in res["obligations"] if o["name"].startswith(c.name + ":") and o["status"] != "discharged"]
            print(f"{c.name}: {len(by)} obligations, {r['paths']} paths, {r['wall']:.1f}s (solver {r['solver']:.1f}s)", "OK" if not bad else "")
            for o in bad:
                print("   ", o["status"], o["name"], "|", (o.get("detail") or "")[:600])
    res["wall_s"] = round(time.time() - t0, 2)
    res["solver_time_s"] = round(res["solver_time_s"], 2)
    res["assumptions"] = [f"{k} (used {v} times)" for k, v in sorted(assumed.items())] + list(getattr(mod, "ASSUME", []))
    res["trusted_base"] = list(getattr(mod, "TRUSTED", []))
    res["bounded"] = list(getattr(mod, "BOUNDED", []))
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    else:
        print({k: res[k] for k in ("wall_s", "solver_time_s", "back_ends", "assumptions")})


if __name__ == "__main__":
    main()
