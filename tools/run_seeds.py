"""apply each planted bug to a scratch copy of /repo and run its property's check against it (VERIF_REPO)"""
import json, os, subprocess, sys, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, "seeded")))
for i in ids:
    d = os.path.join(H, "seeded", i)
    w = "/tmp/wseedrun"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = time.time()
    r = subprocess.run(["python3", "check.py", p], cwd=H, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    print(i, r.returncode, f"{time.time()-t:.0f}s", r.stdout.strip().splitlines()[:3], r.stderr[-300:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
