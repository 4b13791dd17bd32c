"""setup: nothing to build; checks that the interpreters and solvers the checks use are there"""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
a = subprocess.run(["/usr/local/bin/python3-vt", "-c", "import z3; print('z3', z3.get_version_string())"], env=e)
b = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, shapely, geopandas, libpysal; print('numpy', numpy.__version__)"], env=e)
sys.exit(1 if a.returncode or b.returncode else 0)
