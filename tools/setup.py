"""Nothing to build: checks that the interpreter, z3 and the code under test load."""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1")
code = ("import sys;sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import z3,jax,haiku;print('z3',z3.get_version_string(),'jax',jax.__version__,'haiku',haiku.__file__)")
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=env, cwd=root))
