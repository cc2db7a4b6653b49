"""setup_cmd: everything is interpreted Python; verify that the interpreter and /repo import."""
import os, pathlib, subprocess, sys
root = pathlib.Path(__file__).resolve().parent.parent
(root / "evidence").mkdir(exist_ok=True)
env = dict(os.environ, PYTHONPATH=f"/repo/src:{root}", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
sys.exit(subprocess.call([sys.executable, "-c", "import torch, fastforward, ffmon.core; print(fastforward.__file__)"], env=env))
