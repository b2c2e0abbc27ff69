#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import pbt
if __name__ == "__main__":
    if sys.argv[1] == "build":
        pbt.build(sys.argv[2:] or ["all"])
        sys.exit(0)
    mod = importlib.import_module(sys.argv[1].lower())
    sys.exit(pbt.main(mod.CHECK(), sys.argv[2:]))
