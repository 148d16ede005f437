"""Usage: run.py PROPERTY [--thorough] [--replay FILE] [--only TEXT] [--timing]"""
import os
import sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
sys.exit(core.main(sys.argv[1], sys.argv[2:]))
