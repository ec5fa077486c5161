import os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import engine.check as C
import importlib
pid = sys.argv[1]
importlib.import_module('contracts.' + pid)
sys.exit(C.main(pid, sys.argv[2:]))
