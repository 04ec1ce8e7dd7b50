#!/opt/veriftools/pyvenv/bin/python3
"""dbg.py bc entry seconds [opt=val...]: run one entry in-process, dump the python stack after N seconds"""
import sys, os, faulthandler, time, ast
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irsym.llvmir import Module
from irsym.execute import Engine
bc, fn, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
o = {}
for a in sys.argv[4:]:
    k, v = a.split('=', 1)
    o[k] = ast.literal_eval(v)
faulthandler.dump_traceback_later(secs, exit=True)
o['deadline'] = time.time() + secs
e = Engine(Module(bc), o)
print(e.run(fn))
print(e.stats.__dict__)
for v in e.violations: print(v)
print(e.inconclusive, e.notes)
