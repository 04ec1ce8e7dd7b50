#!/opt/veriftools/pyvenv/bin/python3
"""prof.py bc entry seconds [opt=val...]: cProfile of one entry"""
import sys, os, ast, time, cProfile, pstats, signal
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irsym.llvmir import Module
from irsym.execute import Engine
o = {}
for a in sys.argv[4:]:
    k, v = a.split('=', 1)
    o[k] = ast.literal_eval(v)
e = Engine(Module(sys.argv[1]), o)
e.deadline = time.time() + float(sys.argv[3])


def h(*a):
    raise KeyboardInterrupt


signal.signal(signal.SIGALRM, h)
signal.alarm(int(float(sys.argv[3])))
pr = cProfile.Profile()
pr.enable()
try:
    print(e.run(sys.argv[2]))
except BaseException as x:
    print(type(x), x)
pr.disable()
print(e.stats.instrs, e.stats.paths, e.stats.solver_s)
pstats.Stats(pr).sort_stats('cumtime').print_stats(30)
