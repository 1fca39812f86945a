"""worker: one verification unit in its own process.  worker.py SPEC UNIT IRFILE OUT"""
import sys, os, json, importlib, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
sys.setrecursionlimit(100000)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
import engine
spec = importlib.import_module(sys.argv[1])
u = [x for x in spec.UNITS if x.name == sys.argv[2]][0]
txt = open(sys.argv[3]).read() if sys.argv[3] != '-' else ''
r = engine.run_unit(u, txt)
with open(sys.argv[4] + '.tmp', 'w') as f:
    json.dump(r, f, default=str)
os.replace(sys.argv[4] + '.tmp', sys.argv[4])
