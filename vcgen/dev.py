"""development driver: python3-vt dev.py c05 [unit...]"""
import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
import engine
from ir import Module
spec = importlib.import_module(sys.argv[1])
mods = {}
for u in spec.UNITS:
    if len(sys.argv) > 2 and u.name not in sys.argv[2:]:
        continue
    if u.tu not in mods:
        t = time.time()
        mods[u.tu] = engine.build_ir(os.path.join(engine.VERIF, 'units', u.tu), '/tmp/w/dev_%s.ll' % u.tu, u.extra)
        print('ir', round(time.time() - t, 1))
    r = engine.run_unit(u, mods[u.tu], trace=not os.environ.get('Q'))
    print('==', u.name, r['status'], r['reason'][:300], len(r['obligations']), 'inproc', r['inproc'], 'time', r['time'], 'solver', r['solver'])
