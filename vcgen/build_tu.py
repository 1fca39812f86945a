import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
try:
    engine.build_ir(os.path.join(engine.VERIF, 'units', sys.argv[1]), sys.argv[2], sys.argv[3:])
except engine.BuildError as e:
    print(e)
    sys.exit(1)
