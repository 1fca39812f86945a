import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
m = importlib.import_module(sys.argv[1])
tier = os.environ.get('VERIF_TIER', 'quick')
print(json.dumps([{'name': u.name, 'tu': u.tu, 'extra': list(u.extra), 'functions': list(u.functions), 'weight': u.options.get('weight', 1), 'limit': u.options.get('limit', 420)}
                  for u in m.UNITS if tier == 'thorough' or not u.options.get('thorough')]))
