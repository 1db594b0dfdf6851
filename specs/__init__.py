import importlib
SPECS = {}
for _m in ('view', 'buf', 'num', 'acc'):
    try:
        _mod = importlib.import_module('specs.' + _m)
    except ModuleNotFoundError as e:
        if e.name != 'specs.' + _m: raise
        continue
    SPECS.update(_mod.SPECS)
