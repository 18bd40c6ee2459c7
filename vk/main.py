import sys, importlib, os
from . import core
sys.path.insert(0, core.REPO)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.isdir(VT):
    sys.path.append(VT)
def run():
    import warnings
    warnings.simplefilter('ignore')
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    return core.main(mod, sys.argv[2:])
if __name__ == '__main__':
    sys.exit(run())
