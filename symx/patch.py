"""Import /repo/src modules and, for symbolic runs, rebind numpy/scipy names in them."""
import sys, os, importlib, warnings
REPO = os.environ.get('QM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MODS = ['mesh', 'fem', 'function', 'assembler', 'solver', 'spd', 'gmrf']

def setup_path():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if SRC in sys.path: sys.path.remove(SRC)
    sys.path.insert(0, SRC)

def load(mods, symbolic):
    setup_path()
    out = {}
    for m in mods:
        out[m] = importlib.import_module(m)
        f = os.path.realpath(out[m].__file__)
        assert f.startswith(os.path.realpath(SRC)), f
    if symbolic:
        apply([m for n, m in sys.modules.items() if getattr(m, '__file__', None) and os.path.realpath(m.__file__).startswith(os.path.realpath(SRC) + os.sep)])
    return out

def apply(modules):
    import numpy as np, scipy, scipy.sparse as sparse, scipy.linalg as sla, scipy.sparse.linalg as spla
    from . import npshim
    from . import spshim
    table = {id(np): npshim.NP, id(np.linalg): npshim.NP.linalg, id(sparse): spshim.SPARSE, id(sla): spshim.LINALG,
             id(spla): spshim.SPLA, id(scipy): spshim.SCIPY}
    for real, shim in ((np, npshim.NP), (np.linalg, npshim.NP.linalg), (sparse, spshim.SPARSE), (sla, spshim.LINALG), (spla, spshim.SPLA)):
        for k in dir(type(shim)):
            if k.startswith('_') or not hasattr(real, k): continue
            r = getattr(real, k)
            if callable(r): table[id(r)] = getattr(shim, k)
    table.update(spshim.extra_table())
    import builtins, math
    for m in modules:
        for k, v in list(vars(m).items()):
            if k.startswith('__'): continue
            s = table.get(id(v))
            if s is not None: setattr(m, k, s)
        for k, v in spshim.BUILTINS.items():
            if k not in vars(m): setattr(m, k, v)
