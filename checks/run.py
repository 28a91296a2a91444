#!/usr/bin/env python3-vt
"""run.py <property id>: exit 0 held, 1 violated (VIOLATION line), 2 inconclusive."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
os.environ.setdefault('OPENBLAS_NUM_THREADS', '4')
sys.dont_write_bytecode = True
import importlib
MODULES = {
    'radial': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06'],
    'basics': ['C07', 'C08', 'C09'],
    'scripts': ['C10', 'C11', 'C12', 'C13'],
    'spheres': ['C14', 'C15', 'C16', 'C17', 'C18'],
    'grids': ['C19', 'C20', 'C21', 'C22'],
    'physics': ['C23', 'C24', 'C25', 'C26', 'C27'],
    'output': ['C28', 'C29'],
    'longrun': ['C33', 'C34'],
    'hermetic': ['C35', 'C36'],
    'purity': ['C37'],
    'launch': ['C38', 'C39'],
    'faults': ['C40'],
    'runtime': ['C30', 'C31', 'C32'],
}
if __name__ == '__main__':
    import core
    pid = sys.argv[1]
    mod = next((m for m, ids in MODULES.items() if pid in ids), None)
    if mod is None:
        sys.exit(f'unknown property {pid}')
    m = importlib.import_module(mod)
    core.main({pid: getattr(m, pid)})
