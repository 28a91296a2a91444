import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib']
import build
for name in build.DRIVERS:
    for var in (['cheb_c', 'fd_c'] if name in ('radial', 'grid', 'eom', 'io', 'sphere') else ['cheb_c']):
        try:
            build.driver(name, 'plain', var)
        except (build.BuildError, FileNotFoundError) as e:
            print('setup: skipped', name, var, str(e)[:200])
print('setup done')
