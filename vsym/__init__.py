import os
import sys

if os.environ.get('VSYM_SRC', '/repo/src') != '/repo/src':
    # another tree: forget what the site configuration preloads
    for _k in [k for k in sys.modules if k == 'node' or k.startswith('node.')]:
        del sys.modules[_k]
    sys.path[:] = [p for p in sys.path if p != '/repo/src']
    if os.environ['VSYM_SRC'] not in sys.path:
        sys.path.insert(0, os.environ['VSYM_SRC'])
