"""Runs /repo's packet class generator (its own command line program, vrtgen.main) on a specification."""
import os, subprocess
from . import build
PY = '/opt/vrtgen-venv/bin/python'
DRIVER = """
import sys, types
sys.path.insert(0, sys.argv[1] + '/src')
import pkg_resources
def load():
    from vrtgen.backend.cpp import CppGenerator
    return CppGenerator
# the registered back end, without the egg-info directory a build leaves behind
pkg_resources.iter_entry_points = lambda group: [types.SimpleNamespace(name='cpp', dist=types.SimpleNamespace(version='0'), load=load)]
sys.argv = ['vrtpktgen'] + sys.argv[2:]
from vrtgen import main
main.main()
"""
class GenError(Exception): pass
def generate(yaml, d, ns='X_ns', base='x'):
    """files of the specification text `yaml` (and the files it includes, after lines "#@file NAME") in directory d; returns their names"""
    os.makedirs(d, exist_ok=True); src = os.path.join(d, base + '.yaml')
    yaml, *more = yaml.split('#@file ')
    with open(src, 'w') as f: f.write(yaml)
    for m in more:
        n, t = m.split('\n', 1)
        with open(os.path.join(d, n), 'w') as f: f.write(t)
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}; env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PY, '-W', 'ignore', '-c', DRIVER, build.REPO, 'cpp', '--dir', d, '--namespace', ns, src], cwd=d, capture_output=True, text=True, env=env, timeout=120)
    if p.returncode: raise GenError(f'vrtpktgen exits with {p.returncode}\n{p.stderr[-3000:]}')
    out = sorted(n for n in os.listdir(d) if n.endswith(('.hpp', '.cpp')))
    if not out: raise GenError('vrtpktgen wrote no file\n' + p.stderr[-3000:])
    return out
