"""mkseed(id, prop, edits, demo (C++), needs, breaks, yaml=None): writes /verif/seeded/<id> after checking the demo both ways in a scratch copy"""
import os, subprocess, json, shutil, tempfile, sys
V = '/verif/seeded'
SH_LIB = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++20 -w -I include "$here/demo.cpp" -o "$t/demo" && timeout 60 "$t/demo"
'''
SH_GEN = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=src $PY -W ignore -m vrtgen.main cpp --dir "$t" --namespace demo_ns "$here/demo.yaml" || exit 2
g++ -std=c++20 -w SAN -I include -I "$t" "$here/demo.cpp" "$t"/*.cpp -o "$t/demo" && ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
'''
SH_PY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=src timeout 60 $PY -W ignore "$here/demo.py"
'''
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
def mk(id, prop, edits, demo, needs, breaks, yaml=None, san='', py=False):
    d = f'{V}/{id}'; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp', prefix='seed_')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {t}', shell=True, check=True)
        run(['git', 'init', '-q'], t); run(['git', 'add', '-A'], t); run(['git', '-c', 'user.name=a', '-c', 'user.email=a@b', 'commit', '-qm', 'x'], t)
        sh = SH_PY if py else SH_GEN.replace('SAN', san) if yaml else SH_LIB
        open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
        open(d + ('/demo.py' if py else '/demo.cpp'), 'w').write(demo)
        if yaml: open(d + '/demo.yaml', 'w').write(yaml)
        a = run(['bash', d + '/demo.sh'], t)
        for f, old, new in edits:
            p = f'{t}/{f}'; s = open(p).read()
            if s.count(old) < 1: print(id, 'NOT FOUND', f, old); return
            if s.count(old) > 1: print(id, 'ambiguous, first of', s.count(old))
            open(p, 'w').write(s.replace(old, new, 1))
        b = run(['bash', d + '/demo.sh'], t)
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], t).stdout)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print(id, 'OK' if ok else 'BAD', a.returncode, b.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else '', '|', (b.stdout + b.stderr)[-200:])
    finally: shutil.rmtree(t)
