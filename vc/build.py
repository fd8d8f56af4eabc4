"""Compile C++ text against /repo's current headers into LLVM IR (scratch directory removed at exit)."""
import os, subprocess, tempfile, atexit, shutil, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
class BuildError(Exception): pass
_dir = None; _owner = None
def scratch():
    global _dir, _owner
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='verif_'); _owner = os.getpid()
        def clean():
            if os.getpid() == _owner: shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir
CXX = ['clang++-18', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-ffp-contract=off', '-fno-discard-value-names', '-w']
def compile_bc(text, name, incs=(), extra=()):
    d = scratch(); src = os.path.join(d, name + '.cpp')
    with open(src, 'w') as f: f.write(text)
    return compile_file(src, name, incs, extra)
def compile_file(src, name, incs=(), extra=()):
    d = scratch(); o1 = os.path.join(d, name + '.raw.bc'); o2 = os.path.join(d, name + '.bc')
    cmd = CXX + list(extra) + ['-I' + REPO + '/include'] + ['-I' + i for i in incs] + ['-emit-llvm', '-c', src, '-o', o1]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError('compile failed: ' + ' '.join(cmd) + '\n' + p.stderr[:4000])
    p = subprocess.run(['opt-18', '-passes=sroa', o1, '-o', o2], capture_output=True, text=True)
    if p.returncode: raise BuildError('opt failed\n' + p.stderr[:4000])
    os.unlink(o1)
    return o2
def run_cpp(text, name, incs=(), extra=(), timeout=60, sources=(), sanitize=True):
    """compile with g++ and run; returns (rc, stdout, stderr) or raises BuildError"""
    d = scratch(); src = os.path.join(d, name + '.cpp'); exe = os.path.join(d, name + '.exe')
    with open(src, 'w') as f: f.write(text)
    cmd = ['g++', '-std=c++20', '-w', '-O0', '-g', '-fno-access-control'] + (['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'] if sanitize else []) + list(extra) + ['-I' + REPO + '/include'] + ['-I' + i for i in incs] + [src] + list(sources) + ['-o', exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError('g++ failed: ' + p.stderr[:3000])
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=timeout, env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0'})
        r = (p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired: r = (-99, '', 'timeout')
    for f in (exe, src):
        if os.path.exists(f): os.unlink(f)
    return r
