"""Discharge of obligations: syntactic, z3 (plain, then with floating-point products abstracted), cvc5."""
import z3, time, subprocess, tempfile, os
from .dom import *

def _abstract_fp(fs):
    """replace floating-point products/quotients (with all their occurrences) by fresh variables; validity of the
    result implies validity of the original"""
    seen = {}; subs = []
    def walk(t):
        i = t.get_id()
        if i in seen: return
        seen[i] = t
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
            subs.append((t, z3.FreshConst(t.sort(), 'abs'))); return
        for c in t.children(): walk(c)
    for f in fs: walk(f)
    if not subs: return None
    return [z3.substitute(f, *subs) for f in fs]

def check(fs, ms):
    s = z3.Solver(); s.set('timeout', int(ms))
    for f in fs: s.add(f)
    r = s.check()
    return str(r), (s.model() if r == z3.sat else None)

def cvc5_check(fs, ms):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        p = subprocess.run(['cvc5', f'--tlimit={int(ms)}', '--fp-exp', f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
        out = p.stdout.strip().split('\n')[0]
    except Exception: out = 'unknown'
    os.unlink(f.name)
    return out if out in ('sat', 'unsat') else 'unknown'

_cache = {}      # identical formula -> earlier result (terms are hash-consed; references kept alive)
def discharge(o, ms=20000):
    if o.status is not None: return o
    t = time.time()
    key = (tuple(sorted(x.get_id() for x in o.pc)), o.goal.get_id())
    hit = _cache.get(key)
    if hit is not None:
        o.status, o.backend = hit[0].status, hit[0].backend; o.model = hit[0].model; return o
    _cache[key] = (o, list(o.pc), o.goal)
    neg = list(o.pc) + [z3.Not(o.goal)]
    fp = _abstract_fp(neg)
    if fp is not None:
        r, m = check(fp, min(ms, 15000))
        if r == 'unsat':
            o.status = 'proved'; o.backend = 'z3'; o.time = time.time() - t; return o
    r, m = check(neg, ms)
    if r == 'unsat': o.status = 'proved'; o.backend = 'z3'
    elif r == 'sat': o.status = 'failed'; o.model = m; o.backend = 'z3'
    else:
        r = cvc5_check(neg, ms)
        if r == 'unsat': o.status = 'proved'; o.backend = 'cvc5'
        else: o.status = 'unknown' if r != 'sat' else 'failed'; o.backend = 'cvc5'
    o.time = time.time() - t
    return o
