"""Which tasks decide which property."""
import os, time
from . import build, libcheck, prover
from .ir import Module
from spec import lib as L

TRUSTED = ['clang 18 front end (C++ to LLVM IR, -O1 with passes disabled, then sroa)', 'vc: VC generator for LLVM IR (this repository)',
           'z3 4.8', 'cvc5 1.1 (fallback)', 'x86-64 little-endian data layout; IEEE 754 double, x87 long double']
# fewer obligations than this: the verification input is not what it should be (about half of what the base tree gives)
MIN_OBL = dict(C01=40000, C02=25, C03=900, C04=10000, C05=450, C06=3000, C07=500, C08=650, C09=3800, C10=13000, C11=1000,
               C12=800000, C13=800000, C14=800000, C15=800000, C16=4000, C17=5000, C18=3000, C19=100000, C20=2000, C21=600, C22=600000, C23=35000)

def finish(engines, confirm=None, ms=20000, limit=6, extra_assumed=()):
    """discharge the obligations of the engines and package the result"""
    obs = []; fails = []; fns = {}; assumed = set(extra_assumed); st = 0.0; n = 0
    for e in engines:
        for o in e.obl:
            prover.discharge(o, ms)
            obs.append(dict(name=o.name, status=o.status, backend=o.backend, time=o.time, kind=o.kind))
            if o.status == 'failed':
                f = dict(name=o.name, kind=o.kind, fn=o.fn, detail='', confirmed=False)
                if confirm is not None and n < limit and o.model is not None and isinstance(o.info, dict):
                    n += 1
                    src, bad, text = confirm(o, n)
                    f['src'] = src; f['confirmed'] = bool(bad); f['detail'] = text or ''
                if not f['confirmed']: f['detail'] += f'\nverifier output: {o.backend}: counterexample model\n{str(o.model)[:3000]}\ngoal: {str(o.goal)[:2000]}'
                fails.append(f)
        fns.update(e.called); assumed |= e.assumed; st += e.solver_time
    return dict(obligations=obs, failures=fails, functions=fns, assumed=sorted(assumed), solver_time=st)

def vacuity(e, st, name):
    r, m = e.check_sat(st.pc)
    if r != 'sat': raise RuntimeError(f'{name}: assumptions not shown satisfiable')

_mods = {}
def module(path):
    k = (os.getpid(), path)
    if k not in _mods: _mods[k] = Module(path)
    return _mods[k]

def lib_task(arg):
    path, c = arg
    m = module(path)
    engines = libcheck.check_class(m, c, 20000)
    return finish(engines, lambda o, n: libcheck.confirm(c, o, f'{c.id}_{n}'))

def plan_lib(prop):
    cl = [c for c in L.CLASSES if c.prop == prop]
    bc = build.compile_bc(libcheck.wrappers(cl), 'lib_' + prop)
    return [(c.id, lib_task, (bc, c)) for c in sorted(cl, key=lambda c: -len(c.fields))]

def frame_task(arg):
    path, c = arg
    return finish(libcheck.check_class(module(path), c, 20000, True), lambda o, n: libcheck.confirm(c, o, f'{c.id}_{n}'))
def plan_frame():
    return [(c.id, frame_task, (bc, c)) for g in ('C05', 'C06', 'C07', 'C08', 'C09') for cl in [[c for c in L.CLASSES if c.prop == g]]
            for bc in [build.compile_bc(libcheck.wrappers(cl), 'frame_' + g)] for c in cl]

def plan(prop, tier):
    if prop == 'C11': return plan_frame()
    if prop in ('C05', 'C06', 'C07', 'C08', 'C09'): return plan_lib(prop)
    raise RuntimeError('no check for ' + prop)

from . import basecheck as B
def t_packed(a):
    path, t, insts = a; m = module(path)
    return finish(B.packed_object(m, t) if insts is None else B.packed_chunk(m, t, insts), B.packed_replay)
def t_swap(a): return finish(B.swap_type(module(a[0]), a[1], a[2]), B.swap_replay)
def t_fixed(a): return finish(B.fixed_lemmas() if a[1] is None else B.fixed_chunk(module(a[0]), a[1]), B.fixed_replay, ms=120000)
def plan_c01():
    w = []
    for t in B.UT:
        bc = build.compile_bc(B.packed_src([t]), 'packed_' + t); w.append((f'packed_{t}', t_packed, (bc, t, None)))
        ins = list(B.instances(t))
        for k in range(0, len(ins), 120): w.append((f'packed_{t}_{k}', t_packed, (bc, t, ins[k:k + 120])))
    return w
def plan_c02():
    bc = build.compile_bc(B.swap_src(), 'swap'); return [(T, t_swap, (bc, T, w)) for T, w in B.ITY]
def plan_c03():
    bc = build.compile_bc(B.fixed_src(B.FMT), 'fixed')
    return [('lemmas', t_fixed, (bc, None))] + [(f'fixed_{n}', t_fixed, (bc, [q for q in B.FMT if q[0] == n])) for n in (64, 48, 32, 24, 16, 12, 8)]
def t_uuid(a): return finish(B.uuid_check(module(a[0]), a[1]), B.uuid_replay, ms=60000)
def plan_c04():
    bc = build.compile_bc(B.uuid_src(), 'uuid')
    return [('_'.join(map(str, p)) if isinstance(p, tuple) else p, t_uuid, (bc, p)) for p in (('set', True), ('ctor', True), ('set', False), ('ctor', False), 'get', 'bytes')]

# ---- generated packet classes (C12-C18)
from . import pkt, gen
from .engine import Unsupported
from spec import pkt as PK
def failure(name, detail, src=None, confirmed=False, kind='verification'):
    return dict(obligations=[dict(name=name, status='failed', backend='-', time=0.0, kind=kind)],
                failures=[dict(name=name, kind=kind, fn='', detail=detail, confirmed=confirmed, src=src)], functions={}, assumed=[], solver_time=0.0)
def t_pkt(a):
    prop, name = a
    sp = next(c for c in PK.CORPUS if c.name == name); sem = pkt.Sem(sp)
    d = os.path.join(build.scratch(), f'{prop}_{name}')
    try: gen.generate(sp.yaml(), d)
    except gen.GenError as x: return failure(f'{name}: the generator accepts the specification', f'{x}\n\nspecification:\n{sp.yaml()}', confirmed=True)
    inc = f'#include "{sp.file}.cpp"\n'
    try: bc = build.compile_bc(pkt.wrappers(sp) + inc, f'{prop}_{name}', [d])
    except build.BuildError as x:
        try: build.compile_bc(inc, f'{prop}_{name}_own', [d]); own = False
        except build.BuildError: own = True
        return failure(f'{name}: the generated class ' + ('compiles' if own else 'offers its documented interface'), f'{x}\n\nspecification:\n{sp.yaml()}', src=inc if own else pkt.wrappers(sp) + inc, confirmed=True)
    done = []
    def conf(o, n):
        if len(done) >= 1: return None, False, ''
        r = pkt.confirm(sem, prop, o, n, d)
        if r[1]: done.append(1)
        return r
    try: r = finish(pkt.PV(module(bc), sp).check(prop), conf, limit=3)
    except Unsupported as x:
        src, bad, text = pkt.probe(sem, prop, d)
        r = failure(f'{name}: every operation keeps its contract', f'the verifier cannot decide the obligation: {x}\n{text}', src, bad)
    r['bounded'] = [f'set of packet specifications: the corpus of spec/pkt.py ({len(PK.CORPUS)} classes)']
    return r
# ---- user-defined bit fields of generated packet classes (C20)
from spec import ud as UD
def t_ud(u):
    d = os.path.join(build.scratch(), 'C20_' + u.name)
    try: gen.generate(u.yaml(), d)
    except gen.GenError as x: return failure(f'{u.name}: the generator accepts the specification', f'{x}\n\nspecification:\n{u.yaml()}', confirmed=True)
    c = u.cls(); inc = f'#include <{c.header}>\n#include <{c.impl}>\n'
    try: bc = build.compile_bc(libcheck.wrappers([c]), 'C20_' + u.name, [d])
    except build.BuildError as x:
        try: build.compile_bc(inc, f'C20_{u.name}_own', [d]); own = False
        except build.BuildError: own = True
        return failure(f'{u.name}: the generated structure ' + ('compiles' if own else 'offers the specified sub-fields'), f'{x}\n\nspecification:\n{u.yaml()}', confirmed=True)
    r = finish(libcheck.check_class(module(bc), c, 20000), lambda o, n: libcheck.confirm(c, o, f'{c.id}_{n}', [d]))
    r['bounded'] = [f'set of specifications: spec/ud.py ({len(UD.UDS)} accepted, {len(UD.REFUSED)} refused)']
    return r
def t_refused(u):
    d = os.path.join(build.scratch(), 'C20_' + u.name)
    try: gen.generate(u.yaml(), d)
    except gen.GenError: return dict(obligations=[dict(name=f'{u.name}: a specification without room for disjoint sub-fields is refused', status='proved', backend='execution', time=0.0, kind='case')], failures=[], functions={}, assumed=[], solver_time=0.0)
    return failure(f'{u.name}: a specification without room for disjoint sub-fields is refused', f'accepted:\n{u.yaml()}', confirmed=True, kind='case')
def plan_ud():
    build.scratch()
    return [(u.name, t_ud, u) for u in UD.UDS] + [(u.name, t_refused, u) for u in UD.REFUSED]
def plan_pkt(prop, tier):
    build.scratch()
    some = [c.name for c in PK.CORPUS if c.ack == 'vx' and c.weight() <= 9][::3]    # all of them are under C19
    use = {'C18': lambda c: c.kind == 'data', 'C19': lambda c: c.ack == 'vx'}.get(prop, lambda c: c.ack != 'vx' or prop in ('C16', 'C17', 'C22') or c.name in some)
    skip = ('AckB105',) if prop == 'C22' and tier == 'quick' else ()     # seven minutes of its own
    return [(c.name, t_pkt, (prop, c.name)) for c in sorted(PK.CORPUS, key=lambda c: (prop != 'C22' or not c.name.startswith('AckB10'), -c.weight())) if use(c) and c.name not in skip]

# ---- variable-size fields (C10)
from . import varcheck as VC
_c10 = []
def t_var(a):
    path, t = a; key = '_'.join(map(str, t))
    def conf(o, n):
        if not _c10: _c10.append(VC.probe(key))
        return _c10[0]
    try: r = finish(VC.check(module(path), t), conf, limit=1)
    except Unsupported as x:
        src, bad, text = VC.probe(key)
        r = failure(f'{key}: the field keeps its contract', f'the verifier cannot decide the obligation: {x}\n{text}', src, bad)
    r['assumed'] = sorted(set(r['assumed']) | {'counts within the width of the count sub-fields; GPS sentences up to 2^28 words; every record of a sector/step-scan array has the size of the first, a whole number of words'})
    return r
def plan_var():
    try: bc = build.compile_bc(VC.SRC, 'C10_var')
    except build.BuildError as x: return [('interface', lambda a: failure('the variable-size field classes offer their documented interface', a), str(x))]
    we = [c for c in L.CLASSES if c.cpp.endswith('WarningErrorFields')]
    wbc = build.compile_bc(libcheck.wrappers(we), 'C10_we')
    return [('_'.join(map(str, t)), t_var, (bc, t)) for t in sorted(VC.TASKS, key=lambda t: t[0] != 'cal')] + [(c.id, lib_task, (wbc, c)) for c in we]

# ---- literals of a specification (C21)
def t_lit(names):
    from . import literals
    return literals.check(build.REPO, set(names))
def plan_lit():
    from spec import literals as SL
    ns = [c.name for c in SL.cases()]; k = 24
    return [(f'literals_{i}', t_lit, ns[i::k]) for i in range(k)] + [(c.name.replace(' ', '_'), t_lit, [c.name]) for c in SL.name_cases()]

# ---- transport (C23)
def t_sock(a):
    from . import sockcheck
    path, K, D, part = a
    def add(r, pre=''):
        src, bad, text = sockcheck.replay(None, f'{K}{D}{part}')
        for f in r['failures'][:1]: f['src'] = src; f['confirmed'] = bool(bad); f['detail'] = pre + (text or '') + f['detail']
        return r
    try: r = finish(sockcheck.task(module(path), K, D, part))
    except Unsupported as x: return add(failure(f'{K}::v{D} {part}: every operation keeps its contract', ''), f'the verifier cannot decide the obligations: {x}\n')
    return add(r) if r['failures'] else r
def plan_sock():
    from . import sockcheck
    bc = build.compile_bc(sockcheck.source(), 'sock')
    return [(f'{K}_v{D}_{part}', t_sock, (bc, K, D, part)) for part in ('strings', 'sockets', 'endpoints') for D in (6, 4) for K in ('udp', 'tcp')]

_plan0 = plan
def plan(prop, tier):
    f = {'C01': plan_c01, 'C02': plan_c02, 'C03': plan_c03, 'C04': plan_c04, 'C10': plan_var, 'C20': plan_ud, 'C21': plan_lit, 'C23': plan_sock}.get(prop)
    if prop in ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C22'): return plan_pkt(prop, tier)
    return f() if f else _plan0(prop, tier)
