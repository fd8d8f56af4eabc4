"""C21: the contracts of spec/literals.py, discharged over every path of the real parser code for every input."""
import os, sys, json, subprocess, time
import z3
from . import pysym as Y
from spec import literals as S

VENV = '/opt/vrtgen-venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class SName(Y.SStr, str):
    """a mapping key of any text"""
    def __new__(cls, t): return str.__new__(cls, 'any name')
    def __init__(s, t): Y.SStr.__init__(s, t)
    def __hash__(s): return str.__hash__(s)
    def __eq__(s, o): return Y.SStr.__eq__(s, o)
    def __ne__(s, o): return Y.snot(Y.SStr.__eq__(s, o))
    def __str__(s): return 'any name'
    __repr__ = __str__

s0 = z3.String('s'); i0 = z3.Int('i'); b0 = z3.Bool('b'); f0 = z3.Bool('float_is_whole'); f1 = z3.Int('float_truncated')
def inputs():
    return dict(str=lambda: Y.SStr(s0), int=lambda: Y.SInt(i0), bool=lambda: Y.SBool(b0), none=lambda: None, float=lambda: Y.SFloat(f0, f1),
                list=lambda: Y.SOpaque(list), dict=lambda: Y.SOpaque(dict))
def ascii_ci(k): return Y.r_cat([Y.r_chars({ord(c.lower()), ord(c.upper())}) for c in k])
def hexpart(o, n): return Y.HEXV(z3.SubString(s0, o, n))
H2 = Y.r_cat([Y.HEX, Y.HEX]); OUI = Y.r_cat([H2, Y.r_lit('-'), H2, Y.r_lit('-'), H2])
RESERVED = Y.r_cat([Y.r_chars({ord(c.lower()), ord(c)}) for c in '00-12-A2'])
# facts about the numbers hexadecimal digits write (HEXV), for texts of the form of an OUI
AX = z3.Implies(z3.InRe(s0, OUI), z3.And(*[z3.And(hexpart(k, 2) >= 0, hexpart(k, 2) < 256, hexpart(k, 2) == 16 * hexpart(k, 1) + hexpart(k + 1, 1), hexpart(k, 1) >= 0, hexpart(k, 1) < 16, hexpart(k + 1, 1) >= 0, hexpart(k + 1, 1) < 16) for k in (0, 3, 6)],
    (hexpart(0, 2) * 65536 + hexpart(3, 2) * 256 + hexpart(6, 2) == 0x12A2) == z3.InRe(s0, RESERVED)))
DEC = z3.Plus(Y.DIG); HEXN = Y.r_cat([Y.r_lit('0x'), z3.Plus(Y.HEX)]); HEXM = Y.r_cat([Y.r_lit('0'), Y.r_chars([88, 120]), z3.Plus(Y.HEX)])
def cond(inp, kind, spelled):
    """(permitted, demanded, constraint on the resulting number as a function of it)"""
    k = inp.kind; a = inp.a; F = z3.BoolVal(False); T = z3.BoolVal(True)
    if k == 'kw': return (z3.InRe(s0, Y.preimage(('casefold',), a[0])), z3.InRe(s0, ascii_ci(a[0])), None) if kind == 'str' else (F, F, None)
    if k == 'text': return (s0 == Y.lit(a[0]),) * 2 + (None,) if kind == 'str' else (F, F, None)
    if k == 'none': return (T, T, None) if kind == 'none' else (F, F, None)
    if k == 'bool': return (b0 == a[0],) * 2 + (None,) if kind == 'bool' else (F, F, None)
    if k == 'int':
        if kind != 'int': return F, F, None
        c = z3.And(i0 >= a[0], i0 <= a[1]) if a[1] is not None else i0 >= a[0]
        return c, c, lambda t: t == i0
    if k == 'oui':
        if kind != 'str': return F, F, None
        v = hexpart(0, 2) * 65536 + hexpart(3, 2) * 256 + hexpart(6, 2); c = z3.And(z3.InRe(s0, OUI), z3.Not(z3.InRe(s0, RESERVED)))
        return c, c, lambda t: t == v
    if k == 'number':
        if kind != 'str': return F, F, None
        n = z3.StrToInt(s0); dec = z3.InRe(s0, DEC); hx = z3.InRe(s0, HEXN)
        hv = Y.HEXV(z3.SubString(s0, 2, z3.Length(s0) - 2))
        must = z3.Or(z3.And(dec, n <= a[0]), z3.And(hx, hv <= a[0]))
        def num(t):
            other = z3.Or(*[t == x for x in spelled]) if spelled else z3.BoolVal(False)
            return z3.And(t >= 0, t <= a[0], z3.If(dec, t == n, z3.If(hx, t == hv, z3.Or(other, z3.And(z3.InRe(s0, HEXM), t == hv)))))
        return z3.BoolVal(True), must, num
    raise KeyError(k)
def eq(g, w):
    """the value g found is the expected w: a z3 condition"""
    import enum
    if isinstance(g, enum.Enum): g = int(g) if isinstance(g, int) else f'{type(g).__name__}.{g.name}'
    if isinstance(w, bool):
        return g.c == w if isinstance(g, Y.SBool) else z3.BoolVal(g is w)
    if isinstance(g, Y.SInt): return g.t == w if isinstance(w, int) else z3.BoolVal(False)
    if isinstance(g, Y.SStr): return g.t == Y.lit(w) if isinstance(w, str) and not g.fns else z3.BoolVal(False)
    if isinstance(g, Y.Sym) or isinstance(g, bool): return z3.BoolVal(False)
    return z3.BoolVal(g == w and type(w) is type(g) or g == w and isinstance(g, (int, list, str)) and not isinstance(g, bool))
def unchanged(x, y):
    if x is y: return z3.BoolVal(True)
    if isinstance(x, Y.SBool) and isinstance(y, (Y.SBool, bool)) or isinstance(y, Y.SBool) and isinstance(x, bool): return Y.zbool(x) == Y.zbool(y)
    if isinstance(x, Y.Sym) or isinstance(y, Y.Sym):
        if isinstance(x, Y.SInt) and isinstance(y, Y.SInt): return x.t == y.t
        return z3.BoolVal(False)
    return z3.BoolVal(type(x) == type(y) and x == y)
def effects(eff, before, after, number):
    import builtins
    out = []
    for p in set(before) | set(after):
        if p in eff:
            w = eff[p]
            if w is S.ANYV: continue
            if p not in after: return z3.BoolVal(False)
            g = after[p]
            if w is S.SAME:
                if isinstance(g, bool) or not isinstance(g, (int, Y.SInt)): return z3.BoolVal(False)
                out.append(number(g.t if isinstance(g, Y.SInt) else z3.IntVal(int(g))))
            else: out.append(eq(g, w))
        elif S.covered(p, eff) is S.ANYV: continue
        else:
            if (p in before) != (p in after): return z3.BoolVal(False)
            out.append(unchanged(before[p], after[p]))
    for p in eff:
        if p not in after and not p.endswith('*') and eff[p] is not S.ANYV: return z3.BoolVal(False)
    return z3.And(*out) if out else z3.BoolVal(True)

class Ob:
    def __init__(s, name, status, t, model=None, detail='', kind='contract'): s.name = name; s.status = status; s.time = t; s.model = model; s.detail = detail; s.kind = kind
def prove(pc, goal, name, out, detail, ctx):
    t = time.time(); g = z3.simplify(goal)
    if any('hexval' in str(p.decl()) or 'hexval' in p.sexpr() for p in pc + [g]): pc = list(pc) + [AX]
    if z3.is_true(g): out.append(Ob(name, 'proved', 0.0)); out[-1].backend = 'engine'; return
    s = z3.Solver(); s.set('timeout', 30000)
    for p in pc: s.add(p)
    s.add(z3.Not(g)); r = s.check()
    o = Ob(name, {'unsat': 'proved', 'sat': 'failed'}.get(str(r), 'unknown'), time.time() - t, s.model() if str(r) == 'sat' else None, detail); o.backend = 'z3'
    if o.status == 'unknown':
        o.status = cvc5(s); o.backend = 'cvc5'; o.time = time.time() - t
    o.ctx = ctx; out.append(o)
def cvc5(s):
    try:
        q = '(set-logic ALL)\n(set-option :strings-exp true)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=60000', '--lang=smt2'], input=q, capture_output=True, text=True, timeout=90)
        w = r.stdout.split('\n')[0].strip()
        return {'unsat': 'proved', 'sat': 'failed'}.get(w, 'unknown')
    except Exception: return 'unknown'

def check_case(case, M):
    obs = []
    for kind in case.kinds:
        mk = inputs()[kind]
        def run():
            syms = {}
            def st(n):
                if n not in syms: syms[n] = Y.SBool(z3.Bool('before:' + n))
                return syms[n]
            root, call = case.make(M, st); before = S.snap(root)
            try: call(mk()); k, x = 'return', None
            except Exception as e: k, x = 'raise', e
            return k, x, before, S.snap(root), st, list(Y.R.ints.values())
        paths = Y.explore(run)
        for n, (pc, kk, r) in enumerate(paths):
            if kk == 'raise': raise Y.Unsupported(f'{case.name}: {type(r).__name__}: {r}')
            k, x, before, after, st, spelled = r
            zst = lambda nm: st(nm).c
            And = lambda *a: z3.And(*a); Not = lambda a: z3.Not(a)
            conds = [(cond(q.inp, kind, spelled), q, z3.BoolVal(True) if q.when is None else q.when(zst, And, Not)) for q in case.rules]
            if k == 'return':
                goal = z3.Or(*[z3.And(may, w, effects(q.eff, before, after, num)) for (may, must, num), q, w in conds])
                nm = f'{case.name}({kind}) path {n}: the result is what the literal denotes, nothing else changes'
            else:
                goal = z3.And(*[z3.Not(z3.And(must, w)) for (may, must, num), q, w in conds if q.demand and q.inp.must])
                nm = f'{case.name}({kind}) path {n}: no literal that denotes a value is refused'
            prove(pc, goal, nm, obs, f'the call {"raises " + type(x).__name__ if k == "raise" else "returns"}', (case.name, kind, sorted(before)))
    return obs
def check_names(case, M):
    obs = []
    def run():
        o = getattr(M(case.mod), case.cls)(); before = S.snap(o); k = SName(s0)
        f = getattr(o, 'validate_and_parse_mapping', None) or o.parse_mapping
        try: f(**{k: case.value}); k, x = 'return', None
        except Exception as e: k, x = 'raise', e
        return k, x, before, S.snap(o)
    for n, (pc, kk, r) in enumerate(Y.explore(run)):
        k, x, before, after = r
        if k == 'return':
            goal = z3.Or(*[z3.And(s0 == Y.lit(nm), effects(case.eff(nm), before, after, None)) for nm in case.names])
            name = f'{case.name} path {n}: only a field name is accepted, and it acts on its field alone'
        else:
            goal = z3.And(*[s0 != Y.lit(nm) for nm in case.names if nm not in S.IGNORED])
            name = f'{case.name} path {n}: no field name is refused'
        prove(pc, goal, name, obs, '', (case.name, 'str', []))
    return obs

def concrete(model, kind, names):
    ev = lambda t: model.eval(t, model_completion=True)
    def text(t):
        v = ev(t); x = v.as_string() if hasattr(v, 'as_string') else str(v)
        import re
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), x)
    v = dict(str=lambda: text(s0), int=lambda: ev(i0).as_long(), bool=lambda: z3.is_true(ev(b0)), none=lambda: None,
             float=lambda: float(ev(f1).as_long()) + (0.0 if z3.is_true(ev(f0)) else 0.5), list=lambda: ['a'], dict=lambda: {'a': 'b'})[kind]()
    state = {}
    for d in model.decls():
        if d.name().startswith('before:'): state[d.name()[7:]] = z3.is_true(model[d])
    return v, state
SCRIPT = '''import sys, json
sys.path[:0] = [{src!r}, {here!r}]; sys.dont_write_bytecode = True
from spec import literals as S
which = {which!r}; worst = None
{order}for v, state in {items!r}:
    why = S.replay(which, v, state)
    if why: print('literal %r, state %r: %s' % (v, {{k: x for k, x in state.items() if x}}, why)); sys.exit(1)
print('the contract holds on these inputs')
'''
def replay(repo, which, items):
    src = SCRIPT.format(src=os.path.join(repo, 'src'), here=HERE, which=which, items=items, order='import vrtgen.parser\n')
    try: r = subprocess.run([VENV, '-c', src], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired: return src, False, 'replay ran out of time'
    return src, r.returncode == 1 and r.stdout.startswith('literal') or r.returncode != 0 and 'literal ' in r.stdout, r.stdout + r.stderr[-2000:]
_imp = {}
def importer(repo):
    k = (os.getpid(), repo)
    if k not in _imp:
        _imp[k] = Y.load(repo); _imp[k]('vrtgen.parser')
    return _imp[k]
def check(repo, names):
    """result of the tasks named"""
    t0 = time.time(); obs = []; fails = []; fns = {}
    cs = [c for c in S.cases() + S.name_cases() if c.name in names]
    M = importer(repo)
    for c in cs:
        isn = isinstance(c, S.NameCase)
        try: os_ = check_names(c, M) if isn else check_case(c, M)
        except (Y.Unsupported, Exception) as x:
            items = [(v, {}) for v in S.battery(c)] if not isn else [(v, {}) for v in c.names + ['x', 'no_such_field', c.names[0].upper(), c.names[0] + 's', '']]
            src, bad, text = replay(repo, c.name, items)
            obs.append(dict(name=f'{c.name}: every path keeps the contract', status='failed', backend='-', time=0.0, kind='contract'))
            fails.append(dict(name=f'{c.name}: every path keeps the contract', kind='contract', fn=c.anchor, detail=f'the verifier cannot decide the obligation: {type(x).__name__}: {x}\n{text}', confirmed=bad, src=src)); continue
        n = 0
        for o in os_:
            obs.append(dict(name=o.name, status=o.status, backend=o.backend, time=o.time, kind=o.kind))
            if o.status == 'failed':
                f = dict(name=o.name, kind=o.kind, fn=c.anchor, detail=o.detail, confirmed=False)
                if n < 4:
                    n += 1
                    items = []
                    if o.model is not None: items.append(concrete(o.model, o.ctx[1], o.ctx[2]))
                    src, bad, text = replay(repo, c.name, items)
                    if not bad and n == 1 and not isn: src, bad, text = replay(repo, c.name, [(v, {}) for v in S.battery(c)])
                    f.update(src=src, confirmed=bad, detail=f'{o.detail}\nreplay on the real code: {text}\nverifier output: z3: counterexample model\n{str(o.model)[:1500]}')
                fails.append(f)
        fns[c.anchor + (('.' + c.name) if '.' not in c.name else '')] = len(os_)
    return dict(obligations=obs, failures=fails, functions=fns, assumed=['strings over code points up to U+2FFFF; case mappings of the running Python',
                'numbers Python reads from texts other than plain decimal or hexadecimal digits (signs, underscores, white space, other scripts): any number in range'], solver_time=Y.STAT['time'])
