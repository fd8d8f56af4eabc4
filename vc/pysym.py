"""Symbolic execution of /repo's Python parser code, every path, for inputs of unbounded size.

The modules under src/vrtgen are loaded from their current source through an import hook which rewrites each
operation that could meet a symbolic value (calls, subscripts, `in`, `%`, f-strings) into a call of a dispatcher below; for
concrete values the dispatcher performs the original operation. Nothing else of the source is changed or dropped. A run
executes the real function once per feasible path: a branch on a symbolic truth value asks z3 which outcomes the path
condition allows and takes one, the others are queued and taken by further runs. A path whose meaning is not modelled
raises Unsupported, which fails the contract being proved.

Strings are z3 sequences over code points up to 0x2FFFF; case mappings are the ones of the running Python."""
import ast, sys, os, importlib, importlib.abc, importlib.util, builtins, re, types, enum, io
import z3
try: from re import _parser as sre_parse, _constants as sre
except ImportError: import sre_parse, sre_constants as sre

class Unsupported(BaseException): pass
class Dead(BaseException): pass          # path condition unsatisfiable
MAXCH = 0x2FFFF

# ---- case maps
_maps = {}
def charmap(fn):
    m = _maps.get(fn)
    if m is None:
        m = {}
        for c in range(MAXCH + 1):
            if 0xD800 <= c <= 0xDFFF: continue
            s = getattr(chr(c), fn)()
            m.setdefault(s, []).append(c)
        _maps[fn] = m
    return m
def ch(c): return z3.StringVal(chr(c)) if 32 <= c < 127 and chr(c) != '\\' else z3.Unit(z3.CharVal(c)) if hasattr(z3, 'CharVal') else z3.StringVal('\\u{%x}' % c)
def lit(s): return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))
def r_lit(s): return z3.Re(lit(s))
def r_alt(rs):
    rs = list(rs)
    if not rs: return z3.Empty(z3.ReSort(z3.StringSort()))
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
def r_cat(rs):
    rs = list(rs)
    if not rs: return r_lit('')
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)
def r_chars(cs):
    cs = sorted(set(cs)); out = []; i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        out.append(z3.Re(lit(chr(cs[i]))) if i == j else z3.Range(lit(chr(cs[i])), lit(chr(cs[j]))))
        i = j + 1
    return r_alt(out)
def r_any(): return z3.Range(lit('\0'), lit(chr(MAXCH)))
def r_not(cs):
    bad = sorted(set(cs)); out = []; lo = 0
    for c in bad + [MAXCH + 1]:
        if lo <= c - 1: out.append(z3.Range(lit(chr(lo)), lit(chr(c - 1))) if lo < c - 1 else z3.Re(lit(chr(lo))))
        lo = c + 1
    return r_alt(out)
WS = [c for c in range(MAXCH + 1) if chr(c).isspace()]
def preimage(fns, k):
    """regular expression of the strings s with fns applied (first to last) giving k"""
    if not fns: return r_lit(k)
    fn = fns[-1]; rest = fns[:-1]
    if fn in ('strip', 'lstrip', 'rstrip'):
        if rest: raise Unsupported('strip after a case mapping')
        if k != getattr(k, fn)(): return r_alt([])
        w = z3.Star(r_chars(WS))
        return r_cat(([w] if fn != 'rstrip' else []) + [r_lit(k)] + ([w] if fn != 'lstrip' else []))
    if rest and any(f in ('strip', 'lstrip', 'rstrip') for f in rest):
        if len(rest) == 1 and k == getattr(k, rest[0])():
            w = z3.Star(r_chars(WS)); f = rest[0]       # case mappings neither make nor remove white space
            return r_cat(([w] if f != 'rstrip' else []) + [preimage((fn,), k)] + ([w] if f != 'lstrip' else []))
        raise Unsupported('string transformations')
    if rest:
        fn = '+'.join(fns); m = _maps.get(fn)
        if m is None:
            m = {}
            for c in range(MAXCH + 1):
                if 0xD800 <= c <= 0xDFFF: continue
                s = chr(c)
                for f in fns: s = getattr(s, f)()
                m.setdefault(s, []).append(c)
            _maps[fn] = m
    else: m = charmap(fn)
    n = len(k); memo = {n: r_lit('')}
    for i in range(n - 1, -1, -1):
        alts = []
        for j in range(i + 1, n + 1):
            cs = m.get(k[i:j])
            if cs and memo[j] is not None: alts.append(r_cat([r_chars(cs)] + ([memo[j]] if j < n else [])))
        memo[i] = r_alt(alts) if alts else None
    return memo[0] if memo[0] is not None else r_alt([])

# ---- the current path
class Run:
    def __init__(s, script): s.script = script; s.taken = []; s.todo = []; s.pc = []; s.unsup = None; s.n = 0; s.ints = {}
    def fresh(s, kind, hint):
        s.n += 1; nm = f'{hint}!{s.n}'
        return z3.String(nm) if kind == 's' else z3.Int(nm)
R = None
STAT = dict(calls=0, time=0.0)
def unsupported(msg):
    if R is not None and R.unsup is None: R.unsup = msg
    raise Unsupported(msg)
_memo = {}
def sat(fs, ms=20000):
    import time
    key = tuple(f.get_id() for f in fs)
    if key in _memo: return _memo[key][0]
    t = time.time(); s = z3.Solver(); s.set('timeout', ms)
    for f in fs: s.add(f)
    r = str(s.check()); STAT['calls'] += 1; STAT['time'] += time.time() - t
    _memo[key] = (r, list(fs)); return r
def branch(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    for p in R.pc:
        if p.eq(c): return True
        if z3.is_not(p) and p.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(p): return False
    i = len(R.taken)
    if i < len(R.script): v = R.script[i]
    else:
        t = sat(R.pc + [c]); f = sat(R.pc + [z3.Not(c)])
        if t == 'unsat' and f == 'unsat': raise Dead()
        if t == 'unsat': v = False
        elif f == 'unsat': v = True
        else: v = True; R.todo.append(R.taken + [False])
    R.taken.append(v); R.pc.append(c if v else z3.Not(c))
    if len(R.taken) > 400: unsupported('more than 400 decisions on one path')
    return v

def explore(f, limit=4000):
    """[(path condition, 'return'|'raise', value)] of every path of f()"""
    global R
    todo = [[]]; out = []
    while todo:
        if len(out) > limit: raise Unsupported('too many paths')
        old = R; R = Run(todo.pop())
        try:
            try: k, v = 'return', f()
            except Unsupported as x: k, v = 'unsupported', str(x)
            except Dead: k, v = 'dead', None
            except Exception as x: k, v = 'raise', x
            if R.unsup and k != 'dead': k, v = 'unsupported', R.unsup
            todo += R.todo
            if k == 'unsupported':
                if sat(R.pc) == 'unsat': continue
                raise Unsupported(v)
            if k != 'dead': out.append((list(R.pc), k, v))
        finally: R = old
    return out

# ---- symbolic values
class Sym:
    _vx = True
    def __deepcopy__(s, memo): return s
    def __copy__(s): return s
class SBool(Sym):
    def __init__(s, c): s.c = c
    def __bool__(s): return branch(s.c)
    def __eq__(s, o): return sbool(s.c == zbool(o)) if isinstance(o, (bool, SBool)) else bool(s) == o
    def __ne__(s, o): return snot(s.__eq__(o))
    def __and__(s, o): return sbool(z3.And(s.c, zbool(o)))
    __rand__ = __and__
    def __or__(s, o): return sbool(z3.Or(s.c, zbool(o)))
    __ror__ = __or__
    def __hash__(s): unsupported('hash of a symbolic value')
def zbool(o): return o.c if isinstance(o, SBool) else z3.BoolVal(bool(o))
def sbool(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else SBool(c)
def snot(b): return (not b) if isinstance(b, bool) else sbool(z3.Not(b.c))

def zint(o):
    if isinstance(o, SInt): return o.t
    if isinstance(o, SBool): return z3.If(o.c, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool): return z3.IntVal(int(o))
    if isinstance(o, int): return z3.IntVal(int(o))
    return None
def sint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)
class SInt(Sym):
    def __init__(s, t): s.t = t
    def _b(s, o, f, r=False):
        z = zint(o)
        if z is None: return NotImplemented
        return sint(f(z, s.t) if r else f(s.t, z))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: a + b, True)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(s): return sint(-s.t)
    def __pos__(s): return s
    def __floordiv__(s, o):
        if isinstance(o, int) and o > 0: return sint(s.t / o)
        unsupported('division')
    def __mod__(s, o):
        if isinstance(o, int) and o > 0: return sint(s.t % o)
        unsupported('modulus')
    def __rshift__(s, o):
        if isinstance(o, int) and o >= 0: return sint(s.t / (1 << o))
        unsupported('shift')
    def __lshift__(s, o):
        if isinstance(o, int) and o >= 0: return sint(s.t * (1 << o))
        unsupported('shift')
    def __rlshift__(s, o):
        for k in range(0, 130):
            if branch(s.t == k): return o << k
        unsupported('shift by a symbolic count')
    def __rpow__(s, o):
        for k in range(0, 130):
            if branch(s.t == k): return o ** k
        unsupported('symbolic exponent')
    def __and__(s, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0: return sint(s.t % (o + 1))
        unsupported('bitwise and')
    __rand__ = __and__
    def _c(s, o, f):
        z = zint(o)
        if z is None: return NotImplemented if not isinstance(o, float) else unsupported('comparison with a float')
        return sbool(f(s.t, z))
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o):
        z = zint(o)
        return False if z is None else sbool(s.t == z)
    def __ne__(s, o): return snot(s.__eq__(o))
    def __bool__(s): return branch(s.t != 0)
    def __hash__(s): unsupported('hash of a symbolic value')
    def __index__(s): unsupported('index by a symbolic number')
    def bit_length(s):
        for k in range(0, 130):
            if branch(z3.And(s.t < (1 << k), s.t > -(1 << k))): return k
        unsupported('bit length')

class SFloat(Sym):
    """an arbitrary float: its value is num/den exactly, or not a number"""
    def __init__(s, whole, trunc): s.whole = whole; s.trunc = trunc      # Bool: is a whole number; Int: truncated value
    def is_integer(s): return sbool(s.whole)
    def __bool__(s): return branch(z3.Not(z3.And(s.whole, s.trunc == 0)))
    def __eq__(s, o):
        z = zint(o)
        return False if z is None else sbool(z3.And(s.whole, s.trunc == z))
    def __ne__(s, o): return snot(s.__eq__(o))
    def _f(s, o=None):
        if isinstance(o, (str, list, dict, tuple, SStr, SOpaque)): return NotImplemented
        unsupported('arithmetic on a symbolic float')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __mod__ = _f
    def __hash__(s): unsupported('hash of a symbolic value')

class SOpaque(Sym):
    """an arbitrary object of a type no operation is known of (list, mapping, null is concrete)"""
    def __init__(s, ty): s.ty = ty
    def __getattr__(s, n):
        if n.startswith('__') or hasattr(s.ty, n): unsupported(f'{s.ty.__name__}.{n}')
        raise AttributeError(n)
    def __hash__(s):
        if s.ty.__hash__ is None: raise TypeError('unhashable type')
        unsupported('hash of a symbolic value')
    def __eq__(s, o): return False if isinstance(o, (str, int, float, type(None))) else unsupported('comparison')
    def __ne__(s, o): return snot(s.__eq__(o))
    def __add__(s, o): raise TypeError('operand')
    __radd__ = __add__

class SStr(Sym):
    def __init__(s, t, fns=()): s.t = t; s.fns = fns
    def mem(s, r):                          # only without transformations
        if s.fns: unsupported('regular expression on a transformed string')
        return sbool(z3.InRe(s.t, r))
    def plain(s):
        if s.fns: unsupported('operation on a transformed string')
        return s.t
    def __eq__(s, o):
        if isinstance(o, str): return sbool(s.t == lit(o)) if not s.fns else sbool(z3.InRe(s.t, preimage(s.fns, o)))
        if isinstance(o, SStr):
            if s.fns == o.fns and z3.eq(s.t, o.t): return True
            if not s.fns and not o.fns: return sbool(s.t == o.t)
            if s.fns and s.fns == o.fns: unsupported('comparison of transformed strings')
            # x.upper() == x and the like
            unsupported('comparison of transformed strings')
        return False
    def __ne__(s, o): return snot(s.__eq__(o))
    def __hash__(s): unsupported('hash of a symbolic value')
    def __bool__(s):
        if s.fns and any('strip' in f for f in s.fns): return not branch(zbool(s.__eq__('')))
        return branch(s.t != lit(''))
    def __add__(s, o):
        if isinstance(o, str): return SStr(z3.Concat(s.t, lit(o))) if not s.fns else message()
        if isinstance(o, SStr): return SStr(z3.Concat(s.t, o.t)) if not s.fns and not o.fns else message()
        return NotImplemented
    def __radd__(s, o):
        if isinstance(o, str): return SStr(z3.Concat(lit(o), s.t)) if not s.fns else message()
        return NotImplemented
    def casefold(s): return SStr(s.t, s.fns + ('casefold',))
    def lower(s): return SStr(s.t, s.fns + ('lower',))
    def upper(s): return SStr(s.t, s.fns + ('upper',))
    def _strip(s, w, a):
        if a and a[0] is not None: unsupported('strip of given characters')
        return SStr(s.t, s.fns + (w,))
    def strip(s, *a): return s._strip('strip', a)
    def lstrip(s, *a): return s._strip('lstrip', a)
    def rstrip(s, *a): return s._strip('rstrip', a)
    def startswith(s, p, *a):
        if a or not isinstance(p, (str, tuple)): unsupported('startswith')
        ps = (p,) if isinstance(p, str) else p
        if not s.fns: return sbool(z3.Or(*[z3.PrefixOf(lit(q), s.t) for q in ps]))
        if any('strip' in f for f in s.fns): unsupported('startswith')
        return sbool(z3.InRe(s.t, r_cat([r_alt([preimage(s.fns, q) for q in ps]), z3.Star(r_any())])))
    def endswith(s, p, *a):
        if a or not isinstance(p, (str, tuple)): unsupported('endswith')
        ps = (p,) if isinstance(p, str) else p
        if not s.fns: return sbool(z3.Or(*[z3.SuffixOf(lit(q), s.t) for q in ps]))
        if any('strip' in f for f in s.fns): unsupported('endswith')
        return sbool(z3.InRe(s.t, r_cat([z3.Star(r_any()), r_alt([preimage(s.fns, q) for q in ps])])))
    def removeprefix(s, p):
        if s.fns: unsupported('removeprefix')
        if branch(z3.PrefixOf(lit(p), s.t)): return s[len(p):]
        return s
    def isdigit(s): return s._all(lambda c: chr(c).isdigit())
    def isdecimal(s): return s._all(lambda c: chr(c).isdecimal())
    def isalnum(s): return s._all(lambda c: chr(c).isalnum())
    def isalpha(s): return s._all(lambda c: chr(c).isalpha())
    def isspace(s): return s._all(lambda c: chr(c).isspace())
    def isascii(s): return s.mem(z3.Star(r_chars(range(128))))
    def _all(s, f):
        return s.mem(z3.Plus(r_chars([c for c in range(MAXCH + 1) if not 0xD800 <= c <= 0xDFFF and f(c)])))
    def split(s, sep=None, maxsplit=-1):
        if s.fns or sep is None or len(sep) != 1 or maxsplit != -1: unsupported('split')
        non = z3.Star(r_not([ord(sep)])); cat = [non]
        for n in range(1, 7):
            if branch(z3.InRe(s.t, r_cat(cat))):
                ps = [R.fresh('s', 'part') for _ in range(n)]; whole = []
                for i, p in enumerate(ps):
                    R.pc.append(z3.InRe(p, non)); whole += ([lit(sep)] if i else []) + [p]
                R.pc.append(s.t == (z3.Concat(*whole) if len(whole) > 1 else whole[0]))
                return [SStr(p) for p in ps]
            cat = cat + [r_lit(sep), non]
        unsupported('split into more than six parts')
    def replace(s, a, b, *n):
        if s.fns or n or len(a) != 1 or b not in ('',): unsupported('replace')
        for L in range(0, 24):
            if branch(z3.Length(s.t) == L):
                out = []
                for i in range(L):
                    c = z3.SubString(s.t, i, 1)
                    if not branch(c == lit(a)): out.append(c)
                return SStr(z3.Concat(*out)) if len(out) > 1 else SStr(out[0]) if out else ''
        unsupported('replace in a string of unbounded length')
    def __getitem__(s, i):
        t = s.t
        if s.fns:
            if any('strip' in f for f in s.fns): unsupported('index into a stripped string')
            # characters which map to one character each
            if not branch(z3.InRe(t, z3.Star(r_chars(range(128))))): unsupported('index into a case-mapped string')
        n = z3.Length(t)
        if isinstance(i, slice):
            if i.step not in (None, 1): unsupported('slice step')
            def pos(x, d):
                if x is None: return d
                if isinstance(x, int): return z3.IntVal(x) if x >= 0 else z3.If(n + x > 0, n + x, z3.IntVal(0))
                unsupported('symbolic slice')
            a = pos(i.start, z3.IntVal(0)); b = pos(i.stop, n)
            b = z3.If(b > n, n, b)
            return SStr(z3.simplify(z3.If(b > a, z3.SubString(t, a, b - a), lit(''))), s.fns)
        if isinstance(i, int):
            k = z3.IntVal(i) if i >= 0 else n + i
            if not branch(z3.And(k >= 0, k < n)): raise IndexError('string index out of range')
            return SStr(z3.SubString(t, k, 1), s.fns)
        unsupported('symbolic index')
    def __iter__(s):
        if s.fns: unsupported('iteration over a transformed string')
        i = 0
        while True:
            if not branch(z3.Length(s.t) > i): return
            if i >= 48: unsupported('iteration over a string of unbounded length')
            yield SStr(z3.SubString(s.t, i, 1)); i += 1
    def __contains__(s, x): unsupported('in')
    def __str__(s): unsupported('conversion of a symbolic string')
    def __format__(s, f): unsupported('format')
    def encode(s, *a): unsupported('encode')
    def zfill(s, *a): unsupported('zfill')
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        if hasattr(str, n): unsupported('str.' + n)
        raise AttributeError(f"'str' object has no attribute '{n}'")
class SMessage(SStr):
    """formatted text; what it says is not tracked, and is an over-approximation"""
    def __bool__(s): return True
def message(): return SMessage(R.fresh('s', 'message'))

def pytype(x):
    if isinstance(x, SStr): return str
    if isinstance(x, SBool): return bool
    if isinstance(x, SInt): return int
    if isinstance(x, SFloat): return float
    if isinstance(x, SOpaque): return x.ty
    return type(x)

# ---- int(text)
DIG = r_chars(range(48, 58)); HEX = r_chars(list(range(48, 58)) + list(range(65, 71)) + list(range(97, 103)))
def _uni_digits(): return [c for c in range(MAXCH + 1) if not 0xD800 <= c <= 0xDFFF and chr(c).isdecimal()]
def hexval(c):
    k = z3.StrToCode(c)
    return z3.If(k <= 57, k - 48, z3.If(k <= 70, k - 55, k - 87))
def int_of(s, base=10):
    """int(s, base): exact for texts of decimal or hexadecimal digits, over-approximated (any number, or refused) for the
    other spellings Python accepts"""
    if s.fns:
        if any('strip' in f for f in s.fns): s = SStr(s.t, tuple(f for f in s.fns if 'strip' not in f)); 
        if s.fns and not all(f in ('lower', 'upper', 'casefold') for f in s.fns): unsupported('int of a transformed string')
        s = SStr(s.t)      # the digits and letters of numbers mean the same in either case; other characters: over-approximated below
    t = s.t
    if base == 10:
        if branch(z3.InRe(t, z3.Plus(DIG))):
            R.pc.append(z3.StrToInt(t) >= 0); return sint(z3.StrToInt(t))
    elif base in (16, 0):
        if base == 0 and branch(z3.InRe(t, r_alt([z3.Plus(r_lit('0')), r_cat([r_chars(range(49, 58)), z3.Star(DIG)])]))):
            R.pc.append(z3.StrToInt(t) >= 0); return sint(z3.StrToInt(t))
        if branch(z3.InRe(t, r_cat([r_lit('0'), r_chars([88, 120]), z3.Plus(HEX)]))): return hex_digits(z3.SubString(t, 2, z3.Length(t) - 2))
        if base == 16 and branch(z3.InRe(t, z3.Plus(HEX))): return hex_digits(t)
    else: unsupported('int base')
    # signs, underscores, white space, digits of other scripts: any number, or refused
    b = R.fresh('i', 'refused')
    if branch(b == 0): raise ValueError('invalid literal for int()')
    v = SInt(R.fresh('i', 'spelled')); R.ints[v.t.get_id()] = v.t; return v
HEXV = z3.Function('hexval', z3.StringSort(), z3.IntSort())      # the number hexadecimal digits write
def pieces(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [p for c in t.children() for p in pieces(c)]
    return [t]
def width_of(t):
    """number of characters, when every string in question has it"""
    if z3.is_string_value(t): return len(t.as_string())
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(2)): return t.arg(2).as_long()
    if k == z3.Z3_OP_SEQ_AT: return 1
    return None
def hex_digits(t):
    """the number written by the hexadecimal digits t: the sum over its pieces of known width"""
    ps = pieces(t); ws = [width_of(p) for p in ps]
    if len(ps) > 1 and (None in ws[1:] or not all(branch(z3.Length(p) == w) for p, w in zip(ps, ws) if w is not None)): ps = [t]; ws = [None]
    v = 0; e = 0
    for p, w in reversed(list(zip(ps, ws))):
        h = HEXV(p); R.pc.append(h >= 0)
        if w is not None: R.pc.append(z3.Implies(z3.Length(p) == w, h < 16 ** w))
        v = h * 16 ** e + v; e += w or 0
    return sint(v)

# ---- regular expressions
CAT = {'CATEGORY_DIGIT': lambda c: chr(c).isdecimal(), 'CATEGORY_SPACE': lambda c: chr(c).isspace(), 'CATEGORY_WORD': lambda c: chr(c).isalnum() or c == 95}
_cat = {}
def cat_chars(name):
    if name not in _cat:
        neg = '_NOT_' in name; f = CAT[name.replace('_NOT_', '_')]
        _cat[name] = [c for c in range(MAXCH + 1) if not 0xD800 <= c <= 0xDFFF and bool(f(c)) != neg]
    return _cat[name]
def fold(cs, flags):
    if not flags & re.I: return cs
    out = set(cs)
    for c in list(cs):
        for f in ('lower', 'upper'):
            x = getattr(chr(c), f)()
            if len(x) == 1: out.add(ord(x))
    for f in ('lower', 'upper'):          # characters equal under case mapping
        m = charmap(f)
        for c in list(out): out |= set(m.get(getattr(chr(c), f)(), []))
    return sorted(out)
def in_set(items, flags):
    neg = False; cs = set()
    for op, av in items:
        n = str(op)
        if n == 'NEGATE': neg = True
        elif n == 'LITERAL': cs.add(av)
        elif n == 'RANGE': cs |= set(range(av[0], av[1] + 1))
        elif n == 'CATEGORY': cs |= set(cat_chars(str(av)))
        else: unsupported('regular expression ' + n)
    cs = fold(sorted(cs), flags)
    return r_not(cs) if neg else r_chars(cs)
def compile_re(p):
    """(list of (group number or None, regular expression, fixed width or None)), anchored end) of a pattern"""
    tree = sre_parse.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, str) else p.flags)
    flags = p.flags
    def width(items): return sre_parse.SubPattern(tree.state, list(items)).getwidth() if not isinstance(items, sre_parse.SubPattern) else items.getwidth()
    def one(op, av):
        n = str(op)
        if n == 'LITERAL': return r_chars(fold([av], flags))
        if n == 'NOT_LITERAL': return r_not(fold([av], flags))
        if n == 'ANY': return r_any() if flags & re.S else r_not([10])
        if n == 'IN': return in_set(av, flags)
        if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av; r = seq(sub)
            if str(hi) == 'MAXREPEAT' or hi is sre.MAXREPEAT: return r_cat([r] * lo + [z3.Star(r)])
            return z3.Loop(r, lo, hi) if (lo, hi) != (0, 1) else z3.Option(r)
        if n == 'SUBPATTERN': return seq(av[3])
        if n == 'BRANCH': return r_alt([seq(x) for x in av[1]])
        unsupported('regular expression ' + n)
    def seq(items): return r_cat([one(op, av) for op, av in items])
    parts = []; end = ''
    items = list(tree)
    while items and str(items[0][0]) == 'AT' and str(items[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'): items = items[1:]
    if items and str(items[-1][0]) == 'AT' and str(items[-1][1]) in ('AT_END', 'AT_END_STRING'):
        end = str(items[-1][1]); items = items[:-1]
    for op, av in items:
        g = None
        if str(op) == 'SUBPATTERN': g = av[0]
        lo, hi = sre_parse.SubPattern(tree.state, [(op, av)]).getwidth()
        parts.append((g, one(op, av), lo if lo == hi else None))
    return parts, end, tree.state.groupdict if hasattr(tree.state, 'groupdict') else {}
class SMatch(Sym):
    def __init__(s, whole, groups, names): s.whole = whole; s.gs = groups; s.names = names
    def __bool__(s): return True
    def groups(s, default=None): return tuple(s.gs[k] for k in sorted(s.gs))
    def group(s, *a):
        def g(k):
            if k == 0: return s.whole
            return s.gs[s.names.get(k, k)]
        return g(0) if not a else g(a[0]) if len(a) == 1 else tuple(g(k) for k in a)
    __getitem__ = group
    def __getattr__(s, n): unsupported('match.' + n)
def re_match(p, s, how):
    if how == 'search': unsupported('re.search')
    parts, end, names = compile_re(p); t = s.plain()
    body = r_cat([r for _, r, _ in parts])
    if how == 'fullmatch' or end == 'AT_END_STRING': whole = body
    elif end == 'AT_END': whole = r_cat([body, z3.Option(r_lit('\n'))])
    else: whole = r_cat([body, z3.Star(r_any())])
    if not branch(z3.InRe(t, whole)): return None
    gs = {}; pos = 0
    if any(g is not None for g, _, _ in parts):
        for i, (g, r, w) in enumerate(parts):
            if w is None:
                if g is not None and all(x[0] is None for x in parts[i + 1:]) and all(x[2] is not None for x in parts[i + 1:]) and (how == 'fullmatch' or end == 'AT_END_STRING'):
                    gs[g] = SStr(z3.SubString(t, pos, z3.Length(t) - pos - sum(x[2] for x in parts[i + 1:]))); break
                if g is None and all(x[0] is None for x in parts[i:]): break
                unsupported('groups of variable width')
            if g is not None: gs[g] = SStr(z3.SubString(t, pos, w))
            pos += w
    return SMatch(s, gs, names)

# ---- dispatchers
def has_sym(a, k): return any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in k.values())
def deep_sym(x): return isinstance(x, Sym) or isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x)
def d_get(d, k, miss):
    if isinstance(k, SOpaque): hash(k)
    for kk in d:
        e = (k == kk)
        if e is NotImplemented or e is False: continue
        if e is True or bool(e): return d[kk]
    return miss()
def d_in(k, c):
    if isinstance(c, SStr):
        if isinstance(k, str): return sbool(z3.Contains(c.plain(), lit(k)))
        if isinstance(k, SStr): return sbool(z3.Contains(c.plain(), k.plain()))
        unsupported('in')
    if isinstance(k, Sym):
        if isinstance(c, str):
            if not isinstance(k, SStr): raise TypeError('in <string> requires string')
            return sbool(z3.InRe(k.t, r_alt([preimage(k.fns, x) for x in sorted({c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)})])))
        if isinstance(c, (dict, set, frozenset)) and isinstance(k, SOpaque): hash(k)
        if isinstance(c, (dict, list, tuple, set, frozenset, type({}.keys()), enum.EnumMeta, type({}.values()))):
            for x in c:
                if bool(k == x): return True
            return False
        if isinstance(c, range) and isinstance(k, (SInt, SBool)):
            if c.step != 1: unsupported('range step')
            return sbool(z3.And(zint(k) >= c.start, zint(k) < c.stop))
        unsupported(f'in {type(c).__name__}')
    return k in c
def vx_in(k, c): return d_in(k, c)
def vx_notin(k, c): return snot(d_in(k, c)) if isinstance(d := d_in(k, c), SBool) else not d
def vx_sub(o, k):
    if isinstance(k, Sym):
        def miss(): raise KeyError('symbolic key')
        if isinstance(o, enum.EnumMeta): return d_get({n: m for n, m in o.__members__.items()}, k, miss)
        if isinstance(o, dict): return d_get(o, k, miss)
        if isinstance(o, (list, tuple)) and isinstance(k, (SInt, SBool)):
            for i in range(len(o)):
                if branch(z3.Or(zint(k) == i, zint(k) == i - len(o))): return o[i]
            raise IndexError('index out of range')
        unsupported('subscript')
    return o[k]
def vx_mod(a, b):
    if isinstance(a, (str, SStr)):
        if deep_sym(b) or isinstance(a, SStr): return message()
    return a % b
def native(f):
    """a function or class of the package under proof, or one that only stores its arguments"""
    m = getattr(f, '__module__', None) or ''
    if isinstance(f, types.MethodType): f = f.__func__; m = getattr(f, '__module__', None) or ''
    if m.startswith('vrtgen'): return True
    return False
def vx_call(f, *a, **k):
    if isinstance(f, type) and issubclass(f, BaseException): return f(*a, **k)
    own = getattr(f, '__self__', None)
    if isinstance(own, Sym): return f(*a, **k)
    sym = has_sym(a, k)
    if f is builtins.isinstance and sym:
        t = pytype(a[0]); ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(isinstance(x, type) and issubclass(t, x) for x in ts)
    if f is builtins.type and len(a) == 1 and sym: return pytype(a[0])
    if f is builtins.str and sym:
        x = a[0]
        if isinstance(x, SStr): return x
        if isinstance(x, SBool): return 'True' if bool(x) else 'False'
        if isinstance(x, SInt): return SStr(z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(lit('-'), z3.IntToStr(-x.t))))
        if isinstance(x, SFloat):
            v = R.fresh('s', 'float'); d = z3.Plus(DIG)
            R.pc.append(z3.InRe(v, r_alt([r_cat([z3.Option(r_lit('-')), d, r_lit('.'), d, z3.Option(r_cat([r_lit('e'), r_chars([43, 45]), d]))]), r_cat([z3.Option(r_lit('-')), d, r_lit('e'), r_chars([43, 45]), d]), r_lit('nan'), r_lit('inf'), r_lit('-inf')])))
            return SStr(v)
        if isinstance(x, SOpaque):
            v = R.fresh('s', 'text'); op, cl = {list: '[]', dict: '{}', tuple: '()'}.get(x.ty, ('', ''))
            if not op: unsupported('str of an object')
            R.pc.append(z3.InRe(v, r_cat([r_lit(op), z3.Star(r_any()), r_lit(cl)]))); return SStr(v)
        unsupported('str')
    if f is builtins.int and sym:
        x = a[0]
        if isinstance(x, SStr): return int_of(x, a[1] if len(a) > 1 else k.get('base', 10))
        if isinstance(x, (SInt, SBool)): return sint(zint(x))
        if isinstance(x, SFloat): return sint(x.trunc)
        raise TypeError("int() argument must be a string or a number")
    if f is builtins.bool and sym: return bool(a[0])
    if f is builtins.len and sym:
        x = a[0]
        if isinstance(x, SStr):
            if x.fns: unsupported('length of a transformed string')
            return sint(z3.Length(x.t))
        raise TypeError('object has no len()')
    if f is builtins.hash and sym: unsupported('hash')
    if f is builtins.repr and sym or f is builtins.format and sym: return message()
    if f is builtins.print: return None
    if f in (builtins.min, builtins.max) and sym:
        r = a[0]
        for x in a[1:]:
            if bool(x < r if f is builtins.min else x > r): r = x
        return r
    if f is builtins.abs and sym: return a[0] if bool(a[0] >= 0) else -a[0]
    if f is builtins.ord and sym:
        if not isinstance(a[0], SStr) or not branch(z3.Length(a[0].plain()) == 1): raise TypeError('ord')
        return sint(z3.StrToCode(a[0].t))
    if f in (builtins.all, builtins.any):
        for x in a[0]:
            if bool(x) != (f is builtins.all): return f is builtins.any
        return f is builtins.all
    if f is builtins.sum and any(deep_sym(x) for x in a): 
        r = a[1] if len(a) > 1 else 0
        for x in a[0]: r = r + x
        return r
    if getattr(f, '__module__', None) == 'logging' or type(own).__name__ == 'Logger': return None
    if isinstance(own, re.Pattern) and sym:
        if f.__name__ not in ('match', 'fullmatch', 'search'): unsupported('re ' + f.__name__)
        if not isinstance(a[0], SStr): raise TypeError('expected string')
        return re_match(own, a[0], f.__name__)
    if f in (re.match, re.fullmatch, re.search) and sym:
        if not isinstance(a[1], SStr): raise TypeError('expected string')
        return re_match(re.compile(a[0], *a[2:]), a[1], f.__name__)
    if isinstance(own, dict) and sym and f.__name__ in ('get', 'pop', '__getitem__', '__contains__', 'setdefault'):
        if f.__name__ == '__contains__': return d_in(a[0], own)
        if f.__name__ == 'get': return d_get(own, a[0], lambda: a[1] if len(a) > 1 else None) if isinstance(a[0], Sym) else f(*a, **k)
        if f.__name__ == '__getitem__': return vx_sub(own, a[0])
        if isinstance(a[0], Sym): unsupported('dict.' + f.__name__)
        return f(*a, **k)
    if isinstance(own, (list, tuple)) and sym and f.__name__ in ('index', 'count'):
        for i, x in enumerate(own):
            if bool(a[0] == x): return i if f.__name__ == 'index' else unsupported('count')
        raise ValueError('not in list')
    if isinstance(own, (list, dict)) : return f(*a, **k)
    if isinstance(own, str):
        if f.__name__ == 'join':
            xs = list(a[0])
            if not any(isinstance(x, Sym) for x in xs): return own.join(xs)
            ts = []
            for i, x in enumerate(xs):
                if i and own: ts.append(lit(own))
                if isinstance(x, str): ts.append(lit(x))
                elif isinstance(x, SStr):
                    if x.fns: unsupported('join of transformed strings')
                    ts.append(x.t)
                else: raise TypeError('sequence item: expected str instance')
            return SStr(z3.Concat(*ts)) if len(ts) > 1 else SStr(ts[0])
        if f.__name__ == 'format' and (sym or any(deep_sym(x) for x in a)): return message()
        if sym: unsupported('str.' + f.__name__)
        return f(*a, **k)
    if not sym: return f(*a, **k)
    if isinstance(f, enum.EnumMeta):
        x = a[0]
        for m in f.__members__.values():
            if bool(x == m.value): return m
        raise ValueError('not a valid ' + f.__name__)
    if native(f): return f(*a, **k)
    if f in (builtins.setattr, builtins.getattr, builtins.hasattr) and not isinstance(a[0], Sym) and not isinstance(a[1], Sym): return f(*a, **k)
    if f in (builtins.list, builtins.tuple, builtins.sorted, builtins.iter) and isinstance(a[0], SStr): return f(iter(a[0])) if f is not builtins.sorted else unsupported('sorted')
    if f in (builtins.dict,): return f(*a, **k)
    unsupported(f'call of {getattr(f, "__qualname__", f)}')

class T(ast.NodeTransformer):
    def _n(s, name, *args): return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])
    def visit_AnnAssign(s, n):
        if n.value: n.value = s.visit(n.value)
        return n
    def visit_FunctionDef(s, n):
        n.body = [s.visit(x) for x in n.body]; n.args.defaults = [s.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [x and s.visit(x) for x in n.args.kw_defaults]; return n
    def visit_Call(s, n):
        plain = isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars')
        n.args = [s.visit(x) for x in n.args]; n.keywords = [ast.keyword(arg=x.arg, value=s.visit(x.value)) for x in n.keywords]
        n.func = s.visit(n.func)
        if plain: return n
        return ast.Call(func=ast.Name(id='_vx_call', ctx=ast.Load()), args=[n.func] + n.args, keywords=n.keywords)
    def visit_Subscript(s, n):
        s.generic_visit(n)
        if not isinstance(n.ctx, ast.Load): return n
        if isinstance(n.slice, ast.Slice):
            z = lambda x: x or ast.Constant(value=None)
            sl = ast.Call(func=ast.Name(id='slice', ctx=ast.Load()), args=[z(n.slice.lower), z(n.slice.upper), z(n.slice.step)], keywords=[])
            return s._n('_vx_sub', n.value, sl)
        return s._n('_vx_sub', n.value, n.slice)
    def visit_Compare(s, n):
        s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return s._n('_vx_in' if isinstance(n.ops[0], ast.In) else '_vx_notin', n.left, n.comparators[0])
        return n
    def visit_BinOp(s, n):
        s.generic_visit(n)
        return s._n('_vx_mod', n.left, n.right) if isinstance(n.op, ast.Mod) else n
    def visit_JoinedStr(s, n):
        vals = [s.visit(v.value) for v in n.values if isinstance(v, ast.FormattedValue)]
        m = ast.NamedExpr
        return ast.BoolOp(op=ast.Or(), values=[s._n('_vx_msg', *vals), n]) if vals else n
def vx_msg(*parts): return message() if any(deep_sym(p) for p in parts) else ''

def transform(src, path):
    t = T().visit(ast.parse(src, path)); ast.fix_missing_locations(t)
    return compile(t, path, 'exec')
NS = dict(_vx_call=vx_call, _vx_sub=vx_sub, _vx_in=vx_in, _vx_notin=vx_notin, _vx_mod=vx_mod, _vx_msg=vx_msg)
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(s, root): s.root = root
    def find_spec(s, name, path=None, target=None):
        if name != 'vrtgen' and not name.startswith('vrtgen.'): return None
        p = os.path.join(s.root, *name.split('.'))
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_loader(name, s, origin=init if os.path.exists(init) else None, is_package=True)
            spec.submodule_search_locations = [p]; return spec
        if os.path.exists(p + '.py'): return importlib.util.spec_from_loader(name, s, origin=p + '.py')
        return None
    def create_module(s, spec): return None
    def exec_module(s, m):
        m.__dict__.update(NS)
        o = m.__spec__.origin
        if o:
            m.__file__ = o
            with open(o, encoding='utf-8') as f: exec(transform(f.read(), o), m.__dict__)
def load(repo):
    for k in [k for k in sys.modules if k == 'vrtgen' or k.startswith('vrtgen.')]: del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != 'Finder' or not hasattr(f, 'root')]
    sys.meta_path.insert(0, Finder(os.path.join(repo, 'src')))
    y = '/opt/vrtgen-venv/lib/python3.12/site-packages'
    try: import yaml
    except ImportError:
        sys.path.append(y)
        import yaml
        sys.path.remove(y)
    return importlib.import_module
