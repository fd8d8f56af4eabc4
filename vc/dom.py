"""Value domain of the VC generator.

Integers are Python ints (constants), BV (piecewise slices of z3 terms) or Lin (linear sums modulo 2^w).
All three are exact representations of machine integers; the piecewise and linear forms only make the
generated formulas smaller.  Pointers are Ptr, floating point values are z3 FP terms."""
import z3

class BV:
    __slots__ = ('w', 'ps', '_z')
    def __init__(s, w, ps): s.w = w; s.ps = ps; s._z = None
    def __repr__(s): return f'BV{s.w}' + repr([(n, str(t)[:40] if t is not None else None, lo) for n, t, lo in s.ps])

class Lin:
    """c + sum coef*atom mod 2^w; atom is a z3 BitVec(w) or a z3 Bool (0/1)."""
    __slots__ = ('w', 'c', 'at', '_z')
    def __init__(s, w, c, at): s.w = w; s.c = c % (1 << w); s.at = at; s._z = None
    def __repr__(s): return f'Lin{s.w}({s.c}' + ''.join(f' + {k}*{str(t)[:60]}' for k, t in s.at.values()) + ')'

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Ptr:
    """obj: object id or None (null), off: int | Lin | BV (64 bits)."""
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __repr__(s): return f'Ptr({s.obj},{s.off})'
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and same(s.off, o.off)
    def __hash__(s): return hash(s.obj)
NULL = Ptr(None, 0)

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return f'Fn({s.name})'
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(s.name)

class PtrIte:
    """pointer chosen by a condition"""
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return f'PtrIte({s.c},{s.a},{s.b})'

def mk(w, ps):
    out = []
    for n, t, lo in ps:
        if n == 0: continue
        if t is None:
            lo &= (1 << n) - 1
            if out and out[-1][1] is None:
                pn, _, pv = out[-1]; out[-1] = (pn + n, None, pv | (lo << pn)); continue
        elif out and out[-1][1] is not None and out[-1][1].eq(t) and out[-1][2] + out[-1][0] == lo:
            pn, _, pl = out[-1]; out[-1] = (pn + n, t, pl); continue
        out.append((n, t, lo))
    if len(out) == 1 and out[0][1] is None: return out[0][2]
    return BV(w, tuple(out))

_lits = {}
def bvval(v, w):
    k = (v, w); r = _lits.get(k)
    if r is None: r = _lits[k] = z3.BitVecVal(v, w)
    return r

def piece_z3(n, t, lo):
    if t is None: return bvval(lo, n)
    if lo == 0 and t.size() == n: return t
    return z3.Extract(lo + n - 1, lo, t)

def to_z3(v, w):
    if isinstance(v, int): return bvval(v & ((1 << w) - 1), w)
    if isinstance(v, (z3.BitVecRef)): return v
    if isinstance(v, Lin):
        if v._z is None:
            r = None
            def add(r, x): return x if r is None else r + x
            for k, t in v.at.values():
                if z3.is_bool(t): x = z3.If(t, bvval(k, w), bvval(0, w))
                elif k == 1: x = t
                else: x = t * bvval(k, w)
                r = add(r, x)
            if v.c or r is None: r = add(r, bvval(v.c, w))
            v._z = r
        return v._z
    if isinstance(v, BV):
        if v._z is None:
            if len(v.ps) == 1:
                v._z = piece_z3(*v.ps[0])
            else:
                v._z = z3.Concat(*[piece_z3(*p) for p in reversed(v.ps)])
        return v._z
    if v is UNDEF: raise ValueError('undef')
    raise TypeError(repr(v))

def from_z3(t):
    if z3.is_bv_value(t): return t.as_long()
    k = t.decl().kind()
    w = t.size()
    if k == z3.Z3_OP_CONCAT:
        ps = []
        for a in reversed(t.children()):
            x = from_z3(a); ps += pieces(x, a.size())
        return mk(w, ps)
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params(); return extract(from_z3(t.arg(0)), t.arg(0).size(), lo, w)
    if k == z3.Z3_OP_ZERO_EXT:
        a = t.arg(0); return mk(w, pieces(from_z3(a), a.size()) + [(w - a.size(), None, 0)])
    return BV(w, ((w, t, 0),))

def pieces(v, w):
    if isinstance(v, int): return [(w, None, v)]
    if isinstance(v, BV): return list(v.ps)
    if isinstance(v, Lin): return [(w, to_z3(v, w), 0)]
    raise TypeError(repr(v))

def extract(v, w, lo, n):
    if isinstance(v, int): return (v >> lo) & ((1 << n) - 1)
    if lo == 0 and n == w: return v
    if isinstance(v, Lin):
        if lo == 0: # truncation of a linear sum is linear
            at = {}
            ok = True
            for k, (co, t) in v.at.items():
                if z3.is_bool(t): at[k] = (co % (1 << n), t)
                else: ok = False; break
            if ok: return norm_lin(Lin(n, v.c, {k: x for k, x in at.items() if x[0]}))
        return mk(n, [(n, to_z3(v, w), lo)])
    out = []; p = 0
    for (pn, t, l) in v.ps:
        a = max(p, lo); b = min(p + pn, lo + n)
        if a < b:
            out.append((b - a, t, (l >> (a - p)) if t is None else l + (a - p)))
        p += pn
    return mk(n, out)

def concat(vs):
    """lsb-first list of (value,width)"""
    ps = []; w = 0
    for v, n in vs: ps += pieces(v, n); w += n
    return mk(w, ps)

def norm_lin(l):
    at = {k: (co % (1 << l.w), t) for k, (co, t) in l.at.items() if co % (1 << l.w)}
    if not at: return l.c
    if len(at) == 1 and l.c == 0:
        (co, t), = at.values()
        if co == 1 and not z3.is_bool(t): return from_z3(t)
    return Lin(l.w, l.c, at)

def to_lin(v, w):
    if isinstance(v, int): return Lin(w, v, {})
    if isinstance(v, Lin): return v
    t = to_z3(v, w)
    return Lin(w, 0, {t.get_id(): (1, t)})

def lin_add(a, b, w, sign=1):
    a = to_lin(a, w); b = to_lin(b, w)
    at = dict(a.at)
    for k, (co, t) in b.at.items():
        if k in at: at[k] = (at[k][0] + sign * co, t)
        else: at[k] = (sign * co, t)
    return norm_lin(Lin(w, a.c + sign * b.c, at))

def lin_mul(a, k, w):
    a = to_lin(a, w)
    return norm_lin(Lin(w, a.c * k, {i: (co * k, t) for i, (co, t) in a.at.items()}))

def same(a, b):
    """syntactic identity"""
    if a is b: return True
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, BV) and isinstance(b, BV):
        return a.w == b.w and len(a.ps) == len(b.ps) and all(x[0] == y[0] and x[2] == y[2] and
                (x[1] is y[1] or (x[1] is not None and y[1] is not None and x[1].eq(y[1]))) for x, y in zip(a.ps, b.ps))
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.w != b.w or a.c != b.c or len(a.at) != len(b.at): return False
        for k, (co, t) in a.at.items():
            o = b.at.get(k)
            if o is None or o[0] != co: return False
        return True
    if isinstance(a, (Lin, BV)) and isinstance(b, (Lin, BV)):
        return to_z3(a, a.w).eq(to_z3(b, b.w))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a == b
    if isinstance(a, FnPtr): return a == b
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

T = z3.BoolVal(True); F = z3.BoolVal(False)
def is_t(b): return b is True or (isinstance(b, z3.BoolRef) and z3.is_true(b))
def is_f(b): return b is False or (isinstance(b, z3.BoolRef) and z3.is_false(b))
def zb(b): return b if isinstance(b, z3.BoolRef) else z3.BoolVal(bool(b))

def Not(b):
    if isinstance(b, bool): return not b
    if z3.is_not(b): return b.arg(0)
    if z3.is_true(b): return False
    if z3.is_false(b): return True
    return z3.Not(b)
def And(*bs):
    out = []
    for b in bs:
        if is_f(b): return False
        if is_t(b): continue
        if z3.is_and(b): out.extend(b.children())
        else: out.append(b)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def Or(*bs):
    out = []
    for b in bs:
        if is_t(b): return True
        if is_f(b): continue
        out.append(b)
    if not out: return False
    if len(out) == 1: return out[0]
    # a or (not a and ..) style simplification for complementary literals
    ids = {b.get_id() for b in out}
    for b in out:
        if z3.is_not(b) and b.arg(0).get_id() in ids: return True
    return z3.Or(*out)
def Implies(a, b):
    if is_f(a) or is_t(b): return True
    if is_t(a): return b
    if is_f(b): return Not(a)
    return z3.Implies(zb(a), zb(b))

def bit_bool(t, lo):
    """Bool for bit lo of z3 term t"""
    b = piece_z3(1, t, lo)
    if t.size() == 1 and z3.is_app_of(t, z3.Z3_OP_ITE):
        c, x, y = t.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            if x.as_long() == 1 and y.as_long() == 0: return c
            if x.as_long() == 0 and y.as_long() == 1: return Not(c)
    return b == bvval(1, 1)

def bool_bv1(b):
    """1-bit integer value of a Bool"""
    if isinstance(b, bool): return int(b)
    if z3.is_true(b): return 1
    if z3.is_false(b): return 0
    if z3.is_eq(b) and z3.is_bv_value(b.arg(1)) and b.arg(1).size() == 1 and b.arg(1).as_long() == 1:
        return from_z3(b.arg(0))
    return BV(1, ((1, z3.If(b, bvval(1, 1), bvval(0, 1)), 0),))

def eqv(a, b, w):
    """equality of two w-bit integers -> bool | z3 Bool"""
    if same(a, b): return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Lin) or isinstance(b, Lin):
        d = lin_add(a, b, w, -1)
        if isinstance(d, int): return d == 0
        return to_z3(a, w) == to_z3(b, w)
    pa = pieces(a, w); pb = pieces(b, w)
    cs = []
    i = j = 0; ra = pa[0]; rb = pb[0]
    while True:
        n = min(ra[0], rb[0])
        x = (n, ra[1], ra[2] & ((1 << n) - 1) if ra[1] is None else ra[2]); y = (n, rb[1], rb[2] & ((1 << n) - 1) if rb[1] is None else rb[2])
        if x[1] is None and y[1] is None:
            if x[2] != y[2]: return False
        elif x[1] is not None and y[1] is not None and x[1].eq(y[1]) and x[2] == y[2]:
            pass
        elif n == 1 and (x[1] is None or y[1] is None):
            c, v = (x, y) if x[1] is None else (y, x)
            b_ = bit_bool(v[1], v[2])
            cs.append(b_ if c[2] & 1 else Not(b_))
        else:
            cs.append(piece_z3(*x) == piece_z3(*y))
        def adv(r, n):
            return (r[0] - n, r[1], (r[2] >> n) if r[1] is None else r[2] + n)
        ra = adv(ra, n); rb = adv(rb, n)
        if ra[0] == 0:
            i += 1
            if i == len(pa): break
            ra = pa[i]
        if rb[0] == 0:
            j += 1
            if j == len(pb): break
            rb = pb[j]
    return And(*cs)

def ite(c, a, b, w):
    """if c then a else b for w-bit ints"""
    if is_t(c): return a
    if is_f(c): return b
    if same(a, b): return a
    if isinstance(a, Lin) or isinstance(b, Lin) or (w == 64 and isinstance(a, int) and isinstance(b, int)):
        d = lin_add(a, b, w, -1)
        if isinstance(d, int):
            if w >= 32:
                if z3.is_not(c):   # canonical guard polarity
                    g = c.arg(0); l = to_lin(a, w); k = (-d)
                else:
                    g = c; l = to_lin(b, w); k = d
                at = dict(l.at); key = g.get_id()
                o = at.get(key)
                at[key] = ((o[0] if o else 0) + k, g)
                return norm_lin(Lin(w, l.c, at))
    if w == 1:
        ba = to_bool(a); bb = to_bool(b)
        return bool_bv1(bite(c, ba, bb))
    pa = pieces(a, w); pb = pieces(b, w)
    out = []; i = j = 0; ra = pa[0]; rb = pb[0]
    while True:
        n = min(ra[0], rb[0])
        x = (n, ra[1], ra[2] & ((1 << n) - 1) if ra[1] is None else ra[2]); y = (n, rb[1], rb[2] & ((1 << n) - 1) if rb[1] is None else rb[2])
        if x[1] is None and y[1] is None:
            if x[2] == y[2]: out.append(x)
            else:
                d = x[2] ^ y[2]
                k = 0
                while k < n:   # split into runs of equal/different bits
                    df = (d >> k) & 1; e = k
                    while e < n and ((d >> e) & 1) == df: e += 1
                    m = (1 << (e - k)) - 1
                    xv = (x[2] >> k) & m; yv = (y[2] >> k) & m
                    if not df: out.append((e - k, None, xv))
                    else:
                        for q in range(k, e):
                            out.append((1, bool_bv1_term(c if (x[2] >> q) & 1 else Not(c)), 0))
                    k = e
        elif x[1] is not None and y[1] is not None and x[1].eq(y[1]) and x[2] == y[2]:
            out.append(x)
        elif n == 1:
            gb = bite(c, piece_bool(x), piece_bool(y))
            v = bool_bv1(gb)
            out += pieces(v, 1)
        else:
            out.append((n, z3.If(c, piece_z3(*x), piece_z3(*y)), 0))
        def adv(r, n):
            return (r[0] - n, r[1], (r[2] >> n) if r[1] is None else r[2] + n)
        ra = adv(ra, n); rb = adv(rb, n)
        if ra[0] == 0:
            i += 1
            if i == len(pa): break
            ra = pa[i]
        if rb[0] == 0:
            j += 1
            if j == len(pb): break
            rb = pb[j]
    return mk(w, out)

def bool_bv1_term(b):
    v = bool_bv1(b)
    return to_z3(v, 1)

def piece_bool(p):
    if p[1] is None: return bool(p[2] & 1)
    return bit_bool(p[1], p[2])

def to_bool(v):
    """1-bit int -> bool | z3 Bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, BV):
        n, t, lo = v.ps[0]
        return bit_bool(t, lo)
    raise TypeError(repr(v))

def bite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else Not(c)
    if is_t(a): return Or(c, b)
    if is_f(a): return And(Not(c), b)
    if is_t(b): return Or(Not(c), a)
    if is_f(b): return And(c, a)
    if zb(a).eq(zb(b)): return a
    return z3.If(c, zb(a), zb(b))

def low_zero_bits(v, w):
    n = 0
    for (pn, t, lo) in pieces(v, w):
        if t is not None: return n
        if lo == 0: n += pn
        else:
            return n + ((lo & -lo).bit_length() - 1)
    return w

def bitop(op, a, b, w):
    """and/or/xor piecewise where possible"""
    pa = pieces(a, w); pb = pieces(b, w); out = []
    i = j = 0; ra = pa[0]; rb = pb[0]
    def split_const(n, v):
        # runs of equal bits
        k = 0; r = []
        while k < n:
            bit = (v >> k) & 1; e = k
            while e < n and ((v >> e) & 1) == bit: e += 1
            r.append((e - k, bit)); k = e
        return r
    while True:
        n = min(ra[0], rb[0])
        x = (n, ra[1], ra[2] & ((1 << n) - 1) if ra[1] is None else ra[2]); y = (n, rb[1], rb[2] & ((1 << n) - 1) if rb[1] is None else rb[2])
        if x[1] is None and y[1] is None:
            v = {'and': x[2] & y[2], 'or': x[2] | y[2], 'xor': x[2] ^ y[2]}[op]
            out.append((n, None, v))
        elif x[1] is None or y[1] is None:
            c, t = (x, y) if x[1] is None else (y, x)
            k = 0
            for (m, bit) in split_const(n, c[2]):
                s = (m, t[1], t[2] + k)
                if op == 'and': out.append(s if bit else (m, None, 0))
                elif op == 'or': out.append((m, None, (1 << m) - 1) if bit else s)
                else:
                    if bit:
                        if m == 1: out += pieces(bool_bv1(Not(bit_bool(s[1], s[2]))), 1)
                        else: out.append((m, ~piece_z3(*s), 0))
                    else: out.append(s)
                k += m
        elif x[1].eq(y[1]) and x[2] == y[2]:
            out.append(x if op != 'xor' else (n, None, 0))
        else:
            A = piece_z3(*x); B = piece_z3(*y)
            if n == 1 and op in ('and', 'or'):
                bb = (And if op == 'and' else Or)(piece_bool(x), piece_bool(y))
                out += pieces(bool_bv1(bb), 1)
            else:
                out.append((n, {'and': A & B, 'or': A | B, 'xor': A ^ B}[op], 0))
        def adv(r, n):
            return (r[0] - n, r[1], (r[2] >> n) if r[1] is None else r[2] + n)
        ra = adv(ra, n); rb = adv(rb, n)
        if ra[0] == 0:
            i += 1
            if i == len(pa): break
            ra = pa[i]
        if rb[0] == 0:
            j += 1
            if j == len(pb): break
            rb = pb[j]
    return mk(w, out)

def bswap(v, w):
    return concat([(extract(v, w, w - 8 * (i + 1), 8), 8) for i in range(w // 8)])

def zext(v, w, w2):
    if isinstance(v, int): return v
    if isinstance(v, Lin): return mk(w2, [(w, to_z3(v, w), 0), (w2 - w, None, 0)])
    return mk(w2, list(v.ps) + [(w2 - w, None, 0)])

def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def sext(v, w, w2):
    if isinstance(v, int): return sgn(v, w) & ((1 << w2) - 1)
    ps = pieces(v, w)
    n, t, lo = ps[-1]
    if t is None:
        top = (lo >> (n - 1)) & 1
        return mk(w2, ps + [(w2 - w, None, ((1 << (w2 - w)) - 1) if top else 0)])
    # keep low part piecewise; extension bits are copies of the sign bit
    sb = piece_z3(1, t, lo + n - 1)
    ext = z3.simplify(z3.SignExt(w2 - w - 1, sb)) if w2 - w > 1 else sb
    return mk(w2, ps + [(w2 - w, ext, 0)])

def shl(v, k, w):
    if isinstance(v, int): return (v << k) & ((1 << w) - 1)
    return concat([(0, k), (extract(v, w, 0, w - k), w - k)]) if k else v
def lshr(v, k, w):
    if isinstance(v, int): return v >> k
    return concat([(extract(v, w, k, w - k), w - k), (0, k)]) if k else v
def ashr(v, k, w):
    if isinstance(v, int): return (sgn(v, w) >> k) & ((1 << w) - 1)
    return sext(extract(v, w, k, w - k), w - k, w) if k else v
