"""Assumed contracts of compiler intrinsics, libc and the parts of libstdc++ that are not executed
symbolically (allocation, std::string, std::map<std::string,...>, streams, vector growth)."""
import z3, re
from .dom import *
from .engine import Outcome, Unsupported, NeedSplit, Infeasible, Seg, RNA, RNE, RTZ, fpsort, sgn

def ok(st, r=None): return [Outcome(st, r)]

def install(E):
    I = lambda rx, f: E.hook(rx, f, front=False)
    I(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|stacksave|stackrestore|trap)', m_nop)
    I(r'^llvm\.(memcpy|memmove)\.|^memcpy$|^memmove$', m_memcpy)
    I(r'^llvm\.memset\.|^memset$', m_memset)
    I(r'^llvm\.bswap\.', m_bswap)
    I(r'^llvm\.expect\.|^llvm\.launder|^llvm\.strip', lambda e, st, n, a, i: ok(st, a[0]))
    I(r'^llvm\.is\.constant', lambda e, st, n, a, i: ok(st, 0))
    I(r'^llvm\.objectsize', lambda e, st, n, a, i: ok(st, (1 << 64) - 1))
    I(r'^llvm\.(round|roundeven|rint|floor|ceil|trunc|fabs|nearbyint)\.', m_round)
    I(r'^(round|roundl|roundf|floor|ceil|fabs|trunc|rint|nearbyint)[lf]?$', m_round)
    I(r'^llvm\.(umax|umin|smax|smin|abs)\.', m_minmax)
    I(r'^llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow', m_ovf)
    I(r'^llvm\.(fshl|fshr)\.', m_fsh)
    I(r'^llvm\.ctpop\.', m_ctpop)
    I(r'^llvm\.(cttz|ctlz)\.', m_ctz)
    I(r'std::bitset<\d+ul>::to_string.*\(\) const$', m_bitset_to_string)
    I(r'^operator new\(unsigned long\)$|^operator new\[\]\(unsigned long\)$|^malloc$', m_new)
    I(r'^operator delete(\[\])?\(|^free$', m_delete)
    I(r'^std::__throw_|^__cxa_throw$|^std::terminate|^__clang_call_terminate|^abort$|^__assert_fail|^__cxa_rethrow$|^std::__glibcxx_assert_fail', m_throw)
    I(r'^__cxa_allocate_exception$', lambda e, st, n, a, i: ok(st, Ptr(e.new_obj(st, 'heap', 4096, 'exception'), 0)))
    I(r'^std::(logic_error|runtime_error|length_error|range_error|invalid_argument|out_of_range|domain_error|overflow_error|underflow_error)::', m_nop)
    I(r'^__cxa_(begin_catch|end_catch|free_exception)$', m_nop)
    I(r'^(toupper|std::toupper)(\(int\))?$', m_toupper)
    I(r'^(tolower|std::tolower)(\(int\))?$', m_tolower)
    I(r'^(std::)?is(upper|lower|digit|xdigit|alpha|alnum|space)(\(int\))?$', m_ctype)
    I(r'^(std::)?l?lround[lf]?(\(.*\))?$|^llvm\.l?lround\.', m_lround)
    I(r'^(std::)?(ldexp|scalbn|scalbln)[lf]?(\(.*\))?$|^llvm\.ldexp\.', m_ldexp)
    I(r'^strlen$', m_strlen)
    I(r'^std::basic_ostringstream<|^std::__cxx11::basic_ostringstream<|^std::operator<<|^std::basic_ostream<|^std::ostream::|^std::basic_ios<|^std::ios_base', m_stream)
    I(r'^std::map<std::(__cxx11::)?basic_string<char.*, unsigned long.*>::', m_map)
    I(r'^(std::optional<)?.*?std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::', m_string)
    I(r'^std::(__cxx11::)?to_string\(|std::__cxx11::to_string', m_to_string)
    I(r'^std::vector<([\w: ]+), std::allocator<\1>\s?>::', m_vec)

def m_nop(e, st, name, a, inst):
    if name.startswith('llvm.assume'): return ok(st)
    if inst is not None and inst.ty.k == 'ptr': return ok(st, a[0] if a else NULL)
    return ok(st)

def m_memcpy(e, st, name, a, inst):
    e.memcpy(st, e.fp(a[0]), e.fp(a[1]), e.widened(a[2])); return ok(st, a[0])

def m_memset(e, st, name, a, inst):
    e.memset(st, a[0], a[1] if name.startswith('llvm') else extract(a[1], 32, 0, 8), a[2]); return ok(st, a[0])

def m_bswap(e, st, name, a, inst):
    v = e.force_i(a[0], inst.ty.bits)
    return ok(st, bswap(v, inst.ty.bits))

def m_round(e, st, name, a, inst):
    n = name.replace('llvm.', '').split('.')[0]
    s = fpsort(inst.ty); x = e.force(a[0], inst.ty)
    base = {'roundl': 'round', 'roundf': 'round', 'floorl': 'floor', 'ceill': 'ceil', 'fabsl': 'fabs', 'truncl': 'trunc', 'rintl': 'rint', 'nearbyintl': 'rint', 'nearbyint': 'rint', 'roundeven': 'rint'}.get(n, n)
    if base == 'fabs': r = z3.fpAbs(x)
    else:
        r = z3.fpRoundToIntegral({'round': RNA, 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': RTZ, 'rint': RNE}[base], x)
    if z3.is_fp_value(x): r = z3.simplify(r)
    return ok(st, r)

def m_minmax(e, st, name, a, inst):
    w = inst.ty.bits; op = name.split('.')[1]
    if op == 'abs':
        x = a[0]
        if isinstance(x, int): return ok(st, abs(sgn(x, w)) & ((1 << w) - 1))
        z = to_z3(x, w); return ok(st, from_z3(z3.If(z < 0, -z, z)))
    p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]
    from types import SimpleNamespace as NS
    c = to_bool(e.icmp(st, p, a[0], a[1], NS(k='int', bits=w)))
    return ok(st, ite(c, a[0], a[1], w))

def m_ovf(e, st, name, a, inst):
    w = inst.ty.elems[0].bits; op = name.split('.')[1]
    s = op[0] == 's'; b = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op[1:]]
    from types import SimpleNamespace as NS
    r = e.binop(st, b, a[0], a[1], NS(k='int', bits=w))
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = (sgn(a[0], w), sgn(a[1], w)) if s else (a[0], a[1])
        t = {'add': x + y, 'sub': x - y, 'mul': x * y}[b]
        o = int(not ((-(1 << (w - 1)) <= t < (1 << (w - 1))) if s else (0 <= t < (1 << w))))
        return ok(st, [r, o])
    x, y = to_z3(a[0], w), to_z3(a[1], w)
    ext = z3.SignExt if s else z3.ZeroExt
    k = w if b == 'mul' else 1
    X, Y = ext(k, x), ext(k, y)
    t = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[b]
    o = ext(k, to_z3(r, w)) != t
    return ok(st, [r, bool_bv1(z3.simplify(o))])

def m_fsh(e, st, name, a, inst):
    w = inst.ty.bits
    if not isinstance(a[2], int): raise Unsupported('fsh')
    k = a[2] % w
    c = concat([(a[1], w), (a[0], w)])
    return ok(st, extract(c, 2 * w, w - k if 'fshl' in name else k, w))

def m_ctpop(e, st, name, a, inst):
    w = inst.ty.bits
    if isinstance(a[0], int): return ok(st, bin(a[0]).count('1'))
    r = 0
    for i in range(w):
        r = lin_add(r, ite(to_bool(extract(a[0], w, i, 1)), 1, 0, w), w)
    return ok(st, r)

def m_ctz(e, st, name, a, inst):
    w = inst.ty.bits; lead = 'ctlz' in name
    if isinstance(a[0], int):
        s = format(a[0], f'0{w}b')
        return ok(st, (len(s) - len(s.lstrip('0'))) if lead else (len(s) - len(s.rstrip('0'))))
    r = w
    for i in (range(w) if lead else reversed(range(w))):
        r = ite(to_bool(extract(a[0], w, i, 1)), (w - 1 - i) if lead else i, r, w)
    return ok(st, r)

def m_bitset_to_string(e, st, name, a, inst):
    import re
    d = e.m.dem[name]
    n = int(re.search(r'std::bitset<(\d+)ul>::to_string', d).group(1))
    zero, one = 48, 49
    if len(a) >= 4: zero, one = a[2], a[3]
    e.assumed.add('std::bitset<N>::to_string: character k is the bit N-1-k (libstdc++)')
    nb = (n + 63) // 64 * 8
    by = [e.entries_to_val([x], I8) for x in e.load_entries(st, a[1], nb)]
    cs = []
    for k in reversed(range(n)):
        b = extract(by[k // 8], 8, k % 8, 1)
        cs.append(ite(to_bool(b), one, zero, 8))
    str_make(e, st, a[0], cs)
    return ok(st)

def m_new(e, st, name, a, inst):
    n = a[0]
    return ok(st, Ptr(e.new_obj(st, 'heap', n if isinstance(n, int) else n, 'heap'), 0)) if isinstance(n, int) else ok(st, new_seq(e, st, n))

def new_seq(e, st, n):
    oid = e.new_obj(st, 'heap', n, 'heap')
    o = st.w(oid); f = z3.Function(f'heap!{oid}', z3.BitVecSort(64), z3.BitVecSort(8))
    o.segs = [Seg('a', n=n, fn=f, key=('heap', oid))]
    return Ptr(oid, 0)

def m_delete(e, st, name, a, inst):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None: return ok(st)
    if not isinstance(p, Ptr): raise Unsupported('delete of conditional pointer')
    o = st.mem.get(p.obj)
    if o is None or o.freed or not same(p.off, 0) or o.kind != 'heap':
        e.oblige(st, 'delete of a live heap object', False); raise Infeasible()
    st.w(p.obj).freed = True
    return ok(st)

def m_throw(e, st, name, a, inst):
    return [Outcome(st, None, e.m.dem.get(name, name))]

def m_toupper(e, st, name, a, inst):
    v = a[0]
    if isinstance(v, int):
        s = sgn(v, 32); return ok(st, (s - 32 if 97 <= s <= 122 else s) & 0xffffffff)
    z = to_z3(v, 32)
    return ok(st, from_z3(z3.If(z3.And(z >= 97, z <= 122), z - 32, z)))
def m_tolower(e, st, name, a, inst):
    v = a[0]
    if isinstance(v, int):
        s = sgn(v, 32); return ok(st, (s + 32 if 65 <= s <= 90 else s) & 0xffffffff)
    z = to_z3(v, 32)
    return ok(st, from_z3(z3.If(z3.And(z >= 65, z <= 90), z + 32, z)))

def m_ctype(e, st, name, a, inst):
    import re
    k = re.search(r'is([a-z]+)', e.m.dem.get(name, name)).group(1)
    R = dict(upper=[(65, 90)], lower=[(97, 122)], digit=[(48, 57)], xdigit=[(48, 57), (65, 70), (97, 102)], alpha=[(65, 90), (97, 122)],
             alnum=[(48, 57), (65, 90), (97, 122)], space=[(32, 32), (9, 13)])[k]
    e.assumed.add('ctype classification in the "C" locale')
    v = a[0]
    if isinstance(v, int):
        s = sgn(v, 32); return ok(st, int(any(l <= s <= h for l, h in R)))
    z = to_z3(v, 32)
    return ok(st, from_z3(z3.If(z3.Or(*[z3.And(z >= l, z <= h) for l, h in R]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
def m_lround(e, st, name, a, inst):
    x = a[0]; r = z3.fpRoundToIntegral(RNA, x)
    lo, hi = -(2.0 ** 63), 2.0 ** 63
    e.oblige(st, 'lround: result representable', z3.And(z3.fpGEQ(r, z3.FPVal(lo, x.sort())), z3.fpLT(r, z3.FPVal(hi, x.sort()))))
    return ok(st, from_z3(z3.fpToSBV(RTZ, r, z3.BitVecSort(inst.ty.bits))))
def m_ldexp(e, st, name, a, inst):
    if not isinstance(a[1], int): raise Unsupported('ldexp by a variable exponent')
    k = sgn(a[1], 32 if a[1] < (1 << 32) else 64)
    from types import SimpleNamespace as NS
    x = a[0]; q = e.fpint.get(x.get_id()) if hasattr(x, 'get_id') else None
    if q is not None: return ok(st, e.mk_fpint(q[0], q[1], q[2] + k, x.sort()))
    f = z3.FPVal(2.0 ** k, x.sort())
    return ok(st, z3.fpMul(RNE, x, f))

def cstr(e, st, p):
    """concrete C string at p or None"""
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): return None
    o = st.mem[p.obj]
    if o.segs is not None: return None
    out = []
    k = p.off
    while True:
        if isinstance(o.size, int) and k >= o.size: return None
        v, i, n = e.entry(o, k)
        if not isinstance(v, int): return None
        b = (v >> (8 * i)) & 255
        if b == 0: return bytes(out).decode('latin1')
        out.append(b); k += 1

def m_strlen(e, st, name, a, inst):
    s = cstr(e, st, a[0])
    if s is None: s = symchars(e, st, a[0])
    if s is None: raise Unsupported('strlen of symbolic string')
    return ok(st, len(s))

def symchars(e, st, p):
    """characters up to the first NUL where its place is known on this path, or None"""
    if not isinstance(p, Ptr) or p.obj is None or st.mem.get(p.obj) is None or st.mem[p.obj].any or not isinstance(p.off, int) or st.mem[p.obj].segs is not None: return None
    r = []
    for k in range(4096):
        v = e.entries_to_val(e.load_entries(st, Ptr(p.obj, p.off + k), 1), I8)
        if v is UNDEF: return None
        if isinstance(v, int):
            if v == 0: return r
        elif not e.valid(st, to_z3(v, 8) != 0): return None
        r.append(v)
    return None

# ---- std::string: a 32-byte object; content kept in the state's string table
class Str:
    """abstract string: concrete text or list of 8-bit values, or opaque"""
    __slots__ = ('text', 'chars')
    def __init__(s, text=None, chars=None): s.text = text; s.chars = chars
    def __repr__(s): return f'Str({s.text!r},{s.chars and len(s.chars)})'

def get_str(e, st, p):
    """decode the string object at p"""
    k = ('s', p.obj, p.off)
    v = st.aux.get(repr(k))
    return v

class STy:
    k = 'ptr'; bits = None; store = 8; size = 8
class I64:
    k = 'int'; bits = 64; store = 8; size = 8
class I8:
    k = 'int'; bits = 8; store = 1; size = 1

def str_make(e, st, p, chars, reuse=False):
    """construct at p a string with the given list of char values (None: opaque of unknown length)"""
    n = len(chars)
    # one data object per string location: states that built the string separately stay mergeable
    sd = e.__dict__.setdefault('strdata', {})
    key = (p.obj, repr(p.off))
    oid = sd.get(key)
    if oid is None: oid = sd[key] = e.new_obj(st, 'heap', n + 1, 'string data')
    elif oid not in st.mem:
        o = type(next(iter(st.mem.values())))('heap', n + 1, 'string data'); o.owner = st.tok; st.mem[oid] = o
    o = st.w(oid); o.size = n + 1; o.ent = {}
    for i, c in enumerate(chars): o.ent[i] = (c, 0, 1)
    o.ent[n] = (0, 0, 1)
    e.store(st, p, Ptr(oid, 0), STy); e.store(st, Ptr(p.obj, e.padd(p.off, 8)), n, I64)
    # local buffer / capacity
    e.store(st, Ptr(p.obj, e.padd(p.off, 16)), n, I64); e.store(st, Ptr(p.obj, e.padd(p.off, 24)), 0, I64)

def str_chars(e, st, p):
    d = e.load(st, p, STy); n = e.load(st, Ptr(p.obj, e.padd(p.off, 8)), I64)
    if not isinstance(n, int): raise Unsupported('string of symbolic length')
    if n == 0: return []
    def rd(d):
        if isinstance(d, PtrIte): return [ite(d.c, x, y, 8) for x, y in zip(rd(d.a), rd(d.b))]
        return [e.entries_to_val([x], I8) for x in e.load_entries(st, d, n)]
    return rd(d)

def str_opaque(e, st, p):
    str_make(e, st, p, [ord(c) for c in '?'])

def text_of(chars):
    if all(isinstance(c, int) for c in chars): return bytes(chars).decode('latin1')
    return None

def cchars(e, st, p):
    """character values of the C string at p (conditional pointers: strings of equal length), or None"""
    if isinstance(p, PtrIte):
        x, y = cchars(e, st, p.a), cchars(e, st, p.b)
        if x is None or y is None or len(x) != len(y): return None
        return [ite(p.c, u, v, 8) for u, v in zip(x, y)]
    if not isinstance(p, Ptr): return None
    s = cstr(e, st, p)
    return symchars(e, st, p) if s is None else [ord(c) for c in s]

def m_string(e, st, name, a, inst):
    for k, x in enumerate(a):
        if isinstance(x, PtrIte) and not (k == 1 and 'char const*' in e.m.dem[name] and cchars(e, st, x) is not None):
            out = []
            for s2, v in zip(e.branch(st, x.c), (x.a, x.b)):
                if s2 is not None: out += m_string(e, s2, name, a[:k] + [v] + a[k + 1:], inst)
            return out
    d = e.m.dem[name]
    m = d.split('basic_string<char, std::char_traits<char>, std::allocator<char>>::' if 'allocator<char>>::' in d else 'basic_string<char, std::char_traits<char>, std::allocator<char> >::')
    if not (m[0].endswith('std::__cxx11::') or m[0].endswith('std::')) or m[0].count('(') > 0 or m[0].startswith('std::optional'): return NotImplemented
    meth = m[1]
    p = a[0]
    if meth.startswith('basic_string'):
        # constructors; sret-free: a[0] is this
        if 'basic_string()' in meth or meth.startswith('basic_string(std::allocator'):
            str_make(e, st, p, []); return ok(st)
        if '(char const*, ' in meth and 'unsigned long' not in meth or meth.startswith('basic_string<std::allocator<char>>(char const*') or meth.startswith('basic_string<std::allocator<char> >(char const*'):
            s = cchars(e, st, a[1])
            if s is None: raise Unsupported('string from symbolic chars')
            str_make(e, st, p, s); return ok(st)
        if '(char const*, unsigned long' in meth:
            if not isinstance(a[2], int): raise Unsupported('string of symbolic length')
            str_make(e, st, p, [e.entries_to_val([x], I8) for x in e.load_entries(st, a[1], a[2])]); return ok(st)
        if 'basic_string const&, unsigned long, unsigned long' in meth or '> const&, unsigned long, unsigned long)' in meth:
            cs = str_chars(e, st, a[1])
            if not (isinstance(a[2], int) and isinstance(a[3], int)): raise Unsupported('substr')
            if a[2] > len(cs): return [Outcome(st, None, 'out_of_range')]
            str_make(e, st, p, cs[a[2]:a[2] + a[3]]); return ok(st)
        if '&&' in meth:
            cs = str_chars(e, st, a[1]); str_make(e, st, p, cs); str_make(e, st, a[1], []); return ok(st)
        if 'const&' in meth and 'unsigned long' not in meth:
            str_make(e, st, p, str_chars(e, st, a[1])); return ok(st)
        if '(unsigned long, char' in meth:
            if not isinstance(a[1], int): raise Unsupported('string of symbolic length')
            str_make(e, st, p, [a[2]] * a[1]); return ok(st)
        return NotImplemented
    if meth.startswith('~basic_string'): return ok(st)
    if meth.startswith('append(char const*)') or meth.startswith('operator+=(char const*)'):
        s = cchars(e, st, a[1])
        if s is None: raise Unsupported('append')
        str_make(e, st, p, str_chars(e, st, p) + s, True); return ok(st, p)
    if meth.startswith('append(char const*, unsigned long)'):
        if not isinstance(a[2], int): raise Unsupported('append of symbolic length')
        str_make(e, st, p, str_chars(e, st, p) + [e.entries_to_val([x], I8) for x in e.load_entries(st, a[1], a[2])], True); return ok(st, p)
    if meth.startswith('append(unsigned long, char)'):
        str_make(e, st, p, str_chars(e, st, p) + [a[2]] * a[1], True); return ok(st, p)
    if (meth.startswith('append(') or meth.startswith('operator+=(')) and 'const&)' in meth:
        str_make(e, st, p, str_chars(e, st, p) + str_chars(e, st, a[1]), True); return ok(st, p)
    if (meth.startswith('append(') or meth.startswith('operator+=(')) and '&&)' in meth:
        str_make(e, st, p, str_chars(e, st, p) + str_chars(e, st, a[1]), True); return ok(st, p)
    if meth.startswith('push_back(char)') or meth.startswith('operator+=(char)'):
        str_make(e, st, p, str_chars(e, st, p) + [a[1]], True); return ok(st, p)
    if meth.startswith('operator=(') :
        if 'char const*' in meth:
            cs = cchars(e, st, a[1])
        elif '(char)' in meth: cs = [a[1]]
        else: cs = str_chars(e, st, a[1])
        str_make(e, st, p, cs); return ok(st, p)
    if meth.startswith('substr('):
        # sret in a[0]
        r, t = a[0], a[1]
        cs = str_chars(e, st, t)
        if not (isinstance(a[2], int) and isinstance(a[3], int)): raise Unsupported('substr')
        if a[2] > len(cs): return [Outcome(st, None, 'out_of_range')]
        str_make(e, st, r, cs[a[2]:a[2] + a[3]]); return ok(st)
    if meth.startswith('reserve(') or meth.startswith('shrink_to_fit'): return ok(st)
    if meth.startswith('resize(unsigned long, char)') or meth.startswith('resize(unsigned long)'):
        cs = str_chars(e, st, p); n = a[1]
        if not isinstance(n, int): raise Unsupported('resize')
        f = a[2] if len(a) > 2 else 0
        str_make(e, st, p, (cs + [f] * n)[:n]); return ok(st)
    if meth.startswith('erase(__gnu_cxx::__normal_iterator<char const*') and meth.count('__normal_iterator<') == 2:
        cs = str_chars(e, st, p); d = e.load(st, p, STy); q = [x if isinstance(x, Ptr) else e.load(st, x, STy) for x in a[1:3]]
        if not all(isinstance(x, Ptr) and x.obj == d.obj and isinstance(x.off, int) for x in q) or not isinstance(d.off, int): raise Unsupported('string::' + meth)
        i, j = (x.off - d.off for x in q)
        e.oblige(st, 'string::erase: a range of the string', 0 <= i <= j <= len(cs))
        str_make(e, st, p, cs[:i] + cs[j:]); dn = e.load(st, p, STy); return ok(st, Ptr(dn.obj, dn.off + i))
    if meth.startswith('clear()'): str_make(e, st, p, []); return ok(st)
    if meth.startswith('insert(') or meth.startswith('erase(') or meth.startswith('replace(') or meth.startswith('find') or meth.startswith('compare'):
        raise Unsupported('string::' + meth)
    return NotImplemented

def m_to_string(e, st, name, a, inst):
    v = a[1]
    if isinstance(v, int):
        d = e.m.dem[name]; w = 64 if 'long' in d else 32
        s = str(v if 'unsigned' in d else sgn(v, w))
        str_make(e, st, a[0], [ord(c) for c in s]); return ok(st)
    if getattr(e, 'opaque_strings', False):
        str_opaque(e, st, a[0]); return ok(st)
    # small symbolic values: decided digit by digit is unsupported unless provably < 10
    w = v.w
    z = to_z3(v, w)
    if e.valid(st, z3.ULT(z, 10)):
        str_make(e, st, a[0], [from_z3(z3.simplify(z3.Extract(7, 0, z) + 48))]); return ok(st)
    raise Unsupported('to_string of symbolic value')

def m_stream(e, st, name, a, inst):
    d = e.m.dem[name]
    e.assumed.add('std::ostringstream text is not modelled (diagnostic messages are opaque)')
    if '::str()' in d or '::str() const' in d:
        str_opaque(e, st, a[0]); return ok(st)
    if inst is not None and inst.ty.k == 'ptr': return ok(st, a[0])
    return ok(st)

# ---- std::map<std::string, size_t>
def map_key(e, st, p):
    s = text_of(str_chars(e, st, p))
    if s is None: raise Unsupported('map key')
    return s

def map_slot(e, st, p, key, create):
    """each mapped value lives in its own 8-byte heap object"""
    mk_ = (p.obj, p.off)
    t = st.maps.setdefault(mk_, {})
    if key not in t:
        if not create: return None
        oid = e.new_obj(st, 'heap', 8, f'map[{key}]')
        e.store(st, Ptr(oid, 0), 0, I64)
        t[key] = oid
    return Ptr(t[key], 0)

def m_map(e, st, name, a, inst):
    d = e.m.dem[name]
    meth = d.rsplit('>::', 1)[1] if '>::operator[]' not in d else 'operator[]'
    for k in ('::operator[](', '::at(', '::map()', '::~map()', '::size()', '::count(', '::contains(', '::find(', '::end()', '::begin()', '::insert_or_assign', '::emplace', '::erase(', '::clear('):
        if k in d: meth = k; break
    p = a[0]
    if meth == '::map()':
        st.maps[(p.obj, p.off)] = {}; return ok(st)
    if meth == '::~map()': return ok(st)
    if meth == '::operator[](':
        return ok(st, map_slot(e, st, p, map_key(e, st, a[1]), True))
    if meth == '::at(':
        s = map_slot(e, st, p, map_key(e, st, a[1]), False)
        if s is None: return [Outcome(st, None, 'std::map::at: no such key ' + map_key(e, st, a[1]))]
        return ok(st, s)
    if meth in ('::contains(', '::count('):
        s = map_slot(e, st, p, map_key(e, st, a[1]), False)
        return ok(st, int(s is not None))
    raise Unsupported('map method ' + d)

# ---- std::vector<uint8_t>
def vec_get(e, st, p):
    b = e.load(st, p, STy); n = e.load(st, Ptr(p.obj, e.padd(p.off, 8)), STy)
    if isinstance(b, PtrIte) or isinstance(n, PtrIte): raise Unsupported('conditional vector storage')
    if b.obj is None: return None, 0
    return b, lin_add(n.off, b.off, 64, -1) if not (isinstance(n.off, int) and isinstance(b.off, int)) else n.off - b.off

def vec_segs(e, st, p):
    b, n = vec_get(e, st, p)
    if b is None: return []
    o = st.mem[b.obj]
    if o.segs is None:
        return [Seg('b', None, [e.entry(o, i) for i in range(n)])] if n else []
    return e.normalize_segs(st, o.segs)

def vec_set(e, st, p, segs):
    """(re)allocate storage holding segs"""
    b, n = vec_get(e, st, p)
    if b is not None: st.w(b.obj).freed = True
    n = e.seg_len(segs)
    oid = e.new_obj(st, 'heap', n, 'vector storage')
    o = st.w(oid); o.segs = segs; o.any = e.havoc
    e.store(st, p, Ptr(oid, 0), STy)
    e.store(st, Ptr(p.obj, e.padd(p.off, 8)), Ptr(oid, n), STy)
    e.store(st, Ptr(p.obj, e.padd(p.off, 16)), Ptr(oid, n), STy)
    return Ptr(oid, 0)

def fill_seg(e, v, n):
    if isinstance(n, int): return Seg('b', None, [(v, 0, 1)] * n)
    zv = to_z3(v, 8)
    return Seg('a', n=n, fn=lambda i: zv, key=('const', zv.get_id(), zv))

VEC = re.compile(r'^std::vector<([\w: ]+), std::allocator<\1>\s?>::(.*)$')
def default_seg(e, T, n):
    """n value-initialised elements"""
    es = e.elems[T]
    if isinstance(es, int): return fill_seg(e, 0, lin_mul(n, es, 64) if not isinstance(n, int) else n * es)
    ent, es = es
    if isinstance(n, int): return Seg('b', None, list(ent) * n)
    zs = [to_z3(e.entries_to_val([x], I8), 8) if x[0] is not UNDEF else None for x in ent]
    pad = z3.Function(f'pad!{next(e.fresh_n)}', z3.BitVecSort(64), z3.BitVecSort(8))
    def fn(i):
        r = z3.URem(i, z3.BitVecVal(es, 64)); t = None
        for j, z in enumerate(zs): z = pad(i) if z is None else z; t = z if t is None else z3.If(r == j, z, t)
        return t
    return Seg('a', n=lin_mul(n, es, 64), fn=fn, key=('default', next(e.fresh_n)))

def m_vec(e, st, name, a, inst):
    d = e.m.dem[name]
    m = VEC.match(d); T = m.group(1); meth = m.group(2)
    if T not in e.elems: return NotImplemented
    if e.range_hi or e.alias: a = [e.widened(v) for v in a]
    if T != 'unsigned char': return m_vec_elems(e, st, name, a, inst, T, meth)
    p = a[0]
    Z = lambda off: Ptr(p.obj, e.padd(p.off, off))
    if meth.startswith('vector(') or meth.startswith('vector<'):
        if meth.startswith('vector()'):
            for k in (0, 8, 16): e.store(st, Z(k), NULL, STy)
            return ok(st)
        for k in (0, 8, 16): e.store(st, Z(k), NULL, STy)
        if meth.startswith('vector(unsigned long, std::alloc'): vec_set(e, st, p, [fill_seg(e, 0, a[1])]); return ok(st)
        if meth.startswith('vector(unsigned long, unsigned char const&'): vec_set(e, st, p, [fill_seg(e, e.load(st, a[2], I8), a[1])]); return ok(st)
        if '&&' in meth and 'initializer' not in meth:
            b, n = vec_get(e, st, a[1])
            for k in (0, 8, 16):
                e.store(st, Z(k), e.load(st, Ptr(a[1].obj, e.padd(a[1].off, k)), STy), STy)
                e.store(st, Ptr(a[1].obj, e.padd(a[1].off, k)), NULL, STy)
            return ok(st)
        if 'const&' in meth and 'initializer' not in meth and 'unsigned long' not in meth:
            vec_set(e, st, p, vec_segs(e, st, a[1])); return ok(st)
        if meth.startswith('vector<') and len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].obj == a[2].obj:
            n = lin_add(a[2].off, a[1].off, 64, -1) if not (isinstance(a[2].off, int) and isinstance(a[1].off, int)) else a[2].off - a[1].off
            vec_set(e, st, p, e.as_segs(st, a[1], n)); return ok(st)
        raise Unsupported('vector ctor ' + meth)
    if meth.startswith('~vector'):
        b, n = vec_get(e, st, p)
        if b is not None: st.w(b.obj).freed = True
        return ok(st)
    if meth.startswith('resize('):
        n = e.simp_lin(st, a[1]); v = e.load(st, a[2], I8) if len(a) > 2 else 0
        segs = vec_segs(e, st, p); cur = e.seg_len(segs)
        cur = e.simp_lin(st, cur)
        dlt = e.simp_lin(st, lin_add(n, cur, 64, -1)) if not (isinstance(n, int) and isinstance(cur, int)) else (n - cur) & ((1 << 64) - 1)
        if isinstance(dlt, int) and sgn(dlt, 64) == 0: return ok(st)
        if isinstance(dlt, int) and sgn(dlt, 64) > 0:
            vec_set(e, st, p, segs + [fill_seg(e, v, dlt)]); return ok(st)
        if isinstance(dlt, int):
            vec_set(e, st, p, e.normalize_segs(st, e.split_at(st, segs, n)[0])); return ok(st)
        # three cases, each on a path of its own: same length, longer, shorter
        eq = z3.simplify(to_z3(n, 64) == to_z3(cur, 64)); gt = z3.simplify(z3.UGT(to_z3(n, 64), to_z3(cur, 64)))
        r = e.decide(st, eq)
        if r is None: raise NeedSplit(eq)
        if r: return ok(st)
        r = e.decide(st, gt)
        if r is None: raise NeedSplit(gt)
        if r:
            st.assume(z3.simplify(z3.ULT(to_z3(dlt, 64), 1 << 62)))
            vec_set(e, st, p, e.normalize_segs(st, segs + [fill_seg(e, v, dlt)])); return ok(st)
        vec_set(e, st, p, e.normalize_segs(st, e.split_at(st, segs, n)[0])); return ok(st)
    if meth.startswith('clear()'):
        vec_set(e, st, p, []); return ok(st)
    if meth.startswith('reserve(') or meth.startswith('shrink_to_fit'): return ok(st)
    if meth.startswith('push_back(') or meth.startswith('emplace_back'):
        segs = vec_segs(e, st, p); v = e.load(st, a[1], I8)
        b = vec_set(e, st, p, e.normalize_segs(st, segs + [Seg('b', None, [(v, 0, 1)])]))
        return ok(st, b)
    if meth.startswith('insert(') or meth.startswith('insert<'):
        segs = vec_segs(e, st, p)
        b, n = vec_get(e, st, p)
        sig = meth
        if isinstance(a[1], Ptr):
            if b is None: off = 0
            elif a[1].obj != b.obj: e.oblige(st, 'insert position refers to the vector', False); raise Infeasible()
            else: off = lin_add(a[1].off, b.off, 64, -1)
        else: raise Unsupported('insert position')
        off = e.simp_lin(st, off)
        e.oblige(st, 'insert position within the vector', z3.ULE(to_z3(off, 64), to_z3(n, 64)) if not (isinstance(off, int) and isinstance(n, int)) else off <= n)
        if 'unsigned long, unsigned char const&)' in sig: new = [fill_seg(e, e.load(st, a[3], I8), e.simp_lin(st, a[2]))]
        elif sig.startswith('insert<') and len(a) == 4 and isinstance(a[2], Ptr):
            ln = lin_add(a[3].off, a[2].off, 64, -1) if a[2].obj == a[3].obj else None
            if ln is None: raise Unsupported('insert range')
            new = e.as_segs(st, a[2], ln)
        elif 'unsigned char const&)' in sig or 'unsigned char&&)' in sig: new = [Seg('b', None, [(e.load(st, a[2], I8), 0, 1)])]
        else: raise Unsupported('vector insert ' + sig)
        l, r = e.split_at(st, segs, off)
        nb = vec_set(e, st, p, e.normalize_segs(st, l + new + r))
        return ok(st, Ptr(nb.obj, off))
    if meth.startswith('erase('):
        segs = vec_segs(e, st, p)
        b, n = vec_get(e, st, p)
        if b is None or a[1].obj != b.obj: e.oblige(st, 'erase position refers to the vector', False); raise Infeasible()
        f = e.simp_lin(st, lin_add(a[1].off, b.off, 64, -1))
        if len(a) == 3:
            if a[2].obj != b.obj: e.oblige(st, 'erase position refers to the vector', False); raise Infeasible()
            t = e.simp_lin(st, lin_add(a[2].off, b.off, 64, -1))
        else: t = e.simp_lin(st, lin_add(f, 1, 64))
        z = lambda x: to_z3(x, 64)
        if isinstance(f, int) and isinstance(t, int) and isinstance(n, int): e.oblige(st, 'erased range within the vector', f <= t <= n)
        else: e.oblige(st, 'erased range within the vector', z3.And(z3.ULE(z(f), z(t)), z3.ULE(z(t), z(n))))
        l, r0 = e.split_at(st, segs, f)
        _, r = e.split_at(st, e.normalize_segs(st, segs), t)
        nb = vec_set(e, st, p, e.normalize_segs(st, l + r))
        return ok(st, Ptr(nb.obj, f))
    if meth.startswith('operator=('):
        src = a[1]
        if '&&' in meth:
            segs = vec_segs(e, st, src); vec_set(e, st, p, segs); vec_set(e, st, src, [])
        elif 'initializer_list' in meth: raise Unsupported('vector = init list')
        else: vec_set(e, st, p, vec_segs(e, st, src))
        return ok(st, p)
    if meth.startswith('assign'):
        if meth.startswith('assign(unsigned long'):
            vec_set(e, st, p, [fill_seg(e, e.load(st, a[2], I8), a[1])]); return ok(st)
        if len(a) == 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].obj == a[2].obj:
            segs = e.as_segs(st, a[1], e.simp_lin(st, lin_add(a[2].off, a[1].off, 64, -1)))
            vec_set(e, st, p, segs); return ok(st)
        raise Unsupported('vector assign')
    if meth.startswith('swap('): raise Unsupported('vector swap')
    if meth.startswith('_M_') and not meth.startswith('_M_get_Tp_allocator'): 
        if meth.startswith('_M_range_check') or meth.startswith('_M_check_len') or meth.startswith('_M_data_ptr'): return NotImplemented
        raise Unsupported('vector internal ' + meth)
    return NotImplemented

# ---- std::vector of other trivially copyable elements (no move, insert or erase)
def m_vec_elems(e, st, name, a, inst, T, meth):
    p = a[0]; es = e.elems[T]; es = es if isinstance(es, int) else es[1]
    Z = lambda off: Ptr(p.obj, e.padd(p.off, off))
    if meth.startswith('vector('):
        for k in (0, 8, 16): e.store(st, Z(k), NULL, STy)
        if meth.startswith('vector()'): vec_set(e, st, p, []); return ok(st)       # storage of no elements: no address of it is usable
        if meth.startswith('vector(unsigned long, std::alloc'): vec_set(e, st, p, [default_seg(e, T, a[1])]); return ok(st)
        if meth.startswith('vector(std::vector<') and 'const&' in meth: vec_set(e, st, p, vec_segs(e, st, a[1])); return ok(st)
        raise Unsupported('vector ctor ' + meth)
    if meth.startswith('~vector'):
        b, n = vec_get(e, st, p)
        if b is not None: st.w(b.obj).freed = True
        return ok(st)
    if meth.startswith('operator=(') and 'const&' in meth and 'initializer' not in meth:
        vec_set(e, st, p, vec_segs(e, st, a[1])); return ok(st, p)
    if meth.startswith('clear()'): vec_set(e, st, p, []); return ok(st)
    if meth.startswith('reserve('): return ok(st)
    if meth.startswith('push_back('):
        b, n = vec_get(e, st, p)
        if b is not None and st.mem[b.obj].segs is not None and same(b.off, 0) and same(e.simp_lin(st, e.seg_len(st.mem[b.obj].segs)), n):
            # in place (references kept across the call are not invalidated here: trusted base)
            ent = e.load_entries(st, a[1], es); o = st.w(b.obj)
            if e.wlog is not None: e.wlog.append((b.obj, n, es))
            o.segs = e.normalize_segs(st, o.segs + [Seg('b', None, ent)]); o.size = lin_add(n, es, 64)
            for k in (8, 16): e.store(st, Z(k), Ptr(b.obj, o.size), STy)
            return ok(st, Ptr(b.obj, n))
        b = vec_set(e, st, p, e.normalize_segs(st, vec_segs(e, st, p) + [Seg('b', None, e.load_entries(st, a[1], es))])); return ok(st, b)
    if meth.startswith('resize('):
        n = e.simp_lin(st, lin_mul(a[1], es, 64) if not isinstance(a[1], int) else a[1] * es)
        segs = vec_segs(e, st, p); cur = e.simp_lin(st, e.seg_len(segs))
        dlt = e.simp_lin(st, lin_add(n, cur, 64, -1)) if not (isinstance(n, int) and isinstance(cur, int)) else (n - cur) & ((1 << 64) - 1)
        if isinstance(dlt, int) and sgn(dlt, 64) == 0: return ok(st)
        def grow(k):
            if len(a) > 2: raise Unsupported('vector resize with value')
            return default_seg(e, T, k)
        if isinstance(cur, int) and cur == 0: vec_set(e, st, p, [grow(a[1])]); return ok(st)
        if e.havoc: vec_set(e, st, p, [grow(a[1])]); return ok(st)
        if isinstance(dlt, int) and sgn(dlt, 64) > 0: vec_set(e, st, p, segs + [grow(dlt // es)]); return ok(st)
        if not isinstance(dlt, int):
            gt = z3.simplify(z3.UGT(to_z3(n, 64), to_z3(cur, 64)))
            r = e.decide(st, gt)
            if r is None: raise NeedSplit(gt)
            if r:
                k = e.lin_div(dlt, es, 64) if isinstance(dlt, Lin) else None
                if k is None: raise Unsupported('vector resize length')
                vec_set(e, st, p, e.normalize_segs(st, segs + [grow(k)])); return ok(st)
        vec_set(e, st, p, e.normalize_segs(st, e.split_at(st, segs, n)[0])); return ok(st)
    if meth.startswith('_M_') and not meth.startswith('_M_get_Tp_allocator') and not meth.startswith('_M_range_check'): raise Unsupported('vector internal ' + meth)
    if re.match(r'(insert|erase|emplace|assign|swap|pop_back|shrink|operator=)', meth): raise Unsupported('vector ' + meth)
    return NotImplemented
