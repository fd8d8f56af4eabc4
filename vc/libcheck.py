"""Contracts of the fixed-size words and structures (spec/lib.py) checked against the real member functions."""
import z3
from .engine import *
from .dom import *
from . import prover, build
from .models import I8, I64
from spec import lib as L

NAT = {'bool': 1, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64, 'int32_t': 32}

def wrappers(classes):
    o = ['#include <cstdint>\n#include <new>\n#include <optional>\n#include <cstring>\n#include <string>\n#include <vector>']
    for h in sorted({c.header for c in classes}): o.append(f'#include <{h}>')
    for c in classes:
        if c.impl: o.append(f'#include <{c.impl}>')
    for c in classes:
        T = c.cpp; p = 'w_' + c.id
        o.append(f'extern "C" void {p}__ctor(void* p) {{ new (p) {T}(); }}')
        o.append(f'extern "C" uint64_t {p}__sizeof() {{ return sizeof({T}); }}')
        o.append(f'extern "C" uint64_t {p}__size(const {T}* p) {{ return p->size(); }}')
        o.append(f'extern "C" void {p}__pack(const {T}* p, uint8_t* b) {{ p->pack_into(b); }}')
        o.append(f'extern "C" void {p}__unpack({T}* p, const uint8_t* b) {{ p->unpack_from(const_cast<uint8_t*>(b)); }}')
        if c.anynone:
            o.append(f'extern "C" bool {p}__any(const {T}* p) {{ return p->any(); }}')
            o.append(f'extern "C" bool {p}__none(const {T}* p) {{ return p->none(); }}')
        for f in c.fields:
            v = f'static_cast<{f.cast}>(v)' if f.cast else 'v'
            o.append(f'extern "C" void {p}__set_{f.name}({T}* p, {f.ct} v) {{ p->{f.name}({v}); }}')
            if f.kind == 'opt':
                o.append(f'extern "C" {f.ct} {p}__get_{f.name}(const {T}* p, bool* has) {{ auto r = p->{f.name}(); *has = r.has_value(); return r.has_value() ? static_cast<{f.ct}>(*r) : {f.ct}{{}}; }}')
                if f.rst: o.append(f'extern "C" void {p}__rst_{f.name}({T}* p) {{ p->reset_{f.name}(); }}')
            else:
                o.append(f'extern "C" {f.ct} {p}__get_{f.name}(const {T}* p) {{ return static_cast<{f.ct}>(p->{f.name}()); }}')
    return '\n'.join(o) + '\n'

# ---- bit helpers over byte lists (index 0 = first wire byte, bit 0 = most significant of byte 0)
def bit(b, i):
    x = b[i // 8]
    return extract(x, 8, 7 - i % 8, 1) if not isinstance(x, int) else (x >> (7 - i % 8)) & 1
def get_bits(b, idx):
    """value with the first listed bit most significant"""
    return concat([(bit(b, i), 1) for i in reversed(idx)])
def set_bits(b, idx, v):
    """byte list with the listed bits replaced by v (width len(idx))"""
    w = len(idx); nb = {}
    for k, i in enumerate(idx): nb[i] = extract(v, w, w - 1 - k, 1) if not isinstance(v, int) else (v >> (w - 1 - k)) & 1
    out = list(b)
    for B in {i // 8 for i in idx}:
        out[B] = concat([(nb.get(B * 8 + 7 - j, None) if (B * 8 + 7 - j) in nb else bit(b, B * 8 + 7 - j), 1) for j in range(8)])
    return out

class Ctx:
    """engine plus helper calls on one object"""
    def __init__(s, mod, ms=20000):
        s.e = Engine(mod, timeout_ms=ms); s.e.check_fptoi = True; s.m = mod
    def call(s, st, name, args, ret=False):
        e = s.e
        outs = e.call(st, name, args)
        for o in outs:
            if o.thrown: e.oblige(o.st, f'no exception ({o.thrown})', False)
        outs = [o for o in outs if not o.thrown]
        if not outs: return None
        if len(outs) > 1: raise Unsupported('several outcomes')
        return (outs[0].st, outs[0].ret) if ret else outs[0].st
    def obj_bytes(s, st, oid):
        o = st.mem[oid]; e = s.e
        r = []
        for i in range(o.size):
            v, k, n = e.entry(o, i)
            if v is UNDEF: r.append(UNDEF)
            elif isinstance(v, (int, BV, Lin)): r.append(extract(v, 8 * n, 8 * k, 8))
            else: r.append((v, k, n))
        return r
    def buf(s, st, vals, name='bytes', ro=False):
        oid = s.e.new_obj(st, 'heap', len(vals), name)
        for i, v in enumerate(vals): st.w(oid).ent[i] = (v, 0, 1)
        st.mem[oid].ro = ro
        return oid
    def outbuf(s, st, n): return s.e.new_obj(st, 'heap', n, 'output buffer')
    def bytes_of(s, st, oid):
        return s.obj_bytes(st, oid)

def eqbytes(e, a, b):
    """conjunction of byte equalities; UNDEF in a is a mismatch unless UNDEF in b"""
    cs = []
    for x, y in zip(a, b):
        if y is UNDEF: continue
        if x is UNDEF: return False
        if isinstance(x, tuple) or isinstance(y, tuple):
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x[1:] == y[1:] and same(x[0], y[0])): return False
            continue
        c = eqv(x, y, 8)
        if c is False: return False
        if c is not True: cs.append(c)
    return And(*cs) if cs else True

def symbytes_n(n, tag): return [BV(8, ((8, z3.BitVec(f'{tag}{i}', 8), 0),)) for i in range(n)]

def check_class(mod, c, ms, frame_only=False):
    """generator of obligations for class c; returns (engine list, info)"""
    T = c.id; p = 'w_' + T; N = c.size
    engines = []
    frame = c.prop == 'C09' or True
    def start():
        x = Ctx(mod, ms); engines.append(x.e); st = State(); return x, x.e, st
    x, e, st = start()
    r = x.call(st, f'{p}__sizeof', [], True); SZ = r[1]
    def fresh_obj(x, st):
        oid = x.e.new_obj(st, 'heap', SZ, T)
        return oid
    def constructed(x, st):
        oid = fresh_obj(x, st)
        return x.call(st, f'{p}__ctor', [Ptr(oid, 0)]), oid
    def loaded(x, st, b):
        st, oid = constructed(x, st)
        src = x.buf(st, b, 'input bytes', ro=True)
        st = x.call(st, f'{p}__unpack', [Ptr(oid, 0), Ptr(src, 0)])
        return st, oid
    def packed_bytes(x, st, oid):
        before = x.obj_bytes(st, oid)
        ob = x.outbuf(st, N)
        st = x.call(st, f'{p}__pack', [Ptr(oid, 0), Ptr(ob, 0)])
        return st, x.bytes_of(st, ob), before
    def symbytes(x, tag='b'): return [BV(8, ((8, z3.BitVec(f'{tag}{i}', 8), 0),)) for i in range(N)]
    def tag(e, k, **info):
        for o in e.obl:
            if o.info is None or not isinstance(o.info, dict): o.info = dict(what=k, **info)
    def closure(x, e, st, oid, bytes_, nm, info):
        """object state equals the one obtained by unpacking its own packed bytes"""
        st2 = st.fork()
        st2, o2 = loaded(x, st2, bytes_)
        e.oblige(st, f'{T}: representation after {nm} is the one unpacking its bytes gives', eqbytes(e, x.obj_bytes(st, oid), x.obj_bytes(st2, o2)), 'invariant', info)
    # size, construction
    x, e, st = start()
    st, oid = constructed(x, st)
    st, sz = x.call(st, f'{p}__size', [Ptr(oid, 0)], True)
    e.oblige(st, f'{T}: size() is {N}', eqv(sz, N, 64), 'post', dict(what='size'))
    st, out, before = packed_bytes(x, st, oid)
    if not frame_only: e.oblige(st, f'{T}: default-constructed value packs to the documented defaults', eqbytes(e, out, list(c.default)), 'post', dict(what='default'))
    e.oblige(st, f'{T}: pack_into leaves the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame', dict(what='default'))
    if UNDEF not in out and not frame_only: closure(x, e, st, oid, out, 'construction', dict(what='default'))
    tag(e, 'default')
    # packing into the middle of a larger buffer touches only size() bytes
    x, e, st = start(); b = symbytes(x); st, oid = loaded(x, st, b)
    around = symbytes_n(24 + N, 'g'); ob = x.buf(st, around, 'output buffer')
    st = x.call(st, f'{p}__pack', [Ptr(oid, 0), Ptr(ob, 12)])
    info = dict(what='around', b=b, exp=b)
    e.oblige(st, f'{T}: pack_into writes exactly its {N} bytes at the address given', eqbytes(e, x.bytes_of(st, ob), around[:12] + b + around[12 + N:]), 'frame', info)
    src = x.buf(st, around, 'input bytes', ro=True)
    st = x.call(st, f'{p}__unpack', [Ptr(oid, 0), Ptr(src, 12)])
    st, out, _ = packed_bytes(x, st, oid)
    e.oblige(st, f'{T}: unpack_from depends only on the {N} bytes at the address given', eqbytes(e, out, around[12:12 + N]), 'post', dict(what='roundtrip', b=around[12:12 + N], exp=around[12:12 + N]))
    tag(e, 'around', b=b, exp=b)
    # unpack / pack identity, frame
    x, e, st = start(); b = symbytes(x)
    st, oid = loaded(x, st, b)
    st, sz = x.call(st, f'{p}__size', [Ptr(oid, 0)], True)
    e.oblige(st, f'{T}: size() is {N} for every content', eqv(sz, N, 64), 'post', dict(what='size'))
    st, out, before = packed_bytes(x, st, oid)
    info = dict(what='roundtrip', b=b, exp=b)
    e.oblige(st, f'{T}: pack_into after unpack_from reproduces the bytes', eqbytes(e, out, b), 'post', info)
    e.oblige(st, f'{T}: pack_into leaves the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame', info)
    # second unpack over an arbitrary previous value
    b2 = symbytes(x, 'c'); src = x.buf(st, b2, 'input bytes', ro=True)
    st = x.call(st, f'{p}__unpack', [Ptr(oid, 0), Ptr(src, 0)])
    st, out, before = packed_bytes(x, st, oid)
    e.oblige(st, f'{T}: unpack_from replaces every byte of a previous value', eqbytes(e, out, b2), 'post', dict(what='roundtrip', b=b2, exp=b2))
    closure(x, e, st, oid, out, 'unpack_from', info)
    tag(e, 'roundtrip', b=b, exp=b)
    if frame_only: return engines
    if c.anynone:
        for nm in ('any', 'none'):
            x, e, st = start(); b = symbytes(x); st, oid = loaded(x, st, b)
            st, r = x.call(st, f'{p}__{nm}', [Ptr(oid, 0)], True)
            allz = And(*[eqv(y, 0, 8) for y in b])
            e.oblige(st, f'{T}: {nm}() tells whether some bit is set', eqv(r, bool_bv1(allz if nm == 'none' else Not(allz)), 1), 'post', dict(what='anynone', nm=nm, b=b, exp=bool_bv1(allz if nm == 'none' else Not(allz))))
            tag(e, 'anynone', b=b, nm=nm, exp=0)
    for f in c.fields:
        check_field(x, start, loaded, packed_bytes, symbytes, closure, tag, c, f, p)
    return engines

def fp_set_spec(e, st, f, v, S):
    """assume the precondition (the value fits the format) and return the stored bits"""
    scaled = z3.fpMul(RNE, v, fp_two(f.R, F64)) if f.R else v
    r = z3.fpRoundToIntegral(RNA, scaled)
    lo, hi = (-(2.0 ** (f.width - 1)), 2.0 ** (f.width - 1)) if f.kind == 'fix' else (0.0, 2.0 ** f.width)
    st.assume(z3.And(z3.fpGEQ(r, z3.FPVal(lo, F64)), z3.fpLT(r, z3.FPVal(hi, F64))))
    w = f.width
    return from_z3(z3.fpToSBV(RTZ, r, z3.BitVecSort(w)) if f.kind == 'fix' else z3.fpToUBV(RTZ, r, z3.BitVecSort(w)))

def decode(e, f, b):
    """value the getter must return for wire bytes b"""
    v = get_bits(b, f.bits()); w = f.width
    if f.kind in ('fix', 'ufix'):
        z = to_z3(v, w)
        sort = F64 if w <= 53 else F80
        t = e.int_to_fp(z, f.kind == 'fix', sort)
        q = e.fpint.get(t.get_id())
        t = e.mk_fpint(q[0], q[1], q[2] - f.R, sort)
        return t if sort == F64 else z3.fpFPToFP(RNE, t, F64)
    rw = NAT[f.ct]
    if f.kind == 's': return sext(v, w, rw) if rw > w else v
    x = zext(v, w, rw) if rw > w else extract(v, w, 0, rw) if rw < w else v
    if f.kind == 'bias1': return lin_add(x, 1, rw)
    return x

def arg_for(e, f, nm='v'):
    if f.ct == 'double': return z3.FP(nm, F64)
    w = NAT[f.ct]
    return BV(w, ((w, z3.BitVec(nm, w), 0),))

def field_value(e, st, f, v):
    """stored bits for argument v (precondition assumed into st)"""
    if f.ct == 'double': return fp_set_spec(e, st, f, v, None)
    w = NAT[f.ct]
    if f.kind == 'bias1': v = lin_add(v, 1, w, -1)
    return extract(v, w, 0, f.width) if w > f.width else zext(v, w, f.width) if w < f.width else v

def fpeq(a, b):
    if same(a, b): return True
    return z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))

def check_field(x, start, loaded, packed_bytes, symbytes, closure, tag, c, f, p):
    T = c.id; nm = f'{T}::{f.name}'
    # setter
    x, e, st = start(); b = symbytes(x); v = arg_for(e, f)
    bits = field_value(e, st, f, v)
    exp = set_bits(b, f.bits(), bits)
    if f.kind == 'opt': exp = set_bits(exp, f.en_bits(), (1 << len(f.en_bits())) - 1)
    info = dict(what='set', f=f, b=b, v=v, exp=exp)
    st, oid = loaded(x, st, b)
    st = x.call(st, f'{p}__set_{f.name}', [Ptr(oid, 0), v])
    if st is not None:
        st, out, before = packed_bytes(x, st, oid)
        idx = set(f.bits()) | set(f.en_bits())
        e.oblige(st, f'{nm}(value): stores the value at its position', eqv(get_bits(out, sorted(idx)), get_bits(exp, sorted(idx)), len(idx)) if UNDEF not in out else False, 'post', info)
        rest = [i for i in range(c.size * 8) if i not in idx]
        if rest: e.oblige(st, f'{nm}(value): changes no other bit', eqv(get_bits(out, rest), get_bits(exp, rest), len(rest)) if UNDEF not in out else False, 'frame', info)
        closure(x, e, st, oid, exp, nm, info)
    tag(e, 'set', f=f, b=b, v=v, exp=exp)
    # getter
    x, e, st = start(); b = symbytes(x)
    st, oid = loaded(x, st, b); before = x.obj_bytes(st, oid)
    if f.kind == 'opt':
        hp = x.buf(st, [UNDEF], 'flag'); present = And(*[to_bool(bit(b, i)) for i in f.en_bits()])
        st, r = x.call(st, f'{p}__get_{f.name}', [Ptr(oid, 0), Ptr(hp, 0)], True)
        has = x.bytes_of(st, hp)[0]; val = decode(e, f, b); rw = NAT[f.ct]
        info = dict(what='getopt', f=f, b=b, present=present, exp=val)
        e.oblige(st, f'{nm}(): present exactly when its enable bits are set', eqv(has, zext(bool_bv1(present), 1, 8), 8), 'post', info)
        e.oblige(st, f'{nm}(): the value at its position when present', z3.Implies(zb(present), zb(eqv(r, val, rw))), 'post', info)
    else:
        st, r = x.call(st, f'{p}__get_{f.name}', [Ptr(oid, 0)], True)
        val = decode(e, f, b); info = dict(what='get', f=f, b=b, exp=val)
        g = fpeq(r, val) if f.ct == 'double' else eqv(r, val, NAT[f.ct])
        e.oblige(st, f'{nm}(): returns the value at its position', g, 'post', info)
    e.oblige(st, f'{nm}(): does not change the object', eqbytes(e, x.obj_bytes(st, oid), before), 'frame', info)
    tag(e, info['what'], **{k: v for k, v in info.items() if k != 'what'})
    if f.rst:
        x, e, st = start(); b = symbytes(x)
        st, oid = loaded(x, st, b)
        exp = set_bits(b, f.en_bits(), 0); info = dict(what='rst', f=f, b=b, exp=exp)
        st = x.call(st, f'{p}__rst_{f.name}', [Ptr(oid, 0)])
        st, out, before = packed_bytes(x, st, oid)
        idx = f.en_bits(); rest = [i for i in range(c.size * 8) if i not in idx and i not in f.bits()]
        e.oblige(st, f'reset_{nm}: clears the enable bits', eqv(get_bits(out, idx), 0, len(idx)), 'post', info)
        e.oblige(st, f'reset_{nm}: changes no other indicator', eqv(get_bits(out, rest), get_bits(b, rest), len(rest)), 'frame', info)
        closure(x, e, st, oid, out, 'reset_' + nm, info)
        tag(e, 'rst', f=f, b=b, exp=exp)

# ---- replay of counterexamples on the real code
def mval(m, v, w):
    if isinstance(v, int): return v
    t = m.eval(to_z3(v, w), model_completion=True)
    return z3.simplify(t).as_long()
def mfp(m, v):
    """C++ literal of the model's double"""
    t = z3.simplify(m.eval(z3.fpToIEEEBV(v), model_completion=True))
    return f'std::bit_cast<double>(0x{t.as_long():016x}ull)'

def replay_cpp(c, o):
    """program exiting 0 when the real code meets the contract on the counterexample, 3 when it breaks it"""
    i = o.info; m = o.model
    T = c.cpp; N = c.size
    H = f'#include <bit>\n#include <cstdint>\n#include <cstdio>\n#include <cstring>\n#include <new>\n#include <optional>\n#include <string>\n#include <vector>\n#include <{c.header}>\n{f"#include <{c.impl}>" if c.impl else ""}\nint bad = 0;\nvoid show(const char* n, const uint8_t* p, size_t k) {{ printf("%s", n); for (size_t i=0;i<k;++i) printf(" %02x", p[i]); printf("\\n"); }}\n'
    body = [f'alignas(16) static unsigned char store[sizeof({T})]; memset(store, 0xa5, sizeof store); auto* p = new (store) {T}();', f'uint8_t out[{N}]; memset(out, 0x5a, {N});']
    def arr(n, vals): return f'const uint8_t {n}[{N}] = {{{", ".join(hex(v) for v in vals)}}};'
    def final(exp, mask=None):
        body.append(arr('expect', exp)); body.append('p->pack_into(out); show("got     ", out, sizeof out); show("expected", expect, sizeof expect);')
        if mask: body.append(arr('mask', mask) + f' for (int i=0;i<{N};++i) if ((out[i]^expect[i]) & mask[i]) bad = 3;')
        else: body.append(f'if (memcmp(out, expect, {N})) bad = 3;')
    w = i['what']
    if w in ('default', 'size'):
        body.append(f'if (p->size() != {N}) {{ printf("size %zu\\n", (size_t)p->size()); bad = 3; }}'); final(c.default)
    else:
        b = [mval(m, y, 8) for y in i['b']]
        body.append(arr('in', b)); body.append('show("unpack  ", in, sizeof in); p->unpack_from(const_cast<uint8_t*>(in));')
        if w == 'around':
            body.append(f'uint8_t big[{N} + 24]; memset(big, 0x5a, sizeof big); p->pack_into(big + 12); for (int i = 0; i < {N} + 24; ++i) if (big[i] != (i < 12 || i >= {N} + 12 ? 0x5a : in[i - 12])) bad = 3; show("around  ", big, sizeof big);')
        elif w == 'roundtrip': final([mval(m, y, 8) for y in i['exp']])
        elif w == 'anynone':
            e = int(any(b)) if i['nm'] == 'any' else int(not any(b))
            body.append(f'if (p->{i["nm"]}() != {e}) {{ printf("{i["nm"]}() wrong\\n"); bad = 3; }}')
        elif w == 'set':
            f = i['f']
            if f.ct == 'double': v = mfp(m, i['v'])
            else: v = f'static_cast<{f.ct}>({mval(m, i["v"], NAT[f.ct])}ull)'
            cv = f'static_cast<{f.cast}>({v})' if f.cast else v
            body.append(f'auto value = {cv}; p->{f.name}(value);')
            if f.ct == 'double': body.append('printf("value %.17g\\n", value);')
            final([mval(m, y, 8) for y in i['exp']])
        elif w == 'get':
            f = i['f']
            if f.ct == 'double':
                body.append(f'double r = p->{f.name}(); double want = {mfp(m, i["exp"])}; printf("got %.17g expected %.17g\\n", r, want); if (!(r == want)) bad = 3;')
            else:
                body.append(f'auto r = static_cast<{f.ct}>(p->{f.name}()); auto want = static_cast<{f.ct}>({mval(m, i["exp"], NAT[f.ct])}ull); printf("got %lld expected %lld\\n", (long long)r, (long long)want); if (r != want) bad = 3;')
        elif w == 'getopt':
            f = i['f']; pr = i['present']
            pv = z3.is_true(m.eval(zb(pr), model_completion=True))
            body.append(f'auto r = p->{f.name}(); if (r.has_value() != {int(pv)}) {{ printf("presence wrong\\n"); bad = 3; }} else if ({int(pv)} && static_cast<{f.ct}>(*r) != {mval(m, i["exp"], NAT[f.ct])}) {{ printf("value wrong\\n"); bad = 3; }}')
        elif w == 'rst':
            f = i['f']; body.append(f'p->reset_{f.name}();')
            mask = [255] * N
            for k in f.bits(): mask[k // 8] &= ~(0x80 >> (k % 8)) & 255
            final([mval(m, y, 8) for y in i['exp']], mask)
        if w in ('get', 'getopt'): final(b)
    return H + 'int main() {\n  ' + '\n  '.join(body) + '\n  return bad;\n}\n'

def confirm(c, o, n, incs=()):
    try:
        src = replay_cpp(c, o)
        rc, out, err = build.run_cpp(src, f'replay{n}', incs=list(incs))
    except Exception as ex:
        return None, None, f'{type(ex).__name__}: {ex}'
    return src, rc != 0, f'exit {rc}\n{out}{err[:1500]}'
