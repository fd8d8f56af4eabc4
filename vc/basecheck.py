"""Contracts of the elementary types: packed<T> (C01), byte order (C02), fixed point (C03), UUID (C04)."""
import z3
from .engine import *
from .dom import *
from . import build, prover, libcheck
from .libcheck import Ctx, eqbytes, get_bits, set_bits
from .models import I8, I64

UT = {'u8': ('uint8_t', 8), 'u16': ('uint16_t', 16), 'u32': ('uint32_t', 32), 'u64': ('uint64_t', 64)}
def instances(t):
    """every (position, width) the template accepts"""
    w = UT[t][1]
    for P in range(w):
        for B in range(1, P + 2):
            yield P, B

def packed_src(ts):
    o = ['#include <cstring>\n#include <bit>\n#include <vrtgen/types.hpp>\nusing namespace vrtgen;']
    for t in ts:
        T, w = UT[t]; K = f'packed<{T}>'
        o.append(f'extern "C" uint64_t p_{t}_sizeof() {{ return sizeof({K}); }} extern "C" void p_{t}_ctor(void* p) {{ new (p) {K}(); }}\n'
                 f'extern "C" bool p_{t}_any(const {K}* p) {{ return p->any(); }} extern "C" bool p_{t}_none(const {K}* p) {{ return p->none(); }}\n'
                 f'extern "C" uint64_t p_{t}_size(const {K}* p) {{ return p->size(); }}\n'
                 f'extern "C" void p_{t}_pack(const {K}* p, uint8_t* b) {{ p->pack_into(b); }} extern "C" void p_{t}_unpack({K}* p, const uint8_t* b) {{ p->unpack_from(b); }}')
        for P, B in instances(t):
            n = f'{t}_{P}_{B}'
            o.append(f'extern "C" {T} g_{n}(const {K}* p) {{ return p->template get<{P},{B},{T}>(); }} extern "C" void s_{n}({K}* p, {T} v) {{ p->template set<{P},{B}>(v); }}')
            o.append(f'extern "C" void x_{n}({K}* p, int64_t v) {{ p->template set<{P},{B}>(v); }}')
            if B == 1: o.append(f'extern "C" bool b_{n}(const {K}* p) {{ return p->template get<{P}>(); }} extern "C" void c_{n}({K}* p, bool v) {{ p->template set<{P}>(v); }}')
            if B in (8, 16, 32): o.append(f'extern "C" int{B}_t i_{n}(const {K}* p) {{ return p->template get<{P},{B},int{B}_t>(); }}')
    return '#include <new>\n#include <cstdint>\n' + '\n'.join(o)

class FakeClass:
    pass

def sym(n, tag='b'): return [BV(8, ((8, z3.BitVec(f'{tag}{i}', 8), 0),)) for i in range(n)]
def symw(w, nm='v'): return BV(w, ((w, z3.BitVec(nm, w), 0),))

def packed_object(mod, t, full=False):
    """construction, size, any/none, pack/unpack"""
    T, w = UT[t]; N = w // 8; E = []
    def start():
        x = Ctx(mod); E.append(x.e); return x, x.e, State()
    def obj(x, st): 
        oid = x.e.new_obj(st, 'heap', N, 'packed'); return oid
    x, e, st = start(); st, sz = x.call(st, f'p_{t}_sizeof', [], True)
    e.oblige(st, f'packed<{T}>: occupies {N} bytes', eqv(sz, N, 64), 'post')
    def pk(x, st, oid):
        ob = x.outbuf(st, N); st = x.call(st, f'p_{t}_pack', [Ptr(oid, 0), Ptr(ob, 0)]); return st, x.bytes_of(st, ob)
    x, e, st = start(); oid = obj(x, st); st = x.call(st, f'p_{t}_ctor', [Ptr(oid, 0)]); st, out = pk(x, st, oid)
    e.oblige(st, f'packed<{T}>: starts as zero', eqbytes(e, out, [0] * N), 'post', dict(what='p', src=('ctor', t)))
    x, e, st = start(); oid = obj(x, st); st = x.call(st, f'p_{t}_ctor', [Ptr(oid, 0)]); b = sym(N)
    src = x.buf(st, b, 'input', True); st = x.call(st, f'p_{t}_unpack', [Ptr(oid, 0), Ptr(src, 0)]); before = x.obj_bytes(st, oid)
    st, out = pk(x, st, oid)
    e.oblige(st, f'packed<{T}>: pack_into after unpack_from reproduces the bytes', eqbytes(e, out, b), 'post', dict(what='p', src=('rt', t), b=b))
    e.oblige(st, f'packed<{T}>: pack_into leaves the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame')
    st, sz = x.call(st, f'p_{t}_size', [Ptr(oid, 0)], True); e.oblige(st, f'packed<{T}>: size() is {N}', eqv(sz, N, 64), 'post')
    allz = And(*[eqv(y, 0, 8) for y in b])
    for nm in ('any', 'none'):
        st, r = x.call(st, f'p_{t}_{nm}', [Ptr(oid, 0)], True)
        e.oblige(st, f'packed<{T}>: {nm}() tells whether some bit is set', eqv(r, bool_bv1(allz if nm == 'none' else Not(allz)), 1), 'post', dict(what='p', src=(nm, t), b=b))
    e.oblige(st, f'packed<{T}>: queries leave the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame')
    return E

def packed_chunk(mod, t, insts):
    T, w = UT[t]; N = w // 8; E = []
    x = Ctx(mod); e = x.e; E.append(e)
    for P, B in insts:
        n = f'{t}_{P}_{B}'; idx = list(range(w - 1 - P, w - 1 - P + B)); rest = [i for i in range(w) if i not in idx]
        def loaded():
            st = State(); oid = e.new_obj(st, 'heap', N, 'packed'); b = sym(N)
            st = x.call(st, f'p_{t}_ctor', [Ptr(oid, 0)])
            src = x.buf(st, b, 'input', True); st = x.call(st, f'p_{t}_unpack', [Ptr(oid, 0), Ptr(src, 0)])
            return st, oid, b
        def pk(st, oid):
            ob = x.outbuf(st, N); st = x.call(st, f'p_{t}_pack', [Ptr(oid, 0), Ptr(ob, 0)]); return st, x.bytes_of(st, ob)
        for fn, ct, vw in [('s', T, w), ('x', 'int64_t', 64)] + ([('c', 'bool', 1)] if B == 1 else []):
            st, oid, b = loaded(); v = symw(vw)
            st = x.call(st, f'{fn}_{n}', [Ptr(oid, 0), v]); 
            val = extract(v, vw, 0, B) if vw > B else zext(v, vw, B) if vw < B else v
            if fn == 'x' and vw < B: val = sext(v, vw, B)
            exp = set_bits(b, idx, val); info = dict(what='p', src=('set', t, P, B, ct), b=b, v=v, exp=exp)
            st, out = pk(st, oid)
            e.oblige(st, f'packed<{T}>::set<{P},{B}>({ct}): the sub-field holds the low-order bits of the value', eqv(get_bits(out, idx), val, B), 'post', info)
            if rest: e.oblige(st, f'packed<{T}>::set<{P},{B}>({ct}): no other bit changes', eqv(get_bits(out, rest), get_bits(b, rest), len(rest)), 'frame', info)
        for fn, ct, vw in [('g', T, w)] + ([('b', 'bool', 1)] if B == 1 else []) + ([('i', f'int{B}_t', B)] if B in (8, 16, 32) else []):
            st, oid, b = loaded(); before = x.obj_bytes(st, oid)
            st, r = x.call(st, f'{fn}_{n}', [Ptr(oid, 0)], True)
            val = get_bits(b, idx); val = zext(val, B, vw) if vw > B else val
            info = dict(what='p', src=('get', t, P, B, ct), b=b, exp=val, vw=vw)
            e.oblige(st, f'packed<{T}>::get<{P},{B},{ct}>(): the bits of the sub-field', eqv(r, val, vw), 'post', info)
            e.oblige(st, f'packed<{T}>::get<{P},{B},{ct}>(): the word is unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame', info)
    return E

def packed_replay(o, n):
    i = o.info; m = o.model
    if not isinstance(i, dict) or 'src' not in i: return None, None, ''
    s = i['src']; T, w = UT[s[1]]; N = w // 8
    b = [libcheck.mval(m, y, 8) for y in i.get('b', [0] * N)]
    L = ['#include <bit>', '#include <cstdint>', '#include <cstdio>', '#include <cstring>', '#include <vrtgen/types.hpp>',
         'int main() { int bad = 0; vrtgen::packed<%s> p; uint8_t out[%d]; const uint8_t in[] = {%s};' % (T, N, ', '.join(map(str, b)))]
    if s[0] != 'ctor': L.append('p.unpack_from(in);')
    else: b = [0] * N
    exp = b
    if s[0] in ('any', 'none'): L.append(f'if (p.{s[0]}() != {int(any(b) == (s[0] == "any"))}) {{ puts("{s[0]}() wrong"); bad = 3; }}')
    if s[0] == 'set':
        v = libcheck.mval(m, i['v'], i['v'].w); L.append(f'p.set<{s[2]},{s[3]}>(static_cast<{s[4]}>({v}ull));'); exp = [libcheck.mval(m, y, 8) for y in i['exp']]
    if s[0] == 'get':
        v = libcheck.mval(m, i['exp'], i['vw']); L.append(f'auto r = p.get<{s[2]},{s[3]},{s[4]}>(); printf("got %lld\\n", (long long)r); if (r != static_cast<{s[4]}>({v}ull)) bad = 3;')
    L.append('p.pack_into(out); const uint8_t expect[] = {%s}; for (int k=0;k<%d;++k) printf("%%02x(%%02x) ", out[k], expect[k]); if (memcmp(out, expect, %d)) bad = 3; return bad; }' % (', '.join(map(str, exp)), N, N))
    src = '\n'.join(L)
    try: rc, out, err = build.run_cpp(src, f'rp_{s[1]}_{n}')
    except Exception as ex: return src, None, str(ex)
    return src, rc != 0, f'exit {rc}\n{out}{err[:1500]}'

# ---- C02
ITY = [('int8_t', 8), ('uint8_t', 8), ('int16_t', 16), ('uint16_t', 16), ('int32_t', 32), ('uint32_t', 32), ('int64_t', 64), ('uint64_t', 64), ('long long', 64), ('unsigned long long', 64), ('char', 8)]
def swap_src():
    o = ['#include <cstdint>\n#include <cstring>\n#include <vrtgen/types.hpp>']
    for T, w in ITY:
        n = T.replace(' ', '_')
        o.append(f'extern "C" void tobe_{n}({T} v, uint8_t* out) {{ {T} r = vrtgen::swap::to_be(v); std::memcpy(out, &r, sizeof r); }}\n'
                 f'extern "C" {T} frombe_{n}(const uint8_t* in) {{ {T} r; std::memcpy(&r, in, sizeof r); return vrtgen::swap::from_be(r); }}\n'
                 f'extern "C" {T} both_{n}({T} v) {{ return vrtgen::swap::from_be(vrtgen::swap::to_be(v)); }}')
    return '\n'.join(o)
def swap_type(mod, T, w):
    n = T.replace(' ', '_'); x = Ctx(mod); e = x.e; N = w // 8
    st = State(); v = symw(w); ob = x.outbuf(st, N)
    st = x.call(st, f'tobe_{n}', [v, Ptr(ob, 0)])
    be = [extract(v, w, w - 8 - 8 * k, 8) for k in range(N)]
    e.oblige(st, f'to_be<{T}>: bytes in memory are the most-significant-first bytes', eqbytes(e, x.bytes_of(st, ob), be), 'post', dict(what='sw', T=T, n=n, v=v, w=w))
    st = State(); b = sym(N); src = x.buf(st, b, 'input', True)
    st, r = x.call(st, f'frombe_{n}', [Ptr(src, 0)], True)
    e.oblige(st, f'from_be<{T}>: the value those bytes denote most-significant first', eqv(r, get_bits(b, list(range(w))), w), 'post', dict(what='sw', T=T, n=n, b=b, w=w))
    st = State(); st, r = x.call(st, f'both_{n}', [v], True)
    e.oblige(st, f'from_be(to_be(v)) == v for {T}', eqv(r, v, w), 'post', dict(what='sw', T=T, n=n, v=v, w=w))
    return [e]
def swap_replay(o, n):
    i = o.info; m = o.model; w = i['w']
    if 'v' in i: v = libcheck.mval(m, i['v'], w)
    else: v = int.from_bytes(bytes(libcheck.mval(m, y, 8) for y in i['b']), 'big')
    by = v.to_bytes(w // 8, 'big')
    src = f'''#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vrtgen/types.hpp>
int main() {{ int bad = 0; typedef {i['T']} T; T v = static_cast<T>({v}ull); const unsigned char be[] = {{{', '.join(map(str, by))}}};
  T r = vrtgen::swap::to_be(v); if (memcmp(&r, be, sizeof r)) {{ puts("to_be wrong"); bad = 3; }}
  T q; memcpy(&q, be, sizeof q); if (vrtgen::swap::from_be(q) != v) {{ puts("from_be wrong"); bad = 3; }}
  if (vrtgen::swap::from_be(r) != v) {{ puts("from_be(to_be) wrong"); bad = 3; }} return bad; }}'''
    try: rc, out, err = build.run_cpp(src, f'sw_{i["n"]}_{n}')
    except Exception as ex: return src, None, str(ex)
    return src, rc != 0, f'exit {rc}\n{out}{err[:800]}'

# ---- C03
FMT = [(N, R) for N in (8, 12, 16, 24, 32, 48, 64) for R in range(0, N)]
def ity(N): return 64 if N > 32 else 32 if N > 16 else 16 if N > 8 else 8
def fixed_src(fm):
    o = ['#include <cstdint>\n#include <cstring>\n#include <vrtgen/types.hpp>']
    for N, R in fm:
        w = ity(N)
        o.append(f'extern "C" int64_t ti_{N}_{R}(double v) {{ return vrtgen::fixed::to_int<{N},{R}>(v); }}')
        o.append(f'extern "C" int64_t tl_{N}_{R}(long double v) {{ return vrtgen::fixed::to_int<{N},{R}>(v); }}')
        o.append(f'extern "C" double tf_{N}_{R}(int{w}_t v) {{ return vrtgen::fixed::to_fp<{N},{R}>(v); }}')
        o.append(f'extern "C" double tu_{N}_{R}(uint{w}_t v) {{ return vrtgen::fixed::to_fp<{N},{R}>(v); }}')
        o.append(f'extern "C" long double lf_{N}_{R}(int{w}_t v) {{ return vrtgen::fixed::to_fp<{N},{R}>(v); }}')
        o.append(f'extern "C" int64_t id_{N}_{R}(int{w}_t v) {{ return vrtgen::fixed::to_int<{N},{R}>(vrtgen::fixed::to_fp<{N},{R}>(v)); }}')
    return '\n'.join(o)
def fixed_chunk(mod, fm):
    x = Ctx(mod); e = x.e
    for N, R in fm:
        w = ity(N)
        for fn, S in (('ti', F64), ('tl', F80)):
            st = State(); v = z3.FP('v', S)
            r = z3.fpRoundToIntegral(RNA, z3.fpMul(RNE, v, fp_two(R, S)) if R else v)
            st.assume(z3.And(z3.fpGEQ(r, z3.fpNeg(fp_two(N - 1, S))), z3.fpLT(r, fp_two(N - 1, S))))
            exp = z3.SignExt(64 - w, z3.fpToSBV(RTZ, r, z3.BitVecSort(w))) if w < 64 else z3.fpToSBV(RTZ, r, z3.BitVecSort(64))
            st, q = x.call(st, f'{fn}_{N}_{R}', [v], True)
            e.oblige(st, f'to_int<{N},{R}>({"double" if S == F64 else "long double"}): nearest multiple of 2^-{R}, ties away from zero', eqv(q, from_z3(exp), 64), 'post', dict(what='fx', fn=fn, N=N, R=R, v=v, exp=exp))
        def dyad(t, signed, S): return e.mk_fpint(t, signed, -R, S)
        for fn, signed in (('tf', True), ('tu', False)):
            st = State(); v = z3.BitVec('v', w)
            S = F64 if w - signed <= 53 else F80
            exp = dyad(v, signed, S)
            if S == F80: exp = z3.fpFPToFP(RNE, exp, F64)
            st, q = x.call(st, f'{fn}_{N}_{R}', [symw(w)], True)
            e.oblige(st, f'to_fp<{N},{R}>({"" if signed else "u"}int{w}_t): exactly value * 2^-{R}' + (' (then rounded once to double)' if S == F80 else ''), libcheck.fpeq(q, exp), 'post', dict(what='fx', fn=fn, N=N, R=R, v=v, exp=exp))
        st = State(); v = z3.BitVec('v', w)
        st, q = x.call(st, f'lf_{N}_{R}', [symw(w)], True)
        # widening the result to long double is exact
        e.oblige(st, f'to_fp<{N},{R}>(int{w}_t): exact as long double', libcheck.fpeq(q, dyad(v, True, F80)), 'post', dict(what='fx', fn='lf', N=N, R=R, v=v, exp=dyad(v, True, F80)))
        st = State(); v = z3.BitVec('v', w)
        if N < w: st.assume(z3.And(v >= -(1 << (N - 1)), v < (1 << (N - 1))))
        st, q = x.call(st, f'id_{N}_{R}', [symw(w)], True)
        e.oblige(st, f'to_int<{N},{R}>(to_fp<{N},{R}>(i)) == i', eqv(q, from_z3(z3.SignExt(64 - w, v)) if w < 64 else symw(64), 64), 'post', dict(what='fx', fn='id', N=N, R=R, v=v, exp=v))
    return [e]
def fixed_lemmas():
    """the rounding specification itself: r = roundToIntegralTiesToAway(x) is the nearest integer"""
    from .engine import Obligation
    e = Engine.__new__(Engine); e.obl = []; e.called = {}; e.assumed = set(); e.solver_time = 0
    for nm, S in (('double', F64),):
        x = z3.FP('x', S); r = z3.fpRoundToIntegral(RNA, x); d = z3.fpAbs(z3.fpSub(RNE, x, r)); half = fp_two(-1, S)
        fin = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))
        e.obl.append(Obligation(f'lemma: |x - round(x)| <= 1/2 ({nm})', [fin], z3.fpLEQ(d, half), 'lemma', 'round'))
        e.obl.append(Obligation(f'lemma: a tie rounds away from zero ({nm})', [fin, z3.fpEQ(d, half)], z3.fpGT(z3.fpAbs(r), z3.fpAbs(x)), 'lemma', 'round'))
        e.obl.append(Obligation(f'lemma: round(x) is integral ({nm})', [fin], z3.fpEQ(r, z3.fpRoundToIntegral(RTZ, r)), 'lemma', 'round'))
    # scaling by 2^R is exact: multiplying back by 2^-R returns the value (no rounding, normal range)
    for R in (5, 6, 7, 13, 16, 20, 22):
        v = z3.FP('v', F64); s = z3.fpMul(RNE, v, fp_two(R, F64))
        e.obl.append(Obligation(f'lemma: v * 2^{R} is exact', [z3.Not(z3.fpIsNaN(v)), z3.fpLT(z3.fpAbs(v), fp_two(63, F64))], z3.fpEQ(z3.fpMul(RNE, s, fp_two(-R, F64)), v), 'lemma', 'scale'))
    return [e]
def fixed_replay(o, n):
    i = o.info; m = o.model
    if not isinstance(i, dict) or i.get('what') != 'fx': return None, None, ''
    N, R, fn = i['N'], i['R'], i['fn']; w = ity(N)
    H = '#include <bit>\n#include <cstdint>\n#include <cstdio>\n#include <cstring>\n#include <vrtgen/types.hpp>\nint main() { int bad = 0; '
    if fn in ('ti', 'tl'):
        if fn == 'tl': return None, None, 'counterexample over long double not replayed'
        ev = libcheck.mval(m, from_z3(i['exp']), 64)
        src = H + f'double v = {libcheck.mfp(m, i["v"])}; long long r = vrtgen::fixed::to_int<{N},{R}>(v); printf("v=%.17g got %lld expected %lld\\n", v, r, (long long){ev}ull); if (r != (long long){ev}ull) bad = 3; return bad; }}'
    elif fn == 'id':
        src = H + f'int{w}_t v = static_cast<int{w}_t>({libcheck.mval(m, from_z3(i["v"]), w)}ull); auto r = vrtgen::fixed::to_int<{N},{R}>(vrtgen::fixed::to_fp<{N},{R}>(v)); printf("%lld -> %lld\\n", (long long)v, (long long)r); if (r != v) bad = 3; return bad; }}'
    else:
        s = 'u' if fn == 'tu' else ''
        src = H + f'{s}int{w}_t v = static_cast<{s}int{w}_t>({libcheck.mval(m, from_z3(i["v"]), w)}ull); long double r = vrtgen::fixed::to_fp<{N},{R}>(v); long double x = __builtin_ldexpl((long double)v, -{R}); ' + ('double rd = r, xd = x; printf("got %.17g expected %.17g\\n", rd, xd); if (rd != xd) bad = 3;' if fn != 'lf' else 'if (r != x) bad = 3;') + ' return bad; }'
    try: rc, out, err = build.run_cpp(src, f'fx_{N}_{R}_{n}')
    except Exception as ex: return src, None, str(ex)
    return src, rc != 0, f'exit {rc}\n{out}{err[:800]}'

# ---- C04
def uuid_src():
    return '''#include <bitset>
#include <cstdint>
#include <new>
#include <string>
#include <vrtgen/types.hpp>
using vrtgen::UUID;
extern "C" uint64_t u_sizeof() { return sizeof(UUID); }
extern "C" uint64_t u_size(const UUID* u) { return u->size(); }
extern "C" void u_ctor(void* p) { new (p) UUID(); }
extern "C" void u_ctor_text(void* p, const char* s, uint64_t n) { std::string t(s, n); new (p) UUID(t); }
extern "C" void u_set(UUID* u, const char* s, uint64_t n) { std::string t(s, n); u->set(t); }
extern "C" uint64_t u_get(const UUID* u, char* out) { std::string t = u->get(); for (uint64_t i = 0; i < t.size() && i < 36; ++i) out[i] = t[i]; return t.size(); }
extern "C" void u_pack(const UUID* u, uint8_t* b) { u->pack_into(b); }
extern "C" void u_unpack(UUID* u, const uint8_t* b) { u->unpack_from(b); }
'''
DASH = (8, 13, 18, 23)
def hexval(c):
    z = to_z3(c, 8)
    return from_z3(z3.simplify(z3.Extract(3, 0, z3.If(z3.ULE(z, 57), z - 48, z3.If(z3.ULE(z, 70), z - 55, z - 87)))))
def is_hex(c):
    z = to_z3(c, 8)
    return z3.Or(z3.And(z3.UGE(z, 48), z3.ULE(z, 57)), z3.And(z3.UGE(z, 65), z3.ULE(z, 70)), z3.And(z3.UGE(z, 97), z3.ULE(z, 102)))
def uuid_check(mod, part):
    x = Ctx(mod, 60000); e = x.e; st = State()
    st, sz = x.call(st, 'u_sizeof', [], True)
    def new(st, b=None):
        oid = e.new_obj(st, 'heap', sz, 'UUID'); st = x.call(st, 'u_ctor', [Ptr(oid, 0)])
        if b is not None:
            src = x.buf(st, b, 'input', True); st = x.call(st, 'u_unpack', [Ptr(oid, 0), Ptr(src, 0)])
        return st, oid
    def pk(st, oid):
        ob = x.outbuf(st, 16); st = x.call(st, 'u_pack', [Ptr(oid, 0), Ptr(ob, 0)]); return st, x.bytes_of(st, ob)
    if part == 'bytes':
        st = State(); st, oid = new(st); st, out = pk(st, oid)
        e.oblige(st, 'UUID: starts as zero', eqbytes(e, out, [0] * 16), 'post', dict(what='uu', k='ctor'))
        st, n = x.call(st, 'u_size', [Ptr(oid, 0)], True); e.oblige(st, 'UUID: size() is 16', eqv(n, 16, 64), 'post')
        st = State(); b = sym(16); st, oid = new(st, b); before = x.obj_bytes(st, oid); st, out = pk(st, oid)
        e.oblige(st, 'UUID: packing after unpacking reproduces the bytes', eqbytes(e, out, b), 'post', dict(what='uu', k='rt', b=b))
        e.oblige(st, 'UUID: pack_into leaves the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame')
        return [e]
    if part == 'get':
        st = State(); b = sym(16); st, oid = new(st, b); before = x.obj_bytes(st, oid)
        ob = x.outbuf(st, 36)
        st, n = x.call(st, 'u_get', [Ptr(oid, 0), Ptr(ob, 0)], True); out = x.bytes_of(st, ob)
        e.oblige(st, 'UUID::get(): 36 characters', eqv(n, 36, 64), 'post', dict(what='uu', k='get', b=b))
        d = 0
        for k in range(36):
            if k in DASH: exp = 45
            else:
                nib = to_z3(zext(extract(b[d // 2], 8, 0 if d % 2 else 4, 4), 4, 8), 8); d += 1
                exp = from_z3(z3.If(z3.ULT(nib, 10), nib + 48, nib + 87))
            e.oblige(st, f'UUID::get(): character {k} is the lower-case digit of the bytes', eqbytes(e, [out[k]], [exp]), 'post', dict(what='uu', k='get', b=b))
        e.oblige(st, 'UUID::get(): leaves the object unchanged', eqbytes(e, x.obj_bytes(st, oid), before), 'frame')
        return [e]
    how, dashes = part
    st = State(); b = sym(16)
    if how == 'ctor': oid = e.new_obj(st, 'heap', sz, 'UUID')
    else: st, oid = new(st, b)
    pos = [k for k in range(36) if k not in DASH]
    chars = [BV(8, ((8, z3.BitVec(f'c{k}', 8), 0),)) if (not dashes or k in pos) else 45 for k in range(36 if dashes else 32)]
    for c in chars:
        if not isinstance(c, int): st.assume(is_hex(c))
    src = x.buf(st, chars, 'text', True)
    st = x.call(st, 'u_ctor_text' if how == 'ctor' else 'u_set', [Ptr(oid, 0), Ptr(src, 0), len(chars)])
    st, out = pk(st, oid)
    dg = [c for c in chars if not isinstance(c, int)]
    for k in range(16):
        exp = concat([(hexval(dg[2 * k + 1]), 4), (hexval(dg[2 * k]), 4)])
        e.oblige(st, f'UUID {how}({"dashed" if dashes else "plain"} text): byte {k} is spelled by its two digits', eqbytes(e, [out[k]], [exp]), 'post', dict(what='uu', k='set', how=how, chars=chars, b=b))
    return [e]
def uuid_replay(o, n):
    i = o.info; m = o.model
    if not isinstance(i, dict) or i.get('what') != 'uu': return None, None, ''
    H = '#include <bitset>\n#include <cstdint>\n#include <cstdio>\n#include <cstring>\n#include <string>\n#include <vrtgen/types.hpp>\nint main() { int bad = 0; vrtgen::UUID u; uint8_t out[16]; '
    b = [libcheck.mval(m, y, 8) for y in i.get('b', [0] * 16)]
    arr = '{' + ', '.join(map(str, b)) + '}'
    if i['k'] in ('ctor', 'rt'):
        src = H + f'const uint8_t in[16] = {arr}; ' + ('u.unpack_from(in); ' if i['k'] == 'rt' else '') + 'u.pack_into(out); if (memcmp(in, out, 16)) bad = 3; return bad; }'
    elif i['k'] == 'get':
        h = bytes(b).hex(); t = '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        src = H + f'const uint8_t in[16] = {arr}; u.unpack_from(in); printf("%s expected {t}\\n", u.get().c_str()); if (u.get() != "{t}") bad = 3; return bad; }}'
    else:
        t = ''.join(chr(libcheck.mval(m, c, 8)) for c in i['chars']); by = bytes.fromhex(t.replace('-', ''))
        src = H + (f'u.set("{t}");' if i['how'] == 'set' else f'u = vrtgen::UUID("{t}");') + f' u.pack_into(out); const uint8_t want[] = {{{", ".join(map(str, by))}}}; for (int k=0;k<16;++k) printf("%02x", out[k]); if (memcmp(out, want, 16)) bad = 3; return bad; }}'
    try: rc, out, err = build.run_cpp(src, f'uu_{n}')
    except Exception as ex: return src, None, str(ex)
    return src, rc != 0, f'exit {rc}\n{out}{err[:800]}'
