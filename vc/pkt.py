"""Contracts of generated packet classes, proved over all histories of their public interface.

For one class (generated by /repo's generator from a specification of spec/pkt.py) the abstract state is: which optional
fields are present, which structure fields were assigned through their reference but not serialised yet, which optional
CIF words are allocated, and the wire bytes of every value (arbitrary).  `canonical(A)` is a concrete representation of
abstract state A with symbolic values, obtained by running the class's own code.  The representation invariant is
inferred, not written down: every public operation is executed symbolically from every canonical(A); where the state it
leaves differs from canonical(A') in bytes, canonical(A') is widened (those bytes become unconstrained) and
reprocessed, until every operation maps the invariant into itself.  Every property is then an obligation on the
invariant's states, hence holds after any sequence of operations."""
import z3, re, fractions
from .engine import *
from .dom import *
from . import prover, build
from .models import I8, I64
from .libcheck import Ctx, eqbytes, fpeq
from spec import pkt as P, lib as L

# ---------------------------------------------------------------- interface description
class It:
    """one item of the interface.  kind: bits (w bits held in one byte), u, s, fix, st, ind (indicator only)"""
    def __init__(s, name, kind, n=1, mode='req', cif=None, ct='uint8_t', w=None, R=None, cpp=None, reserved=0, cast=None, reset=False, default=None, ref=False, settable=True, acc=None, bit=None, assign=True):
        s.name = name; s.kind = kind; s.n = n; s.mode = mode; s.cif = cif; s.ct = ct; s.w = w; s.R = R; s.cpp = cpp; s.reserved = reserved
        s.cast = cast; s.reset = reset; s.default = list(default if default is not None else bytes(n)); s.settable = settable; s.acc = acc or name
        s.bit = bit; s.assign = assign; s.ref = ref
    opt = property(lambda s: s.mode == 'opt')
    def sym(s, tag='', r=0):
        if s.kind == 'pay': return Pay.sym(s.name + tag, r)
        return [BV(8, ((8, z3.BitVec(f'{s.name}{tag}.{i}', 8), 0),)) for i in range(s.n)]

class Pay:
    """payload of arbitrary length and content: segments (whole words), `w`: 16-bit term the length is given by"""
    __slots__ = ('segs', 'src', 'w', 'r', 'key')
    def __init__(s, segs, src=None, w=None, r=0, key=None): s.segs = segs; s.src = src; s.w = w; s.r = r; s.key = key
    @staticmethod
    def sym(name, r=0):
        w = z3.BitVec(name + '.w', 16); f = z3.Function(name + '.b', z3.BitVecSort(64), z3.BitVecSort(8))
        n = concat([(r, 2), (BV(16, ((16, w, 0),)), 16), (0, 46)])
        src = Seg('a', n=n, fn=f, key=('pay', name))
        return Pay([src] + ([Seg('b', None, [(0, 0, 1)] * (4 - r))] if r else []), src, w, r, ('pay', name))
    def words(s):
        """length in words, as a 64-bit value"""
        if s.w is None: return 0
        return lin_add(zext(BV(16, ((16, s.w, 0),)), 16, 64), int(s.r > 0), 64)
    def conc(s, c):
        if s.w is None: return [], []
        if c.m is not None:
            q = c.m.eval(s.w, model_completion=True).as_long(); q = min(q, 4000)
            b = [c.m.eval(s.src.fn(z3.BitVecVal(k, 64)), model_completion=True).as_long() for k in range(4 * q + s.r)]
        else:
            q = 3 if s.key[1] == 'payload' else 1
            b = [(37 * k + 11 + 100 * c.salt + len(s.key[1])) % 255 + 1 for k in range(4 * q + s.r)]
        return b, b + [0] * (-len(b) % 4)

def items(sp):
    o = [It('packet_count', 'bits', w=4)]
    if sp.tsm == 'any': o.append(It('tsm', 'bits', w=1, cast='vrtgen::packing::TSM'))
    if sp.tsi == 'any': o.append(It('tsi', 'bits', w=2, cast='vrtgen::packing::TSI'))
    if sp.tsf == 'any': o.append(It('tsf', 'bits', w=2, cast='vrtgen::packing::TSF'))
    if sp.has_stream():
        if isinstance(sp.stream, list): o.append(It('stream_id', 'st', 4, cpp=f'X_ns::packets::{sp.file}::structs::StreamIdentifier', settable=False))
        else: o.append(It('stream_id', 'u', 4, ct='uint32_t', default=(sp.stream if isinstance(sp.stream, int) else 0).to_bytes(4, 'big')))
    if sp.class_id: o.append(It('pad_bits', 'bits', w=5))
    if sp.multi: o.append(It('information_code', 'u', 2, ct='uint16_t', default=sp.class_id['information_code'].to_bytes(2, 'big')))
    if sp.tsi and sp.tsi != 'none': o.append(It('integer_timestamp', 'u', 4, ct='uint32_t'))
    if sp.tsf and sp.tsf != 'none': o.append(It('fractional_timestamp', 'u', 8, ct='uint64_t'))
    if sp.kind == 'control':
        for nm, w, bit, typ in P.CAM_SETTABLE(sp): o.append(It(nm, 'bits', w=w, ct='bool' if typ == 'bool' else 'uint8_t', cast=None if typ == 'bool' else typ, bit=bit))
        o.append(It('message_id', 'u', 4, ct='uint32_t'))
        for who in ('controllee', 'controller'):
            f = getattr(sp, who)
            if f == 'word': o.append(It(who + '_id', 'u', 4, ct='uint32_t'))
            if f == 'uuid': o.append(It(who + '_id', 'st', 16, cpp='vrtgen::UUID'))
    if sp.ack == 'vx':
        for k, suf in (('w', '_warnings'), ('e', '_errors')):
            if not (sp.warn if k == 'w' else sp.err): continue
            for f in sp.fields: o.append(It(f.name + suf, 'st', 4, 'opt', f'{k}{f.cif}', cpp='vrtgen::packing::WarningErrorFields', reset=True, bit=f.bit))
    if sp.has_cif:
        if not sp.ind_only: o.append(It('change_indicator', 'bits', w=1, ct='bool'))
        for f in sp.fields:
            if sp.ind_only: o.append(It(f.name, 'ind', 0, 'opt', f.cif, default=b'', bit=f.bit, reset=not f.req, acc=f.name + '_enabled'))
            else: o.append(It(f.name, f.t.kind, f.t.size, 'req' if f.req else 'opt', f.cif, f.t.ct, R=f.t.R, cpp=f.t.cpp, reserved=f.t.reserved, cast=f.t.cast, reset=not f.req, default=f.default(), bit=f.bit))
    if sp.kind == 'data': o.append(It('payload', 'pay', 0))
    if sp.trailer is not None: o.append(It('trailer', 'st', 4, cpp=f'X_ns::packets::{sp.file}::structs::Trailer' if P.trailer_ud(sp) else 'vrtgen::packing::Trailer', settable=False))
    return o

def wrappers(sp):
    T = sp.cpp; its = items(sp)
    o = ['#include <cstdint>\n#include <cstring>\n#include <new>\n#include <optional>\n#include <span>\n#include <string>\n#include <vector>', f'#include "{sp.file}.hpp"',
         f'using T = {T};', 'extern "C" uint64_t k_sizeof() { return sizeof(T); }', 'extern "C" void k_ctor(void* p) { new (p) T(); }',
         'extern "C" void k_unpack(void* p, const uint8_t* d, uint64_t n) { new (p) T(std::span<const uint8_t>(d, n)); }',
         'extern "C" const uint8_t* k_data(T* p, uint64_t* n) { auto s = p->data(); *n = s.size(); return s.data(); }',
         'extern "C" uint64_t k_size(T* p) { return p->size(); }',
         'extern "C" bool k_match(const uint8_t* d, uint64_t n) { return !T::match(std::span<const uint8_t>(d, n)).has_value(); }',
         'extern "C" uint16_t k_hsize(const T* p) { return p->header().packet_size(); }',
         'extern "C" void k_hdr(const T* p, uint8_t* b) { p->header().pack_into(b); }']
    if sp.class_id: o.append('extern "C" void k_cid(const T* p, uint8_t* b) { p->class_id().pack_into(b); }')
    if sp.kind == 'control': o.append('extern "C" void k_cam(const T* p, uint8_t* b) { p->cam().pack_into(b); }')
    for c, nm, req in sp.words():
        if req: o.append(f'extern "C" void k_cif{c}(const T* p, bool* has, uint8_t* b) {{ *has = true; p->{nm}().pack_into(b); }}')
        else:
            o.append(f'extern "C" void k_cif{c}(const T* p, bool* has, uint8_t* b) {{ *has = p->{nm}().has_value(); if (*has) p->{nm}()->pack_into(b); }}')
            o.append(f'extern "C" void k_reset_cif{c}(T* p) {{ p->reset_{nm}(); }}')
    if sp.kind == 'data':
        o.append('extern "C" void k_payload(T* p, const uint8_t* d, uint64_t n) { p->payload(std::span<const uint8_t>(d, n)); }')
        o.append('extern "C" const uint8_t* k_get_payload(const T* p, uint64_t* n) { auto s = p->payload(); *n = s.size(); return s.data(); }')
        o.append('extern "C" uint64_t k_payload_size(const T* p) { return p->payload_size(); }')
    for i in its:
        if i.kind == 'pay': continue
        a = i.acc; k = 'k_' + i.name
        if i.kind == 'st':
            tt = i.cpp
            unp = f'{tt} v{{}}; v.unpack_from(const_cast<uint8_t*>(b));'
            if i.settable: o.append(f'extern "C" void {k}_set(T* p, const uint8_t* b) {{ {unp} p->{a}(v); }}')
            o.append(f'extern "C" void {k}_assign(T* p, const uint8_t* b) {{ {unp} p->{a}() = v; }}')
            if i.opt: o.append(f'extern "C" void {k}_get(T* p, bool* has, uint8_t* b) {{ auto& r = p->{a}(); *has = r.has_value(); if (r.has_value()) r->pack_into(b); }}')
            else: o.append(f'extern "C" void {k}_get(T* p, bool* has, uint8_t* b) {{ *has = true; p->{a}().pack_into(b); }}')
        elif i.kind == 'ind':
            o.append(f'extern "C" void {k}_set(T* p, bool v) {{ p->{a}(v); }}')
            o.append(f'extern "C" bool {k}_get(const T* p) {{ return p->{a}(); }}')
        else:
            v = f'static_cast<{i.cast}>(v)' if i.cast else 'v'
            o.append(f'extern "C" void {k}_set(T* p, {i.ct} v) {{ p->{a}({v}); }}')
            if i.opt: o.append(f'extern "C" {i.ct} {k}_get(const T* p, bool* has) {{ auto r = p->{a}(); *has = r.has_value(); return r.has_value() ? static_cast<{i.ct}>(*r) : static_cast<{i.ct}>(0); }}')
            else: o.append(f'extern "C" {i.ct} {k}_get(const T* p, bool* has) {{ *has = true; return static_cast<{i.ct}>(p->{a}()); }}')
        if i.reset: o.append(f'extern "C" void {k}_reset(T* p) {{ p->reset_{i.name}(); }}')
    return '\n'.join(o) + '\n'

# ---------------------------------------------------------------- abstract states
class Abs:
    __slots__ = ('present', 'pend', 'cifs', 'vals')
    def __init__(s, present, pend, cifs, vals): s.present = frozenset(present); s.pend = frozenset(pend); s.cifs = frozenset(cifs); s.vals = vals
    key = property(lambda s: (s.present, s.pend, s.cifs))

def sp_vx(sp): return sp.ack == 'vx'
class Sem:
    """what the operations of a class mean, and how its packets look on the wire (the specification)"""
    def __init__(s, sp):
        s.sp = sp; s.items = items(sp); s.by = {i.name: i for i in s.items}
        s.optcif = [c for c, _, req in sp.words() if not req]
        s.reqcif = [c for c, _, req in sp.words() if req and c != 0]
    def initial(s):
        return Abs({i.name for i in s.items if i.kind == 'ind' and not i.reset}, (), (), {i.name: Pay([]) if i.kind == 'pay' else list(i.default) for i in s.items})
    def names(s, c): return [i.name for i in s.items if i.cif == c]
    def ops(s):
        """(op, item) pairs"""
        o = []
        for i in s.items:
            if i.kind == 'ind': o += [('on', i), ('off', i)]
            elif i.kind == 'pay': o += [(f'pay{r}', i) for r in range(4)]
            else:
                if i.settable: o.append(('set', i))
                if i.kind == 'st': o.append(('assign', i))
            if i.reset: o.append(('reset', i))
        for c in s.optcif: o.append(('reset_cif', c))
        o.append(('data', None)); o.append(('size', None))
        return o
    def apply(s, op, i, A, arg):
        pr, pe, ci, v = set(A.present), set(A.pend), set(A.cifs), dict(A.vals)
        if op in ('set', 'on'):
            if i.opt:
                pr.add(i.name); pe.discard(i.name)
                if i.cif in s.optcif: ci |= s.chain(i.cif)
            if op == 'set': v[i.name] = arg
        elif op == 'off': pr.discard(i.name)
        elif op.startswith('pay'): v[i.name] = arg
        elif op == 'assign':
            v[i.name] = arg
            if i.opt and i.name not in pr: pe.add(i.name)
        elif op == 'reset': pr.discard(i.name); pe.discard(i.name)
        elif op == 'reset_cif':
            for c in s.below(i):
                for n in s.names(c): pr.discard(n); pe.discard(n)
                ci.discard(c)
        elif op in ('data', 'size', 'unpack'):
            for n in pe:
                pr.add(n)
                if s.by[n].cif in s.optcif: ci.add(s.by[n].cif)
            pe = set()
            ci = {k for c in ci if any(n in pr for n in s.names(c)) for k in s.chain(c)}
        return Abs(pr, pe, ci, v)
    # a warning or error word 1 or 2 exists only under its word 0
    def chain(s, c): return {c} | ({c[0] + '0'} if isinstance(c, str) else set())
    def below(s, c): return [k for k in s.optcif if c in s.chain(k)]
    # ---- wire
    def has(s, A, n):
        i = s.by[n]; return not i.opt or n in A.present
    def cif_on(s, A, c): return c == 0 and s.sp.has_cif or c in s.reqcif or c in A.cifs
    def cif_word(s, A, c):
        bits = {}
        for i in s.items:
            if i.cif == c and s.has(A, i.name): bits[i.bit] = 1
        if c == 0:
            if 'change_indicator' in s.by: bits[31] = extract(A.vals['change_indicator'][0], 8, 0, 1)
            for k in (1, 2):
                if s.cif_on(A, k): bits[k] = 1
        if c in ('w0', 'e0'):
            for k in (1, 2):
                if c[0] + str(k) in A.cifs: bits[k] = 1
        return word(32, bits)
    def header(s, A, nbytes):
        sp = s.sp; b = {}
        def put(lo, w, v):
            for k in range(w): b[lo + k] = (v >> k) & 1 if isinstance(v, int) else extract(v, 8, k, 1)
        put(28, 4, sp.packet_type())
        put(27, 1, int(bool(sp.class_id)))
        if sp.kind == 'context':
            put(25, 1, int(sp.cif12()))
            put(24, 1, A.vals['tsm'][0] if sp.tsm == 'any' else int(sp.tsm == 'coarse'))
        if sp.kind == 'control': put(26, 1, int(bool(sp.ack)))
        if sp.kind == 'data':
            put(26, 1, int(sp.trailer is not None)); put(25, 1, int(P.data_not_v49d0(sp))); put(24, 1, int(sp.spectrum == 'spectrum'))
        put(22, 2, A.vals['tsi'][0] if sp.tsi == 'any' else P.TSI[sp.tsi or 'none'])
        put(20, 2, A.vals['tsf'][0] if sp.tsf == 'any' else P.TSF[sp.tsf or 'none'])
        put(16, 4, A.vals['packet_count'][0])
        if isinstance(nbytes, int): put(0, 16, nbytes // 4); return word(32, b)
        return word(32, b)[:2] + [extract(nbytes, 64, 8, 8), extract(nbytes, 64, 0, 8)]
    def class_id(s, A):
        c = s.sp.class_id; b = {}
        v = (c.get('oui', 0) << 32) | (c.get('information_code', 0) << 16) | c.get('packet_code', 0)
        for k in range(56): b[k] = (v >> k) & 1
        for k in range(5): b[59 + k] = extract(A.vals['pad_bits'][0], 8, k, 1)
        if s.sp.multi:
            for k in range(16): b[16 + k] = extract(A.vals['information_code'][1 - k // 8], 8, k % 8, 1)
        return word(64, b)
    def cam(s, A):
        b = {}
        for bit, w, v in P.CAM_FIXED(s.sp):
            for k in range(w): b[bit - w + 1 + k] = (v >> k) & 1
        for nm, w, bit, typ in P.CAM_SETTABLE(s.sp):
            for k in range(w): b[bit - w + 1 + k] = extract(A.vals[nm][0], 8, k, 1)
        if sp_vx(s.sp): b[17] = int('w0' in A.cifs); b[16] = int('e0' in A.cifs)
        return word(32, b)
    def layout(s, A, payload=()):
        """bytes of the packet in abstract state A (nothing pending)"""
        sp = s.sp; o = []; V = A.vals
        if sp.has_stream(): o += V['stream_id']
        if sp.class_id: o += s.class_id(A)
        for n in ('integer_timestamp', 'fractional_timestamp'):
            if n in s.by: o += V[n]
        if sp.kind == 'control':
            o += s.cam(A); o += V['message_id']
            for n in ('controllee_id', 'controller_id'):
                if n in s.by and s.by[n].cif is None: o += V[n]
        if sp.words():
            for c, _, _ in sp.words():
                if s.cif_on(A, c): o += s.cif_word(A, c)
            for i in s.items:
                if i.cif is not None and i.kind != 'ind' and s.has(A, i.name): o += [0] * i.reserved + list(V[i.name])
        pay = V.get('payload'); n = len(o) + 4 + (4 if sp.trailer is not None else 0)
        if isinstance(pay, Pay):
            h = s.header(A, lin_add(pay.words(), n // 4, 64) if pay.w is not None else n)
            o = h + o + ([pay] if pay.w is not None else [])
        else:
            o += pay or []; o = s.header(A, n + len(pay or [])) + o
        return o + V['trailer'] if sp.trailer is not None else o
    def fixed_words(s):
        return len(s.layout(s.initial())) // 4
    # ---- recognition
    def match_len(s): return len(s.layout(s.initial()))
    def matches(s, b):
        """condition on received bytes b: the identifying elements the specification fixes"""
        sp = s.sp; h = be(b[:4]); c = []
        def bits(hi, w, v, x=h): c.append(eqv(extract(x, 32, hi - w + 1, w), v, w))
        bits(31, 4, sp.packet_type()); bits(27, 1, int(bool(sp.class_id)))
        if sp.kind == 'context':
            bits(25, 1, int(sp.cif12()))
            if sp.tsm != 'any': bits(24, 1, int(sp.tsm == 'coarse'))
        if sp.kind == 'data':
            bits(26, 1, int(sp.trailer is not None)); bits(25, 1, int(P.data_not_v49d0(sp))); bits(24, 1, int(sp.spectrum == 'spectrum'))
        if sp.kind == 'control': bits(26, 1, int(bool(sp.ack))); bits(24, 1, 0)
        if sp.tsi != 'any': bits(23, 2, P.TSI[sp.tsi or 'none'])
        if sp.tsf != 'any': bits(21, 2, P.TSF[sp.tsf or 'none'])
        o = 4 + (4 if sp.has_stream() else 0)
        if sp.class_id:
            bits(23, 24, sp.class_id.get('oui', 0), be(b[o:o + 4])); w = be(b[o + 4:o + 8])
            if not sp.multi: bits(31, 16, sp.class_id.get('information_code', 0), w)
            bits(15, 16, sp.class_id.get('packet_code', 0), w); o += 8
        o += (4 if 'integer_timestamp' in s.by else 0) + (8 if 'fractional_timestamp' in s.by else 0)
        if sp.kind == 'control':
            w = be(b[o:o + 4])
            for hi, n, v in P.CAM_FIXED(sp): bits(hi, n, v, w)
            if sp_vx(sp): c.append(Or(zb(eqv(extract(w, 32, 20, 1), 1, 1)), zb(eqv(extract(w, 32, 19, 1), 1, 1))))
        return And(*[zb(x) for x in c])

def word(w, bits):
    """bytes (first wire byte first) of a word given by bit number -> value"""
    o = []
    for B in range(w // 8):
        lo = w - 8 * (B + 1)
        o.append(concat([(bits.get(lo + k, 0), 1) for k in range(8)]))
    return o

# ---------------------------------------------------------------- calls (executed symbolically, or emitted as C++)
class Call:
    """a wrapper call; args: ('i', value, ctype) | ('b', bytes) | ('f', term, ctype) | ('x', bytes, R, ctype): real value
    of fixed-point wire bytes | ('n', int): length"""
    __slots__ = ('fn', 'args')
    def __init__(s, fn, args=()): s.fn = fn; s.args = tuple(args)

CTW = {'bool': 1, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64, 'int64_t': 64, 'int32_t': 32}
def be(bytes_): return concat([(b, 8) for b in reversed(bytes_)])
def op_call(op, i, arg):
    """the wrapper call of an operation whose value is given as wire bytes"""
    if op in ('data', 'size'): return Call('k_' + op)
    if op == 'unpack': return None
    if op == 'reset_cif': return Call(f'k_reset_cif{i}')
    if op == 'on': return Call(f'k_{i.name}_set', [('i', 1, 'bool')])
    if op == 'off': return Call(f'k_{i.name}_set', [('i', 0, 'bool')])
    if op == 'reset': return Call(f'k_{i.name}_reset')
    if i.kind == 'st': return Call(f'k_{i.name}_{op}', [('b', arg)])
    if i.kind == 'pay': return Call('k_payload', [('pay', arg)])
    if i.kind == 'bits': return Call(f'k_{i.name}_set', [('i', extract(arg[0], 8, 0, 1) if i.ct == 'bool' else zbits(arg[0], i.w) if i.cast else arg[0], i.ct)])
    if i.kind in ('u', 's'): return Call(f'k_{i.name}_set', [('i', be(arg), i.ct)])
    return Call(f'k_{i.name}_set', [('x', arg, i.R, i.ct)])
def zbits(v, w): return zext(extract(v, 8, 0, w), w, 8)

# ---------------------------------------------------------------- contracts of callees (proved by C03)
def fixed_hook(e, st, name, a, inst):
    d = e.m.dem[name]
    m = re.search(r'vrtgen::fixed::to_int<(\d+)[a-z]*, (\d+)[a-z]*', d)
    if m:
        N, R = int(m[1]), int(m[2]); x = a[0]; w = inst.ty.bits if inst is not None else None
        if not isinstance(x, z3.FPRef) or w is None: return NotImplemented
        e.assumed.add('contract of vrtgen::fixed::to_int (nearest multiple, ties away from zero): established by check C03')
        q = e.fpint.get(x.get_id())
        if q is not None and q[2] == -R and q[1] and q[0].size() == w == N: return [Outcome(st, from_z3(q[0]))]
        return [Outcome(st, from_z3(to_int_spec(e, st, x, N, R, w)))]
    m = re.search(r'vrtgen::fixed::to_fp<(\d+)[a-z]*, (\d+)[a-z]*', d)
    if m and isinstance(a[0], (int, BV, Lin)) and inst is not None and inst.ty.k in ('double', 'x86_fp80'):
        N, R = int(m[1]), int(m[2])
        pw = {8: 8, 12: 16, 16: 16, 24: 32, 32: 32, 48: 64, 64: 64}[N]
        if 'unsigned' in d.rsplit('(', 1)[1]: return NotImplemented
        e.assumed.add('contract of vrtgen::fixed::to_fp (exactly value * 2^-R): established by check C03')
        S = fpsort(inst.ty); z = to_z3(a[0], pw)
        r = e.mk_fpint(z, True, -R, S if pw - 1 <= S.sbits() else F80)
        return [Outcome(st, r if r.sort() == S else z3.fpFPToFP(RNE, r, S))]
    return NotImplemented
def to_int_spec(e, st, v, N, R, w):
    S = v.sort(); r = z3.fpRoundToIntegral(RNA, z3.fpMul(RNE, v, fp_two(R, S)) if R else v)
    e.oblige(st, f'to_int<{N},{R}>: the value fits the format', z3.And(z3.fpGEQ(r, z3.fpNeg(fp_two(N - 1, S))), z3.fpLT(r, fp_two(N - 1, S))), 'pre')
    return z3.fpToSBV(RTZ, r, z3.BitVecSort(w))

class Mismatch(Exception): pass

class Rep:
    __slots__ = ('st', 'oid', 'A', 'trace', 'contrib', 'ver', 'done')
    def __init__(s, st, oid, A, trace): s.st = st; s.oid = oid; s.A = A; s.trace = trace; s.contrib = []; s.ver = 0; s.done = -1

class PV:
    """verifier of one generated class"""
    def __init__(s, mod, sp, ms=20000):
        s.mod = mod; s.sp = sp; s.sem = Sem(sp); s.x = Ctx(mod, ms); s.e = s.x.e; s.e.opaque_strings = True
        s.e.hook(r'^(.* )?vrtgen::fixed::to_(int|fp)<', fixed_hook)
        s.canon = {}; s.fails = []; s.proofs = {}
        st, r = s.x.call(State(), 'k_sizeof', [], True); s.size = r
    # ---- execution
    def run(s, st, oid, call, ret=False):
        """returns list of (state, result dict)"""
        e = s.e; a = [Ptr(oid, 0)] if oid is not None else []; res = {}
        for k in call.args:
            if k[0] == 'i': a.append(k[1])
            elif k[0] == 'b': a.append(Ptr(s.x.buf(st, k[1], 'argument bytes', ro=True), 0))
            elif k[0] == 'n': a.append(k[1])
            elif k[0] == 'pay': a += [Ptr(s.seqbuf(st, [k[1].src], 'payload argument'), 0), k[1].src.n]
            elif k[0] == 'f': a.append(k[1])
            elif k[0] == 'x':
                S = F80 if k[3] == 'long double' else F64
                a.append(e.mk_fpint(to_z3(be(k[1]), 8 * len(k[1])), True, -k[2], S))
            elif k[0] == 'has': res['has'] = s.x.buf(st, [UNDEF], 'flag'); a.append(Ptr(res['has'], 0))
            elif k[0] == 'out': res['out'] = s.x.outbuf(st, k[1]); a.append(Ptr(res['out'], 0))
            elif k[0] == 'len': res['len'] = s.x.outbuf(st, 8); a.append(Ptr(res['len'], 0))
        outs = e.call(st, call.fn, a)
        r = []
        for o in outs:
            if o.thrown:
                e.oblige(o.st, f'{call.fn[2:]}: no exception ({o.thrown})', False); continue
            d = {'ret': o.ret}
            if 'has' in res: d['has'] = s.x.bytes_of(o.st, res['has'])[0]
            if 'out' in res: d['out'] = s.x.bytes_of(o.st, res['out'])
            if 'len' in res: d['len'] = e.load(o.st, Ptr(res['len'], 0), I64)
            for q in res.values(): del o.st.mem[q]
            r.append((o.st, d))
        return r
    def seqbuf(s, st, segs, name):
        segs = s.e.normalize_segs(st, segs)
        oid = s.e.new_obj(st, 'heap', s.e.seg_len(segs), name); o = st.w(oid); o.segs = segs; o.ro = True
        return oid
    def packet(s, st, b):
        """buffer holding the bytes of a layout; (object, length)"""
        if not any(isinstance(x, Pay) for x in b): return s.x.buf(st, b, 'received bytes', ro=True), len(b)
        segs = s.layout_segs(b); n = s.e.seg_len(segs)
        return s.seqbuf(st, segs, 'received bytes'), n
    def layout_segs(s, b):
        segs = []
        for x in b: segs += x.segs if isinstance(x, Pay) else [Seg('b', None, [(x, 0, 1)])]
        return segs
    def join(s, rs):
        """outcomes whose path conditions exclude each other: keep the feasible ones"""
        return [r for r in rs if s.e.check_sat(r[0].pc, 5000)[0] != 'unsat']
    def fits(s, st, pay):
        """assume the packet fits the 16-bit packet size field"""
        st.assume(z3.ULT(pay.w, 65535 - s.sem.fixed_words()))
    def gc(s, st, oid):
        """drop unreachable and freed objects"""
        seen = set(); todo = [oid]
        for (o, off), m in st.maps.items():
            if o == oid: todo += list(m.values())
        while todo:
            k = todo.pop()
            if k in seen or k not in st.mem: continue
            seen.add(k); o = st.mem[k]
            es = [x for g in o.segs if g.kind == 'b' for x in g.ent] if o.segs is not None else list(o.ent.values())
            for v, _, _ in es:
                if isinstance(v, Ptr) and v.obj is not None: todo.append(v.obj)
        for k in [k for k, o in st.mem.items() if k not in seen and o.kind in ('heap', 'alloca', 'stack')]: del st.mem[k]
        for k in [k for k in st.maps if k[0] != oid]: del st.maps[k]
        return st
    def build(s, A):
        """canonical representation of abstract state A (values: the standard symbols)"""
        sem = s.sem; tr = []
        st = State(); oid = s.e.new_obj(st, 'heap', s.size, s.sp.name)
        def do(op, i, arg=None):
            nonlocal st
            tr.append((op, i, arg))
            r = s.run(st, oid, Call('k_ctor') if op == 'ctor' else op_call(op, i, arg))
            if len(r) > 1: r = s.join(r)
            if len(r) != 1: raise Unsupported(f'{op} {i and i.name}: {len(r)} outcomes while building a state')
            st = r[0][0]
        do('ctor', None)
        for i in sem.items:
            if i.kind == 'ind':
                if i.name not in A.present and not i.reset: do('off', i)
            elif i.kind == 'pay':
                # the invariant claims this shape for every length (checked: construction and every operation must land in it)
                s.fits(st, i.sym()); pc = list(st.pc); st.assume(i.sym().w != 0); do('pay0', i, i.sym()); st.pc = pc; st.known = {}
            elif not i.opt: do('set' if i.settable else 'assign', i, i.sym())
        for c in sem.optcif:
            if c in A.cifs and not any(n in A.present for n in sem.names(c)):
                if not sem.names(c):
                    do('set', sem.by[sem.names(sem.below(c)[1])[0]], sem.by[sem.names(sem.below(c)[1])[0]].sym('!junk')); do('reset_cif', sem.below(c)[1]); continue
                i = sem.by[sem.names(c)[0]]
                if i.kind == 'ind': do('on', i); do('off', i)
                else: do('set', i, i.sym('!junk')); do('reset', i)
        for i in sem.items:
            if i.opt and i.name in A.present:
                if i.kind == 'ind' and not i.reset: continue
                do('on', i) if i.kind == 'ind' else do('set', i, i.sym())
        for i in sem.items:
            if i.name in A.pend: do('assign', i, i.sym())
        s.gc(st, oid)
        return Rep(st, oid, Abs(A.present, A.pend, A.cifs, {i.name: i.sym() for i in sem.items}), tr)
    def rep(s, A):
        r = s.canon.get(A.key)
        if r is None: r = s.canon[A.key] = s.build(A)
        return r
    # ---- comparison of a state with a representative
    def subst(s, v, sub):
        if isinstance(v, int) or not sub: return v
        if isinstance(v, BV):
            ps = []; ch = False
            for n, t, lo in v.ps:
                if t is None: ps.append((lo, n)); continue
                r = sub.get(t.get_id())
                if r is not None: ch = True; ps.append((extract(r, 8, lo, n), n))
                elif t.num_args() == 0: ps.append((BV(n, ((n, t, lo),)), n))
                else:
                    t2 = z3.substitute(t, *s._zsub(sub))
                    ch = ch or not t2.eq(t); ps.append((extract(from_z3(t2), t.size(), lo, n), n))
            return concat(ps) if ch else v
        if isinstance(v, Lin): return from_z3(z3.substitute(to_z3(v, v.w), *s._zsub(sub)))
        return v
    def _zsub(s, sub): return [(z3.BitVec(n, 8), to_z3(r, 8)) for n, r in sub['names'].items()] + sub.get('z', [])
    def diffs(s, st, oid, R, A):
        """byte positions of representative R where the state (abstractly A) is not an instance; Mismatch when the shapes differ"""
        sub = {}; names = {}
        for i in s.sem.items:
            if i.kind == 'pay':
                y, b = R.A.vals[i.name], A.vals[i.name]
                if y.w is not None and b is not y: sub['z'] = [(y.w, to_z3(extract(b.words(), 64, 0, 16), 16) if b.w is not None else z3.BitVecVal(0, 16))]; sub['pay'] = b
                continue
            for k, (y, b) in enumerate(zip(R.A.vals[i.name], A.vals[i.name])):
                if isinstance(y, int): continue
                t = y.ps[0][1]
                if isinstance(b, BV) and len(b.ps) == 1 and b.ps[0][1] is not None and b.ps[0][1].eq(t) and b.ps[0][2] == 0: continue
                sub[t.get_id()] = b; names[t.decl().name()] = b
        if sub: sub['names'] = names; sub.pop('pay', None) or 0
        pair = {}; todo = [(oid, R.oid, '')]; out = []
        def link(a, b, path):
            if a in pair:
                if pair[a] != b: raise Mismatch(f'{path}: storage shared differently')
                return
            if b in pair.values(): raise Mismatch(f'{path}: storage shared differently')
            pair[a] = b; todo.append((a, b, path))
        pair[oid] = R.oid
        mp = lambda S, o: {off: m for (q, off), m in S.maps.items() if q == o}
        m1, m2 = mp(st, oid), mp(R.st, R.oid)
        if set(m1) != set(m2): raise Mismatch('maps')
        for off in m1:
            if set(m2[off]) != set(m1[off]): raise Mismatch(f'map keys differ: {sorted(set(m2[off]) ^ set(m1[off]))}')
            for k in m2[off]: link(m1[off][k], m2[off][k], f'map[{k}]')
        while todo:
            a, b, path = todo.pop()
            o1, o2 = st.mem.get(a), R.st.mem.get(b)
            if o1 is None or o2 is None or o1.freed or o2.freed:
                raise Mismatch(f'{path}: dead storage')
            if not s.equal(st, o1.size, s.subst(o2.size, sub), 64): raise Mismatch(f'{path or "object"}: {o1.size} bytes of storage instead of {s.subst(o2.size, sub)}')
            for k, x, y in s.pairs(st, o1, o2, A, path, b, out):
                if y[0] is UNDEF: continue
                if x[0] is UNDEF: out.append((b, k, path, 'uninitialised')); continue
                if x is y and not sub: continue
                p1, p2 = isinstance(x[0], (Ptr, FnPtr)), isinstance(y[0], (Ptr, FnPtr))
                if p1 or p2:
                    n1 = not p1 and x[0] == 0 or p1 and isinstance(x[0], Ptr) and x[0].obj is None and same(x[0].off, 0)
                    n2 = not p2 and y[0] == 0 or p2 and isinstance(y[0], Ptr) and y[0].obj is None and same(y[0].off, 0)
                    if n1 and n2: continue
                    if p1 and p2 and x[1:] == y[1:]:
                        if isinstance(x[0], FnPtr) or isinstance(y[0], FnPtr):
                            if x[0] == y[0]: continue
                        elif x[0].obj is not None and y[0].obj is not None and s.equal(st, x[0].off, s.subst(y[0].off, sub), 64):
                            if not sub and x[0].obj == y[0].obj and R.st.mem.get(x[0].obj) is st.mem.get(x[0].obj): pair.setdefault(x[0].obj, y[0].obj); continue
                            if x[1] == 0: link(x[0].obj, y[0].obj, f'{path}+{k}')
                            continue
                    raise Mismatch(f'{path}+{k}: pointers differ ({x[0]!r} {y[0]!r})')
                if isinstance(x[0], z3.FPRef) or isinstance(y[0], z3.FPRef): out.append((b, k, path, 'floating point')); continue
                u = extract(x[0], 8 * x[2], 8 * x[1], 8); w = s.subst(extract(y[0], 8 * y[2], 8 * y[1], 8), sub)
                c = eqv(u, w, 8)
                if c is True: continue
                if c is False or not s.proved(st, c): out.append((b, k, path, 'value'))
        return out
    def equal(s, st, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if same(a, b): return True
        c = eqv(a, b, w)
        return c if isinstance(c, bool) else s.proved(st, c)
    def pairs(s, st, o1, o2, A, path, b, out):
        """corresponding entries of two objects; storage of symbolic length: runs must correspond"""
        if not (o2.segs is not None and any(g.kind == 'a' for g in o2.segs)):
            e1, e2 = s.entries(o1), s.entries(o2)
            for k in range(o2.size): yield k, e1(k), e2(k)
            return
        g1 = s.e.normalize_segs(st, o1.segs) if o1.segs is not None else [Seg('b', None, [s.e.entry(o1, k) for k in range(o1.size)])]
        tail = len(o2.segs) - 1 - [g.kind for g in o2.segs].index('a')
        pre = o2.segs[0].ent if o2.segs[0].kind == 'b' else []; post = o2.segs[-1].ent if tail else []
        # prologue | payload | trailer
        def take(g, n, front):
            es = []
            while n:
                if not g: return None
                h = g[0 if front else -1]
                if h.kind != 'b' or h.guard is not None: return None
                k = min(n, len(h.ent)); es = es + h.ent[:k] if front else h.ent[-k:] + es
                rest = h.ent[k:] if front else h.ent[:-k]; n -= k
                if front: g[0:1] = [Seg('b', None, rest)] if rest else []
                else: g[-1:] = [Seg('b', None, rest)] if rest else []
            return es
        g1 = list(g1); a = take(g1, len(pre), True); z = take(g1, len(post), False)
        if a is None or z is None: raise Mismatch(f'{path}: prologue or trailer bytes missing')
        for k, (x, y) in enumerate(zip(a, pre)): yield ('seg', 0, k), x, y
        for k, (x, y) in enumerate(zip(z, post)): yield ('seg', len(o2.segs) - 1, k), x, y
        pay = [g for g in o2.segs if g.kind == 'a']
        if pay[0].key == ('havoc',): return
        if not s.same_runs(st, g1, A.vals['payload'].segs): out.append((b, 'pay', path, 'payload'))
    def same_runs(s, st, a, b):
        a = s.e.normalize_segs(st, a); b = s.e.normalize_segs(st, b)
        a = [g for g in a if not (g.kind == 'a' and s.equal(st, g.n, 0, 64))]; b = [g for g in b if not (g.kind == 'a' and s.equal(st, g.n, 0, 64))]
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x.kind != y.kind or x.guard is not None or y.guard is not None: return False
            if x.kind == 'a':
                if x.key != y.key or not s.equal(st, x.base, y.base, 64) or not s.equal(st, x.n, y.n, 64): return False
            else:
                if len(x.ent) != len(y.ent): return False
                for p, q in zip(x.ent, y.ent):
                    u, w = (s.e.entries_to_val([t], I8) for t in (p, q))
                    if u is UNDEF or w is UNDEF or not s.equal(st, u, w, 8): return False
        return True
    def entries(s, o):
        if o.segs is None: return lambda k: s.e.entry(o, k)
        es = []
        for g in o.segs:
            if g.kind != 'b' or g.guard is not None: raise Mismatch('storage of symbolic length')
            es += g.ent
        return lambda k: es[k]
    def proved(s, st, c):
        o = Obligation('', list(st.pc), zb(c), 'x', '')
        key = (tuple(sorted(x.get_id() for x in st.pc)), o.goal.get_id())
        h = s.proofs.get(key)
        if h is None:
            prover.discharge(o, 10000); h = s.proofs[key] = (o.status == 'proved', o)
        return h[0]
    # ---- operations
    def op_arg(s, op, i):
        """(call, wire bytes of the argument, precondition) of an operation with an arbitrary argument"""
        if op in ('set', 'assign') and i.kind == 'fix':
            S = F80 if i.ct == 'long double' else F64; v = z3.FP(f'arg.{i.name}', S)
            r = z3.fpRoundToIntegral(RNA, z3.fpMul(RNE, v, fp_two(i.R, S)))
            n = 8 * i.n; pre = z3.And(z3.fpGEQ(r, z3.fpNeg(fp_two(n - 1, S))), z3.fpLT(r, fp_two(n - 1, S)))
            z = from_z3(z3.fpToSBV(RTZ, r, z3.BitVecSort(n)))
            return Call(f'k_{i.name}_set', [('f', v, i.ct)]), [extract(z, n, n - 8 * (k + 1), 8) for k in range(i.n)], pre
        if op.startswith('pay'): arg = i.sym('!new', int(op[3:]))
        else: arg = i.sym('!new') if op in ('set', 'assign') else None
        return op_call(op, i, arg), arg, None
    def post(s, R, op, i):
        """outcomes of the operation from representative R: list of (state, result), abstract post-state, trace entry"""
        call, arg, pre = s.op_arg(op, i)
        st = R.st.fork()
        if pre is not None: st.assume(pre)
        if op.startswith('pay'): s.fits(st, arg)
        A2 = s.sem.apply(op, i, R.A, arg)
        ent = (op, i, arg)
        if op == 'data': call = Call('k_data', [('len',)])
        if op == 'unpack':
            b = s.sem.layout(A2); src, n = s.packet(st, b)
            st.mem[R.oid] = Obj('heap', s.size, s.sp.name)
            for k in [k for k in st.maps if k[0] == R.oid]: del st.maps[k]
            outs = s.e.call(st, 'k_unpack', [Ptr(R.oid, 0), Ptr(src, 0), n]); r = []
            for o in outs:
                if o.thrown: s.e.oblige(o.st, f'unpack constructor: no exception ({o.thrown})', False, info=(R.trace + [ent], A2))
                else: r.append((o.st, {}))
            return r, A2, ent
        return s.run(st, R.oid, call), A2, ent
    def fixpoint(s, extra=()):
        """close the invariant under every operation, starting from the constructor"""
        sem = s.sem; A0 = sem.initial()
        st = State(); oid = s.e.new_obj(st, 'heap', s.size, s.sp.name)
        (st, _), = s.run(st, oid, Call('k_ctor')); s.gc(st, oid)
        R0 = s.absorb(st, oid, A0, [('ctor', None, None)], 'construction')
        todo = [R0]; s.nops = 0
        while todo:
            R = todo.pop(0)
            if R.done == R.ver: continue
            R.done = R.ver
            for op, i in sem.ops() + list(extra):
                n0 = len(s.e.obl)
                outs, A2, ent = s.post(R, op, i); s.nops += 1
                what = f'{op} {i.name if isinstance(i, It) else "" if i is None else i}'.strip()
                s.tag(n0, R.trace + [ent], A2, what)
                for st, _ in outs:
                    s.gc(st, R.oid)
                    R2 = s.absorb(st, R.oid, A2, R.trace + [ent], what)
                    if R2.done != R2.ver and R2 not in todo: todo.append(R2)
    def tag(s, n0, trace, A, what):
        for o in s.e.obl[n0:]:
            if o.status is None and o.info is None or not isinstance(o.info, dict): o.info = dict(trace=trace, A=A, what=what); o.name = f'{s.sp.name}: {what}: {o.name}'
    def absorb(s, st, oid, A, trace, what):
        R = s.rep(A)
        try: d = s.diffs(st, oid, R, A)
        except Mismatch as m:
            s.e.oblige(st.fork(), f'{s.sp.name}: {what}: leaves the object in the abstract state its contract names', False, 'invariant', dict(trace=trace, A=A, what=what, detail=str(m))); return R
        s.e.obl_ok(f'{s.sp.name}: {what}: preserves the representation invariant')
        s.e.obl[-1].kind = 'invariant'
        if d:
            R.contrib.append((what, A, trace)); R.ver += 1
            for oid2, k, path, why in d:
                o = R.st.w(oid2)
                if k == 'pay': o.segs = [Seg('a', n=g.n, fn=z3.Function('havoc.b', z3.BitVecSort(64), z3.BitVecSort(8)), key=('havoc',)) if g.kind == 'a' else g for g in o.segs]
                elif isinstance(k, tuple):
                    o.segs = list(o.segs); g = o.segs[k[1]]; es = list(g.ent); es[k[2]] = (UNDEF, 0, 1); o.segs[k[1]] = Seg('b', None, es)
                elif o.segs is None: o.ent[k] = (UNDEF, 0, 1)
                else:
                    es = [x for g in o.segs for x in g.ent]; es[k] = (UNDEF, 0, 1); o.segs = [Seg('b', None, es)]
        return R
    # ---- properties of the invariant's states
    def observe(s, prop):
        e = s.e
        for R in list(s.canon.values()):
            n0 = len(e.obl)
            getattr(s, 'obs_' + prop)(R)
            for o in e.obl[n0:]:
                if not isinstance(o.info, dict): o.info = dict(trace=R.trace, A=R.A, what='observation')
                o.info['R'] = R; o.name = f'{s.sp.name} {s.state_name(R.A)}: {o.name}'
    def state_name(s, A):
        f = [n for n in (i.name for i in s.sem.items) if n in A.present] + [n + '(pending)' for n in (i.name for i in s.sem.items) if n in A.pend]
        f += [f'cif{c} empty' for c in A.cifs if not any(n in A.present for n in s.sem.names(c))]
        return '[' + ' '.join(f) + ']'
    def info(s, R, what): return dict(trace=R.trace, A=R.A, what=what)
    def data(s, R):
        """(state, pointer, length, bytes) after data()"""
        r = []
        for st, d in s.run(R.st.fork(), R.oid, Call('k_data', [('len',)])):
            n, p = d['len'], d['ret']
            b = None
            if isinstance(n, int) and isinstance(p, Ptr): b = [s.e.entries_to_val([x], I8) for x in s.e.load_entries(st, p, n)]
            elif isinstance(p, Ptr) and not isinstance(n, int) and n is not UNDEF: b = s.e.as_segs(st, p, n)
            r.append((st, p, n, b))
        return r
    def head(s, b, n):
        """first n bytes of the result of data()"""
        if not b or not isinstance(b[0], Seg): return b[:n]
        return [s.e.entries_to_val([x], I8) for x in b[0].ent[:n]] if b[0].kind == 'b' else [UNDEF] * n
    def same_packet(s, st, n, b, exp):
        if b is None: return False
        if any(isinstance(x, Pay) for x in exp) or b and isinstance(b[0], Seg):
            segs = b if b and isinstance(b[0], Seg) else [Seg('b', None, [(x, 0, 1) for x in b])]
            return s.same_runs(st, segs, s.layout_segs(exp)) and s.equal(st, n, s.e.seg_len(s.layout_segs(exp)), 64)
        return n == len(exp) and eqbytes(s.e, b, exp)
    def obs_C12(s, R):
        e = s.e
        for st, p, n, b in s.data(R):
            inf = s.info(R, 'data')
            if b is None: e.oblige(st, 'data(): length known', False, 'post', inf); continue
            e.oblige(st, 'data(): a whole number of 32-bit words', n % 4 == 0 if isinstance(n, int) else eqv(extract(n, 64, 0, 2), 0, 2), 'post', inf)
            h = s.head(b, 4); hs = concat([(h[3], 8), (h[2], 8)]) if len(h) == 4 and UNDEF not in h[2:4] else None
            words = n // 4 if isinstance(n, int) else extract(n, 64, 2, 16)
            e.oblige(st, 'data(): the packet size field is the length in words', False if hs is None else eqv(hs, words, 16), 'post', inf)
            if not isinstance(n, int): e.oblige(st, 'data(): the length in words fits the packet size field', eqv(extract(n, 64, 18, 46), 0, 46), 'post', inf)
            for st2, d in s.run(st, R.oid, Call('k_hsize')): e.oblige(st2, 'header(): packet size is the length in words', d['ret'] is not UNDEF and eqv(d['ret'], words, 16), 'post', inf)
        for st, d in s.run(R.st.fork(), R.oid, Call('k_size')):
            A2 = s.sem.apply('size', None, R.A, None)
            for st2, p, n, b in s.data(Rep(st, R.oid, A2, R.trace)): e.oblige(st2, 'size(): the number of bytes of data()', eqv(d['ret'], n, 64), 'post', s.info(R, 'size'))
    def obs_C13(s, R):
        e = s.e; A2 = s.sem.apply('data', None, R.A, None); exp = s.sem.layout(A2)
        for st, p, n, b in s.data(R):
            e.oblige(st, 'data(): the standard layout of the fields present', s.same_packet(st, n, b, exp), 'post', s.info(R, 'data'))
            for st2, d in s.run(st, R.oid, Call('k_hdr', [('out', 4)])): e.oblige(st2, 'header(): the first word', eqbytes(e, d['out'], exp[:4]), 'post', s.info(R, 'header'))
    def obs_C18(s, R): s.obs_C13(R); s.obs_payload(R)
    def obs_payload(s, R):
        e = s.e; pay = R.A.vals['payload']; n = s.e.seg_len(pay.segs)
        for st, d in s.run(R.st.fork(), R.oid, Call('k_payload_size')): e.oblige(st, 'payload_size(): length of the padded payload', eqv(d['ret'], n, 64), 'post', s.info(R, 'payload_size'))
        for st, d in s.run(R.st.fork(), R.oid, Call('k_get_payload', [('len',)])):
            good = eqv(d['len'], n, 64) if d['len'] is not UNDEF else False
            e.oblige(st, 'payload(): the padded length', good, 'post', s.info(R, 'payload'))
            ok = isinstance(d['ret'], Ptr) and d['len'] is not UNDEF
            if ok and not (isinstance(d['len'], int) and d['len'] == 0): ok = s.same_runs(st, e.as_segs(st, d['ret'], d['len']), pay.segs)
            e.oblige(st, 'payload(): the bytes last set, padded with zero bytes', ok, 'post', s.info(R, 'payload'))
            s.gc(st, R.oid)
            try: ch = s.diffs(st, R.oid, R, R.A)
            except Mismatch as m: ch = [str(m)]
            e.oblige(st, 'payload(): reading changes nothing', not ch, 'frame', s.info(R, 'payload'))
    def obs_C14(s, R):
        e = s.e; sem = s.sem; A = R.A
        for name, call, f in s.getters(A):
            st = R.st.fork(); inf = s.info(R, 'get')
            for st, d in s.run(st, R.oid, call):
                ok = f(e, d)
                for nm, g in ok: e.oblige(st, f'{name}: {nm}', g, 'post', inf)
                s.gc(st, R.oid)
                try: ch = s.diffs(st, R.oid, R, A)
                except Mismatch as m: ch = [str(m)]
                e.oblige(st, f'{name}: reading changes nothing', not ch, 'frame', inf)
    def getters(s, A):
        """(name, call, result -> obligations)"""
        sem = s.sem; o = []
        for i in sem.items:
            if i.kind == 'pay': continue
            v = A.vals[i.name]; pres = not i.opt or i.name in A.present or i.name in A.pend
            if i.kind == 'st':
                def f(e, d, v=v, pres=pres):
                    r = [('present exactly when set', d['has'] is not UNDEF and eqv(d['has'], int(pres), 8))]
                    if pres: r.append(('reads as last written', eqbytes(e, d['out'], v)))
                    return r
                o.append((i.name + '()', Call(f'k_{i.name}_get', [('has',), ('out', i.n)]), f))
            elif i.kind == 'ind':
                o.append((i.acc + '()', Call(f'k_{i.name}_get'), lambda e, d, pres=i.name in A.present: [('tells whether the field is indicated', d['ret'] is not UNDEF and eqv(d['ret'], int(pres), 1))]))
            else:
                def f(e, d, i=i, v=v, pres=pres):
                    r = [('present exactly when set', d['has'] is not UNDEF and eqv(d['has'], int(pres), 8))]
                    if not pres: return r
                    x = d['ret']
                    if x is UNDEF: return r + [('reads as last written', False)]
                    if i.kind == 'fix':
                        S = F80 if i.ct == 'long double' else F64
                        g = fpeq(x, e.mk_fpint(to_z3(be(v), 8 * i.n), True, -i.R, S))
                    elif i.kind == 'bits':
                        w = CTW[i.ct]; g = eqv(x, extract(v[0], 8, 0, 1) if w == 1 else zbits(v[0], i.w), w)
                    else: g = eqv(x, be(v), CTW[i.ct])
                    return r + [('reads as last written', g)]
                o.append((i.name + '()', Call(f'k_{i.name}_get', [('has',)]), f))
        for c, nm, _ in s.sp.words():
                on = sem.cif_on(A, c); w = sem.cif_word(A, c)
                o.append((f'{nm}()', Call(f'k_cif{c}', [('has',), ('out', 4)]), lambda e, d, on=on, w=w: [('in use as expected', d['has'] is not UNDEF and eqv(d['has'], int(on), 8))] + ([('indicators of the fields present', eqbytes(e, d['out'], w))] if on else [])))
        if s.sp.class_id: o.append(('class_id()', Call('k_cid', [('out', 8)]), lambda e, d, w=sem.class_id(A): [('as specified', eqbytes(e, d['out'], w))]))
        if s.sp.kind == 'control': o.append(('cam()', Call('k_cam', [('out', 4)]), lambda e, d, w=sem.cam(A): [('as specified', eqbytes(e, d['out'], w))]))
        return o
    def obs_C15(s, R):
        s.obs_C13(R); s.obs_C14(R)
        if s.sp.kind == 'data': s.obs_payload(R)
    def obs_C19(s, R): s.obs_C12(R); s.obs_C13(R); s.obs_C14(R)
    def check(s, prop):
        if prop in ('C12', 'C13', 'C14', 'C15', 'C18', 'C19'):
            s.fixpoint([('unpack', None)] if prop in ('C15', 'C19') else []); s.observe(prop)
        elif prop == 'C17': s.check_ctor()
        elif prop == 'C16': s.check_match()
        elif prop == 'C22': s.check_bounds()
        return [s.e]
    def check_ctor(s):
        A0 = s.sem.initial(); e = s.e; exp = s.sem.layout(A0)
        st = State(); oid = e.new_obj(st, 'heap', s.size, s.sp.name)
        for st, _ in s.run(st, oid, Call('k_ctor')):
            R = Rep(st, oid, A0, [('ctor', None, None)])
            for st2, p, n, b in s.data(R):
                if b is None or b and isinstance(b[0], Seg): e.oblige(st2, f'{s.sp.name}: a new packet has a known length', False, 'post', s.info(R, 'data')); continue
                e.oblige(st2, f'{s.sp.name}: a new packet has the minimum length of its layout', n == len(exp), 'post', s.info(R, 'data'))
                for k in range(0, len(exp), 4):
                    e.oblige(st2, f'{s.sp.name}: a new packet: bytes {k}..{k + 3}', b is not None and n == len(exp) and eqbytes(e, b[k:k + 4], exp[k:k + 4]), 'post', s.info(R, 'data'))
            s.obs_C14(R)
        s.tag(0, [('ctor', None, None)], A0, 'construction')
    def check_match(s):
        e = s.e; sem = s.sem; n = sem.match_len()
        b = [BV(8, ((8, z3.BitVec(f'd.{k}', 8), 0),)) for k in range(n)]
        st = State(); src = s.x.buf(st, b, 'received bytes', ro=True)
        want = sem.matches(b)
        outs = e.call(st, 'k_match', [Ptr(src, 0), n])
        for o in outs:
            if o.thrown: e.oblige(o.st, f'{s.sp.name}: match: no exception ({o.thrown})', False, info=dict(match=b, want=want)); continue
            g = to_bool(o.ret) == zb(want) if not isinstance(o.ret, int) else (zb(want) if o.ret & 1 else z3.Not(zb(want)))
            e.oblige(o.st, f'{s.sp.name}: match accepts exactly the packets of its kind', g, 'post', dict(match=b, want=want))
        A = Abs({i.name for i in sem.items if i.opt}, (), sem.optcif, {i.name: i.sym() for i in sem.items}); A0 = sem.initial()
        for a in (A, A0):
            if sp_vx(s.sp): a.vals['ack_x' if 'ack_x' in sem.by else 'ack_v'] = [1]
        for nm, A in (('a new packet', A0), ('a packet with every field present', A)):
            st = State()
            if A.vals.get('payload') is not None and A.vals['payload'].w is not None: s.fits(st, A.vals['payload'])
            src, k = s.packet(st, sem.layout(A))
            for o in e.call(st, 'k_match', [Ptr(src, 0), k]):
                if o.thrown: e.oblige(o.st, f'{s.sp.name}: match: no exception ({o.thrown})', False, info=dict(match=b, want=want)); continue
                e.oblige(o.st, f'{s.sp.name}: match accepts {nm} of the class itself', zb(eqv(extract(o.ret, 8, 0, 1) if not isinstance(o.ret, int) else o.ret & 1, 1, 1)), 'post', dict(match=b, want=want))
    def received(s, st):
        """received bytes, any number of them; (object, length)"""
        f = z3.Function('d', z3.BitVecSort(64), z3.BitVecSort(8)); z = z3.BitVec('n', 64); N = BV(64, ((64, z, 0),))
        st.assume(z3.ULE(z, 1 << 40))
        o = s.seqbuf(st, [Seg('a', n=N, fn=f, key=('received',))], 'received bytes'); st.mem[o].any = True
        return o, N
    def check_bounds(s):
        """memory safety of parsing, storage of vectors has arbitrary contents, of the symbolic length"""
        e = s.e; A0 = s.sem.initial(); e.havoc = True
        st = State(); src, N = s.received(st)
        for o in e.call(st, 'k_match', [Ptr(src, 0), N]): e.oblige(o.st, 'match: returns', o.thrown is None, 'post')
        st = State(); src, N = s.received(st); oid = e.new_obj(st, 'heap', s.size, s.sp.name)
        for o in e.call(st, 'k_unpack', [Ptr(oid, 0), Ptr(src, 0), N]):
            st = o.st
            if o.thrown:
                e.oblige(st, f'unpack constructor: refuses by exception ({o.thrown})', o.thrown == '__cxa_throw', 'post'); continue
            e.obl_ok('unpack constructor: returns')
            for nm, call in [(n, c) for n, c, _ in s.getters(A0)] + [('size()', Call('k_size')), ('data()', Call('k_data', [('len',)]))] + ([('payload()', Call('k_get_payload', [('len',)]))] if s.sp.kind == 'data' else []):
                for st2, d in s.run(st.fork(), oid, call):
                    if nm not in ('data()', 'payload()'): continue
                    p, k = d['ret'], d['len']
                    if same(k, 0): continue
                    if not isinstance(p, Ptr) or p.obj not in st2.mem: e.oblige(st2, f'{nm} of a parsed packet: refers to the packet\'s storage', False, 'post'); continue
                    off, sz, kk = (to_z3(x, 64) for x in (p.off, st2.mem[p.obj].size, k))
                    e.oblige(st2, f'{nm} of a parsed packet: inside the packet\'s storage', z3.And(z3.ULE(off, sz), z3.ULE(kk, sz - off)), 'post')
        for o in e.obl: o.name = f'{s.sp.name}: {o.name}'; o.info = dict(recv=True)

# ---------------------------------------------------------------- search for a failing run on the real code
class Conc:
    """concrete values for symbols: from a counterexample model, else a fixed pattern per name"""
    def __init__(s, model=None, salt=0): s.m = model; s.salt = salt
    def byte(s, v):
        if isinstance(v, int): return v
        if s.m is not None:
            return z3.simplify(s.m.eval(to_z3(v, 8), model_completion=True)).as_long()
        import hashlib
        t = to_z3(v, 8); return hashlib.sha256(f'{t} {s.salt}'.encode()).digest()[0]
def frac_of(t):
    if t.isNaN() or t.isInf(): return None
    return fractions.Fraction(t.significand_as_long() if False else 0)
def concretise(c, i, op, arg):
    """wire bytes of an argument and the C++ expression for fixed-point arguments"""
    if arg is None: return None, None
    if i.kind == 'pay': return arg.conc(c)[0], None
    if i.kind == 'fix' and s_has_fp(arg):
        if c.m is not None:
            b = [c.byte(x) for x in arg]
        else: b = [c.byte(BV(8, ((8, z3.BitVec(f'{i.name}!new.{k}', 8), 0),))) for k in range(i.n)]
        return b, None
    return [c.byte(x) for x in arg], None
def s_has_fp(arg): return any(not isinstance(x, int) and any(t is not None and t.num_args() for _, t, _ in x.ps) for x in arg if not isinstance(x, Lin))

HDR = """#include <cstdio>
#include <cmath>
alignas(16) static unsigned char store[1 << 16]; static int bad = 0; static const char* where = "";
static void show(const char* n, const uint8_t* p, size_t k) { printf("%s", n); for (size_t i = 0; i < k; ++i) printf(" %02x", p[i]); printf("\\n"); }
static void fail(const char* what) { printf("FAILED after %s: %s\\n", where, what); bad = 3; }
static void chk(bool ok, const char* what) { if (!ok) fail(what); }
static void chkb(const uint8_t* got, const uint8_t* exp, size_t n, const char* what) { if (memcmp(got, exp, n)) { fail(what); show("  got     ", got, n); show("  expected", exp, n); } }
static void chkdata(T* p, const uint8_t* exp, size_t n) { uint64_t k; auto d = k_data(p, &k); if (k != n || memcmp(d, exp, n)) { fail("data()"); show("  got     ", d, k); show("  expected", exp, n); } }
static void chklen(T* p) { uint64_t k; auto d = k_data(p, &k); if (k % 4) fail("length not a whole number of words"); if (k < 4 || size_t(d[2] << 8 | d[3]) * 4 != k || k_hsize(p) * size_t(4) != k) { fail("packet size field"); printf("  length %zu field %d header %d\\n", (size_t)k, d[2] << 8 | d[3], k_hsize(p)); } if (k_size(p) != k) fail("size()"); }
"""
def cpp_args(i, op, b):
    return ''
class Emit:
    def __init__(s, sem): s.sem = sem; s.n = 0; s.body = []
    def arr(s, b):
        s.n += 1; s.body.append(f'  static const uint8_t a{s.n}[] = {{{", ".join(map(str, b)) or "0"}}};'); return f'a{s.n}'
    def call(s, op, i, b, A):
        o = s.body
        if op == 'ctor': o.append('  memset(store, 0xa5, sizeof(T)); auto* p = (T*)store; k_ctor(p);')
        elif op == 'unpack':
            L = s.sem.layout(A); a = s.arr(L); o.append(f'  p->~T(); memset(store, 0xa5, sizeof(T)); {{ std::vector<uint8_t> h({a}, {a} + {len(L)}); k_unpack(p, h.data(), h.size()); }}')
        elif op == 'data': o.append('  { uint64_t n; k_data(p, &n); }')
        elif op == 'size': o.append('  k_size(p);')
        elif op == 'reset_cif': o.append(f'  k_reset_cif{i}(p);')
        elif op == 'on': o.append(f'  k_{i.name}_set(p, true);')
        elif op == 'off': o.append(f'  k_{i.name}_set(p, false);')
        elif op == 'reset': o.append(f'  k_{i.name}_reset(p);')
        elif i.kind == 'pay': a = s.arr(b); o.append(f'  {{ std::vector<uint8_t> h({a}, {a} + {len(b)}); k_payload(p, h.data(), h.size()); }}')
        elif i.kind == 'st': o.append(f'  k_{i.name}_{op}(p, {s.arr(b)});')
        elif i.kind == 'bits': o.append(f'  k_{i.name}_set(p, {b[0] & 1 if i.ct == "bool" else b[0] & ((1 << i.w) - 1) if i.cast else b[0]});')
        elif i.kind in ('u', 's'): o.append(f'  k_{i.name}_set(p, static_cast<{i.ct}>({int.from_bytes(bytes(b), "big")}ull));')
        elif i.kind == 'fix': o.append(f'  k_{i.name}_set(p, static_cast<{i.ct}>(ldexpl(static_cast<long double>({"INT64_MIN" if b == [128] + [0] * 7 else int.from_bytes(bytes(b), "big", signed=True)}{"" if b == [128] + [0] * 7 else "ll"}), -{i.R})));')
    def checks(s, prop, A):
        o = s.body; sem = s.sem
        if prop in ('C12', 'C19'): o.append('  chklen(p);')
        if prop == 'C12': return
        if prop in ('C14', 'C15', 'C17', 'C19'):
            for i in sem.items:
                if i.kind == 'pay': continue
                v = A.vals[i.name]; pres = not i.opt or i.name in A.present or i.name in A.pend
                if i.kind == 'st':
                    o.append(f'  {{ bool h = false; uint8_t g[{i.n}] = {{}}; k_{i.name}_get(p, &h, g); chk(h == {int(pres)}, "presence of {i.name}");' + (f' if (h) chkb(g, {s.arr_(v)}, {i.n}, "{i.name}()");' if pres else '') + ' }')
                elif i.kind == 'ind': o.append(f'  chk(k_{i.name}_get(p) == {int(i.name in A.present)}, "{i.acc}()");')
                else:
                    if i.kind == 'fix': exp = f'static_cast<{i.ct}>(ldexpl(static_cast<long double>(static_cast<int64_t>({int.from_bytes(bytes(v), "big", signed=True) & (2 ** 64 - 1)}ull)), -{i.R}))'
                    elif i.kind == 'bits': exp = str(v[0] & 1 if i.ct == 'bool' else v[0] & ((1 << i.w) - 1))
                    else: exp = f'static_cast<{i.ct}>({int.from_bytes(bytes(v), "big")}ull)'
                    o.append(f'  {{ bool h = false; auto r = k_{i.name}_get(p, &h); chk(h == {int(pres)}, "presence of {i.name}");' + (f' chk(r == {exp}, "{i.name}()");' if pres else '') + ' }')
            for c, nm, _ in sem.sp.words():
                    on = sem.cif_on(A, c)
                    o.append(f'  {{ bool h = false; uint8_t g[4] = {{}}; k_cif{c}(p, &h, g); chk(h == {int(on)}, "{nm}() in use");' + (f' chkb(g, {s.arr_(sem.cif_word(A, c))}, 4, "{nm}()");' if on else '') + ' }')
            if sem.sp.class_id: o.append(f'  {{ uint8_t g[8]; k_cid(p, g); chkb(g, {s.arr_(sem.class_id(A))}, 8, "class_id()"); }}')
            if sem.sp.kind == 'control': o.append(f'  {{ uint8_t g[4]; k_cam(p, g); chkb(g, {s.arr_(sem.cam(A))}, 4, "cam()"); }}')
        if prop in ('C15', 'C17', 'C18') and 'payload' in sem.by:
            v = A.vals['payload']; v = [] if isinstance(v, Pay) else v
            o.append(f'  {{ uint64_t n; auto d = k_get_payload(p, &n); chk(n == {len(v)} && k_payload_size(p) == {len(v)}, "payload length"); if (n == {len(v)} && n) chkb(d, {s.arr_(v)}, {len(v)}, "payload()"); }}')
        if prop in ('C13', 'C15', 'C17', 'C18', 'C19'):
            L = sem.layout(sem.apply('data', None, A, None)); o.append(f'  chkdata(p, {s.arr(L)}, {len(L)});')
    def arr_(s, b):
        # array declared before the current statement
        s.n += 1; s.body.append(f'  static const uint8_t a{s.n}[] = {{{", ".join(map(str, b))}}};'); return f'a{s.n}'

def battery(sem, prop, infos, model):
    """program that runs the failing operation sequences (and every second operation after them) and checks the
    observations of the property; exit status 3 when one fails"""
    fns = []
    def scenario(trace, c, ops2):
        em = Emit(sem); A = sem.initial(); names = []
        for op, i, arg in trace:
            b, _ = concretise(c, i, op, arg) if isinstance(i, It) else (None, None)
            if op != 'ctor': A = sem.apply(op, i, A, b + [0] * (-len(b) % 4) if op.startswith('pay') else b)
            em.call(op, i, b, A); names.append(f'{op} {i.name if isinstance(i, It) else "" if i is None else i}'.strip())
        base = list(em.body); n0 = em.n
        A1 = A
        for op2 in ops2:
            em.body = list(base); em.n = n0; A = A1; nm = list(names)
            if op2 is not None:
                op, i = op2
                b = i.sym('!second', int(op[3:])).conc(c)[0] if op.startswith('pay') else [c.byte(x) for x in i.sym('!second')] if op in ('set', 'assign') else None
                A = sem.apply(op, i, A, b + [0] * (-len(b) % 4) if op.startswith('pay') else b); em.call(op, i, b, A); nm.append(f'{op} {i.name if isinstance(i, It) else "" if i is None else i}'.strip())
            em.checks(prop, A)
            fns.append(f'static void f{len(fns)}() {{\n  where = "{", ".join(nm[-40:])}";\n' + '\n'.join(em.body) + '\n  p->~T();\n}')
    ops = sem.ops() + ([('unpack', None)] if prop in ('C15', 'C19') else [])
    for trace in infos[:8]:
        for c in ([Conc(model)] if model is not None else []) + [Conc(None, 0), Conc(None, 1)]: scenario(trace, c, [None])
    for trace in infos[:5]:
        for c in ([Conc(model)] if model is not None else []) + [Conc(None)]: scenario(trace, c, ops)
        if prop in ('C15', 'C19') and not any(t[0] == 'unpack' for t in trace): scenario(trace + [('unpack', None, None)], Conc(None), ops)
    src = wrappers(sem.sp) + HDR + '\n'.join(fns) + '\nint main() {\n' + '\n'.join(f'  if (!bad) f{k}();' for k in range(len(fns))) + '\n  return bad;\n}\n'
    return src

def confirm(sem, prop, o, n, d):
    """replay of a failed obligation on the real code"""
    i = o.info or {}
    if 'recv' in i: return bounds_replay(sem, o, n, d)
    if 'match' in i: src = match_replay(sem, o)
    else:
        R = i.get('R'); traces = [i['trace']]
        if R is not None: traces += [t for _, _, t in R.contrib]
        src = battery(sem, prop, traces, o.model)
    with open(f'{d}/{sem.sp.file}.cpp') as f: gen = f.read()
    rc, out, err = build.run_cpp(src + f'\n#include "{sem.sp.file}.cpp"\n', f'pkt_{sem.sp.file}_{n}', incs=[d], extra=['-O0'], timeout=120)
    if rc == 0 and n == 1: return probe(sem, prop, d)
    return src, rc != 0, f'exit {rc}\n{out[-3000:]}{err[-2000:]}'
def probe(sem, prop, d):
    """bounded search on the real code where the verifier could not decide: short and full histories"""
    if prop == 'C16': src = match_battery(sem)
    elif prop == 'C22': return bounds_run(sem, [], f'probe_{sem.sp.file}', d)
    else:
        def put(i, k=1):
            return (('set' if i.settable else 'assign') if i.kind not in ('ind', 'pay') else 'on' if i.kind == 'ind' else f'pay{k}', i, i.sym(r=k) if i.kind == 'pay' else None if i.kind == 'ind' else i.sym())
        ctor = [('ctor', None, None)]
        full = ctor + [put(i) for i in sem.items]
        asg = full + [('assign', i, i.sym('!b')) for i in sem.items if i.kind == 'st'] + [('data', None, None)]
        nopay = ctor + [put(i) for i in sem.items if i.kind != 'pay'] + [('data', None, None)]
        grow = full + [put(i, k) for i in sem.items if i.kind == 'pay' for k in (0, 3)]
        pend = ctor + [('assign', i, i.sym()) for i in sem.items if i.kind == 'st' and i.assign]
        src = battery(sem, prop, [ctor, full, nopay, pend, asg, grow], None)
    rc, out, err = build.run_cpp(src + f'\n#include "{sem.sp.file}.cpp"\n', f'probe_{sem.sp.file}', incs=[d], extra=['-O0'], timeout=200)
    return src, rc != 0, f'exit {rc}\n{out[-3000:]}{err[-2000:]}'
def match_battery(sem):
    """the recognition test on packets differing in one bit from one the class accepts"""
    c = Conc(None); A = Abs({i.name for i in sem.items if i.opt and i.kind == 'ind' and not i.reset}, (), (), {i.name: [] if i.kind == 'pay' else [c.byte(x) for x in i.sym()] for i in sem.items})
    L = sem.layout(A); o = []
    for k in range(-1, 8 * len(L)):
        b = list(L)
        if k >= 0: b[k // 8] ^= 1 << (k % 8)
        w = sem.matches(b); o.append((b, int(w if isinstance(w, bool) else z3.is_true(z3.simplify(w)))))
    rows = ',\n'.join('{' + ', '.join(map(str, b)) + '}' for b, _ in o)
    return wrappers(sem.sp) + HDR + f'static const uint8_t d[][{len(L)}] = {{{rows}}}; static const int want[] = {{{", ".join(str(w) for _, w in o)}}};\nint main() {{ for (size_t k = 0; k < {len(o)}; ++k) {{ bool r = k_match(d[k], {len(L)}); if (r != want[k]) {{ show("packet", d[k], {len(L)}); printf("accepted %d expected %d\\n", r, want[k]); return 3; }} }} return 0; }}\n'
def match_replay(sem, o):
    m = o.model; b = [Conc(m).byte(x) for x in o.info['match']]
    want = z3.is_true(z3.simplify(m.eval(zb(o.info['want']), model_completion=True)))
    return wrappers(sem.sp) + HDR + f'int main() {{ static const uint8_t d[] = {{{", ".join(map(str, b))}}}; show("packet", d, sizeof d); bool r = k_match(d, sizeof d); printf("accepted %d expected {int(want)}\\n", r); return r == {int(want)} ? 0 : 3; }}\n'

def bounds_replay(sem, o, n, d):
    m = o.model; inputs = []
    if m is not None:
        N = m.eval(z3.BitVec('n', 64), model_completion=True).as_long(); f = z3.Function('d', z3.BitVecSort(64), z3.BitVecSort(8))
        if N <= 300000: inputs.append([m.eval(f(z3.BitVecVal(q, 64)), model_completion=True).as_long() for q in range(N)])
    return bounds_run(sem, inputs, f'pkt_{sem.sp.file}_{n}', d)
def bounds_run(sem, inputs, name, d):
    """parses byte strings under the address sanitizer: the given ones, then truncations and inconsistent variations of packets of the class"""
    c = Conc(None); V = {i.name: [] if i.kind == 'pay' else [c.byte(x) for x in i.sym()] for i in sem.items}
    full = sem.layout(Abs({i.name for i in sem.items if i.opt}, (), sem.optcif, V)); small = sem.layout(Abs(sem.initial().present, (), (), V))
    ins = list(inputs)
    for L in (full, small):
        for k in range(len(L) + 1): ins.append(L[:k])
        for w in (0, 1, len(L) // 4 - 1, len(L) // 4 + 1, 0xffff): ins.append(L[:2] + [w >> 8, w & 255] + L[4:])
        for k in range(32, 8 * len(L)): b = list(L); b[k // 8] ^= 1 << k % 8; ins.append(b)
    rows = '\n'.join(f'static const uint8_t i{k}[] = {{{", ".join(map(str, b)) or "0"}}};' for k, b in enumerate(ins))
    use = '\n'.join(f'  run(i{k}, {len(b)});' for k, b in enumerate(ins))
    gets = ' '.join('{ bool h; uint8_t b[256]; ' + f'{call.fn}(p' + ''.join(', &h' if a[0] == 'has' else ', b' for a in call.args) + '); }' for _, call, _ in sem_getters(sem))
    if sem.sp.kind == 'data': gets += ' { uint64_t k; auto q = k_get_payload(p, &k); for (uint64_t i = 0; i < k; ++i) sum = sum + q[i]; }'
    src = wrappers(sem.sp) + f"""#include <cstdio>
#include <cstdlib>
#include <exception>
{rows}
static volatile unsigned sum;
static void run(const uint8_t* d, size_t n) {{
    uint8_t* h = (uint8_t*)malloc(n); memcpy(h, d, n);
    fprintf(stderr, "received (%zu bytes):", n); for (size_t i = 0; i < n && i < 200; ++i) fprintf(stderr, " %02x", d[i]); fprintf(stderr, "\\n");
    k_match(h, n);
    T* p = (T*)malloc(sizeof(T)); bool ok = false;
    try {{ k_unpack(p, h, n); ok = true; }} catch (const std::exception&) {{}}
    if (ok) {{ {gets} k_size(p); uint64_t k; auto q = k_data(p, &k); for (uint64_t i = 0; i < k; ++i) sum = sum + q[i]; p->~T(); }}
    free(p); free(h);
}}
int main() {{
{use}
  return 0;
}}
"""
    rc, out, err = build.run_cpp(src + f'\n#include "{sem.sp.file}.cpp"\n', name, incs=[d], extra=['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'], timeout=300)
    k = err.find('ERROR: AddressSanitizer')
    if k < 0: k = err.find('runtime error')
    return src, rc != 0, f'exit {rc}\n' + (err[:1] and err[max(0, k - 900):k + 1800] if k >= 0 else err[-1500:])
def sem_getters(sem):
    x = object.__new__(PV); x.sem = sem; x.sp = sem.sp; return x.getters(sem.initial())
