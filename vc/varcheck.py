"""Contracts of the variable-size fields (C10): GPS ASCII, context association lists, index lists, sector/step-scan arrays.
Element counts and element values are symbolic; element loops go through the inductive rule of loops.py."""
import z3
from . import build
from .dom import *
from .engine import *
from .libcheck import Ctx
from .models import STy, I8, vec_get

SRC = r'''
#include <vrtgen/packing/cif0.hpp>
#include <vrtgen/packing/cif1.hpp>
#include <new>
#include <vector>
#include <cstring>
using namespace vrtgen::packing;
// a record of a sector/step-scan array: one 32-bit word and one 64-bit number
struct Rec {
    vrtgen::packed<uint32_t> m_sector; uint64_t m_freq{0};
    uint32_t sector() const { return m_sector.get<31,32,uint32_t>(); }
    uint64_t freq() const { return vrtgen::swap::from_be(m_freq); }
    constexpr std::size_t size() const { return 12; }
    void pack_into(uint8_t* p) const { m_sector.pack_into(p); std::memcpy(p + 4, &m_freq, 8); }
    void unpack_from(const uint8_t* p) { m_sector.unpack_from(p); std::memcpy(&m_freq, p + 4, 8); }
};
#define COMMON(N, T) \
extern "C" std::size_t N##_sizeof() { return sizeof(T); } \
extern "C" void N##_ctor(T* p) { new (p) T(); } \
extern "C" void N##_dtor(T* p) { p->~T(); } \
extern "C" std::size_t N##_size(const T* p) { return p->size(); } \
extern "C" void N##_pack(T* p, uint8_t* b) { p->pack_into(b); } \
extern "C" void N##_unpack(T* p, const uint8_t* b) { p->unpack_from(b); }
#define LIST(N, T, f, E) \
extern "C" void N##_##f##_set(T* p, const std::vector<E>* v) { p->f(*v); } \
extern "C" void N##_##f##_ref(T* p, const std::vector<E>* v) { p->f() = *v; } \
extern "C" void N##_##f##_get(const T* p, std::vector<E>* v) { new (v) std::vector<E>(p->f()); }
#define GET(N, T, f) extern "C" uint64_t N##_##f(const T* p) { return static_cast<uint64_t>(p->f()); }
#define SET(N, T, f, A) extern "C" void N##_##f##_put(T* p, A v) { p->f(v); }
COMMON(gps, GPS_ASCII) LIST(gps, GPS_ASCII, ascii_sentences, uint8_t) GET(gps, GPS_ASCII, number_of_words) GET(gps, GPS_ASCII, manufacturer_oui) SET(gps, GPS_ASCII, manufacturer_oui, uint32_t)
COMMON(cal, ContextAssociationLists)
LIST(cal, ContextAssociationLists, source_list, uint32_t) LIST(cal, ContextAssociationLists, system_list, uint32_t) LIST(cal, ContextAssociationLists, vector_component_list, uint32_t)
LIST(cal, ContextAssociationLists, async_channel_list, uint32_t) LIST(cal, ContextAssociationLists, async_channel_tag_list, uint32_t)
GET(cal, ContextAssociationLists, source_list_size) GET(cal, ContextAssociationLists, system_list_size) GET(cal, ContextAssociationLists, vector_component_list_size)
GET(cal, ContextAssociationLists, async_channel_list_size) GET(cal, ContextAssociationLists, async_channel_tag_list_enable)
#define IL(N, E) COMMON(N, IndexList<E>) LIST(N, IndexList<E>, entries, E) GET(N, IndexList<E>, total_size) GET(N, IndexList<E>, entry_size) GET(N, IndexList<E>, num_entries)
IL(il8, uint8_t) IL(il16, uint16_t) IL(il32, uint32_t)
COMMON(sss, SectorStepScan<Rec>) LIST(sss, SectorStepScan<Rec>, records, Rec) GET(sss, SectorStepScan<Rec>, array_size) GET(sss, SectorStepScan<Rec>, header_size)
GET(sss, SectorStepScan<Rec>, num_words_record) GET(sss, SectorStepScan<Rec>, num_records) SET(sss, SectorStepScan<Rec>, header_size, uint8_t)
COMMON(rec, Rec)
extern "C" uint32_t rec_sector(const Rec* p) { return p->sector(); }
extern "C" uint64_t rec_freq(const Rec* p) { return p->freq(); }
extern "C" void sss_subfield(SectorStepScan<Rec>* p, uint8_t* b) { p->subfield_cif().pack_into(b); }
extern "C" void sss_subfield_put(SectorStepScan<Rec>* p, const uint8_t* b) { SectorStepScanCIF c; c.unpack_from(b); p->subfield_cif(c); }
'''

class PATH: script = []; taken = []; todo = []; engines = []
class V:
    """one verification run: engine, state and helpers"""
    def __init__(s, mod, what):
        s.x = Ctx(mod); s.e = s.x.e; PATH.engines = [s.e]; s.e.loop_rule = True; s.what = what
        s.e.elems = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4}
        s.st = State(); s.n = 0
    def name(s, t): return f'{s.what}: {t}'
    def var(s, nm, hi, lo=0):
        """an arbitrary number lo..hi"""
        z = z3.BitVec(nm, 64); s.e.range_hi[z.get_id()] = (hi, z); s.st.assume(z3.ULE(z, hi))
        if lo: s.st.assume(z3.UGE(z, lo)); s.e.range_lo[z.get_id()] = lo
        return BV(64, ((64, z, 0),))
    def known(s, lin, hi):
        """registers the bound of a linear sum (assumed here)"""
        if not isinstance(lin, Lin): return
        s.st.assume(z3.ULE(to_z3(lin, 64), hi)); t = to_z3(lin, 64); s.e.alias[t.get_id()] = (hi, t, lin); s.e.keep.append(t)
    def arr(s, nm, n):
        f = z3.Function('mem_' + nm, z3.BitVecSort(64), z3.BitVecSort(8))
        return Seg('a', n=n, fn=f, key=('src', nm)), f
    def obj(s, size, nm): return s.e.new_obj(s.st, 'heap', size, nm)
    def buf(s, segs, nm, ro=False):
        oid = s.e.new_obj(s.st, 'heap', s.e.seg_len(segs), nm); o = s.st.w(oid); o.segs = s.e.normalize_segs(s.st, segs); o.ro = ro
        return oid
    def vec(s, segs, nm):
        """a std::vector holding segs"""
        d = s.buf(segs, nm); oid = s.obj(24, nm); n = s.st.mem[d].size
        for k, v in ((0, Ptr(d, 0)), (8, Ptr(d, n)), (16, Ptr(d, n))): s.e.store(s.st, Ptr(oid, k), v, STy)
        return oid
    def call(s, fn, *a, ret=False):
        outs = []
        for o in s.e.call(s.st, fn, list(a)):
            if o.thrown: s.e.oblige(o.st, f'no exception ({o.thrown})', False)
            elif s.e.check_sat(o.st.pc)[0] != 'unsat': outs.append(o)
        if not outs: raise Infeasible()
        k = 0
        if len(outs) > 1:          # every outcome is followed, each by a run of its own
            i = len(PATH.taken)
            k = PATH.script[i] if i < len(PATH.script) else 0
            if i >= len(PATH.script): PATH.todo += [PATH.taken + [j] for j in range(1, len(outs))]
            PATH.taken.append(k)
        s.st = outs[k].st
        return outs[k].ret
    def new(s, cls):
        z = s.call(f'{cls}_sizeof', ret=True); oid = s.obj(z, cls); s.call(f'{cls}_ctor', Ptr(oid, 0)); return oid
    def bytes(s, st, oid, off, n):
        o = st.mem[oid]
        es = s.e.load_entries(st, Ptr(oid, off), n)
        return [s.e.entries_to_val([x], I8) if x[0] is not UNDEF else UNDEF for x in es]
    def vecdata(s, st, oid):
        b, n = vec_get(s.e, st, Ptr(oid, 0)); return (b.obj if b is not None else None), n
    def eq(s, nm, a, b, w, st=None):
        st = st or s.st
        if a is UNDEF: s.e.oblige(st, s.name(nm), False, 'post', s.what); return
        s.e.oblige(st, s.name(nm), eqv(a, b, w), 'post', s.what)
    def eqbytes(s, nm, st, got, want):
        for g, w in zip(got, want): s.eq(nm, g, from_z3(w) if isinstance(w, z3.BitVecRef) else w, 8, st)
    def at(s, n):
        """a fork of the state with an arbitrary index below n"""
        st = s.st.fork(); s.n += 1
        z = z3.BitVec(f'm_{s.n}', 64); s.e.range_hi[z.get_id()] = (1 << 32, z); s.e.below[z.get_id()] = n; s.e.keep.append(z); st.assume(z3.ULT(z, to_z3(n, 64)))
        return st, BV(64, ((64, z, 0),)), s.e.check_sat(st.pc)[0] != 'unsat'

def L(*ts):
    r = 0
    for t in ts: r = lin_add(r, t, 64)
    return r
def M(k, t): return lin_mul(t, k, 64)
def be(v, w): return [extract(v, w, w - 8 * (i + 1), 8) for i in range(w // 8)]
def z(v): return to_z3(v, 64)
def app(f, i): return from_z3(f(z3.simplify(z(i))))
MAXW = 1 << 28

def words_in(v, nm, bits=32):
    """bytes of an arbitrary word of bytes: (byte values, value)"""
    bs = [BV(8, ((8, z3.BitVec(f'{nm}{i}', 8), 0),)) for i in range(bits // 8)]
    return bs, concat([(b, 8) for b in reversed(bs)])
def run(bs): return Seg('b', None, [(b, 0, 1) for b in bs])

def gps(mod, how, r, old):
    v = V(mod, f'GPS_ASCII ({how}, {r} bytes short of a word{", after another value" if old else ""})'); e = v.e
    p = v.new('gps'); hdr = [0] * 4
    if old:
        hdr, _ = words_in(v, 'h'); k = v.var('old', MAXW)
        b = v.buf([run(hdr + be(extract(k, 64, 0, 32), 32)), v.arr('old', M(4, k))[0]], 'received bytes', True)
        v.call('gps_unpack', Ptr(p, 0), Ptr(b, 0))
    oui = v.call('gps_manufacturer_oui', Ptr(p, 0), ret=True)
    if how != 'none':
        q = v.var('q', MAXW, int(r > 0))
        n = L(M(4, q), (-r) % (1 << 64)); seg, f = v.arr('sentences', n)
        a = v.vec([seg], 'sentences'); v.call(f'gps_ascii_sentences_{how}', Ptr(p, 0), Ptr(a, 0))
    elif old: q = k; n = M(4, q); f = z3.Function('mem_old', z3.BitVecSort(64), z3.BitVecSort(8))
    else: q = 0; n = 0; f = None
    def content(st, oid, off, nm):
        if f is None: return
        s2, m, ok = v.at(n) if st is None else st
        if ok: v.eqbytes(nm, s2, v.bytes(s2, oid, L(off, m), 1), [app(f, m)])
        for j in range(r): v.eqbytes(nm + ' (padding)', v.st, v.bytes(v.st, oid, L(off, n, j), 1), [0])
    def state(o, tag, padded):
        v.eq(f'{tag}: size is the header and the padded sentences', v.call('gps_size', Ptr(o, 0), ret=True), L(8, M(4, q)), 64)
        v.eq(f'{tag}: number of words', v.call('gps_number_of_words', Ptr(o, 0), ret=True), q, 64)
        v.eq(f'{tag}: manufacturer OUI', v.call('gps_manufacturer_oui', Ptr(o, 0), ret=True), oui, 64)
        g = v.obj(24, 'copy'); v.call('gps_ascii_sentences_get', Ptr(o, 0), Ptr(g, 0))
        d, ln = v.vecdata(v.st, g)
        if padded: v.eq(f'{tag}: sentences length', ln, M(4, q), 64)
        if f is not None and d is not None:
            s2, m, ok = v.at(n)
            if ok: v.eqbytes(f'{tag}: sentences content', s2, v.bytes(s2, d, m, 1), [app(f, m)])
    state(p, 'before packing', False)
    total = L(8, M(4, q)); out = v.buf([v.arr('out', total)[0]], 'output buffer')
    v.call('gps_pack', Ptr(p, 0), Ptr(out, 0))
    v.eqbytes('packed header: reserved byte and OUI', v.st, v.bytes(v.st, out, 0, 4), [hdr[0]] + be(extract(oui, 64, 0, 24), 24))
    v.eqbytes('packed header: number of words', v.st, v.bytes(v.st, out, 4, 4), be(extract(q, 64, 0, 32), 32))
    content(None, out, 8, 'packed sentences')
    v.st.w(out).ro = True
    p2 = v.new('gps'); v.call('gps_unpack', Ptr(p2, 0), Ptr(out, 0))
    state(p2, 'after unpacking', True)
    if how == 'set':
        s = BV(32, ((32, z3.BitVec('newoui', 32), 0),)); v.st.assume(z3.ULE(to_z3(s, 32), 0xffffff))
        v.call('gps_manufacturer_oui_put', Ptr(p, 0), s); oui = zext(s, 32, 64); state(p, 'after setting the OUI', False)
    return [e]

CAL = [('source_list', 511), ('system_list', 511), ('vector_component_list', 65535), ('async_channel_list', 32767)]
def cal(mod, how, tags, old):
    v = V(mod, f'ContextAssociationLists ({how}, {"with" if tags else "no"} tag list{", after another value" if old else ""})'); e = v.e
    p = v.new('cal'); hdr = [0] * 8
    def header(cnt, en, h):
        """the two header words: given counts, other bits from h"""
        val = concat([(b, 8) for b in reversed(h)]); s, y, c, a = cnt
        w = concat([(extract(a, 64, 0, 15), 15), (en, 1), (extract(c, 64, 0, 16), 16), (extract(y, 64, 0, 9), 9), (extract(val, 64, 41, 7), 7), (extract(s, 64, 0, 9), 9), (extract(val, 64, 57, 7), 7)])
        return be(w, 64)
    def arbitrary(tag, en, lo_async=0):
        cnt = [v.var(f'{tag}_{nm}', hi, int(en and nm == 'async_channel_list')) for nm, hi in CAL]; ns = cnt + ([cnt[3]] if en else [0])
        arrs = [v.arr(f'{tag}{i}', M(4, c)) for i, c in enumerate(ns)]
        return cnt, ns, arrs
    if old:
        hdr, _ = words_in(v, 'h', 64); cnt, ns, arrs = arbitrary('old', old == 2)
        b = v.buf([run(header(cnt, int(old == 2), hdr))] + [s for s, f in arrs], 'received bytes', True)
        v.call('cal_unpack', Ptr(p, 0), Ptr(b, 0)); big = True
    if how != 'none':
        cnt, ns, arrs = arbitrary('new', tags); big = False
        for (nm, _), (s, f) in zip(CAL + [('async_channel_tag_list', 0)], arrs):
            a = v.vec([s] if not (nm == 'async_channel_tag_list' and not tags) else [], nm); v.call(f'cal_{nm}_{how}', Ptr(p, 0), Ptr(a, 0))
    total = 8
    for k in ns: total = L(total, M(4, k))
    def elem(i, m, j):      # byte j (big-endian order) of element m of list i
        f = arrs[i][1]
        return app(f, L(M(4, m), j if big else 3 - j))
    def state(o, tag, counts):
        v.eq(f'{tag}: size is the header and four bytes per element', v.call('cal_size', Ptr(o, 0), ret=True), total, 64)
        for i, ((nm, _), k) in enumerate(zip(CAL + [('async_channel_tag_list', 0)], ns)):
            if counts and i < 4: v.eq(f'{tag}: {nm}_size', v.call(f'cal_{nm}_size', Ptr(o, 0), ret=True), k, 64)
            g = v.obj(24, 'copy'); v.call(f'cal_{nm}_get', Ptr(o, 0), Ptr(g, 0))
            d, ln = v.vecdata(v.st, g)
            v.eq(f'{tag}: {nm} length', ln, M(4, k), 64)
            if d is None or isinstance(k, int): continue
            s2, m, ok = v.at(k)
            if ok: v.eqbytes(f'{tag}: {nm} content', s2, v.bytes(s2, d, M(4, m), 4), [elem(i, m, 3 - j) for j in range(4)])
        if counts: v.eq(f'{tag}: tag list enable', v.call('cal_async_channel_tag_list_enable', Ptr(o, 0), ret=True), int(tags), 64)
    state(p, 'before packing', False)
    out = v.buf([v.arr('out', total)[0]], 'output buffer')
    v.call('cal_pack', Ptr(p, 0), Ptr(out, 0))
    v.eqbytes('packed header: counts, enable bit, reserved bits', v.st, v.bytes(v.st, out, 0, 8), header(cnt, int(tags), hdr))
    off = 8
    for i, ((nm, _), k) in enumerate(zip(CAL + [('async_channel_tag_list', 0)], ns)):
        if isinstance(k, int): continue
        s2, m, ok = v.at(k)
        if ok: v.eqbytes(f'packed {nm}: elements in order, most significant byte first', s2, v.bytes(s2, out, L(off, M(4, m)), 4), [elem(i, m, j) for j in range(4)])
        off = L(off, M(4, k))
    v.st.w(out).ro = True
    p2 = v.new('cal'); v.call('cal_unpack', Ptr(p2, 0), Ptr(out, 0))
    state(p2, 'after unpacking', True)
    return [e]

def il(mod, w, how, r, old):
    v = V(mod, f'IndexList of {8*w}-bit entries ({how}, {r} entries short of a word{", after another value" if old else ""})'); e = v.e
    N = f'il{8*w}'; p = v.new(N); per = 4 // w; hdr = [0] * 4
    hi = (1 << 20) - 1
    q = v.var('q', (1 << 20) // per, int(r > 0))
    n = L(M(per, q), (-r) % (1 << 64)); v.st.assume(z3.ULE(z(n), hi)); v.known(n, hi)
    seg, f = v.arr('entries', M(w, n)); padseg = v.arr('padding', r * w)[0]
    def head(cnt, h, code):
        val = concat([(b, 8) for b in reversed(h)])
        return be(concat([(extract(cnt, 64, 0, 20), 20), (extract(val, 32, 20, 8), 8), (code, 4)]), 32)
    big = False
    if old:
        hdr, _ = words_in(v, 'h'); tot, _ = words_in(v, 't')
        if how != 'none':
            k = v.var('old', (1 << 20) // per - 1); kn = M(per, k); sg = [v.arr('old', M(4, k))[0]]
        else: kn = n; sg = [seg, padseg]; big = True
        val = concat([(b, 8) for b in reversed(hdr)])
        b = v.buf([run(tot + head(kn, hdr, extract(val, 32, 28, 4)))] + sg, 'received bytes', True)
        v.call(f'{N}_unpack', Ptr(p, 0), Ptr(b, 0))
    if how != 'none':
        a = v.vec([seg], 'entries'); v.call(f'{N}_entries_{how}', Ptr(p, 0), Ptr(a, 0))
    total = L(8, M(4, q))
    def elem(m, j): return app(f, L(M(w, m), j if big else w - 1 - j))
    def state(o, tag, counts):
        v.eq(f'{tag}: size is the header and the entries padded to words', v.call(f'{N}_size', Ptr(o, 0), ret=True), total, 64)
        if counts:
            v.eq(f'{tag}: num_entries', v.call(f'{N}_num_entries', Ptr(o, 0), ret=True), n, 64)
            v.eq(f'{tag}: total_size', v.call(f'{N}_total_size', Ptr(o, 0), ret=True), L(2, q), 64)
            v.eq(f'{tag}: entry_size', v.call(f'{N}_entry_size', Ptr(o, 0), ret=True), w, 64)
        g = v.obj(24, 'copy'); v.call(f'{N}_entries_get', Ptr(o, 0), Ptr(g, 0)); d, ln = v.vecdata(v.st, g)
        v.eq(f'{tag}: entries length', ln, M(w, n), 64)
        if d is not None:
            s2, m, ok = v.at(n)
            if ok: v.eqbytes(f'{tag}: entries content', s2, v.bytes(s2, d, M(w, m), w), [elem(m, w - 1 - j) for j in range(w)])
    state(p, 'before packing', False)
    out = v.buf([v.arr('out', total)[0]], 'output buffer'); v.call(f'{N}_pack', Ptr(p, 0), Ptr(out, 0))
    v.eqbytes('packed header: total size in words', v.st, v.bytes(v.st, out, 0, 4), be(extract(L(2, q), 64, 0, 32), 32))
    v.eqbytes('packed header: entry size, reserved bits, number of entries', v.st, v.bytes(v.st, out, 4, 4), head(n, hdr, w))
    s2, m, ok = v.at(n)
    if ok: v.eqbytes('packed entries in order, most significant byte first', s2, v.bytes(s2, out, L(8, M(w, m)), w), [elem(m, j) for j in range(w)])
    for j in range(r * w): v.eqbytes('packed entries: padding', v.st, v.bytes(v.st, out, L(8, M(w, n), j), 1), [0])
    v.st.w(out).ro = True
    p2 = v.new(N); v.call(f'{N}_unpack', Ptr(p2, 0), Ptr(out, 0)); state(p2, 'after unpacking', True)
    return [e]

def sss(mod, how, empty, old):
    v = V(mod, f'SectorStepScan ({how}, {"no" if empty else "some"} records{", after another value" if old else ""})'); e = v.e
    rs = v.call('rec_sizeof', ret=True); ro = v.new('rec')
    e.elems['Rec'] = (list(e.load_entries(v.st, Ptr(ro, 0), rs)), rs)
    N = 'sss'; p = v.new(N); hdr = [0] * 4; sub = None
    n = 0 if empty else v.var('n', 4095, 1)
    seg, f = v.arr('records', M(rs, n)) if not empty else (None, None)
    big = False
    def head(words, cnt, h):
        val = concat([(b, 8) for b in reversed(h)])
        return be(concat([(extract(cnt, 64, 0, 12), 12), (words, 12), (extract(val, 32, 24, 8), 8)]), 32)
    if old:
        hdr, _ = words_in(v, 'h'); tot, _ = words_in(v, 't'); sub, _ = words_in(v, 's')
        val = concat([(b, 8) for b in reversed(hdr)])
        if how != 'none': k = v.var('old', 4095); sg = [v.arr('old', M(12, k))[0]]
        else:
            k = n; big = True
            if empty: sg = []
            else: seg, f = v.arr('recbytes', M(12, n)); sg = [seg]
        b = v.buf([run(tot + head(extract(val, 32, 12, 12), k, hdr) + sub)] + sg, 'received bytes', True)
        v.call('sss_unpack', Ptr(p, 0), Ptr(b, 0))
    else:
        sub, _ = words_in(v, 's'); sb = v.buf([run(sub)], 'subfield bits', True); v.call('sss_subfield_put', Ptr(p, 0), Ptr(sb, 0))
        hs = BV(8, ((8, z3.BitVec('hs', 8), 0),)); v.call('sss_header_size_put', Ptr(p, 0), hs); hdr = [hs, 0, 0, 0]
    if how != 'none':
        a = v.vec([seg] if not empty else [], 'records'); v.call(f'sss_records_{how}', Ptr(p, 0), Ptr(a, 0))
    total = L(12, M(12, n))
    def record(st, oid, off):
        """sector and frequency of the record object at off (read by its own accessors)"""
        st = st.fork(); tmp = e.new_obj(st, 'heap', rs, 'record')
        for i, x in enumerate(e.load_entries(st, Ptr(oid, off), rs)): st.w(tmp).ent[i] = x
        r1 = v.x.call(st, 'rec_sector', [Ptr(tmp, 0)], True); r2 = v.x.call(r1[0], 'rec_freq', [Ptr(tmp, 0)], True)
        return r1[1], r2[1]
    src = None
    if f is not None and not big: src = v.buf([seg], 'records as given')
    def want(st, m):
        if big:
            bs = [app(f, L(M(12, m), j)) for j in range(12)]
            return concat([(b, 8) for b in reversed(bs[:4])]), concat([(b, 8) for b in reversed(bs[4:])])
        return record(st, src, M(rs, m))
    def state(o, tag, counts):
        v.eq(f'{tag}: size is the header and the records', v.call('sss_size', Ptr(o, 0), ret=True), total, 64)
        if counts:
            v.eq(f'{tag}: array_size', v.call('sss_array_size', Ptr(o, 0), ret=True), L(3, M(3, n)), 64)
            v.eq(f'{tag}: num_words_record', v.call('sss_num_words_record', Ptr(o, 0), ret=True), 0 if empty else 3, 64)
            v.eq(f'{tag}: num_records', v.call('sss_num_records', Ptr(o, 0), ret=True), n, 64)
        v.eq(f'{tag}: header_size', v.call('sss_header_size', Ptr(o, 0), ret=True), zext(hdr[0], 8, 64), 64)
        sb = v.obj(4, 'subfield bits'); v.call('sss_subfield', Ptr(o, 0), Ptr(sb, 0)); v.eqbytes(f'{tag}: subfield bits', v.st, v.bytes(v.st, sb, 0, 4), sub)
        g = v.obj(24, 'copy'); v.call('sss_records_get', Ptr(o, 0), Ptr(g, 0)); d, ln = v.vecdata(v.st, g)
        v.eq(f'{tag}: records length', ln, M(rs, n), 64)
        if d is not None and not empty:
            s2, m, ok = v.at(n)
            if ok:
                (a1, b1), (a2, b2) = record(s2, d, M(rs, m)), want(s2, m)
                v.eq(f'{tag}: record content', a1, a2, 32, s2); v.eq(f'{tag}: record content', b1, b2, 64, s2)
    state(p, 'before packing', False)
    out = v.buf([v.arr('out', total)[0]], 'output buffer'); v.call('sss_pack', Ptr(p, 0), Ptr(out, 0))
    v.eqbytes('packed header: array size in words', v.st, v.bytes(v.st, out, 0, 4), be(extract(L(3, M(3, n)), 64, 0, 32), 32))
    v.eqbytes('packed header: header size, words per record, number of records', v.st, v.bytes(v.st, out, 4, 4), head(0 if empty else 3, n, hdr))
    v.eqbytes('packed subfield bits', v.st, v.bytes(v.st, out, 8, 4), sub)
    if not empty:
        s2, m, ok = v.at(n)
        if ok:
            a, b = want(s2, m); v.eqbytes('packed records in order', s2, v.bytes(s2, out, L(12, M(12, m)), 12), be(a, 32) + be(b, 64))
    v.st.w(out).ro = True
    p2 = v.new('sss'); v.call('sss_unpack', Ptr(p2, 0), Ptr(out, 0)); state(p2, 'after unpacking', True)
    return [e]

TASKS = [('gps', h, r, o) for h, r, o in [(h, r, o) for h in ('set', 'ref') for r in range(4) for o in (0, 1)] + [('none', 0, 0), ('none', 0, 1)]] + \
        [('cal', h, t, o) for h in ('set', 'ref') for t in (False, True) for o in (0, 1, 2)] + [('cal', 'none', False, 1), ('cal', 'none', True, 2)] + \
        [('il', w, h, r, o) for w in (1, 2, 4) for h in ('set', 'ref', 'none') for r in range(4 // w) for o in ((0, 1) if h != 'none' else (1,))] + \
        [('sss', h, m, o) for h in ('set', 'ref', 'none') for m in (False, True) for o in ((0, 1) if h != 'none' else (1,))]
def check(mod, t):
    es = []; PATH.todo = [[]]
    while PATH.todo:
        PATH.script = PATH.todo.pop(); PATH.taken = []
        try: es += dict(gps=gps, cal=cal, il=il, sss=sss)[t[0]](mod, *t[1:])
        except Infeasible: es += PATH.engines
    for e in es:
        for o in e.obl: o.info = dict(what=t)
    return es

# ---- replay against the real code: every count of a small range, checked against an encoder written from VITA 49.2
BATTERY = SRC.replace('#include <new>', '#include <new>\n#include <cstdio>\n#include <cstdlib>\n#include <string>') + r'''
typedef std::vector<uint8_t> B;
static int bad = 0;
static void word(B& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); }
static std::string hex(const B& b) { std::string s; char t[4]; for (auto x : b) { std::snprintf(t, 4, "%02x", x); s += t; } return s; }
static uint32_t rnd() { static uint32_t s = 12345; s = s * 1664525u + 1013904223u; return s ^ (s >> 15); }
static void fail(const std::string& s) { std::printf("FAIL %s\n", s.c_str()); if (++bad > 3) std::exit(1); }
template <typename T> static B packed(T& o, const std::string& what, size_t want) {
    size_t n = o.size(); if (n != want) fail(what + ": size() is " + std::to_string(n) + ", expected " + std::to_string(want));
    B b(want, 0xAA); uint8_t* p = new uint8_t[want]; std::memset(p, 0xAA, want); o.pack_into(p); std::memcpy(b.data(), p, want); delete[] p; return b;
}
template <typename T> static void unpacked(T& o, const B& b) { uint8_t* p = new uint8_t[b.size()]; if (b.size()) std::memcpy(p, b.data(), b.size()); o.unpack_from(p); delete[] p; }
static void cmp(const std::string& what, const B& got, const B& want) { if (got != want) fail(what + ": packed " + hex(got).substr(0, 4000) + " expected " + hex(want).substr(0, 4000)); }
static void eq(const std::string& what, uint64_t got, uint64_t want) { if (got != want) fail(what + ": " + std::to_string(got) + ", expected " + std::to_string(want)); }
template <typename E> static void il(const char* nm, int n, int how, int old) {
    std::string w = std::string(nm) + " with " + std::to_string(n) + " entries" + (how ? " (through reference)" : "");
    IndexList<E> o; if (old) { B h; word(h, 9, 4); word(h, (uint32_t(sizeof(E)) << 28) | 3, 4); word(h, rnd(), 4); word(h, rnd(), 4); word(h, rnd(), 4); unpacked(o, h); }
    std::vector<E> v; for (int i = 0; i < n; ++i) v.push_back(E(rnd()));
    if (how) o.entries() = v; else o.entries(v);
    size_t words = (n * sizeof(E) + 3) / 4; B e; word(e, 2 + words, 4); word(e, (uint32_t(sizeof(E)) << 28) | n, 4); for (auto x : v) word(e, uint64_t(x), sizeof(E)); while (e.size() < 8 + 4 * words) e.push_back(0);
    cmp(w, packed(o, w, e.size()), e);
    IndexList<E> u; unpacked(u, e); eq(w + ", num_entries after unpacking", u.num_entries(), n); eq(w + ", size after unpacking", u.size(), e.size()); eq(w + ", total_size", u.total_size(), 2 + words);
    if (u.entries() != v) fail(w + ": entries differ after unpacking");
}
int main() {
    for (int old = 0; old < 2; ++old) for (int how = 0; how < 2; ++how) for (int n = 0; n < 23; ++n) {
        { std::string w = "GPS_ASCII with " + std::to_string(n) + " bytes" + (how ? " (through reference)" : "");
          GPS_ASCII o; if (old) { B h; word(h, 0x00123456, 4); word(h, 2, 4); word(h, rnd(), 4); word(h, rnd(), 4); unpacked(o, h); } else o.manufacturer_oui(0x123456);
          B v; for (int i = 0; i < n; ++i) v.push_back(uint8_t(rnd()));
          if (how) o.ascii_sentences() = v; else o.ascii_sentences(v);
          size_t words = (n + 3) / 4; eq(w + ", number_of_words", o.number_of_words(), words);
          B e; word(e, 0x123456, 4); word(e, words, 4); B pv = v; pv.resize(4 * words); e.insert(e.end(), pv.begin(), pv.end());
          cmp(w, packed(o, w, e.size()), e); GPS_ASCII u; unpacked(u, e); eq(w + ", number_of_words after unpacking", u.number_of_words(), words); eq(w + ", OUI", u.manufacturer_oui(), 0x123456);
          eq(w + ", size after unpacking", u.size(), e.size()); if (u.ascii_sentences() != pv) fail(w + ": sentences differ after unpacking"); }
        il<uint8_t>("IndexList<uint8_t>", n, how, old); il<uint16_t>("IndexList<uint16_t>", n, how, old); il<uint32_t>("IndexList<uint32_t>", n, how, old);
        for (int tags = 0; tags < 2; ++tags) {
          size_t c[5] = { size_t(n), rnd() % 4, rnd() % 300, rnd() % 5 + (tags ? 1 : 0), 0 }; if (n == 22) { c[0] = 511; c[1] = 300; c[2] = 4000; c[3] = 700; } if (tags) c[4] = c[3];
          std::string w = "ContextAssociationLists " + std::to_string(c[0]) + "/" + std::to_string(c[1]) + "/" + std::to_string(c[2]) + "/" + std::to_string(c[3]) + "/" + std::to_string(c[4]) + (how ? " (through reference)" : "");
          std::vector<uint32_t> v[5]; for (int i = 0; i < 5; ++i) for (size_t k = 0; k < c[i]; ++k) v[i].push_back(rnd());
          ContextAssociationLists o; if (old) { B h; word(h, 1, 2); word(h, 0, 2); word(h, 1, 2); word(h, tags ? 1 : 0x8001, 2); for (int i = 0; i < 4; ++i) word(h, rnd(), 4); unpacked(o, h); }
          if (how) { o.source_list() = v[0]; o.system_list() = v[1]; o.vector_component_list() = v[2]; o.async_channel_list() = v[3]; o.async_channel_tag_list() = v[4]; }
          else { o.source_list(v[0]); o.system_list(v[1]); o.vector_component_list(v[2]); o.async_channel_list(v[3]); o.async_channel_tag_list(v[4]); }
          B e; word(e, c[0], 2); word(e, c[1], 2); word(e, c[2], 2); word(e, c[3] | (tags ? 0x8000 : 0), 2); for (int i = 0; i < 5; ++i) for (auto x : v[i]) word(e, x, 4);
          cmp(w, packed(o, w, e.size()), e); ContextAssociationLists u; unpacked(u, e);
          eq(w + ", size after unpacking", u.size(), e.size()); eq(w + ", source_list_size", u.source_list_size(), c[0]); eq(w + ", async_channel_list_size", u.async_channel_list_size(), c[3]); eq(w + ", enable", u.async_channel_tag_list_enable(), tags);
          eq(w + ", system_list_size", u.system_list_size(), c[1]); eq(w + ", vector_component_list_size", u.vector_component_list_size(), c[2]);
          if (u.source_list() != v[0] || u.system_list() != v[1] || u.vector_component_list() != v[2] || u.async_channel_list() != v[3] || u.async_channel_tag_list() != v[4]) fail(w + ": lists differ after unpacking"); }
        { size_t m = n == 22 ? 4000 : n; std::string w = "SectorStepScan with " + std::to_string(m) + " records" + (how ? " (through reference)" : "");
          SectorStepScan<Rec> o; if (old) { B h; word(h, 6, 4); word(h, (3 << 12) | 1, 4); word(h, 0, 4); for (int i = 0; i < 3; ++i) word(h, rnd(), 4); unpacked(o, h); }
          o.header_size(3); o.subfield_cif().time_4(true); B sb(4); o.subfield_cif().pack_into(sb.data()); std::vector<Rec> v(m); B body;
          for (auto& x : v) { uint32_t a = rnd(); uint64_t f = (uint64_t(rnd()) << 32) | rnd(); x.m_sector.set<31,32>(a); x.m_freq = vrtgen::swap::to_be(f); word(body, a, 4); word(body, f, 8); }
          if (how) o.records() = v; else o.records(v);
          B e; word(e, 3 + 3 * m, 4); word(e, (3u << 24) | ((m ? 3u : 0u) << 12) | m, 4); e.insert(e.end(), sb.begin(), sb.end()); e.insert(e.end(), body.begin(), body.end());
          cmp(w, packed(o, w, e.size()), e); SectorStepScan<Rec> u; unpacked(u, e); eq(w + ", size after unpacking", u.size(), e.size()); eq(w + ", num_records", u.num_records(), m); eq(w + ", array_size", u.array_size(), 3 + 3 * m);
          if (u.records().size() != m) fail(w + ": record count after unpacking"); else { B b2; for (auto& x : u.records()) { word(b2, x.sector(), 4); word(b2, x.freq(), 8); } if (b2 != body) fail(w + ": records differ after unpacking"); } }
    }
    for (int how = 0; how < 2; ++how) for (int n : {255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131072, 524288, 1048575}) {
        il<uint8_t>("IndexList<uint8_t>", n, how, 0); il<uint16_t>("IndexList<uint16_t>", n, how, 1); il<uint32_t>("IndexList<uint32_t>", n, how, 0); }
    std::puts(bad ? "BAD" : "OK"); return bad ? 1 : 0;
}
'''
def probe(key):
    """(source, fails on the real code, output)"""
    try: rc, out, err = build.run_cpp(BATTERY, f'c10_{key}', timeout=240)
    except build.BuildError as x: return None, False, str(x)
    return BATTERY, rc != 0, (out + err)[-3000:]
