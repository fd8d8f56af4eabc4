"""Contracts of the transport (C23): socket endpoints, UDP and TCP sockets, send_packet without acknowledgements.
Calls to the operating system are recorded in a ghost log; each contract fixes the calls made, their arguments and
the bytes they are given, for every result the operating system may give."""
import z3
from .engine import *
from .dom import *
from . import build
from .libcheck import Ctx, eqbytes
from .models import I64, I8, STy, str_opaque, str_make, str_chars

FAM = {4: ('AF_INET', 2, 16, 4, 4, 'INET_ADDRSTRLEN'), 6: ('AF_INET6', 10, 28, 8, 16, 'INET6_ADDRSTRLEN')}   # name, value, sockaddr size, offset and size of the address
TYPES = {'udp': 2, 'tcp': 1}
class I32: k = 'int'; bits = 32; store = 4; size = 4

def source():
    o = ['#include <cstring>\n#include <cstdint>\n#include <string>\n#include <new>\n#include <iostream>\n#include <span>\n#include <vrtgen/socket.hpp>\n#include <vrtgen/utility.hpp>\nusing namespace vrtgen;\n'
         'struct Pk { const uint8_t* p; size_t n; std::span<const uint8_t> data() { return {p, n}; } };\n']
    for D, (af, *_) in FAM.items():
        for K in TYPES:
            EP = f'socket::socket_endpoint<{af}, {"SOCK_DGRAM" if K == "udp" else "SOCK_STREAM"}>'; x = f'{K}{D}'; S = f'socket::{K}::v{D}'
            o.append(f'using EP_{x} = {EP}; using S_{x} = {S};\nextern "C" {{')
            w = lambda t: o.append(t.replace('@E', 'EP_' + x).replace('@S', 'S_' + x).replace('@', x))
            w('uint64_t @_epsize() { return sizeof(@E); } uint64_t @_ssize() { return sizeof(@S); }')
            w('void @_ep_def(void* p) { new (p) @E(); } void @_ep_port_ctor(void* p, uint16_t n) { new (p) @E(n); } void @_ep_ctor(void* p, const std::string* s, uint16_t n) { new (p) @E(*s, n); }')
            w('void @_ep_copy(void* p, const @E* q) { new (p) @E(*q); } void @_ep_assign(@E* p, const @E* q) { *p = *q; }')
            w('uint16_t @_ep_port(const @E* p) { return p->port(); } void @_ep_set_port(@E* p, uint16_t n) { p->port(n); } void @_ep_set_addr(@E* p, const std::string* s) { p->address(*s); }')
            w('const void* @_ep_addr(const @E* p) { return &p->address(); } void* @_ep_addr_mut(@E* p) { return &p->address(); }')
            w('const void* @_ep_sa(const @E* p) { return &p->sockaddr(); } void* @_ep_sa_mut(@E* p) { return &p->sockaddr(); }')
            w('const void* @_ep_sl(const @E* p) { return &p->socklen(); } void* @_ep_sl_mut(@E* p) { return &p->socklen(); }')
            w('void @_ep_str(std::string* r, const @E* p) { new (r) std::string(p->to_string()); }')
            w('void @_ctor(void* p) { new (p) @S(); } void @_dtor(@S* p) { p->@S::~@S(); } void @_close(@S* p) { p->close(); }'.replace('p->@S::~@S()', f'p->S_{x}::~{"datagram_socket" if K == "udp" else "stream_socket"}()'))
            w('bool @_is_open(const @S* p) { return p->is_open(); } int @_handle(const @S* p) { return p->native_handle(); }')
            w('bool @_bind(@S* p, const @E* e) { return p->bind(*e); } bool @_connect(@S* p, const @E* e) { return p->connect(*e); } void @_shutdown(@S* p, int w) { p->shutdown(w); }')
            w('void @_timeout(@S* p, size_t t) { p->timeout(t); }')
            for d in ('src', 'dst'): w(f'void @_set_{d}(@S* p, const @E* e) {{ p->{d}(*e); }} const void* @_{d}(const @S* p) {{ return &p->{d}(); }} void* @_{d}_mut(@S* p) {{ return &p->{d}(); }}')
            if K == 'udp':
                w('int64_t @_send_to(@S* p, const void* d, size_t n, const @E* e) { return p->send_to(d, n, *e); } int64_t @_receive_from(@S* p, void* d, size_t n, @E* e) { return p->receive_from(d, n, *e); }')
            else:
                w('bool @_listen(@S* p, int b) { return p->listen(b); } bool @_accept(@S* p) { return p->accept(); }')
                w('int64_t @_write(@S* p, const void* d, size_t n) { return p->write_some(d, n); } int64_t @_read(@S* p, void* d, size_t n) { return p->read_some(d, n); }')
            if D == 4: w('void @_send_packet(@S* p, const uint8_t* d, size_t n) { Pk k{d, n}; vrtgen::send_packet(*p, k); }')
            o.append('}')
    return '\n'.join(o)

def sym(w, n): return BV(w, ((w, z3.BitVec(n, w), 0),))
def symb(n, tag): return [sym(8, f'{tag}{i}') for i in range(n)]

class SC:
    def __init__(s, mod, K, D):
        s.x = Ctx(mod); s.e = s.x.e; s.K, s.D = K, D; s.p = f'{K}{D}'; s.nm = f'{K}::v{D}'
        _, s.af, s.sa, s.ao, s.an, _ = FAM[D]; s.n = 0
        e = s.e; e.logs = [()]; e.opaque_strings = True
        for f in ('socket', 'bind', 'connect', 'listen', 'accept', 'accept4', 'shutdown', 'setsockopt', 'sendto', 'send', 'recvfrom', 'recv', 'read', 'write', 'close', 'inet_pton'):
            e.hook(f'^{f}$', getattr(s, 'x_' + f))
        e.hook(r'^(htons|ntohs)$', lambda e, st, n, a, i: [Outcome(st, concat([(extract(a[0], 16, 0, 8), 8), (extract(a[0], 16, 8, 8), 8)][::-1] if False else [(extract(a[0], 16, 8, 8), 8), (extract(a[0], 16, 0, 8), 8)]))])
        e.hook(r'^__errno_location$', s.x_errno)
        e.hook(r'^strerror$', lambda e, st, n, a, i: [Outcome(st, Ptr(s.text(st, 'error text'), 0))])
        e.hook(r'^std::(__cxx11::)?basic_string<.*std::operator\+<char|^std::operator\+<char', lambda e, st, n, a, i: (str_opaque(e, st, a[0]), [Outcome(st, None)])[1])
        s.str_hook = len(e.hooks)
        e.hook(r'socket_endpoint<\d+, \d+>::to_string', lambda e, st, n, a, i: (str_opaque(e, st, a[0]), [Outcome(st, None)])[1])
        e.assumed |= {'operating system calls return -1 or a result of the range POSIX gives, write only the buffers they are given (POSIX)', 'inet_pton: result -1, 0 or 1; writes the address (and nothing else) when the result is 1 (POSIX)',
                      'message texts (ostringstream, runtime_error, strerror) are not modelled'}
    # ---- operating system
    def log(s, st, *rec):
        s.e.logs.append(s.e.logs[st.aux.get('log', 0)] + (rec,)); st.aux['log'] = len(s.e.logs) - 1
    def calls(s, st, since=0): return s.e.logs[st.aux.get('log', 0)][since:]
    def text(s, st, nm):
        oid = s.e.new_obj(st, 'heap', 1 << 20, nm); st.mem[oid].any = True; return oid
    def res(s, st, w, hi, tag):
        """-1 or 0..hi"""
        s.n += 1; z = z3.BitVec(f'{tag}!{s.n}', w)
        st.assume(z3.Or(z == -1, z3.And(z >= 0, z <= hi))); return BV(w, ((w, z, 0),)), z
    def sockaddr(s, st, p, n):
        """bytes given to the operating system at p, of the length n"""
        s.e.bounds(st, p, n, 'socket address'); return [s.e.entries_to_val([y], I8) for y in s.e.load_entries(st, p, s.sa)]
    def x_errno(s, e, st, name, a, inst):
        o = e.new_obj(st, 'heap', 4, 'errno'); e.store(st, Ptr(o, 0), e.fresh(32, 'errno'), I32); return [Outcome(st, Ptr(o, 0))]
    def simple(s, e, st, rec, w=32, hi=0):
        s.log(st, *rec); r, _ = s.res(st, w, hi, rec[0]); return [Outcome(st, r)]
    def x_socket(s, e, st, name, a, inst): return s.simple(e, st, ('socket', a[0], a[1], a[2]), hi=0x7fffffff)
    def x_bind(s, e, st, name, a, inst): return s.simple(e, st, (name, a[0], s.sockaddr(st, a[1], zext(a[2], 32, 64)), a[2]))
    x_connect = x_bind
    def x_listen(s, e, st, name, a, inst): return s.simple(e, st, ('listen', a[0], a[1]))
    def x_shutdown(s, e, st, name, a, inst): return s.simple(e, st, ('shutdown', a[0], a[1]))
    def x_close(s, e, st, name, a, inst): return s.simple(e, st, ('close', a[0]))
    def x_setsockopt(s, e, st, name, a, inst):
        n = a[4]
        if not isinstance(n, int): raise Unsupported('setsockopt with an option of unknown size')
        return s.simple(e, st, ('setsockopt', a[0], a[1], a[2], [e.entries_to_val([y], I8) for y in e.load_entries(st, a[3], n)], n))
    def transfer(s, e, st, rec, p, n):
        e.bounds(st, p, n, rec[0]); s.log(st, *rec); s.n += 1; z = z3.BitVec(f'{rec[0]}!{s.n}', 64)
        st.assume(z3.Or(z == -1, z3.And(z >= 0, z3.ULE(z, to_z3(n, 64))))); return BV(64, ((64, z, 0),)), z
    def x_write(s, e, st, name, a, inst): return [Outcome(st, s.transfer(e, st, ('write', a[0], a[1], a[2]), a[1], a[2])[0])]
    def x_read(s, e, st, name, a, inst): return [Outcome(st, s.transfer(e, st, ('read', a[0], a[1], a[2]), a[1], a[2])[0])]
    def x_send(s, e, st, name, a, inst): return [Outcome(st, s.transfer(e, st, ('write', a[0], a[1], a[2]) if same(a[3], 0) else ('send', *a), a[1], a[2])[0])]
    def x_recv(s, e, st, name, a, inst): return [Outcome(st, s.transfer(e, st, ('read', a[0], a[1], a[2]) if same(a[3], 0) else ('recv', *a), a[1], a[2])[0])]
    def x_sendto(s, e, st, name, a, inst):
        return [Outcome(st, s.transfer(e, st, ('sendto', a[0], a[1], a[2], a[3], s.sockaddr(st, a[4], zext(a[5], 32, 64)), a[5]), a[1], a[2])[0])]
    def peer(s, e, st, pa, pl):
        """the operating system fills in the address of the peer"""
        n = e.load(st, pl, I32); e.bounds(st, pa, zext(n, 32, 64), 'peer address')
        st2 = st.fork(); b = symb(s.sa, f'peer{s.n}_'); e.store_entries(st2, pa, [(v, 0, 1) for v in b]); l = sym(32, f'peerlen{s.n}'); e.store(st2, pl, l, I32)
        st2.assume(z3.ULE(to_z3(l, 32), s.sa))
        return st2, b, l, n
    def x_recvfrom(s, e, st, name, a, inst):
        r, z = s.transfer(e, st, ('recvfrom', a[0], a[1], a[2], a[3], a[4], a[5]), a[1], a[2])
        st2, b, l, _ = s.peer(e, st, a[4], a[5]); st.assume(z == -1); st2.assume(z != -1); st2.aux['peer'] = s.keep((b, l)); st2.aux['failed'] = 0; st.aux['failed'] = 1
        return [Outcome(st, r), Outcome(st2, r)]
    def x_accept(s, e, st, name, a, inst):
        n = e.load(st, a[2], I32); s.log(st, 'accept', a[0], n); r, z = s.res(st, 32, 0x7fffffff, 'accept')
        st2, b, l, _ = s.peer(e, st, a[1], a[2]); st.assume(z == -1); st2.assume(z != -1); st2.aux['peer'] = s.keep((b, l)); st2.aux['failed'] = 0; st.aux['failed'] = 1
        return [Outcome(st, r), Outcome(st2, r)]
    def x_accept4(s, e, st, name, a, inst):
        if not same(a[3], 0): raise Unsupported('accept4 with flags')
        return s.x_accept(e, st, name, a[:3], inst)
    def keep(s, v): s.e.logs.append(v); return len(s.e.logs) - 1
    def x_inet_pton(s, e, st, name, a, inst):
        e.bounds(st, a[2], s.an, 'inet_pton'); s.log(st, 'inet_pton', a[0], a[1])
        s.n += 1; z = z3.BitVec(f'pton!{s.n}', 32); st.assume(z3.Or(z == -1, z == 0, z == 1)); st2 = st.fork(); st.assume(z != 1); st2.assume(z == 1)
        b = symb(s.an, f'pton{s.n}_'); e.store_entries(st2, a[2], [(v, 0, 1) for v in b]); st2.aux['pton'] = s.keep(b)
        r = BV(32, ((32, z, 0),)); return [Outcome(st, r), Outcome(st2, r)]
    # ---- helpers
    def run(s, st, f, *args):
        """outcomes (state, result, thrown) of the wrapper f"""
        return [(o.st, o.ret, o.thrown) for o in s.e.call(st, f'{s.p}_{f}', list(args))]
    def one(s, st, f, *args):
        r = s.run(st, f, *args)
        for o in r:
            if o[2]: s.e.oblige(o[0], f'{s.nm}: {f} does not throw', False, 'post')
        r = [o for o in r if not o[2]]
        if len(r) != 1: raise Unsupported(f'{f}: {len(r)} outcomes')
        return r[0][0], r[0][1]
    def ob(s, st, what, g, kind='post'): s.e.oblige(st, f'{s.nm} {what}', g, kind)
    def view(s, st, ep):
        """(socket address bytes, length) an endpoint shows"""
        st, p = s.one(st, 'ep_sa', ep); b = [s.e.entries_to_val([y], I8) for y in s.e.load_entries(st, p, s.sa)]
        st, q = s.one(st, 'ep_sl', ep); return b, s.e.load(st, q, I32)
    def eqview(s, v, b, l): return And(eqbytes(s.e, v[0], b), eqv(v[1], l, 32))
    def mem(s, st, f, nm): 
        st, n = s.one(st, f)
        return Ptr(s.e.new_obj(st, 'heap', n, nm), 0)
    def endpoint(s, st, tag):
        """an endpoint in any state"""
        e = s.e; p = s.mem(st, 'epsize', 'endpoint ' + tag); st, _ = s.one(st, 'ep_def', p)
        b = symb(s.sa, tag); l = sym(32, tag + '_len'); st.assume(z3.ULE(to_z3(l, 32), s.sa))
        st, q = s.one(st, 'ep_sa_mut', p); e.store_entries(st, q, [(v, 0, 1) for v in b]); st, q = s.one(st, 'ep_sl_mut', p); e.store(st, q, l, I32)
        return st, p, b, l
    def plain(s, port=0, addr=None):
        """socket address of the family with that address and port, everything else zero"""
        b = [0] * s.sa; b[0] = s.af
        b[2], b[3] = (0, 0) if isinstance(port, int) and port == 0 else (extract(port, 16, 8, 8), extract(port, 16, 0, 8))
        if addr is not None: b[s.ao:s.ao + s.an] = addr
        return b
    def string(s, st):
        """any string: (pointer, storage, length)"""
        e = s.e; n = sym(64, 'textlen'); st.assume(z3.ULE(to_z3(n, 64), 1 << 32)); d = e.new_obj(st, 'heap', lin_add(n, 1, 64), 'text'); st.mem[d].any = True
        o = e.new_obj(st, 'heap', 32, 'std::string'); e.store(st, Ptr(o, 0), Ptr(d, 0), STy); e.store(st, Ptr(o, 8), n, I64); e.store(st, Ptr(o, 16), n, I64); e.store(st, Ptr(o, 24), 0, I64)
        return Ptr(o, 0), Ptr(d, 0), to_z3(n, 64) == 0
    def expect(s, st, what, since, exp):
        """the operating system calls made since: exactly these"""
        got = s.calls(st, since)
        g = len(got) == len(exp)
        if g:
            cs = []
            for a, b in zip(got, exp):
                if a[0] != b[0] or len(a) != len(b): g = False; break
                for u, v in zip(a[1:], b[1:]):
                    if isinstance(v, list): cs.append(isinstance(u, list) and len(u) == len(v) and eqbytes(s.e, u, v))
                    elif isinstance(v, Ptr) or isinstance(u, Ptr): cs.append(isinstance(u, Ptr) and isinstance(v, Ptr) and u.obj == v.obj and (same(u.off, v.off) or eqv(u.off, v.off, 64)))
                    elif isinstance(v, tuple): cs.append(eqv(u, v[0], v[1]))
                    else: cs.append(eqv(u, v, 32))
            if g: g = And(*cs) if cs else True
        s.ob(st, f'{what}: the operating system calls made are exactly {[x[0] for x in exp]}', g)
    # ---- endpoints
    def endpoints(s):
        e = s.e
        def start(): st = State(); return st, s.mem(st, 'epsize', 'endpoint')
        N = sym(16, 'port')
        for f, a, b in (('ep_def', (), s.plain()), ('ep_port_ctor', (N,), s.plain(N))):
            st, p = start(); st, _ = s.one(st, f, p, *a)
            s.ob(st, f'{f}: family, port in network byte order, no address, nothing else set', s.eqview(s.view(st, p), b, s.sa)); s.expect(st, f, 0, [])
        st, p = start(); t, d, empty = s.string(st)
        for st, _, th in s.run(st, 'ep_ctor', p, t, N):
            ex = [('inet_pton', s.af, d)] if e.valid(st, Not(empty)) else []
            if not ex: s.ob(st, 'ep_ctor: an empty text is the only one not parsed', empty)
            s.expect(st, 'ep_ctor', 0, ex); ok = 'pton' in st.aux
            if th: s.ob(st, 'ep_ctor: refuses only what is not an address', bool(ex) and not ok and th == '__cxa_throw'); continue
            s.ob(st, 'ep_ctor: accepts only an address or an empty text', ok or not ex)
            s.ob(st, 'ep_ctor: the address and port given, in network byte order', s.eqview(s.view(st, p), s.plain(N, e.logs[st.aux['pton']] if ok else None), s.sa))
        # queries
        st = State(); st, p, b, l = s.endpoint(st, 'a'); before = s.x.obj_bytes(st, p.obj)
        st, r = s.one(st, 'ep_port', p); s.ob(st, 'port(): the port of the socket address', eqv(r, concat([(b[3], 8), (b[2], 8)]), 16))
        for f, off in (('ep_addr', s.ao), ('ep_addr_mut', s.ao), ('ep_sa', 0), ('ep_sa_mut', 0)):
            st, q = s.one(st, f, p); st, q0 = s.one(st, 'ep_sa', p)
            s.ob(st, f'{f}: refers to the endpoint\'s own address', isinstance(q, Ptr) and q.obj == p.obj and same(q.off, q0.off + off))
        st, q = s.one(st, 'ep_sl_mut', p); st, q0 = s.one(st, 'ep_sl', p); s.ob(st, 'socklen(): one length', q == q0)
        s.ob(st, 'queries leave the endpoint unchanged', eqbytes(e, s.x.obj_bytes(st, p.obj), before), 'frame'); s.expect(st, 'queries', 0, [])
        # port
        st = State(); st, p, b, l = s.endpoint(st, 'a'); st, _ = s.one(st, 'ep_set_port', p, N); c = list(b); c[2], c[3] = s.plain(N)[2:4]
        s.ob(st, 'port(n): the port in network byte order, nothing else changes', s.eqview(s.view(st, p), c, l)); st, r = s.one(st, 'ep_port', p); s.ob(st, 'port(n): port() reports n', eqv(r, N, 16)); s.expect(st, 'port(n)', 0, [])
        # address
        st = State(); st, p, b, l = s.endpoint(st, 'a'); t, d, empty = s.string(st)
        for st, _, th in s.run(st, 'ep_set_addr', p, t):
            ex = [('inet_pton', s.af, d)] if e.valid(st, Not(empty)) else []
            if not ex: s.ob(st, 'address(text): an empty text is the only one not parsed', empty)
            s.expect(st, 'address(text)', 0, ex); c = list(b); c[s.ao:s.ao + s.an] = e.logs[st.aux['pton']] if 'pton' in st.aux else [0] * s.an
            s.ob(st, 'address(text): does not throw', th is None); s.ob(st, 'address(text): the address given (none when it is not one), nothing else changes', s.eqview(s.view(st, p), c, l))
        # copies
        for f in ('ep_copy', 'ep_assign'):
            st = State(); st, p, b, l = s.endpoint(st, 'a')
            if f == 'ep_copy': q = s.mem(st, 'epsize', 'copy')
            else: st, q, _, _ = s.endpoint(st, 'b')
            st, _ = s.one(st, f, q, p); s.ob(st, f'{f}: the same address, port and length', s.eqview(s.view(st, q), b, l)); s.ob(st, f'{f}: the original is unchanged', s.eqview(s.view(st, p), b, l), 'frame')
    def strings(s):
        """to_string(): the text of the address, a colon, the port in decimal"""
        e = s.e; size = 16 if s.D == 4 else 46
        e.hooks = [h for h in e.hooks if 'to_string' not in h[0].pattern or 'socket_endpoint' not in h[0].pattern and 'bitset' not in h[0].pattern]
        def ntop(e, st, name, a, inst):
            room = a[3]
            if not isinstance(room, int): raise Unsupported('inet_ntop with a buffer of unknown size')
            e.bounds(st, a[2], room, 'inet_ntop'); s.log(st, 'inet_ntop', a[0], [e.entries_to_val([y], I8) for y in e.load_entries(st, a[1], s.an)], s.ok_room(room, size)); out = [Outcome(st.fork(), NULL)]
            for L in range(1, min(size, room)):
                t = st.fork(); c = [concat([(sym(2, f'text_h{i}'), 2), (1, 1), (sym(5, f'text_l{i}'), 5)]) for i in range(L)]; e.store_entries(t, a[2], [(v, 0, 1) for v in c] + [(0, 0, 1)])
                t.aux['text'] = s.keep(c); out.append(Outcome(t, a[2]))
            return out
        def dec(e, st, name, a, inst):
            v = a[1]; w = 64 if 'long' in e.m.dem.get(name, name) else 32; out = []; z = to_z3(v, w)
            e.oblige(st, 'to_string of a number that is not negative', z >= 0)
            for k in range(1, 6):
                for t in [x for x in [e.branch(st.fork(), And(z3.UGE(z, 10 ** (k - 1) if k > 1 else 0), z3.ULT(z, 10 ** k)))[0]] if x is not None]:
                    c = symb(k, 'digit'); t.aux['dec'] = s.keep((z, w, c)); str_make(e, t, a[0], c); out.append(Outcome(t, None))
            return out
        e.hook('^inet_ntop$', ntop); e.hook(r'^std::(__cxx11::)?to_string\(', dec)
        e.assumed |= {'inet_ntop: NULL, or the text of the address (digits, lower-case letters, full stops and colons, shorter than INET_ADDRSTRLEN / INET6_ADDRSTRLEN), then NUL (POSIX, glibc)', 'std::to_string(int): the decimal digits of its argument'}
        st = State(); st, p, b, l = s.endpoint(st, 'a'); before = s.x.obj_bytes(st, p.obj); r = Ptr(e.new_obj(st, 'heap', 32, 'std::string'), 0); n = 0
        for st, _, th in s.run(st, 'ep_str', r, p):
            s.ob(st, 'to_string(): does not throw', th is None); n += 1
            s.expect(st, 'to_string()', 0, [('inet_ntop', s.af, b[s.ao:s.ao + s.an], 1)]); c = str_chars(e, st, r)
            if 'text' not in st.aux: s.ob(st, 'to_string(): empty when there is no text', len(c) == 0); continue
            t = e.logs[st.aux['text']]; g = 'dec' in st.aux
            if g: z, w, d = e.logs[st.aux['dec']]; x = t + [58] + d; g = len(c) == len(x) and And(eqbytes(e, c, x), z == to_z3(concat([(b[3], 8), (b[2], 8)]) if w == 16 else zext(concat([(b[3], 8), (b[2], 8)]), 16, w), w))
            s.ob(st, 'to_string(): the text of the address, a colon, the port in decimal', g); s.ob(st, 'to_string(): leaves the endpoint unchanged', eqbytes(e, s.x.obj_bytes(st, p.obj), before), 'frame')
        e.oblige(st, f'{s.nm} to_string(): every length of text considered', n >= size)
    def ok_room(s, room, size): return int(room >= size)
    # ---- sockets
    def sock(s, st):
        """an open socket with any source and destination: state, pointer, descriptor, number of calls made"""
        p = s.mem(st, 'ssize', 'socket'); outs = [o for o in s.run(st, 'ctor', p) if not o[2]]
        if len(outs) != 1: raise Unsupported('socket ctor')
        st = outs[0][0]; st, fd = s.one(st, 'handle', p); s.v = {}
        for d in ('src', 'dst'):
            st, q, b, l = s.endpoint(st, d); st, _ = s.one(st, 'set_' + d, p, q); s.v[d] = (b, l)
        return st, p, fd, len(s.calls(st))
    def ends(s, st, p, what, **ch):
        for d in ('src', 'dst'):
            st, q = s.one(st, d, p); b, l = ch.get(d, s.v[d]); s.ob(st, f'{what}: ' + (f'{d}() is the endpoint given' if d in ch else f'{d}() unchanged'), s.eqview(s.view(st, q), b, l), 'post' if d in ch else 'frame')
    def connected(s, st, p):
        """after accept: state and descriptor of the connection"""
        outs = [o for o in s.run(st, 'accept', p) if not o[2] and o[0].aux.get('failed') == 0]
        if len(outs) != 1: raise Unsupported('accept')
        st = outs[0][0]; b, l = s.e.logs[st.aux['peer']]; s.v['dst'] = (b, l)
        s.conn = BV(32, ((32, z3.BitVec(f'accept!{s.n}', 32), 0),)); return st
    def sockets(s):
        e = s.e
        st = State(); p = s.mem(st, 'ssize', 'socket')
        for st, _, th in s.run(st, 'ctor', p):
            c = s.calls(st)
            if th: s.expect(st, 'constructor, refused', 0, [('socket', s.af, TYPES[s.K], 0)]); s.ob(st, 'constructor: throws only when no socket is to be had', th == '__cxa_throw'); continue
            st, fd = s.one(st, 'handle', p); tv = [3] + [0] * 15
            s.expect(st, 'constructor', 0, [('socket', s.af, TYPES[s.K], 0), ('setsockopt', fd, 1, 20, tv, 16)])
            s.ob(st, 'constructor: holds the descriptor obtained', to_z3(fd, 32) >= 0); st, r = s.one(st, 'is_open', p); s.ob(st, 'constructor: is_open()', eqv(r, 1, 1))
            s.v = dict(src=(s.plain(), s.sa), dst=(s.plain(), s.sa)); s.ends(st, p, 'constructor')
        for d in ('src', 'dst'):
            st = State(); st, p, fd, k = s.sock(st); st, q, b, l = s.endpoint(st, 'new'); st, _ = s.one(st, 'set_' + d, p, q); s.ends(st, p, f'{d}(endpoint)', **{d: (b, l)}); s.expect(st, f'{d}(endpoint)', k, [])
            st, x = s.one(st, d, p); st, y = s.one(st, d + '_mut', p); s.ob(st, f'{d}(): one endpoint', x == y)
        for f, d in (('bind', 'src'), ('connect', 'dst')):
            st = State(); st, p, fd, k = s.sock(st); st, q, b, l = s.endpoint(st, 'new')
            for st, r, th in s.run(st, f, p, q):
                s.ob(st, f'{f}: does not throw', th is None); s.expect(st, f, k, [(f, fd, b, l)])
                g = z3.BitVec(f'{f}!{s.n}', 32) == 0; o = s.v[d]
                s.ob(st, f'{f}: true exactly when the operating system did it', eqv(r, ite(g, 1, 0, 1), 1)); st, x = s.one(st, d, p)
                s.ob(st, f'{f}: {d}() is the endpoint given when the operating system did it, else unchanged', s.eqview(s.view(st, x), [ite(g, u, v, 8) for u, v in zip(b, o[0])], ite(g, l, o[1], 32)))
                st, x = s.one(st, 'dst' if d == 'src' else 'src', p); s.ob(st, f'{f}: the other endpoint is unchanged', s.eqview(s.view(st, x), *s.v['dst' if d == 'src' else 'src']), 'frame')
                s.ob(st, f'{f}: the endpoint given is unchanged', s.eqview(s.view(st, q), b, l), 'frame')
        W = sym(32, 'what'); st = State(); st, p, fd, k = s.sock(st); st, _ = s.one(st, 'shutdown', p, W); s.expect(st, 'shutdown', k, [('shutdown', fd, W)]); s.ends(st, p, 'shutdown')
        Tm = sym(64, 'timeout'); st = State(); st, p, fd, k = s.sock(st); st, _ = s.one(st, 'timeout', p, Tm)
        s.expect(st, 'timeout', k, [('setsockopt', fd, 1, 20, [extract(Tm, 64, 8 * i, 8) for i in range(8)] + [0] * 8, 16)])
        # closing
        st = State(); st, p, fd, k = s.sock(st); st, _ = s.one(st, 'dtor', p); s.expect(st, 'destructor', k, [('close', fd)])
        st = State(); st, p, fd, k = s.sock(st); st, _ = s.one(st, 'close', p); s.expect(st, 'close', k, [('close', fd)]); st, r = s.one(st, 'is_open', p); s.ob(st, 'close: the socket is no longer open', eqv(r, 0, 1))
        st, _ = s.one(st, 'close', p); st, _ = s.one(st, 'dtor', p); s.expect(st, 'close, close, destructor', k, [('close', fd)])
        n = sym(64, 'len'); z = to_z3(n, 64)
        def data(st):
            st.assume(z3.ULE(z, 1 << 40)); o = e.new_obj(st, 'heap', n, 'data'); st.mem[o].any = True; return Ptr(o, 0)
        if s.K == 'udp':
            st = State(); st, p, fd, k = s.sock(st); st, q, b, l = s.endpoint(st, 'to'); d = data(st); st.mem[d.obj].ro = True
            st, r = s.one(st, 'send_to', p, d, n, q); s.expect(st, 'send_to', k, [('sendto', fd, d, (n, 64), 0, b, l)]); s.ob(st, 'send_to: reports the result', eqv(r, BV(64, ((64, z3.BitVec(f'sendto!{s.n}', 64), 0),)), 64)); s.ends(st, p, 'send_to')
            st = State(); st, p, fd, k = s.sock(st); st, q, b, l = s.endpoint(st, 'from'); d = data(st); st, sa = s.one(st, 'ep_sa', q); st, sl = s.one(st, 'ep_sl', q)
            for st, r, th in s.run(st, 'receive_from', p, d, n, q):
                s.ob(st, 'receive_from: does not throw', th is None); s.expect(st, 'receive_from', k, [('recvfrom', fd, d, (n, 64), 0, sa, sl)])
                f = st.aux['failed']; zz = z3.BitVec(f'recvfrom!{s.n - 0}', 64); zz = next(t for t in [z3.BitVec(f'recvfrom!{i}', 64) for i in range(s.n, 0, -1)] if any(str(t) in str(c) for c in st.pc))
                s.ob(st, 'receive_from: reports the result', eqv(r, BV(64, ((64, zz, 0),)), 64)); s.ob(st, 'receive_from: the endpoint is the peer\'s', s.eqview(s.view(st, q), *((b, l) if f else e.logs[st.aux['peer']]))); s.ends(st, p, 'receive_from')
        else:
            B = sym(32, 'backlog'); st = State(); st, p, fd, k = s.sock(st)
            for st, r, th in s.run(st, 'listen', p, B):
                s.ob(st, 'listen: does not throw', th is None); s.expect(st, 'listen', k, [('listen', fd, B)]); s.ob(st, 'listen: true exactly when the operating system did it', eqv(r, ite(z3.BitVec(f'listen!{s.n}', 32) == 0, 1, 0, 1), 1)); s.ends(st, p, 'listen')
            for again in (False, True):
                st = State(); st, p, fd, k = s.sock(st); w = 'second accept' if again else 'accept'; old = None
                if again: st = s.connected(st, p); old = s.conn; k = len(s.calls(st))
                for st, r, th in s.run(st, 'accept', p):
                    s.ob(st, f'{w}: does not throw', th is None); f = st.aux['failed']
                    s.expect(st, w + (', refused' if f else ''), k, [('accept', fd, s.sa)] + ([('close', old)] if again and not f else [])); s.ob(st, f'{w}: true exactly when a connection came', eqv(r, 1 - f, 1))
                    s.ends(st, p, w + (', refused' if f else ''), **({} if f else dict(dst=e.logs[st.aux['peer']])))
            for conn in (False, True):
                w = 'connected' if conn else 'not connected'
                for f, c in (('write', 'write'), ('read', 'read')):
                    st = State(); st, p, fd, k = s.sock(st)
                    if conn: st = s.connected(st, p); fd = s.conn; k = len(s.calls(st))
                    d = data(st); st, r = s.one(st, f, p, d, n); s.expect(st, f'{f}_some, {w}', k, [(c, fd, d, (n, 64))]); s.ob(st, f'{f}_some, {w}: reports the result', eqv(r, BV(64, ((64, z3.BitVec(f'{c}!{s.n}', 64), 0),)), 64)); s.ends(st, p, f'{f}_some, {w}')
            st = State(); st, p, fd, k = s.sock(st); st = s.connected(st, p); k = len(s.calls(st)); st1 = st.fork()
            st, _ = s.one(st, 'dtor', p); s.expect(st, 'destructor, connected', k, [('close', s.conn), ('close', fd)])
            st, _ = s.one(st1, 'close', p); st, _ = s.one(st, 'close', p); st, _ = s.one(st, 'dtor', p); s.expect(st, 'close, close, destructor, connected', k, [('close', s.conn), ('close', fd)])
        if s.D == 4:
            st = State(); st, p, fd, k = s.sock(st); d = data(st); st.mem[d.obj].ro = True; b, l = s.v['dst']
            for st, r, th in s.run(st, 'send_packet', p, d, n):
                s.ob(st, 'send_packet: does not throw', th is None)
                s.expect(st, 'send_packet', k, [('sendto', fd, d, (n, 64), 0, b, l)] if s.K == 'udp' else [('write', fd, d, (n, 64))]); s.ends(st, p, 'send_packet')

def task(mod, K, D, part):
    s = SC(mod, K, D); getattr(s, part)(); return [s.e]

# ---------------------------------------------------------------- replay on the real code: operating system calls replaced by recording stand-ins
BATTERY = r'''
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <new>
#include <iostream>
#include <span>
#include <arpa/inet.h>
#include <sys/socket.h>
static std::vector<std::string> L; static bool refuse; static int nextfd = 7; static ssize_t result = 5;
static void log_(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); L.push_back(b); }
static std::string hex(const void* p, size_t n) { std::string r; char b[3]; if (n > 1500) { uint64_t h = 1469598103934665603u; for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211u; return std::to_string(n) + " bytes, digest " + std::to_string(h); }
    for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]); r += b; } return r; }
static std::string peer4 = "\x02\x00\x12\x34\x0a\x09\x08\x07\0\0\0\0\0\0\0\0";
static void fill(sockaddr* a, socklen_t* l) { for (socklen_t i = 0; i < *l; ++i) ((uint8_t*)a)[i] = (uint8_t)(0xa0 + i); *l -= 1; }
extern "C" {
int socket(int d, int t, int p) { log_("socket %d %d %d", d, t, p); return refuse ? -1 : nextfd++; }
int bind(int f, const sockaddr* a, socklen_t n) { log_("bind %d %s", f, hex(a, n).c_str()); return refuse ? -1 : 0; }
int connect(int f, const sockaddr* a, socklen_t n) { log_("connect %d %s", f, hex(a, n).c_str()); return refuse ? -1 : 0; }
int listen(int f, int b) { log_("listen %d %d", f, b); return refuse ? -1 : 0; }
int accept(int f, sockaddr* a, socklen_t* n) { log_("accept %d %u", f, *n); if (refuse) return -1; fill(a, n); return nextfd++; }
int shutdown(int f, int h) { log_("shutdown %d %d", f, h); return 0; }
int setsockopt(int f, int l, int o, const void* v, socklen_t n) { log_("setsockopt %d %d %d %s", f, l, o, hex(v, n).c_str()); return 0; }
ssize_t sendto(int f, const void* d, size_t n, int g, const sockaddr* a, socklen_t m) { log_("sendto %d %s %d %s", f, hex(d, n).c_str(), g, hex(a, m).c_str()); return result; }
ssize_t recvfrom(int f, void* d, size_t n, int g, sockaddr* a, socklen_t* m) { log_("recvfrom %d %p %zu %d", f, d, n, g); if (result < 0) return result; fill(a, m); return result; }
ssize_t send(int f, const void* d, size_t n, int g) { log_(g ? "send %d %s" : "write %d %s", f, hex(d, n).c_str()); return result; }
ssize_t recv(int f, void* d, size_t n, int g) { log_(g ? "recv %d %p %zu" : "read %d %p %zu", f, d, n); return result; }
ssize_t write(int f, const void* d, size_t n) { log_("write %d %s", f, hex(d, n).c_str()); return result; }
ssize_t read(int f, void* d, size_t n) { log_("read %d %p %zu", f, d, n); return result; }
int close(int f) { log_("close %d", f); return 0; }
}
#include <vrtgen/socket.hpp>
#include <vrtgen/utility.hpp>
using namespace vrtgen;
static int bad;
static void ck(bool c, const char* w) { if (!c) { ++bad; fprintf(stderr, "WRONG: %s\n", w); for (auto& s : L) fprintf(stderr, "   call: %s\n", s.c_str()); } }
static void calls(const char* w, std::vector<std::string> e) { bool c = L == e; ck(c, w); if (!c) for (auto& s : e) fprintf(stderr, "   expected: %s\n", s.c_str()); L.clear(); }
static std::string S(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
struct Pk { std::vector<uint8_t> v; std::span<const uint8_t> data() { return v; } };
template <class E> std::string view(const E& e) { return hex(&e.sockaddr(), sizeof(e.sockaddr())) + "/" + std::to_string(e.socklen()); }
template <class S_, int AF, int TYPE> void run(const char* nm)
{
    using E = typename S_::endpoint_type; constexpr bool six = AF == AF_INET6; constexpr size_t N = six ? 28 : 16, AO = six ? 8 : 4, AN = six ? 16 : 4;
    fprintf(stderr, "%s\n", nm); std::vector<std::string> texts = six ? std::vector<std::string>{"::1", "fe80::1:2", "2001:db8:1:2:3:4:5:6", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"} : std::vector<std::string>{"127.0.0.1", "10.2.3.4", "255.255.255.255", "0.0.0.0"};
    auto plain = [](uint16_t p, const std::string& t) { uint8_t b[N] = {AF & 255, 0, (uint8_t)(p >> 8), (uint8_t)p}; if (!t.empty()) inet_pton(AF, t.c_str(), b + AO); return hex(b, N) + "/" + std::to_string(N); };
    L.clear();
    for (uint16_t p : {0, 1, 80, 0x1234, 0xfedc, 65535}) {
        E a; ck(view(a) == plain(0, ""), "default endpoint"); E b(p); ck(view(b) == plain(p, ""), "endpoint(port)"); ck(b.port() == p, "port()"); E z("", p); ck(view(z) == plain(p, ""), "endpoint(\"\", port)");
        for (auto& t : texts) {
            E c(t, p); ck(view(c) == plain(p, t), "endpoint(address, port)"); ck(c.port() == p, "port()"); ck(c.to_string() == t + ":" + std::to_string(p), "to_string()");
            ck((const void*)&c.address() == (const char*)&c.sockaddr() + AO, "address()"); E d(9); memset(&d.sockaddr(), 0x5a, N); d.socklen() = 3; E k = d; ck(view(k) == view(d), "copy"); k = c; ck(view(k) == view(c), "assignment");
            d.port(p); uint8_t x[N]; memset(x, 0x5a, N); x[2] = p >> 8; x[3] = p; ck(view(d) == hex(x, N) + "/3", "port(n)"); d.address(t); inet_pton(AF, t.c_str(), x + AO); ck(view(d) == hex(x, N) + "/3", "address(text)");
            d.address(""); memset(x + AO, 0, AN); ck(view(d) == hex(x, N) + "/3", "address(\"\")"); d.address(t); d.address("nonsense"); ck(view(d) == hex(x, N) + "/3", "address(nonsense)");
        }
        bool th = false; try { E e("nonsense", p); } catch (const std::runtime_error&) { th = true; } ck(th, "endpoint(nonsense) throws");
    }
    calls("endpoints make no calls", {});
    { refuse = true; bool th = false; try { S_ s; } catch (const std::runtime_error&) { th = true; } refuse = false; ck(th, "constructor throws"); calls("constructor, refused", {S("socket %d %d 0", AF, TYPE)}); }
    auto tv = [](uint64_t t) { uint8_t b[16] = {}; memcpy(b, &t, 8); return hex(b, 16); };
    nextfd = 7; S_* s = new S_; calls("constructor", {S("socket %d %d 0", AF, TYPE), S("setsockopt 7 1 20 %s", tv(3).c_str())}); ck(s->is_open() && s->native_handle() == 7, "open"); ck(view(s->src()) == plain(0, "") && view(s->dst()) == plain(0, ""), "new ends");
    E a(texts[0], 0x1234), b(texts[1], 0xfedc), c(texts[2], 77), d(texts[2], 78); s->src(a); s->dst(b); ck(view(s->src()) == view(a) && view(s->dst()) == view(b), "src, dst");
    const S_& cs = *s; ck(&cs.src() == &s->src() && &cs.dst() == &s->dst(), "const ends"); s->src(c); s->src(a); s->dst(c); ck(view(s->src()) == view(a), "dst leaves src"); s->dst(b);
    auto sa = [](const E& e) { return hex(&e.sockaddr(), e.socklen()); };
    ck(s->bind(c), "bind"); calls("bind", {"bind 7 " + sa(c)}); ck(view(s->src()) == view(c) && view(s->dst()) == view(b), "bind: ends");
    refuse = true; ck(!s->bind(d), "bind refused"); calls("bind", {"bind 7 " + sa(d)}); ck(view(s->src()) == view(c), "bind refused: ends"); ck(!s->connect(d), "connect refused"); calls("connect", {"connect 7 " + sa(d)}); ck(view(s->dst()) == view(b), "connect refused: ends"); refuse = false;
    ck(s->connect(d), "connect"); calls("connect", {"connect 7 " + sa(d)}); ck(view(s->src()) == view(c) && view(s->dst()) == view(d), "connect: ends");
    for (int w : {0, 1, 2}) { s->shutdown(w); calls("shutdown", {S("shutdown 7 %d", w)}); } for (uint64_t t : {0, 1, 90, 100000}) { s->timeout(t); calls("timeout", {S("setsockopt 7 1 20 %s", tv(t).c_str())}); }
    static uint8_t D[1 << 20]; for (size_t i = 0; i < sizeof D; ++i) D[i] = (uint8_t)(i * 7 + i / 256);
    int conn = -1;
    for (size_t n : {0, 1, 2, 5, 100, 1023, 1500, 4097, 32768, 65507, 65535, 65536, 70000, 1 << 20}) for (ssize_t r : {-1, 0, 5}) { result = r; std::string h = hex(D, n);
        if constexpr (TYPE == SOCK_DGRAM) {
            ck(s->send_to(D, n, b) == r, "send_to"); calls("send_to", {"sendto 7 " + h + " 0 " + sa(b)}); E f(3); ck(s->receive_from(D, n, f) == r, "receive_from"); calls("receive_from", {S("recvfrom 7 %p %zu 0", D, n)});
            E g(3); if (r >= 0) fill((sockaddr*)&g.sockaddr(), &g.socklen()); ck(view(f) == view(g), "receive_from: peer"); if constexpr (!six) { Pk p{{D, D + n}}; send_packet(*s, p); calls("send_packet", {"sendto 7 " + h + " 0 " + sa(s->dst())}); }
        } else {
            ck(s->write_some(D, n) == r, "write_some"); calls("write_some", {"write 7 " + h}); ck(s->read_some(D, n) == r, "read_some"); calls("read_some", {S("read 7 %p %zu", D, n)}); if constexpr (!six) { Pk p{{D, D + n}}; send_packet(*s, p); calls("send_packet", {"write 7 " + h}); }
        } ck(view(s->src()) == view(c) && view(s->dst()) == view(d), "transfers leave the ends"); }
    if constexpr (TYPE == SOCK_STREAM) {
        ck(s->listen(5), "listen"); calls("listen", {"listen 7 5"}); refuse = true; ck(!s->listen(6), "listen refused"); calls("listen", {"listen 7 6"}); ck(!s->accept(), "accept refused"); calls("accept", {S("accept 7 %zu", N)}); refuse = false; ck(view(s->dst()) == view(d), "accept refused: ends");
        ck(s->accept(), "accept"); calls("accept", {S("accept 7 %zu", N)}); E g(0); fill((sockaddr*)&g.sockaddr(), &g.socklen()); ck(view(s->dst()) == view(g), "accept: peer"); conn = nextfd - 1;
        ck(s->write_some(D, 4) == 5, "write_some"); calls("write_some, connected", {S("write %d ", conn) + hex(D, 4)}); s->read_some(D, 4); calls("read_some, connected", {S("read %d %p 4", conn, D)});
        refuse = true; s->accept(); refuse = false; calls("accept refused", {S("accept 7 %zu", N)}); s->write_some(D, 4); calls("write_some, connected", {S("write %d ", conn) + hex(D, 4)});
        ck(s->accept(), "second accept"); calls("second accept", {S("accept 7 %zu", N), S("close %d", conn)}); conn = nextfd - 1; s->write_some(D, 4); calls("write_some, connected", {S("write %d ", conn) + hex(D, 4)});
    }
    std::vector<std::string> cl; if (conn >= 0) cl.push_back(S("close %d", conn)); cl.push_back("close 7");
    s->close(); calls("close", cl); ck(!s->is_open(), "closed"); s->close(); delete s; calls("close, destructor", {});
    nextfd = 7; s = new S_; L.clear(); delete s; calls("destructor", {"close 7"});
    if constexpr (TYPE == SOCK_STREAM) { nextfd = 7; s = new S_; s->accept(); L.clear(); delete s; calls("destructor, connected", {"close 8", "close 7"}); }
}
int main()
{
    run<socket::udp::v4, AF_INET, SOCK_DGRAM>("udp::v4"); run<socket::udp::v6, AF_INET6, SOCK_DGRAM>("udp::v6"); run<socket::tcp::v4, AF_INET, SOCK_STREAM>("tcp::v4"); run<socket::tcp::v6, AF_INET6, SOCK_STREAM>("tcp::v6");
    return bad ? 3 : 0;
}
'''
def replay(o, n):
    try: rc, out, err = build.run_cpp(BATTERY, f'sock_{n}', sanitize=False)
    except build.BuildError as ex: return BATTERY, None, str(ex)
    return BATTERY, rc != 0, f'exit {rc}\n{err[max(0, err.find("WRONG")):][:2500]}'
