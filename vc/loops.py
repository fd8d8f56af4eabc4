"""Inductive rule for loops whose trip count is symbolic.

For a natural loop entered in state S0 the rule looks for a summary of the form
   iteration k:  every loop-carried scalar is  v0 + k*d,  and iteration k writes, in each object written, bytes of the
                 window [o0 + k*s, o0 + (k+1)*s) only, with contents E(k)
by watching two trial iterations (which prove nothing), then PROVES it by induction on k:
   base   the summary at k=0 is S0 itself;
   step   from the summary at an arbitrary k < N the header decides to continue, the body ends in the summary at k+1,
          every obligation of the body holds, everything outside the windows and the scalars is unchanged;
   exit   from the summary at k = N the header decides to leave.
The state after the loop is the summary at N: the windows hold, for every k < N, the bytes E(k).
Stack cells which an iteration overwrites before reading are unreadable (POISON) in the summary."""
import z3
from .dom import *
from .engine import Unsupported, Infeasible, NeedSplit, Unmergeable, Seg, State

class NoSummary(Exception): pass
class Poison:
    def __repr__(s): return 'loop scratch'
POISON = Poison()

def region(e, f, body, head, st, env, frame):
    """run the loop body once: (states back at head with phis evaluated, exits (block, state, env, from))"""
    idx = e.order_index(f); envt = e.envtypes(f)
    pend = {head: [(st, env)]}; back = []; exits = []; visits = 0
    def phis(b, s, en, frm):
        B = f.blocks[b]
        if not B.phis: return en
        vals = [(i.id, e.opv(i.x[frm], en, s)) for i in B.phis]
        en = dict(en)
        for k, v in vals: en[k] = v
        return en
    def add(lst, s, en):
        for q in range(len(lst)):
            e.act_base = 1 << 62; r = e.merge(lst[q][0], lst[q][1], s, en, envt)
            if r is not None: lst[q] = r; return
        lst.append((s, en))
    while pend:
        b = min(pend, key=lambda x: idx[x]); lst = pend.pop(b); visits += 1
        if visits > 2000: raise NoSummary('inner loop')
        for s, en in lst:
            outs = []
            r = e.exec_block(s, f, f.blocks[b], en, frame, outs)
            if outs: raise NoSummary('the loop body returns or throws')
            for nb, s2, e2 in r:
                if nb == head: add(back, s2, phis(nb, s2, e2, b))
                elif nb not in body: exits.append((nb, s2, e2, b))
                else: add(pend.setdefault(nb, []), s2, phis(nb, s2, e2, b))
    return back, exits

def delta(a, b, w=64):
    """constant d with b == a + d (as values of the same kind), or None"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj: return None
        d = lin_add(b.off, a.off, 64, -1)
        return ('p', sgn(d, 64)) if isinstance(d, int) else None
    if isinstance(a, (int, BV, Lin)) and isinstance(b, (int, BV, Lin)):
        w = a.w if not isinstance(a, int) else b.w if not isinstance(b, int) else w
        d = lin_add(b, a, w, -1)
        return ('i', sgn(d, w)) if isinstance(d, int) else None
    return None

def advance(v, d, k, w=64):
    if d[1] == 0: return v
    if d[0] == 'p': return Ptr(v.obj, lin_add(v.off, lin_mul(k, d[1], 64), 64))
    w = v.w if not isinstance(v, int) else w
    if w not in (32, 64): raise NoSummary('loop counter of unusual width')
    if w == 32: k = extract(k, 64, 0, 32)
    return lin_add(v, lin_mul(k, d[1], w), w)

def whole(o, key):
    """(start, value, size) of the value an entry belongs to"""
    v, i, n = o.ent[key]
    return key - i, v, n

def same_entries(a, b):
    if a is b: return True
    if a.freed != b.freed or not same(a.size, b.size) or a.ro != b.ro: return False
    if (a.segs is None) != (b.segs is None): return False
    if a.segs is not None:
        if len(a.segs) != len(b.segs): return False
        for x, y in zip(a.segs, b.segs):
            if x is y: continue
            if x.kind != y.kind: return False
            if x.kind == 'b':
                if x.guard is not y.guard or len(x.ent) != len(y.ent) or not all(p is q or (p[1:] == q[1:] and same(p[0], q[0])) for p, q in zip(x.ent, y.ent)): return False
            elif x.key != y.key or not same(x.n, y.n) or not same(x.base, y.base): return False
        return True
    if set(a.ent) != set(b.ent): return False
    return all(a.ent[k] is b.ent[k] or (a.ent[k][1:] == b.ent[k][1:] and same(a.ent[k][0], b.ent[k][0])) for k in a.ent)

def changed_cells(a, b):
    """keys of flat object whose entries differ"""
    return [k for k in set(a.ent) | set(b.ent) if not (k in a.ent and k in b.ent and (a.ent[k] is b.ent[k] or (a.ent[k][1:] == b.ent[k][1:] and same(a.ent[k][0], b.ent[k][0]))))]

def names(t, acc):
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            todo += x.children()

class Summary:
    def __init__(s): s.phis = {}; s.cells = {}; s.poison = {}; s.wins = {}; s.grows = set()

def trial(e, f, head, body, s0, e0, frame):
    """propose a summary (no soundness rests on it)"""
    nobl = len(e.obl)
    try:
        S = []; cur = (s0.fork(), dict(e0)); logs = []
        st0 = s0.fork(); S.append((st0, e0))
        for _ in range(2):
            e.wlog = []
            back, _x = region(e, f, body, head, cur[0].fork(), cur[1], frame)
            if len(back) != 1: raise NoSummary('no single path through the loop body')
            logs.append(e.wlog); e.wlog = None
            cur = back[0]; S.append((cur[0].fork(), cur[1]))
    finally:
        e.wlog = None; del e.obl[nobl:]
    (a0, v0), (a1, v1), (a2, v2) = S
    sm = Summary()
    for p in f.blocks[head].phis:
        pw = p.ty.bits if p.ty.k == 'int' else 64
        d1, d2 = delta(v0[p.id], v1[p.id], pw), delta(v1[p.id], v2[p.id], pw)
        if d1 is None or d1 != d2: raise NoSummary('loop-carried value without constant step')
        sm.phis[p.id] = (d1, pw)
    for oid, o0 in a0.mem.items():
        o1 = a1.mem.get(oid); o2 = a2.mem.get(oid)
        if o1 is None or o2 is None: raise NoSummary('object vanishes')
        if same_entries(o0, o1) and same_entries(o1, o2): continue
        if o0.segs is not None or o1.segs is not None:
            w1 = [w for w in logs[0] if w[0] == oid]; w2 = [w for w in logs[1] if w[0] == oid]
            if not w1 or not w2: raise NoSummary('object changes outside writes')
            def span(ws):
                b = ws[0][1]; lo = hi = None
                for _, off, n in ws:
                    d = lin_add(off, b, 64, -1)
                    if not isinstance(d, int) or not isinstance(n, int): raise NoSummary('write of symbolic extent')
                    d = sgn(d, 64); lo = d if lo is None else min(lo, d); hi = d + n if hi is None else max(hi, d + n)
                return lin_add(b, lo % (1 << 64), 64), hi - lo
            (b1, n1), (b2, n2) = span(w1), span(w2)
            st = lin_add(b2, b1, 64, -1)
            if not isinstance(st, int) or n1 != n2 or not 0 < n1 <= sgn(st, 64): raise NoSummary('writes are not one window per iteration')
            z0, z1, z2 = o0.size, o1.size, o2.size
            if same(z0, z1) and same(z1, z2): sm.wins[oid] = (b1, st); continue
            g1, g2 = lin_add(z1, z0, 64, -1), lin_add(z2, z1, 64, -1)
            if not (same(g1, st) and same(g2, st) and same(b1, z0)): raise NoSummary('object grows unlike its writes')
            sm.wins[oid] = (b1, st); sm.grows.add(oid); continue
        for key in set(changed_cells(o0, o1)) | set(changed_cells(o1, o2)):
            if key not in o2.ent: raise NoSummary('cell')
            s, v, n = whole(o2, key)
            if (oid, s) in sm.cells or (oid, key) in sm.poison: continue
            ok = False
            if all(s + j in o.ent and o.ent[s + j][1:] == (j, n) and o.ent[s + j][0] is o.ent[s][0] for o in (o0, o1, o2) for j in range(n)):
                x0, x1, x2 = (o.ent[s][0] for o in (o0, o1, o2))
                if n in (4, 8) or same(x0, x1):
                    d1, d2 = delta(x0, x1, 8 * n), delta(x1, x2, 8 * n)
                    ok = d1 is not None and d1 == d2
            if ok: sm.cells[(oid, s)] = (d1, n)
            elif o0.kind == 'stack': sm.poison[(oid, key)] = 1
            else: raise NoSummary(f'cell of {o0.name} changes without constant step')
    for oid in a2.mem:
        if oid not in a0.mem and a2.mem[oid].kind not in ('global', 'stack'): raise NoSummary('allocation in the loop body')
    return sm

def place(e, s0, e0, sm, k, contents):
    """state and environment of the summary at k; contents(oid) -> Seg 'a' of length s*k or None to leave memory alone"""
    st = s0.fork(); env = dict(e0)
    for p, (d, pw) in sm.phis.items(): env[p] = advance(e0[p], d, k, pw)
    for (oid, s), (d, n) in sm.cells.items():
        o = st.w(oid); v = advance(o.ent[s][0], d, k, 8 * n)
        for j in range(n): o.ent[s + j] = (v, j, n)
    for (oid, key) in sm.poison: st.w(oid).ent[key] = (POISON, 0, 1)
    return st, env

def fill(e, st, sm, k, contents):
    for oid, (off, stride) in sm.wins.items():
        n = lin_mul(k, stride, 64)
        o = st.w(oid); segs = e.normalize_segs(st, o.segs)
        if oid in sm.grows:
            o.segs = e.normalize_segs(st, segs + [contents(oid, stride, n)]); o.size = lin_add(o.size, n, 64); continue
        l, r = e.split_at(st, segs, off)
        _, r = e.split_at(st, e.normalize_segs(st, r), n)
        o.segs = e.normalize_segs(st, l + [contents(oid, stride, n)] + r)

def find_count(e, f, head, body, s0, e0, sm, k, frame):
    """N from the comparison the header makes in iteration k"""
    nobl = len(e.obl)
    st, env = place(e, s0, e0, sm, k, None)
    st.w  # noqa
    e.cmplog = []
    try: e.exec_block(st, f, f.blocks[head], env, frame, [])
    finally: log = e.cmplog; e.cmplog = None; del e.obl[nobl:]
    kz = to_z3(k, 64); k32 = extract(k, 64, 0, 32); kid = {64: kz.get_id(), 32: to_z3(k32, 32).get_id()}
    for pr, a, b in reversed(log):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj: continue
            a, b = a.off, b.off
        if not (isinstance(a, (int, BV, Lin)) and isinstance(b, (int, BV, Lin))): continue
        ws = {x.w for x in (a, b) if not isinstance(x, int)}
        if len(ws) != 1 or not ws <= {32, 64}: continue
        w = ws.pop()
        d = to_lin(lin_add(b, a, w, -1), w)      # b - a = c0 - delta*k
        ki = next((i for i, (c, t) in d.at.items() if i == kid[w] or z3.eq(t, to_z3(k if w == 64 else k32, w))), None)
        if ki is None: continue
        co = sgn(d.at[ki][0], w)
        rest = norm_lin(Lin(w, d.c, {i: x for i, x in d.at.items() if i != ki}))
        if co > 0: rest = lin_mul(rest, -1, w); co = -co
        if w == 32: rest = e.widened(zext(rest, 32, 64))
        if co == -1: return rest
        if isinstance(rest, int): return rest // -co if rest % -co == 0 else None
        r = e.lin_div(rest, -co, 64) if isinstance(rest, Lin) else None
        if r is not None: return r
    return None

_ctr = [0]
def summarize(e, f, head, body, s0, e0, frame):
    """exits [(block, state, env, from)] after the loop, or None when the loop is to be unrolled"""
    try:
        sm = trial(e, f, head, body, s0, e0, frame)
        _ctr[0] += 1
        kz = z3.BitVec(f'k!{next(e.fresh_n)}', 64); k = BV(64, ((64, kz, 0),))
        e.range_hi[kz.get_id()] = (e.loop_max, kz); e.keep.append(kz)
        N = find_count(e, f, head, body, s0, e0, sm, k, frame)
    except (NoSummary, NeedSplit, Infeasible, Unmergeable): return None
    if N is None or isinstance(N, int): return None
    zN = to_z3(N, 64); e.below[kz.get_id()] = N
    e.oblige(s0, 'loop count within the bound used for linear arithmetic', z3.ULE(zN, e.loop_max), 'invariant')
    mark = next(e.fresh_n)
    rnames = set()
    def hav(oid, stride, n):
        nm = f'done!{next(e.fresh_n)}'; rnames.add(nm)
        return Seg('a', n=n, fn=z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(8)), key=(nm,))
    # step
    st, env = place(e, s0, e0, sm, k, None)
    st.assume(z3.ULT(kz, zN))
    fill(e, st, sm, k, hav)
    before = st.fork()
    e.wlog = []
    name = f.demangled[:80]
    try:
        try: back, exits = region(e, f, body, head, st, env, frame)
        finally: log = e.wlog; e.wlog = None
        for nb, s, en, frm in exits: e.oblige(s, f'loop in {name}: continues while elements remain', False, 'invariant')
        if len(back) != 1: raise NoSummary('several paths through the loop body')
        s2, e2 = back[0]
    except NoSummary as x: raise Unsupported(f'loop in {name}: {x}')
    k1 = lin_add(k, 1, 64)
    def eq(a, b, w=64):
        if same(a, b): return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and eqv(a.off, b.off, 64)
        if isinstance(a, (int, BV, Lin)) and isinstance(b, (int, BV, Lin)): return eqv(a, b, w)
        return False
    for p, (d, pw) in sm.phis.items(): e.oblige(s2, f'loop in {name}: loop variable advances by its step', eq(e2[p], advance(e0[p], d, k1, pw), pw), 'invariant')
    for (oid, s), (d, n) in sm.cells.items():
        o = s2.mem[oid]
        if s not in o.ent or o.ent[s][1:] != (0, n) or not all(o.ent.get(s + j, (0,))[0] is o.ent[s][0] for j in range(n)): raise Unsupported('loop cell')
        e.oblige(s2, f'loop in {name}: loop variable advances by its step', eq(o.ent[s][0], advance(s0.mem[oid].ent[s][0], d, k1, 8 * n), 8 * n), 'invariant')
    known = set(sm.wins)
    for oid, o in before.mem.items():
        o2 = s2.mem.get(oid)
        if o2 is None: raise Unsupported('object vanishes in loop')
        if oid in known:
            want = lin_add(s0.mem[oid].size, lin_mul(k1, sm.wins[oid][1], 64), 64) if oid in sm.grows else s0.mem[oid].size
            if o2.freed or o2.segs is None: raise Unsupported('object freed in loop')
            e.oblige(s2, f'loop in {name}: object grows by its step', eqv(o2.size, want, 64) if not same(o2.size, want) else True, 'invariant')
            continue
        if o.segs is not None or o2.segs is not None:
            if not same_entries(o, o2): raise Unsupported(f'loop in {name}: write outside the summary')
            continue
        if o.freed != o2.freed: raise Unsupported('object freed in loop')
        for key in changed_cells(o, o2):
            if (oid, key) in sm.poison: continue
            if any((oid, key - j) in sm.cells and j < sm.cells[(oid, key - j)][1] for j in range(16)): continue
            raise Unsupported(f'loop in {name}: write outside the summary ({o.name})')
    for oid in s2.mem:
        if oid not in before.mem and s2.mem[oid].kind not in ('global', 'stack'): raise Unsupported('allocation in the loop body')
    if s2.maps != before.maps or any(not same(v, s2.aux.get(q)) for q, v in before.aux.items()) or set(s2.aux) != set(before.aux): raise Unsupported('loop changes ghost state')
    out = {}
    for oid, (off, stride) in sm.wins.items():
        lo = lin_add(off, lin_mul(k, stride, 64), 64)
        for w in log:
            if w[0] != oid: continue
            d = lin_add(w[1], lo, 64, -1)
            if not isinstance(d, int) or not isinstance(w[2], int) or not (0 <= sgn(d, 64) and sgn(d, 64) + w[2] <= stride): raise Unsupported(f'loop in {name}: write outside the window of the iteration')
        es = e.seg_read(s2, oid, lo, stride)
        zs = []
        for x in es:
            v = e.entries_to_val([x], type('I', (), dict(k='int', bits=8))) if x[0] is not UNDEF else UNDEF
            if v is UNDEF: zs.append(None); continue
            z = to_z3(v, 8); acc = set(); names(z, acc)
            for q in acc:
                if q in rnames: raise Unsupported('iteration reads what an earlier iteration wrote')
                if '!' in q and q != kz.decl().name():
                    tail = q.rsplit('!', 1)[1]
                    if tail.isdigit() and int(tail) > mark and not q.startswith(('heap!', 'obj')): raise Unsupported(f'iteration-dependent unknown {q}')
            zs.append(z)
        out[oid] = zs
    # exit
    def res(oid, stride, n):
        zs = out[oid]; nm = f'pad!{next(e.fresh_n)}'; pad = z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(8))
        def byte(q, j, i): return pad(i) if zs[j] is None else z3.simplify(z3.substitute(zs[j], (kz, q)))
        def fn(i):
            if isinstance(i, z3.BitVecRef): i0 = from_z3(i)
            else: i0 = i
            z = to_z3(i0, 64)
            if isinstance(i0, int): return byte(z3.BitVecVal(i0 // stride, 64), i0 % stride, z)
            L = to_lin(i0, 64)
            if stride == 1: return byte(z, 0, z)
            if all(co % stride == 0 for co, _ in L.at.values()) and e.lin_small(L):
                q = norm_lin(Lin(64, L.c // stride, {a: (co // stride, t) for a, (co, t) in L.at.items()}))
                return byte(to_z3(q, 64), L.c % stride, z)
            q = z3.UDiv(z, z3.BitVecVal(stride, 64)); r = z3.URem(z, z3.BitVecVal(stride, 64))
            t = byte(q, stride - 1, z)
            for j in range(stride - 1): t = z3.If(r == j, byte(q, j, z), t)
            return t
        return Seg('a', n=n, fn=fn, key=('loop', nm))
    st, env = place(e, s0, e0, sm, N, None)
    fill(e, st, sm, N, res)
    nobl = len(e.obl)
    back, exits = region(e, f, body, head, st, env, frame)
    for s, en in back: e.oblige(s, f'loop in {name}: ends after the last element', False, 'invariant')
    if back or not exits: raise Unsupported(f'loop in {name}: trip count not established')
    return exits
