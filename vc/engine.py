"""Forward VC generation over LLVM IR (see ir.py): all paths of a function, byte-level memory,
bit-precise integers; calls go to contracts/assumed dependency contracts when registered, otherwise
into the callee's own body."""
import z3, itertools, re, time
from .ir import Module
from .dom import *

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class NeedSplit(Unsupported):
    """the operation is decided only after a case split on `c` (raised before anything is changed)"""
    def __init__(s, c): super().__init__('case split'); s.c = c

RNA = z3.RNA(); RNE = z3.RNE(); RTZ = z3.RTZ()
F64 = z3.Float64(); F32 = z3.Float32(); F80 = z3.FPSort(15, 64)
def fpsort(ty): return {'double': F64, 'float': F32, 'x86_fp80': F80}[ty.k]

class Seg:
    """A run of bytes in a variable-length object.
    kind 'b': entries list (concrete length), present iff guard (None: always)
    kind 'a': length Lin/int `n`, content function fn(i: 64-bit z3 term) -> 8-bit z3 term (opaque identity `key`), index base `base`"""
    __slots__ = ('kind', 'guard', 'ent', 'n', 'fn', 'key', 'base')
    def __init__(s, kind, guard=None, ent=None, n=None, fn=None, key=None, base=0):
        s.kind = kind; s.guard = guard; s.ent = ent; s.n = n; s.fn = fn; s.key = key; s.base = base
    def at(s, i):
        i = lin_add(s.base, i, 64)
        return s.fn(i if s.key and s.key[0] == 'loop' else z3.simplify(to_z3(i, 64)))
    def length(s):
        if s.kind == 'b':
            k = len(s.ent)
            if s.guard is None: return k
            return ite(s.guard, k, 0, 64)
        return s.n
    def __repr__(s):
        if s.kind == 'b': return f'[{len(s.ent)}B{"?"+str(s.guard)[:40] if s.guard is not None else ""}]'
        return f'[arr {s.key}+{s.base} n={s.n}]'

class Obj:
    __slots__ = ('kind', 'size', 'ent', 'segs', 'name', 'owner', 'freed', 'ro', 'default', 'frame', 'any')
    def __init__(s, kind, size, name=''):
        s.kind = kind; s.size = size; s.ent = {}; s.segs = None; s.name = name; s.owner = None
        s.freed = False; s.ro = False; s.default = None; s.frame = None; s.any = False
    def copy(s):
        o = Obj(s.kind, s.size, s.name); o.ent = dict(s.ent); o.segs = list(s.segs) if s.segs is not None else None
        o.freed = s.freed; o.ro = s.ro; o.default = s.default; o.frame = s.frame; o.any = s.any
        return o

_tok = itertools.count()
class State:
    __slots__ = ('mem', 'pc', 'known', 'tok', 'maps', 'gl', 'aux')
    def __init__(s):
        s.mem = {}; s.pc = []; s.known = {}; s.tok = next(_tok); s.maps = {}; s.gl = {}; s.aux = {}
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.pc = list(s.pc); n.known = dict(s.known); n.maps = {k: dict(v) for k, v in s.maps.items()}
        n.gl = dict(s.gl); n.aux = dict(s.aux)
        s.tok = next(_tok)
        return n
    def w(s, oid):
        o = s.mem[oid]
        if o.owner != s.tok:
            o = o.copy(); o.owner = s.tok; s.mem[oid] = o
        return o
    def assume(s, c):
        if is_t(c): return
        if isinstance(c, bool): c = z3.BoolVal(c)
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return
        if c.get_id() in s.known and s.known[c.get_id()][0]: return
        s.pc.append(c)
        if z3.is_not(c): s.known[c.arg(0).get_id()] = (False, c)
        s.known[c.get_id()] = (True, c)

class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'fn', 'status', 'model', 'time', 'backend', 'info')
    def __init__(s, name, pc, goal, kind, fn, info=None):
        s.name = name; s.pc = pc; s.goal = goal; s.kind = kind; s.fn = fn; s.status = None; s.model = None; s.time = 0; s.backend = None; s.info = info

class Outcome:
    __slots__ = ('st', 'ret', 'thrown')
    def __init__(s, st, ret, thrown=None): s.st = st; s.ret = ret; s.thrown = thrown

class Engine:
    MAXITER = 4000
    def __init__(self, mod, hooks=None, timeout_ms=20000):
        self.m = mod
        self.hooks = []          # (regex, fn)
        self.hookcache = {}; self.shape = {}; self.lives = {}
        self.obl = []
        self.ids = itertools.count(1); self.nomerge = False; self.havoc = False
        self.curfn = ''
        self.fresh_n = itertools.count()
        self.timeout = timeout_ms
        self.solver_time = 0.0; self.solver_calls = 0
        self.called = {}         # demangled names inlined / under contract -> how
        self.steps = 0
        self.deadline = None
        self.depth = 0
        self.assumed = set()
        self.range_hi = {}       # z3 id of BitVec atom -> (max value, term)
        self.strict_undef = False
        self.fpint = {}; self.fpint_mk = {}
        self.below = {}; self.alias = {}; self.keep = []; self.range_lo = {}; self.loop_rule = False; self.loop_max = (1 << 32) - 1; self.wlog = None; self.cmplog = None
        self.elems = {'unsigned char': 1}   # element types of the vectors modelled -> size in memory
        from . import models
        models.install(self)
        for r, f in (hooks or []): self.hook(r, f)

    # ---- utilities
    def hook(self, regex, fn, front=True):
        e = (re.compile(regex), fn)
        if front: self.hooks.insert(0, e)
        else: self.hooks.append(e)
        self.hookcache = {}

    def find_hook(self, name):
        if name in self.hookcache: return self.hookcache[name]
        d = self.m.dem.get(name, name)
        r = None
        for rx, f in self.hooks:
            if rx.search(d): r = f; break
        self.hookcache[name] = r
        return r

    def fresh(self, w, hint='v'):
        t = z3.BitVec(f'{hint}!{next(self.fresh_n)}', w)
        return BV(w, ((w, t, 0),))
    def fresh_z(self, w, hint='v'): return z3.BitVec(f'{hint}!{next(self.fresh_n)}', w)

    def new_obj(self, st, kind, size, name=''):
        i = next(self.ids); o = Obj(kind, size, name); o.owner = st.tok; st.mem[i] = o
        return i

    def check_sat(self, fs, timeout=None):
        """'sat' | 'unsat' | 'unknown', model"""
        t = time.time()
        s = z3.Solver(); s.set('timeout', int(timeout or self.timeout))
        for f in fs: s.add(f)
        r = s.check()
        self.solver_time += time.time() - t; self.solver_calls += 1
        return str(r), (s.model() if r == z3.sat else None)

    def simp_known(self, st, c):
        """replace literals known from the path condition in boolean c (shallow)"""
        if isinstance(c, bool): return c
        return self._sk(st.known, c, c.get_id(), {})

    def _sk(self, known, c, i, memo):
        k = known.get(i)
        if k is not None: return k[0]
        sh = self.shape.get(i)
        if sh is None:
            kd = c.decl().kind() if z3.is_app(c) else None
            kd = {z3.Z3_OP_NOT: 1, z3.Z3_OP_AND: 2, z3.Z3_OP_OR: 3}.get(kd, 0)
            sh = self.shape[i] = (kd, [(x.get_id(), x) for x in c.children()] if kd else (), c)
        kd = sh[0]
        if not kd: return c
        r = memo.get(i)
        if r is not None: return r
        rs = []; ch = False; r = None
        for xi, x in sh[1]:
            y = self._sk(known, x, xi, memo)
            if isinstance(y, bool):
                ch = True
                if kd > 1 and y is (kd == 3): r = y; break
            elif y is not x: ch = True
            rs.append(y)
        if r is None: r = c if not ch else Not(rs[0]) if kd == 1 else And(*rs) if kd == 2 else Or(*rs)
        memo[i] = r
        return r

    def simp_lin(self, st, v):
        if isinstance(v, Lin):
            ch = False; at = {}; c = v.c
            for k, (co, t) in v.at.items():
                if z3.is_bool(t):
                    b = self.simp_known(st, t)
                    if isinstance(b, bool):
                        ch = True
                        if b: c += co
                        continue
                at[k] = (co, t)
            if ch: return norm_lin(Lin(v.w, c, at))
        return v

    def decide(self, st, c):
        """truth of c under the path condition: True/False/None(both possible or unknown)"""
        c = self.simp_known(st, c)
        if isinstance(c, bool): return c
        if is_t(c): return True
        if is_f(c): return False
        r, _ = self.check_sat(st.pc + [c], 5000)
        if r == 'unsat': return False
        r, _ = self.check_sat(st.pc + [z3.Not(c)], 5000)
        if r == 'unsat': return True
        return None

    def valid(self, st, c):
        c = self.simp_known(st, c)
        if isinstance(c, bool): return c
        r, _ = self.check_sat(st.pc + [z3.Not(c)], 5000)
        return r == 'unsat'

    def oblige(self, st, name, goal, kind='safety', info=None):
        goal = self.simp_known(st, goal)
        o = Obligation(name, list(st.pc), zb(goal), kind, self.curfn, info)
        if goal is True or is_t(goal): o.status = 'proved'; o.backend = 'engine'
        self.obl.append(o)
        if goal is not True: st.assume(zb(goal))

    # ---- memory
    def force(self, v, ty):
        """undef -> fresh value"""
        if v is UNDEF:
            if ty.k == 'int': return self.fresh(ty.bits, 'undef')
            if ty.k in ('double', 'float', 'x86_fp80'): return z3.FP(f'undef!{next(self.fresh_n)}', fpsort(ty))
            if ty.k == 'ptr': raise Unsupported('undef pointer used')
        return v

    def bounds(self, st, p, n, what):
        """obligation: [p, p+n) inside its object"""
        if isinstance(p, FnPtr): raise Unsupported('data access to function')
        if p.obj is None:
            self.oblige(st, f'{what}: null pointer access', False); raise Infeasible()
        o = st.mem.get(p.obj)
        if o is None or o.freed:
            self.oblige(st, f'{what}: access to dead object', False); raise Infeasible()
        if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int):
            if not (p.off + n <= o.size):
                self.oblige(st, f'{what}: out of bounds access of {n} bytes at offset {sgn(p.off,64)} of {o.name or "object"} ({o.size} bytes)', False); raise Infeasible()
            self.obl_ok(f'{what}: in bounds')
        else:
            off = to_z3(p.off, 64); sz = to_z3(o.size, 64); nn = to_z3(n, 64)
            if same(p.off, 0) and same(n, o.size): self.obl_ok(f'{what}: in bounds')
            elif self.below and self.nonneg(p.off) and self.nonneg(n) and self.nonneg(lin_add(o.size, lin_add(p.off, n, 64), 64, -1)): self.obl_ok(f'{what}: in bounds')
            else:
                self.oblige(st, f'{what}: in bounds of {o.name or "object"}', z3.And(z3.ULE(off, sz), z3.ULE(nn, sz - off)), info=('bounds', p, n, o))
        return o

    def obl_ok(self, name):
        o = Obligation(name, (), T, 'safety', self.curfn); o.status = 'proved'; o.backend = 'engine'
        self.obl.append(o)

    def load_entries(self, st, p, n):
        """n concrete"""
        o = self.bounds(st, p, n, 'load')
        if o.any: return [(self.fresh(8, 'any'), 0, 1) for _ in range(n)]
        off = self.simp_lin(st, p.off)
        if o.segs is not None:
            return self.seg_read(st, p.obj, off, n)
        if not isinstance(off, int):
            off = self.concretize(st, off, o, n)
        return [self.entry(o, off + i) for i in range(n)]

    def concretize(self, st, off, o, n):
        self.split_atom(st, off)
        raise Unsupported(f'symbolic offset into {o.name}: {off}')

    def entry(self, o, off):
        e = o.ent.get(off)
        if e is None:
            if o.default is not None: return o.default(off)
            return (UNDEF, 0, 1)
        return e

    def entries_to_val(self, es, ty):
        n = len(es)
        v0, i0, n0 = es[0]
        if i0 == 0 and n0 >= n and all(e[0] is v0 and e[1] == i and e[2] == n0 for i, e in enumerate(es)):
            whole = n0 == n
            if v0 is UNDEF: return UNDEF
            if ty is None: return v0 if whole else None
            if ty.k == 'ptr' and isinstance(v0, (Ptr, FnPtr, PtrIte)) and whole: return v0
            if ty.k in ('double', 'float', 'x86_fp80') and isinstance(v0, z3.FPRef): return v0
            if ty.k == 'int' and isinstance(v0, (int, BV, Lin)) and whole: return extract(v0, n * 8, 0, ty.bits) if ty.bits < n * 8 else v0
            if ty.k == 'int' and isinstance(v0, (Ptr, FnPtr, PtrIte)) and whole: return v0   # pointer carried in an integer register
        if ty is not None and ty.k == 'ptr':
            if all(isinstance(e[0], int) and (e[0] >> (8 * e[1])) & 255 == 0 for e in es): return NULL
            if any(e[0] is UNDEF for e in es): return UNDEF
            raise Unsupported('partial pointer load')
        parts = []
        und = 0
        for v, i, k in es:
            if v is UNDEF:
                und += 1
                parts.append((self.fresh(8, 'undef'), 8))
            elif isinstance(v, (int, BV, Lin)): parts.append((extract(v, k * 8, 8 * i, 8), 8))
            elif isinstance(v, z3.FPRef):
                if v.sort() == F64: parts.append((extract(from_z3(z3.fpToIEEEBV(v)), 64, 8 * i, 8), 8))
                elif v.sort() == F32: parts.append((extract(from_z3(z3.fpToIEEEBV(v)), 32, 8 * i, 8), 8))
                else: raise Unsupported('byte view of long double')
            else: raise Unsupported(f'byte view of {v!r}')
        if und == n: return UNDEF
        b = concat(parts)
        if ty is None or ty.k == 'int':
            w = ty.bits if ty is not None else n * 8
            return extract(b, n * 8, 0, w) if w < n * 8 else b
        if ty.k == 'double': return z3.fpBVToFP(to_z3(b, 64), F64)
        if ty.k == 'float': return z3.fpBVToFP(to_z3(b, 32), F32)
        raise Unsupported(f'load type {ty}')

    def load(self, st, p, ty):
        if isinstance(p, PtrIte):
            a = self.load(st, p.a, ty); b = self.load(st, p.b, ty)
            return self.ite_val(p.c, a, b, ty)
        if p is UNDEF: raise Unsupported('load via undef pointer')
        if ty.k == 'struct':
            return [self.load(st, Ptr(p.obj, self.padd(p.off, o)), t) for t, o in zip(ty.elems, ty.offs)]
        if ty.k == 'array':
            return [self.load(st, Ptr(p.obj, self.padd(p.off, i * ty.elem.size)), ty.elem) for i in range(ty.n)]
        es = self.load_entries(st, p, ty.store)
        return self.entries_to_val(es, ty)

    def padd(self, off, k):
        if isinstance(off, int) and isinstance(k, int): return (off + k) & ((1 << 64) - 1)
        return lin_add(off, k, 64)

    def val_entries(self, v, n):
        return [(v, i, n) for i in range(n)]

    def store(self, st, p, v, ty):
        if isinstance(p, PtrIte):
            a = self.load(st, p.a, ty); b = self.load(st, p.b, ty)
            self.store(st, p.a, self.ite_val(p.c, v, a, ty), ty)
            self.store(st, p.b, self.ite_val(p.c, b, v, ty), ty)
            return
        if p is UNDEF: raise Unsupported('store via undef pointer')
        if ty.k == 'struct':
            for i, (t, o) in enumerate(zip(ty.elems, ty.offs)):
                self.store(st, Ptr(p.obj, self.padd(p.off, o)), UNDEF if v is UNDEF else v[i], t)
            return
        if ty.k == 'array':
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, self.padd(p.off, i * ty.elem.size)), UNDEF if v is UNDEF else v[i], ty.elem)
            return
        n = ty.store
        if ty.k == 'int' and ty.bits % 8 and not v is UNDEF: v = zext(v, ty.bits, n * 8)
        self.store_entries(st, p, self.val_entries(v, n))

    def store_entries(self, st, p, es):
        n = len(es)
        o = self.bounds(st, p, n, 'store')
        if o.ro:
            self.oblige(st, f'write to read-only {o.name}', False); raise Infeasible()
        if o.any: return
        off = self.simp_lin(st, p.off)
        if o.segs is not None:
            self.seg_write(st, p.obj, off, es); return
        if not isinstance(off, int): off = self.concretize(st, off, o, n)
        o = st.w(p.obj)
        for i, e in enumerate(es): o.ent[off + i] = e

    # ---- variable-length objects
    def seg_len(self, segs):
        t = 0
        for s in segs:
            t = lin_add(t, s.length(), 64) if not (isinstance(t, int) and isinstance(s.length(), int)) else t + s.length()
        return t

    def normalize_segs(self, st, segs):
        out = []
        for s in segs:
            if s.kind == 'b':
                if s.guard is not None:
                    g = self.simp_known(st, s.guard)
                    if g is True: s = Seg('b', None, s.ent)
                    elif g is False: continue
                if not s.ent: continue
                if s.guard is None and out and out[-1].kind == 'b' and out[-1].guard is None:
                    out[-1] = Seg('b', None, out[-1].ent + s.ent); continue
            else:
                if isinstance(s.n, int) and s.n == 0: continue
            out.append(s)
        return out

    def locate(self, st, segs, off):
        """split position off -> (index k, delta): off == sum len(segs[:k]) + delta, delta==0 or segs[k] is unguarded bytes with delta < len, or arr with Lin delta"""
        off = self.simp_lin(st, off)
        pre = 0
        cands = []
        for k in range(len(segs) + 1):
            d = lin_add(off, pre, 64, -1)
            d = self.simp_lin(st, d)
            if isinstance(d, int):
                d = sgn(d, 64)
                if d == 0: return k, 0
                if k < len(segs) and segs[k].kind == 'b' and 0 < d < len(segs[k].ent):
                    if segs[k].guard is None: return k, d
                    cands.append((k, d))
            if k < len(segs):
                pre = lin_add(pre, segs[k].length(), 64)
        if len(cands) == 1: return cands[0]
        if self.below:
            pre = 0
            for k in range(len(segs)):
                d = lin_add(off, pre, 64, -1); L = segs[k].length()
                if segs[k].kind == 'a' and self.nonneg(d) and self.nonneg(lin_add(L, d, 64, -1)): return k, d
                pre = lin_add(pre, L, 64)
        # solver fallback
        pre = 0
        zoff = to_z3(off, 64)
        for k in range(len(segs) + 1):
            zp = to_z3(pre, 64)
            L = segs[k].length() if k < len(segs) else 0
            if self.valid(st, zoff == zp): return k, 0
            if k < len(segs): pre = lin_add(pre, L, 64)
        pre = 0
        for k in range(len(segs)):
            zp = to_z3(pre, 64)
            L = segs[k].length()
            if k < len(segs):
                if segs[k].kind == 'b':
                    r, m = self.check_sat(st.pc + [z3.UGT(zoff, zp), z3.ULT(zoff - zp, to_z3(L, 64))], 5000)
                    if r == 'sat':
                        d = m.eval(zoff - zp, True).as_long()
                        if self.valid(st, zoff - zp == d): return k, d
                else:
                    if self.valid(st, z3.And(z3.UGE(zoff, zp), z3.ULE(zoff - zp, to_z3(L, 64)))):
                        return k, lin_add(off, pre, 64, -1)
                pre = lin_add(pre, L, 64)
        pre = 0
        for k in range(len(segs) + 1):
            zp = to_z3(pre, 64)
            for c in (zoff == zp, z3.ULT(zoff, zp)):
                c = z3.simplify(c)
                if not is_t(c) and not is_f(c) and self.check_sat(st.pc + [c], 5000)[0] == 'sat' and self.check_sat(st.pc + [z3.Not(c)], 5000)[0] == 'sat': raise NeedSplit(c)
            if k < len(segs): pre = lin_add(pre, segs[k].length(), 64)
        self.split_atom(st, off)
        pre = 0
        for k in range(len(segs)):      # inside a run of bytes: one case per position
            if segs[k].kind == 'b' and segs[k].guard is None and len(segs[k].ent) <= 4096:
                zp = to_z3(pre, 64)
                r, m = self.check_sat(st.pc + [z3.UGT(zoff, zp), z3.ULT(zoff - zp, len(segs[k].ent))], 5000)
                if r == 'sat': raise NeedSplit(zoff == zp + m.eval(zoff - zp, True))
            pre = lin_add(pre, segs[k].length(), 64)
        raise Unsupported(f'position {off} not resolvable to a field boundary of {segs}')

    def split_atom(self, st, off):
        """asks for a case split on an undecided condition in the sum `off`"""
        if isinstance(off, (Lin, BV)):
            for t in [t for _, t in off.at.values()] if isinstance(off, Lin) else [t for _, t, _ in off.ps if t is not None]:
                todo = [t]
                while todo:
                    x = todo.pop()
                    if z3.is_bool(x):
                        if self.decide(st, x) is None: raise NeedSplit(x)
                    elif z3.is_app_of(x, z3.Z3_OP_ITE): todo += x.children()
                    elif x.num_args() <= 4: todo += [y for y in x.children() if z3.is_bv(y)]

    def split_at(self, st, segs, off):
        """returns (left, right) segment lists"""
        k, d = self.locate(st, segs, off)
        if isinstance(d, int) and d == 0: return segs[:k], segs[k:]
        s = segs[k]
        if s.kind == 'b':
            if s.guard is not None:
                # inside an optional run: presence must be known for the split to be meaningful
                if not self.valid(st, s.guard): raise Unsupported('split inside optional run')
                s = Seg('b', None, s.ent)
            return segs[:k] + [Seg('b', None, s.ent[:d])], [Seg('b', None, s.ent[d:])] + segs[k + 1:]
        a = Seg('a', n=d, fn=s.fn, key=s.key, base=s.base)
        b = Seg('a', n=lin_add(s.n, d, 64, -1), fn=s.fn, key=s.key, base=lin_add(s.base, d, 64))
        return segs[:k] + [a], [b] + segs[k + 1:]

    def seg_slice(self, st, segs, off, n):
        l, r = self.split_at(st, segs, off)
        r = self.normalize_segs(st, r)
        a, b = self.split_at(st, r, n)
        return l, a, b

    def seg_read(self, st, oid, off, n):
        o = st.mem[oid]
        segs = self.normalize_segs(st, o.segs)
        _, a, _ = self.seg_slice(st, segs, off, n)
        out = []
        for s in self.normalize_segs(st, a):
            if s.kind == 'b':
                if s.guard is not None: raise Unsupported('read spanning an optional run')
                out += s.ent
            else:
                if isinstance(s.n, int):
                    for i in range(s.n): out.append((BV(8, ((8, s.at(i), 0),)), 0, 1))
                else: raise Unsupported('read of symbolic run')
        if len(out) != n: raise Unsupported('read length')
        return out

    def seg_write(self, st, oid, off, es):
        o = st.w(oid)
        if self.wlog is not None: self.wlog.append((oid, off, len(es)))
        segs = self.normalize_segs(st, o.segs)
        l, a, b = self.seg_slice(st, segs, off, len(es))
        o.segs = self.normalize_segs(st, l + [Seg('b', None, list(es))] + b)

    def as_segs(self, st, p, n):
        """segments for the n bytes at p (n may be symbolic)"""
        o = self.bounds(st, p, n, 'copy source')
        off = self.simp_lin(st, p.off); n = self.simp_lin(st, n)
        if o.any: return [Seg('b', None, [(self.fresh(8, 'any'), 0, 1) for _ in range(n)])] if isinstance(n, int) and n < 4096 else [self.any_seg(n)]
        if o.segs is None:
            if isinstance(off, int) and isinstance(n, int):
                return [Seg('b', None, [self.entry(o, off + i) for i in range(n)])]
            raise Unsupported('symbolic copy from flat object')
        segs = self.normalize_segs(st, o.segs)
        return self.normalize_segs(st, self.seg_slice(st, segs, off, n)[1])

    def known_value(self, st, n):
        """the only value of n possible on this path, if there is one (up to 64)"""
        z = to_z3(n, 64); r, m = self.check_sat(st.pc + [z3.ULE(z, 64)], 5000)
        if r != 'sat': return None
        d = m.eval(z, True).as_long()
        return d if self.valid(st, z == d) else None

    def put_segs(self, st, p, new, n):
        o = self.bounds(st, p, n, 'copy destination')
        if o.ro:
            self.oblige(st, f'write to read-only {o.name}', False); raise Infeasible()
        if o.any: return
        off = self.simp_lin(st, p.off); n = self.simp_lin(st, n)
        if o.segs is None:
            if isinstance(off, int) and isinstance(n, int):
                es = []
                for s in new:
                    if s.kind == 'b' and s.guard is None: es += s.ent
                    elif s.kind == 'a' and isinstance(s.n, int):
                        for i in range(s.n): es.append((BV(8, ((8, s.at(i), 0),)), 0, 1))
                    elif s.kind == 'a' and self.known_value(st, s.n) is not None:
                        for i in range(self.known_value(st, s.n)): es.append((BV(8, ((8, s.at(i), 0),)), 0, 1))
                    else: raise Unsupported(f'symbolic copy into flat object: {new} n={n}')
                o = st.w(p.obj)
                for i, e in enumerate(es): o.ent[off + i] = e
                return
            raise Unsupported('symbolic copy into flat object')
        o = st.w(p.obj)
        if self.wlog is not None: self.wlog.append((p.obj, off, n))
        segs = self.normalize_segs(st, o.segs)
        l, a, b = self.seg_slice(st, segs, off, n)
        o.segs = self.normalize_segs(st, l + new + b)

    def memcpy(self, st, d, s, n):
        n = self.simp_lin(st, n)
        if isinstance(n, int) and n == 0: return
        if isinstance(d, PtrIte) or isinstance(s, PtrIte):
            if not isinstance(n, int): raise Unsupported('memcpy via conditional pointer')
            i = 0
            from types import SimpleNamespace as NS
            for i in range(n):
                t = NS(k='int', bits=8, store=1, size=1)
                self.store(st, self.pgep(d, i), self.load(st, self.pgep(s, i), t), t)
            return
        if isinstance(n, int) and st.mem.get(d.obj) is not None and st.mem[d.obj].segs is None and s.obj is not None and st.mem.get(s.obj) is not None and st.mem[s.obj].segs is None:
            es = self.load_entries(st, s, n); self.store_entries(st, d, es); return
        if self.havoc and not isinstance(n, int):
            self.bounds(st, s, n, 'copy source'); o = self.bounds(st, d, n, 'copy destination')
            if o.ro: self.oblige(st, f'write to read-only {o.name}', False); raise Infeasible()
            if o.any: return
        self.put_segs(st, d, self.as_segs(st, s, n), n)

    def any_seg(self, n):
        k = next(self.fresh_n)
        return Seg('a', n=n, fn=z3.Function(f'any!{k}', z3.BitVecSort(64), z3.BitVecSort(8)), key=('any', k))

    def pgep(self, p, k):
        if isinstance(p, PtrIte): return PtrIte(p.c, self.pgep(p.a, k), self.pgep(p.b, k))
        return Ptr(p.obj, self.padd(p.off, k))

    def memset(self, st, d, v, n):
        n = self.simp_lin(st, n)
        if isinstance(n, int):
            if n: 
                if isinstance(d, PtrIte): raise Unsupported('memset via conditional pointer')
                self.store_entries(st, d, [(v, 0, 1)] * n)
        else:
            zv = to_z3(v, 8)
            self.put_segs(st, d, [Seg('a', n=n, fn=lambda i: zv, key=('const', zv.get_id(), zv))], n)

    # ---- constants / operands
    def cval(self, c, st):
        k = c[0]
        if k == 'int':
            return c[1]
        if k == 'null': return NULL
        if k == 'undef':
            return UNDEF
        if k == 'fp': return self.fpconst(c[1], c[2])
        if k == 'fn': return FnPtr(c[1])
        if k == 'glob': return Ptr(self.global_obj(st, c[1]), 0)
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg': return [self.cval(x, st) for x in c[2]]
        if k == 'ce':
            op, ops, tys, src, ty = c[1:]
            vs = [self.cval(x, st) for x in ops]
            if op == 'gep': return self.gep(vs, src, tys)
            if op in ('bitcast', 'addrspacecast'): return vs[0]
            if op in ('ptrtoint', 'inttoptr'): return vs[0]
            if op in ('add', 'sub'): return lin_add(vs[0], vs[1], ty.bits, 1 if op == 'add' else -1)
            if op == 'trunc': return extract(vs[0], tys[0].bits, 0, ty.bits)
        raise Unsupported(f'constant {c}')

    def zero(self, ty):
        if ty.k == 'int': return 0
        if ty.k == 'ptr': return NULL
        if ty.k in ('double', 'float', 'x86_fp80'): return z3.FPVal(0.0, fpsort(ty))
        if ty.k == 'struct': return [self.zero(t) for t in ty.elems]
        if ty.k in ('array', 'vector'): return [self.zero(ty.elem) for _ in range(ty.n)]
        raise Unsupported(f'zero {ty}')

    def fpconst(self, text, ty):
        import struct
        if ty.k == 'double':
            if text.startswith('0x'): v = struct.unpack('>d', bytes.fromhex(text[2:].rjust(16, '0')))[0]
            else: v = float(text)
            return z3.FPVal(v, F64)
        if ty.k == 'float':
            if text.startswith('0x'): v = struct.unpack('>d', bytes.fromhex(text[2:].rjust(16, '0')))[0]
            else: v = float(text)
            return z3.FPVal(v, F32)
        if ty.k == 'x86_fp80':
            assert text.startswith('0xK')
            b = int(text[3:], 16); s = b >> 79; e = (b >> 64) & 0x7fff; f = b & ((1 << 63) - 1)
            if e == 0 and (b & ((1 << 64) - 1)) == 0:
                return z3.fpMinusZero(F80) if s else z3.fpPlusZero(F80)
            return z3.simplify(z3.fpFP(z3.BitVecVal(s, 1), z3.BitVecVal(e, 15), z3.BitVecVal(f, 63)))
        raise Unsupported(text)

    def global_obj(self, st, name):
        if name in st.gl: return st.gl[name]
        from .ir import lib
        L = lib(); h = self.m.gh[name]
        vt = self.m.ty(L.LLVMGlobalGetValueType(h))
        # object ids of globals are shared between states
        gid = self.gids.setdefault(name, next(self.ids)) if hasattr(self, 'gids') else None
        if gid is None:
            self.gids = {}; gid = self.gids.setdefault(name, next(self.ids))
        o = Obj('global', vt.size, name); o.owner = st.tok
        st.mem[gid] = o; st.gl[name] = gid
        init = L.LLVMGetInitializer(h)
        o.ro = False
        if init and L.LLVMIsGlobalConstant(h):
            v = self.cval(self.m.const(init), st)
            self.init_store(st, gid, 0, v, vt)
        elif init and re.match(r'(guard variable|.*std::__ioinit)', self.m.dem.get(name, name)) is None:
            v = self.cval(self.m.const(init), st)
            self.init_store(st, gid, 0, v, vt)
        st.mem[gid].ro = bool(L.LLVMIsGlobalConstant(h))
        return gid

    def init_store(self, st, oid, off, v, ty):
        o = st.mem[oid]
        if ty.k == 'struct':
            for x, t, of in zip(v, ty.elems, ty.offs): self.init_store(st, oid, off + of, x, t)
        elif ty.k == 'array':
            for i, x in enumerate(v): self.init_store(st, oid, off + i * ty.elem.size, x, ty.elem)
        else:
            if ty.k == 'int' and ty.bits % 8 and v is not UNDEF: v = zext(v, ty.bits, ty.store * 8)
            for i in range(ty.store): o.ent[off + i] = (v, i, ty.store)

    def gep(self, vs, src, tys):
        p = vs[0]
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep([p.a] + vs[1:], src, tys), self.gep([p.b] + vs[1:], src, tys))
        off = 0
        def scaled(i, w, k):
            if isinstance(i, int): return (sgn(i, w) * k) & ((1 << 64) - 1)
            if w < 64: i = sext(i, w, 64)
            return lin_mul(self.widened(i), k, 64)
        off = scaled(vs[1], tys[1].bits, src.size) if len(vs) > 1 else 0
        t = src
        for v, vt in zip(vs[2:], tys[2:]):
            if t.k == 'struct':
                off = self.padd(off, t.offs[v]); t = t.elems[v]
            else:
                t = t.elem; off = self.padd(off, scaled(v, vt.bits, t.size))
        if p is UNDEF: return UNDEF
        if isinstance(p, FnPtr): raise Unsupported('gep on function')
        return Ptr(p.obj, self.padd(p.off, off))

    # ---- merging
    def ite_val(self, c, a, b, ty=None):
        if a is UNDEF: return b
        if b is UNDEF: return a
        if same(a, b): return a
        if isinstance(a, (int, BV, Lin)) and isinstance(b, (int, BV, Lin)):
            w = ty.bits if ty is not None and ty.k == 'int' else (a.w if not isinstance(a, int) else b.w if not isinstance(b, int) else None)
            if w is None: raise Unmergeable()
            return ite(c, a, b, w)
        if isinstance(a, z3.FPRef) and isinstance(b, z3.FPRef): return z3.If(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off, 64))
            if self.havoc:
                u = self.unify(a.obj, b.obj)
                if u is not None: return Ptr(u, ite(c, a.off, b.off, 64))
            return PtrIte(c, a, b)
        if isinstance(a, list) and isinstance(b, list) and ty is not None and ty.k == 'struct':
            return [self.ite_val(c, x, y, t) for x, y, t in zip(a, b, ty.elems)]
        raise Unmergeable()

    def merge(self, s1, e1, s2, e2, envtypes):
        """merge two (state, env) at the same program point; None if not mergeable"""
        p1, p2 = s1.pc, s2.pc
        k = 0
        while k < len(p1) and k < len(p2) and p1[k].eq(p2[k]): k += 1
        r1, r2 = p1[k:], p2[k:]
        c1 = And(*r1); c2 = And(*r2)
        if is_t(c1) or is_t(c2): return None
        # choose discriminating condition
        c = c1
        self._mm = (s1.mem, s2.mem); self._mp = (p1, p2); self._uni = {}; self._ref = {}
        try:
            env = {}
            for i, v in e1.items():
                if i not in e2: continue
                env[i] = v if v is e2[i] else self.ite_val(c, v, e2[i], envtypes.get(i))
            n = State()
            n.pc = p1[:k]
            n.known = {}
            kept = set(x.get_id() for x in n.pc)
            for key, kv in s1.known.items():
                if kv[1].get_id() in kept: n.known[key] = kv
            n.gl = {**s1.gl, **s2.gl}
            n.aux = {kk: v for kk, v in s1.aux.items() if kk in s2.aux and same(v, s2.aux[kk])}
            for kk in set(s1.aux) | set(s2.aux):
                if kk not in n.aux:
                    a = s1.aux.get(kk); b = s2.aux.get(kk)
                    if kk.startswith('#'): n.aux[kk] = max(a or 0, b or 0); continue
                    raise Unmergeable()
            if set(s1.maps) != set(s2.maps): raise Unmergeable()
            ren = {}
            for mk_ in s1.maps:
                a, b = s1.maps[mk_], s2.maps[mk_]
                if set(a) != set(b): raise Unmergeable()
                n.maps[mk_] = {}
                for kk in a:
                    n.maps[mk_][kk] = a[kk]
                    if a[kk] != b[kk]:      # inserted on both sides during this activation: one node with the contents of either
                        if min(a[kk], b[kk]) < self.act_base or a[kk] in s2.mem or b[kk] in s1.mem or b[kk] in self.referred(2, s2, e2) or a[kk] in self.referred(1, s1, e1): raise Unmergeable()
                        ren[b[kk]] = a[kk]
            inv = {x: y for y, x in ren.items()}
            for oid in s1.mem:
                o1 = s1.mem[oid]; o2 = s2.mem.get(oid)
                if oid in inv: o2 = s2.mem[inv[oid]]
                if o2 is None:
                    if o1.kind in ('stack', 'global'): 
                        if o1.kind == 'global': n.mem[oid] = o1
                        continue
                    if oid in s2.mem or o1.kind == 'heap':
                        n.mem[oid] = o1; continue
                    raise Unmergeable()
                if o1 is o2: n.mem[oid] = o1; continue
                if o1.any and o2.any:
                    o = o1.copy(); o.freed = o1.freed or o2.freed
                    if not o.freed: o.size = ite(c, o1.size, o2.size, 64)
                    n.mem[oid] = o; continue
                n.mem[oid] = self.merge_obj(c, o1, o2)
            for oid in s2.mem:
                if oid not in s1.mem and oid not in ren and s2.mem[oid].kind in ('heap', 'global'): n.mem[oid] = s2.mem[oid]
            for (a, b), u in self._uni.items():     # storage of arbitrary contents allocated on one of the paths: pointers into either are dead afterwards
                o = s1.mem[a].copy(); o.size = ite(c, s1.mem[a].size, s2.mem[b].size, 64); n.mem[u] = o
                n.mem.pop(a, None); n.mem.pop(b, None)
        except Unmergeable:
            return None
        if c2 is not True and not (z3.is_not(c2) and zb(c1).eq(c2.arg(0))) and not (isinstance(c1, z3.BoolRef) and z3.is_not(c1) and c1.arg(0).eq(zb(c2))):
            n.assume(Or(c1, c2))
        return n, env

    def referred(self, k, st, env):
        """objects some value of the state points at"""
        r = self._ref.get(k)
        if r is not None: return r
        r = self._ref[k] = set()
        def add(v):
            if isinstance(v, Ptr): r.add(v.obj)
            elif isinstance(v, PtrIte): add(v.a); add(v.b)
            elif isinstance(v, (list, tuple)):
                for x in v: add(x)
        for v in env.values(): add(v)
        for o in st.mem.values():
            for x in ([x for g in o.segs if g.kind == 'b' for x in g.ent] if o.segs is not None else o.ent.values()):
                if x[1] == 0 and not isinstance(x[0], int): add(x[0])
        return r

    def unify(self, a, b):
        x = self._mm[0].get(a); y = self._mm[1].get(b)
        if x is None or y is None or not x.any or not y.any or x.freed or y.freed: return None
        if (a, b) not in self._uni:
            if any(a == p or b == q for p, q in self._uni): raise Unmergeable()
            self._uni[a, b] = next(self.ids)
        return self._uni[a, b]

    def merge_obj(self, c, a, b):
        if a.freed != b.freed: raise Unmergeable()
        if (a.segs is None) != (b.segs is None): raise Unmergeable()
        if a.segs is not None:
            if not same(a.size, b.size) or len(a.segs) != len(b.segs): raise Unmergeable()
            o = a.copy(); o.segs = []
            for x, y in zip(a.segs, b.segs):
                if x is y: o.segs.append(x); continue
                if x.kind != y.kind: raise Unmergeable()
                if x.kind == 'b':
                    if len(x.ent) != len(y.ent): raise Unmergeable()
                    if (x.guard is None) != (y.guard is None) or (x.guard is not None and not x.guard.eq(y.guard)): raise Unmergeable()
                    o.segs.append(Seg('b', x.guard, self.merge_ents(c, x.ent, y.ent)))
                else:
                    if not same(x.n, y.n): raise Unmergeable()
                    if x.key != y.key or not same(x.base, y.base):
                        if not self.loop_rule or isinstance(x.n, int): raise Unmergeable()
                        z = to_z3(x.n, 64)      # a run known to be empty in one of the states has the contents of the other
                        if self.check_sat(self._mp[0] + [z != 0], 500)[0] == 'unsat': x = y
                        elif self.check_sat(self._mp[1] + [z != 0], 500)[0] != 'unsat': raise Unmergeable()
                    o.segs.append(x)
            return o
        if not same(a.size, b.size): raise Unmergeable()
        o = a.copy()
        keys = sorted(set(a.ent) | set(b.ent))
        la = [self.entry(a, k) for k in keys]; lb = [self.entry(b, k) for k in keys]
        o.ent = dict(zip(keys, self.merge_ents(c, la, lb)))
        return o

    def varlen(self, k, oid):
        """object of symbolic length (kept apart by path instead of behind a conditional pointer)"""
        o = self._mm[k].get(oid)
        return o is not None and o.segs is not None and any(g.kind == 'a' for g in o.segs)

    def merge_ents(self, c, xs, ys):
        out = []; i = 0; n = len(xs)
        while i < n:
            x = xs[i]; y = ys[i]
            if x is y or (x[1] == y[1] and x[2] == y[2] and same(x[0], y[0])): out.append(x); i += 1; continue
            if x[0] is UNDEF: out.append(y); i += 1; continue
            if y[0] is UNDEF: out.append(x); i += 1; continue
            k = x[2]
            if x[1] == 0 and y[1] == 0 and y[2] == k and i + k <= n and all(xs[i + j][0] is x[0] and xs[i + j][1] == j and ys[i + j][0] is y[0] and ys[i + j][1] == j for j in range(k)):
                a, b = x[0], y[0]
                if isinstance(a, (int, BV, Lin)) and isinstance(b, (int, BV, Lin)): v = ite(c, a, b, 8 * k)
                else:
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj and (self.varlen(0, a.obj) or self.varlen(1, b.obj)): raise Unmergeable()
                    v = self.ite_val(c, a, b)
                out += [(v, j, k) for j in range(k)]; i += k; continue
            def byte(e):
                if isinstance(e[0], (int, BV, Lin)): return extract(e[0], 8 * e[2], 8 * e[1], 8)
                raise Unmergeable()
            out.append((ite(c, byte(x), byte(y), 8), 0, 1)); i += 1
        return out

    # ---- execution
    def order_index(self, f):
        try: return f.ipdom
        except AttributeError: pass
        # weak topological order by recursive SCC decomposition
        idx = {}; cnt = itertools.count()
        def comp(nodes, entry_pref):
            nodes = set(nodes)
            # Tarjan
            low = {}; num = {}; st = []; on = set(); sccs = []; c = [0]
            def dfs(v0):
                work = [(v0, iter([s for s in f.blocks[v0].succs if s in nodes]))]
                num[v0] = low[v0] = c[0]; c[0] += 1; st.append(v0); on.add(v0)
                while work:
                    v, it = work[-1]
                    adv = False
                    for s in it:
                        if s not in num:
                            num[s] = low[s] = c[0]; c[0] += 1; st.append(s); on.add(s)
                            work.append((s, iter([q for q in f.blocks[s].succs if q in nodes]))); adv = True; break
                        elif s in on: low[v] = min(low[v], num[s])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == num[v]:
                        sc = []
                        while True:
                            x = st.pop(); on.discard(x); sc.append(x)
                            if x == v: break
                        sccs.append(sc)
            for v in sorted(nodes, key=lambda b: f.blocks[b].rpo):
                if v not in num: dfs(v)
            for sc in reversed(sccs):
                if len(sc) == 1: idx[sc[0]] = next(cnt)
                else:
                    head = min(sc, key=lambda b: f.blocks[b].rpo)
                    idx[head] = next(cnt)
                    comp([x for x in sc if x != head], None)
        comp(f.order, 0)
        f.ipdom = idx
        return idx

    def call(self, st, name, args, inst=None):
        """returns list of Outcome"""
        h = self.find_hook(name)
        if h is not None:
            try: r = h(self, st, name, args, inst)
            except NeedSplit as x:
                out = []
                for b in self.branch(st, x.c):
                    if b is not None: out += self.call(b, name, args, inst)
                return out
            if r is not NotImplemented: return r
        if name not in self.m.defined:
            d = self.m.dem.get(name, name)
            raise Unsupported(f'call to external {d}')
        return self.run(st, name, args)

    def run(self, st, name, args):
        f = self.m.fn(name)
        self.called.setdefault(f.demangled, 'body')
        self.depth += 1
        if self.depth > 120: raise Unsupported('recursion depth')
        prev = self.curfn; self.curfn = f.demangled
        try:
            return self._run(st, f, args)
        finally:
            self.depth -= 1; self.curfn = prev

    def _run(self, st, f, args):
        idx = self.order_index(f)
        env = {}
        frame = []
        base = next(self.ids)
        for i, (p, a) in enumerate(zip(f.params, args)):
            env[p] = a
        pend = {0: [(st, env, None)]}
        outs = []
        visits = {}
        envt = self.envtypes(f)
        while pend:
            b = min(pend, key=lambda x: idx[x])
            lst = pend.pop(b)
            # phis are evaluated per incoming edge
            B = f.blocks[b]
            ready = []
            for (s, e, frm) in lst:
                if B.phis:
                    vals = [(i.id, self.opv(i.x[frm], e, s), i.ty) for i in B.phis]
                    e = dict(e)
                    for k, v, t in vals: e[k] = v
                ready.append((s, e))
            # merge
            if len(ready) > 1 and not self.nomerge:
                merged = []; lv = self.live(f)[b]
                for (s, e) in ready:
                    e = {k: v for k, v in e.items() if k in lv}
                    for q in range(len(merged)):
                        self.act_base = base; r = self.merge(merged[q][0], merged[q][1], s, e, envt)
                        if r is not None:
                            merged[q] = r; break
                    else: merged.append((s, e))
                ready = merged
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > (64 if self.loop_rule else self.MAXITER): raise Unsupported(f'loop bound exceeded in {f.demangled}')
            if self.loop_rule and b in f.loops and not any(frm in f.loops[b] for _, _, frm in lst):
                from .loops import summarize
                rest = []
                for (s, e) in ready:
                    r = summarize(self, f, b, f.loops[b], s, e, frame)
                    if r is None: rest.append((s, e)); continue
                    for nb, s2, e2, frm in r: pend.setdefault(nb, []).append((s2, e2, frm))
                ready = rest
            for (s, e) in ready:
                for nb, s2, e2 in self.exec_block(s, f, B, e, frame, outs):
                    pend.setdefault(nb, []).append((s2, e2, b))
        # drop frame objects
        for o in outs:
            for oid in frame: o.st.mem.pop(oid, None)
        # merge outcomes
        if len(outs) > 1 and not self.nomerge:
            res = []
            for o in outs:
                if o.thrown: res.append(o); continue
                for q in range(len(res)):
                    if res[q].thrown: continue
                    self.act_base = base; r = self.merge(res[q].st, {'r': res[q].ret} if res[q].ret is not None else {}, o.st, {'r': o.ret} if o.ret is not None else {}, {'r': f_rty(self, f)})
                    if r is not None:
                        res[q] = Outcome(r[0], r[1].get('r')); break
                else: res.append(o)
            outs = res
        return outs

    def live(self, f):
        """per block: values used in it or later (its phis included)"""
        r = self.lives.get(f.name)
        if r is not None: return r
        def uses(x, out):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'l': out.add(x[1]); return
                for y in x: uses(y, out)
            elif isinstance(x, list):
                for y in x: uses(y, out)
            elif isinstance(x, dict):
                for y in x.values(): uses(y, out)
        use = []; dfn = []
        for B in f.blocks:
            u = set(); d = {i.id for i in B.phis}
            for I in B.insts:
                w = set(); uses(I.ops, w); uses(I.x, w)
                u |= w - d; d.add(I.id)
            use.append(u); dfn.append(d)
        lin = [set(u) for u in use]; ch = True
        while ch:
            ch = False
            for k in sorted(range(len(f.blocks)), key=lambda k: -f.blocks[k].rpo):
                o = set()
                for t in f.blocks[k].succs:
                    o |= lin[t]
                    for i in f.blocks[t].phis:
                        v = i.x.get(k)
                        if v is not None: uses(v, o)
                o = (o - dfn[k]) | use[k]
                if not o <= lin[k]: lin[k] |= o; ch = True
        r = self.lives[f.name] = [l | {i.id for i in B.phis} for l, B in zip(lin, f.blocks)]
        return r

    def envtypes(self, f):
        if f.sret.__class__ is dict: return f.sret
        d = {}
        for p, t in zip(f.params, f.pty): d[p] = t
        for B in f.blocks:
            for i in B.phis: d[i.id] = i.ty
            for i in B.insts: d[i.id] = i.ty
        f.sret = d
        return d

    def opv(self, o, env, st):
        if o[0] == 'l': return env[o[1]]
        return self.cval(o, st)

    def branch(self, st, c):
        """returns (state_true|None, state_false|None)"""
        c = self.simp_known(st, c)
        if isinstance(c, bool) or is_t(c) or is_f(c):
            return (st, None) if is_t(c) else (None, st)
        rt, _ = self.check_sat(st.pc + [c], 3000)
        if rt == 'unsat':
            st.assume(z3.Not(c)); return None, st
        rf, _ = self.check_sat(st.pc + [z3.Not(c)], 3000)
        if rf == 'unsat':
            st.assume(c); return st, None
        s2 = st.fork()
        st.assume(c); s2.assume(Not(c))
        return st, s2

    def exec_block(self, st, f, B, env, frame, outs):
        """executes the block; yields (succ, state, env)"""
        work = [(st, dict(env), 0)]   # env is owned by this activation and updated in place
        res = []
        while work:
            st, env, i0 = work.pop()
            insts = B.insts
            i = i0
            try:
                while i < len(insts):
                    I = insts[i]
                    self.steps += 1
                    if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline: raise Unsupported('time budget exhausted')
                    op = I.op
                    if op in ('call', 'invoke'):
                        rs = self.do_call(st, I, env)
                        nxt = []
                        for o in rs:
                            if o.thrown: outs.append(o); continue
                            nxt.append(o)
                        if not nxt: st = None; break
                        for o in nxt[1:]:
                            e2 = dict(env)
                            if o.ret is not None: e2[I.id] = o.ret
                            if op == 'invoke': res.append((I.x['normal'], o.st, e2))
                            else: work.append((o.st, e2, i + 1))
                        o = nxt[0]; st = o.st
                        if o.ret is not None: env[I.id] = o.ret
                        if op == 'invoke':
                            res.append((I.x['normal'], st, env)); st = None; break
                        i += 1; continue
                    if op == 'br':
                        if not I.ops: res.append((B.succs[0], st, env))
                        else:
                            c = to_bool(self.force_i(self.opv(I.ops[0], env, st), 1))
                            a, b = self.branch(st, c)
                            if a is not None: res.append((B.succs[0], a, env))
                            if b is not None: res.append((B.succs[1], b, env))
                        st = None; break
                    if op == 'switch':
                        v = self.force_i(self.opv(I.ops[0], env, st), I.x['ty'].bits); w = I.x['ty'].bits
                        if isinstance(v, int):
                            t = dict((a, b) for a, b in I.x['cases']).get(v, I.x['default'])
                            res.append((t, st, env))
                        else:
                            cur = st
                            bytarget = {}
                            for a, t in I.x['cases']: bytarget.setdefault(t, []).append(a)
                            for t, vals in bytarget.items():
                                if cur is None: break
                                a, b = self.branch(cur, Or(*[eqv(v, x, w) for x in vals]))
                                if a is not None: res.append((t, a, env))
                                cur = b
                            if cur is not None: res.append((I.x['default'], cur, env))
                        st = None; break
                    if op == 'ret':
                        r = self.opv(I.ops[0], env, st) if I.ops else None
                        outs.append(Outcome(st, r)); st = None; break
                    if op == 'unreachable':
                        self.oblige(st, 'unreachable code reached', False); st = None; break
                    if op == 'resume':
                        outs.append(Outcome(st, None, 'resume')); st = None; break
                    v = self.step(st, I, env, frame)
                    if v is not None:
                        env[I.id] = v
                    i += 1
            except Infeasible:
                continue
            except NeedSplit as x:
                for b in self.branch(st, x.c):
                    if b is not None: work.append((b, dict(env), i))
        return res

    def force_i(self, v, w):
        if v is UNDEF: return self.fresh(w, 'undef')
        return v

    def do_call(self, st, I, env):
        c = I.x['callee']
        args = [self.opv(o, env, st) if o[0] != 'meta' else None for o in I.ops]
        if c[0] == 'asm': raise Unsupported('inline asm')
        cv = self.opv(c, env, st)
        if isinstance(cv, FnPtr): name = cv.name
        else: raise Unsupported(f'indirect call {cv}')
        for j, t in I.x['byval'].items():
            oid = self.new_obj(st, 'heap', t.size, 'byval')
            self.memcpy(st, Ptr(oid, 0), args[j], t.size)
            args[j] = Ptr(oid, 0)
        return self.call(st, name, args, I)

    def step(self, st, I, env, frame):
        op = I.op
        ev = lambda k: self.opv(I.ops[k], env, st)
        if op == 'alloca':
            n = ev(0)
            if not isinstance(n, int): raise Unsupported('dynamic alloca')
            oid = self.new_obj(st, 'stack', I.x.size * n, 'local')
            frame.append(oid)
            return Ptr(oid, 0)
        if op == 'load': return self.load(st, self.fp(ev(0)), I.ty)
        if op == 'store':
            self.store(st, self.fp(ev(1)), ev(0), I.x if False else self.opty(I, 0)); return None
        if op == 'gep': return self.gep([ev(k) for k in range(len(I.ops))], I.x[0], I.x[1])
        if op in BINOPS:
            a, b = ev(0), ev(1)
            if op in ('add', 'sub', 'mul', 'udiv') and (self.range_hi or self.alias): a, b = self.widened(a), self.widened(b)
            return self.binop(st, op, a, b, I.ty)
        if op == 'icmp': return self.icmp(st, I.x[0], ev(0), ev(1), I.x[1])
        if op in ('trunc', 'zext', 'sext'):
            v = ev(0); w = I.x.bits
            if v is UNDEF:
                if op == 'trunc': return UNDEF
                v = self.fresh(w, 'undef')
            if isinstance(v, (Ptr, PtrIte)):
                raise Unsupported('narrowing of pointer bits')
            w2 = I.ty.bits
            if op == 'zext': return self.widened(zext(v, w, w2))
            return extract(v, w, 0, w2) if op == 'trunc' else sext(v, w, w2)
        if op == 'select':
            c = ev(0); c = to_bool(self.force_i(c, 1)); c = self.simp_known(st, c)
            if is_t(c): return ev(1)
            if is_f(c): return ev(2)
            try: return self.ite_val(c, ev(1), ev(2), I.ty)
            except Unmergeable: raise Unsupported('select')
        if op in ('bitcast',):
            v = ev(0)
            if I.ty.k == I.x.k: return v
            if I.ty.k == 'int' and I.x.k == 'double': return from_z3(z3.fpToIEEEBV(v))
            if I.ty.k == 'double' and I.x.k == 'int': return z3.fpBVToFP(to_z3(v, 64), F64)
            raise Unsupported('bitcast')
        if op in ('ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = ev(0)
            if op == 'freeze': return self.force(v, I.ty)
            return v
        if op == 'extractvalue':
            v = ev(0)
            for k in I.x:
                if v is UNDEF: return UNDEF
                v = v[k]
            return v
        if op == 'insertvalue':
            v = ev(0); x = ev(1)
            def ins(v, ty, path):
                if v is UNDEF: v = [UNDEF] * (len(ty.elems) if ty.k == 'struct' else ty.n)
                v = list(v)
                k = path[0]
                v[k] = x if len(path) == 1 else ins(v[k], ty.elems[k] if ty.k == 'struct' else ty.elem, path[1:])
                return v
            return ins(v, I.ty, I.x)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return self.fpop(st, op, I, ev)
        if op == 'fence': return None
        if op == 'landingpad': return UNDEF
        raise Unsupported(f'instruction {op}')

    def fp(self, p):
        if isinstance(p, int) and p == 0: return NULL
        return p

    def opty(self, I, k):
        o = I.ops[k]
        # type of stored value: recorded by ir.py as operand 0 type
        return I.x

    def binop(self, st, op, a, b, ty):
        w = ty.bits
        if ty.k == 'vector': raise Unsupported('vector op')
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return self.simp_lin(st, lin_add(a.off, b.off, 64, -1)) if not (isinstance(a.off, int) and isinstance(b.off, int)) else (a.off - b.off) & ((1 << 64) - 1)
            if op == 'add' and isinstance(a, Ptr): return Ptr(a.obj, self.padd(a.off, b))
            if op == 'add' and isinstance(b, Ptr): return Ptr(b.obj, self.padd(b.off, a))
            if op == 'sub' and isinstance(a, Ptr): return Ptr(a.obj, self.padd(a.off, lin_mul(b, -1, 64)))
            raise Unsupported(f'{op} on pointers')
        if a is UNDEF: a = self.fresh(w, 'undef')
        if b is UNDEF: b = self.fresh(w, 'undef')
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr') and b >= w:
                self.oblige(st, 'shift amount in range', False); raise Infeasible()
            if op == 'shl': return (a << b) & M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sgn(a, w) >> b) & M
            if b == 0: self.oblige(st, 'division by zero', False); raise Infeasible()
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (sa - q * sb) & M
        if op in ('add', 'sub'):
            if op == 'sub' and same(a, b): return 0
            return self.simp_lin(st, lin_add(a, b, w, 1 if op == 'add' else -1))
        if op in ('and', 'or', 'xor'):
            return bitop(op, a, b, w)
        if op == 'mul':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return lin_mul(a, b, w)
            return from_z3(z3.simplify(to_z3(a, w) * to_z3(b, w)))
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w: self.oblige(st, 'shift amount in range', False); raise Infeasible()
                if op == 'shl' and isinstance(a, Lin): return lin_mul(a, 1 << b, w)
                if op == 'lshr' and isinstance(a, Lin):
                    r = self.lin_div(a, 1 << b, w)
                    if r is not None: return r
                return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b, w)
            zb_ = to_z3(b, w)
            self.oblige(st, 'shift amount in range', z3.ULT(zb_, w))
            za = to_z3(a, w)
            return from_z3(z3.simplify({'shl': za << zb_, 'lshr': z3.LShR(za, zb_), 'ashr': za >> zb_}[op]))
        za, zb2 = to_z3(a, w), to_z3(b, w)
        if not isinstance(b, int): self.oblige(st, 'division by zero', zb2 != 0)
        elif b == 0: self.oblige(st, 'division by zero', False); raise Infeasible()
        if isinstance(b, int) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == 'udiv':
                if isinstance(a, Lin):
                    r = self.lin_div(a, b, w)
                    if r is not None: return r
                return lshr(a, k, w)
            if op == 'urem':
                if isinstance(a, Lin) and all(co % b == 0 for co, t in a.at.values()): return a.c % b
                return zext(extract(a, w, 0, k), k, w) if k else 0
            if op == 'sdiv' and b == 1: return a
            if op == 'sdiv':
                if isinstance(a, Lin):
                    r = self.lin_div(a, b, w)
                    if r is not None: return r
        elif isinstance(b, int) and op in ('udiv', 'sdiv') and b < 1 << (w - 1) and isinstance(a, Lin):
            r = self.lin_div(a, b, w)
            if r is not None: return r
        f = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op]
        return from_z3(z3.simplify(f(za, zb2)))

    def lin_max(self, a):
        """upper bound of the un-wrapped sum, or None"""
        m = a.c
        if a.c >= 1 << (a.w - 1): return None
        for co, t in a.at.values():
            if co >= 1 << (a.w - 1): return None
            if z3.is_bool(t): m += co
            else:
                hi = self.range_hi.get(t.get_id())
                if hi is None:
                    k = t.decl().kind()
                    if k == z3.Z3_OP_ZERO_EXT: h = (1 << t.arg(0).size()) - 1
                    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: h = (1 << (t.size() - t.arg(0).size())) - 1
                    else: return None
                else: h = hi[0]
                m += co * h
        return m
    def widened(self, v):
        """a number cut to n bits and widened back is itself when it is known to fit"""
        if (self.range_hi or self.alias) and isinstance(v, BV) and len(v.ps) in (1, 2) and v.ps[0][1] is not None and v.ps[0][2] == 0 and v.ps[0][1].size() == v.w and (len(v.ps) == 1 or (v.ps[1][1] is None and v.ps[1][2] == 0)):
            n, t, _ = v.ps[0]; hi = self.range_hi.get(t.get_id()) or self.alias.get(t.get_id())
            if hi is not None and hi[0] < 1 << n: return hi[2] if len(hi) > 2 else BV(v.w, ((v.w, t, 0),))
        return v
    def nonneg(self, v):
        """True: the linear sum, read over the integers, is proved to lie in 0..2^62 from the registered bounds of its atoms"""
        if isinstance(v, int): return sgn(v, 64) >= 0
        if isinstance(v, BV): v = to_lin(v, 64)
        if not isinstance(v, Lin) or v.w != 64: return False
        co = {i: [sgn(c, 64), t] for i, (c, t) in v.at.items()}; c = sgn(v.c, 64)
        if abs(c) >= 1 << 61: return False
        hi = max(c, 0)
        for i, (a, t) in co.items():
            h = 1 if z3.is_bool(t) else (self.range_hi.get(i) or (None,))[0]
            if h is None: return False
            if a > 0: hi += a * h
        if hi >= 1 << 62: return False
        for _ in range(8):
            for i, (a, t) in list(co.items()):
                if a < 0 and i in self.below:        # a*t >= a*(bound - 1)
                    b = to_lin(self.below[i], 64); del co[i]; c += a * (sgn(b.c, 64) - 1)
                    for j, (d, u) in b.at.items():
                        if j in co: co[j][0] += a * sgn(d, 64)
                        else: co[j] = [a * sgn(d, 64), u]
                    break
            else: break
        for i, (a, t) in co.items():
            if a < 0:
                h = 1 if z3.is_bool(t) else (self.range_hi.get(i) or (None,))[0]
                if h is None: return False
                c += a * h
            else: c += a * self.range_lo.get(i, 0)
        return c >= 0
    def lin_small(self, a):
        m = self.lin_max(a)
        return m is not None and m < 1 << (a.w - 1)
    def lin_div(self, a, k, w):
        if w == 64 and self.range_hi and not self.lin_small(a) and self.nonneg(a) and all(sgn(co, 64) % k == 0 for co, t in a.at.values()):
            return norm_lin(Lin(w, sgn(a.c, 64) // k, {i: (sgn(co, 64) // k, t) for i, (co, t) in a.at.items()}))   # floor: the atoms contribute multiples of k
        if not self.lin_small(a): return None
        if all(co % k == 0 for co, t in a.at.values()):
            return norm_lin(Lin(w, a.c // k, {i: (co // k, t) for i, (co, t) in a.at.items()}))
        return None

    # exact dyadic values: bv * 2^k held in a floating-point sort wide enough for every value of bv
    def int_to_fp(self, t, signed, sort):
        while True:
            k = t.decl().kind()
            if k == z3.Z3_OP_SIGN_EXT and signed: t = t.arg(0)
            elif k == z3.Z3_OP_ZERO_EXT: t = t.arg(0); signed = False
            elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
                signed = False
                t = z3.Concat(*t.children()[1:]) if t.num_args() > 2 else t.arg(1)
            else: break
        r = self.mk_fpint(t, signed, 0, sort)
        if r is not None: return r
        return z3.fpSignedToFP(RNE, t, sort) if signed else z3.fpUnsignedToFP(RNE, t, sort)

    def mk_fpint(self, t, signed, k, sort):
        need = t.size() - (1 if signed else 0)
        if need > sort.sbits(): return None          # (|min| of a signed type is a power of two, hence exact)
        if abs(k) > 300 and sort.ebits() < 15: return None
        key = (t.get_id(), signed, k, sort.sbits())
        r = self.fpint_mk.get(key)
        if r is None:
            r = z3.fpSignedToFP(RNE, t, sort) if signed else z3.fpUnsignedToFP(RNE, t, sort)
            if k: r = z3.fpMul(RNE, r, fp_two(k, sort))
            self.fpint_mk[key] = r
            self.fpint[r.get_id()] = (t, signed, k, r)
        return r

    def icmp(self, st, pr, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, (Ptr, PtrIte, FnPtr)) or isinstance(b, (Ptr, PtrIte, FnPtr)):
            a = self.fp(a); b = self.fp(b)
            if self.cmplog is not None: self.cmplog.append((pr, a, b))
            return bool_bv1(self.ptrcmp(st, pr, a, b))
        w = ty.bits
        if a is UNDEF: a = self.fresh(w, 'undef')
        if b is UNDEF: b = self.fresh(w, 'undef')
        if self.range_hi or self.alias: a, b = self.widened(a), self.widened(b)
        if self.cmplog is not None: self.cmplog.append((pr, a, b))
        if pr in ('eq', 'ne'):
            c = self.simp_known(st, eqv(a, b, w))
            return bool_bv1(Not(c) if pr == 'ne' else c)
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]])
        if same(a, b): return int(pr[1:] in ('ge', 'le'))
        za, zb_ = to_z3(a, w), to_z3(b, w)
        f = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y}[pr]
        c = z3.simplify(f(za, zb_))
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        return bool_bv1(c)

    def ptrcmp(self, st, pr, a, b):
        if isinstance(a, PtrIte):
            return bite(a.c, self.ptrcmp(st, pr, a.a, b), self.ptrcmp(st, pr, a.b, b))
        if isinstance(b, PtrIte):
            return bite(b.c, self.ptrcmp(st, pr, a, b.a), self.ptrcmp(st, pr, a, b.b))
        if a is UNDEF or b is UNDEF: raise Unsupported('compare undef pointer')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            if pr == 'eq': return e
            if pr == 'ne': return not e
            raise Unsupported('fn compare')
        if isinstance(a, int): a = Ptr(None, a)
        if isinstance(b, int): b = Ptr(None, b)
        if a.obj == b.obj:
            if pr in ('eq', 'ne'):
                c = self.simp_known(st, eqv(self.simp_lin(st, a.off), self.simp_lin(st, b.off), 64))
                return c if pr == 'eq' else Not(c)
            x, y = to_z3(self.simp_lin(st, a.off), 64), to_z3(self.simp_lin(st, b.off), 64)
            c = z3.simplify({'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE}[pr](x, y))
            return True if z3.is_true(c) else False if z3.is_false(c) else c
        if pr == 'eq': return False
        if pr == 'ne': return True
        raise Unsupported(f'pointer order between objects')

    def fpop(self, st, op, I, ev):
        a = ev(0)
        ty = I.ty
        if op in ('sitofp', 'uitofp'):
            w = I.x.bits
            if a is UNDEF: a = self.fresh(w, 'undef')
            t = to_z3(a, w); s = fpsort(ty)
            if isinstance(a, int):
                return z3.simplify(z3.fpSignedToFP(RNE, t, s) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, t, s))
            return self.int_to_fp(t, op == 'sitofp', s)
        if op in ('fpext', 'fptrunc'):
            a = self.force(a, I.x)
            q = self.fpint.get(a.get_id())
            if q is not None:
                r = self.mk_fpint(q[0], q[1], q[2], fpsort(ty))
                if r is not None: return r
            r = z3.fpFPToFP(RNE, a, fpsort(ty))
            return z3.simplify(r) if z3.is_fp_value(a) else r
        if op in ('fptosi', 'fptoui'):
            a = self.force(a, I.x)
            w = ty.bits
            s = a.sort()
            if op == 'fptosi':
                r = z3.fpToSBV(RTZ, a, z3.BitVecSort(w))
            else:
                r = z3.fpToUBV(RTZ, a, z3.BitVecSort(w))
            if z3.is_fp_value(a):
                if not fp_in_range(a, w, op == 'fptosi'):
                    self.oblige(st, f'floating-point value fits the {w}-bit integer it is converted to', False, kind='arith'); return self.fresh(w, 'fpovf')
                return from_z3(z3.simplify(r))
            if getattr(self, 'check_fptoi', False):
                hi = z3.FPVal(2.0 ** (w - 1 if op == 'fptosi' else w), s); lo = z3.FPVal(-2.0 ** (w - 1) if op == 'fptosi' else 0.0, s)
                t = z3.fpRoundToIntegral(RTZ, a)
                self.oblige(st, f'floating-point value fits the {w}-bit integer it is converted to', z3.And(z3.fpLT(t, hi), z3.fpGEQ(t, lo)), kind='arith')
            return from_z3(r)
        if op == 'fneg': return z3.fpNeg(self.force(a, I.x))
        b = ev(1)
        if op == 'fcmp':
            pr, t = I.x
            a = self.force(a, t); b = self.force(b, t)
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b), 'ne': z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(un))}
            if pr == 'ord': r = z3.Not(un)
            elif pr == 'uno': r = un
            elif pr == 'une': r = z3.Not(z3.fpEQ(a, b))
            elif pr[0] == 'o': r = base[pr[1:]]
            else: r = z3.Or(un, base[pr[1:]])
            r = z3.simplify(r)
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else bool_bv1(r)
        a = self.force(a, I.x); b = self.force(b, I.x)
        if op in ('fmul', 'fdiv'):
            k = fp_pow2(b)
            x = a
            if k is None and op == 'fmul': k = fp_pow2(a); x = b
            if k is not None:
                if op == 'fdiv': k = -k
                q = self.fpint.get(x.get_id())
                if q is not None:
                    r = self.mk_fpint(q[0], q[1], q[2] + k, x.sort())
                    if r is not None: return r
                if not z3.is_fp_value(x) and -1000 < k < 1000: return z3.fpMul(RNE, x, fp_two(k, x.sort()))
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
        if z3.is_fp_value(a) and z3.is_fp_value(b): r = z3.simplify(r)
        return r

def fp_two(k, sort): return z3.fpToFP(RNE, z3.RealVal(2) ** k, sort) if False else z3.simplify(z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(k + (1 << (sort.ebits() - 1)) - 1, sort.ebits()), z3.BitVecVal(0, sort.sbits() - 1)))
def fp_pow2(a):
    """k if a is the constant 2^k (normal), else None"""
    if not z3.is_fp_value(a) or a.isNaN() or a.isInf() or a.isZero() or a.isNegative() or a.isSubnormal(): return None
    if a.significand_as_long() != 0: return None
    return a.exponent_as_long(False)

def fp_in_range(a, w, signed):
    from fractions import Fraction
    if a.isNaN() or a.isInf(): return False
    r = z3.simplify(z3.fpToReal(a))
    fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
    t = abs(fr) // 1
    t = t if fr >= 0 else -t
    return (-(1 << (w - 1)) <= t < (1 << (w - 1))) if signed else (0 <= t < (1 << w))

def f_rty(eng, f):
    for B in f.blocks:
        for i in B.insts:
            if i.op == 'ret' and i.ops: return i.x
    return None

class Unmergeable(Exception): pass

BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
