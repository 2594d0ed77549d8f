"""Symbolic executor / VC generator over the parsed IR."""
import terms as tm
from terms import (T, const, var, fresh, uf, TRUE, FALSE, cat, ext, zext, sext, add, sub, mul, band, bor, bxor, bnot, eq, ne,
                   ult, ule, slt, sle, ite, shl, lshr, ashr, udiv, urem, rng, isc)
import smt
import ir
import re


class Unsupported(Exception):
    """construct outside the executor's reach (never a verdict)"""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off is o.off

    def __hash__(self):
        return hash((id(self.obj), self.off.id))

    def __repr__(self):
        return '<%s+%r>' % (self.obj.name, self.off)


class PtrIte:
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def __eq__(self, o):
        return isinstance(o, PtrIte) and self.c is o.c and self.x == o.x and self.y == o.y

    def __hash__(self):
        return hash((self.c, self.x, self.y))


class Tok:
    """opaque bytes [k, k+n) of an abstract value"""
    __slots__ = ('tok', 'k', 'n')

    def __init__(self, tok, k, n):
        self.tok, self.k, self.n = tok, k, n

    def __eq__(self, o):
        return isinstance(o, Tok) and self.tok == o.tok and self.k == o.k and self.n == o.n

    def __hash__(self):
        return hash((self.tok, self.k, self.n))


class Mixed:
    """raw cells (bytes of mixed nature) loaded as one value; may only be stored back"""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Mixed) and self.cells == o.cells

    def __hash__(self):
        return hash(self.cells)


_on = [0]


class Obj:
    """memory object. kinds: mem (cells in the state), fun (read-only, reader), fn (function), null"""

    def __init__(self, kind, name, size, reader=None, ro=False, align=1):
        self.kind = kind
        self.name = name
        self.size = size  # int or T(64)
        self.reader = reader
        self.ro = ro
        self.align = align
        _on[0] += 1
        self.id = _on[0]
        self._base = None

    def base(self):
        if self._base is None:
            if self.kind == 'null':
                self._base = const(0, 64)
            else:
                self._base = var('addr!%s!%d' % (self.name, self.id), 64)
                BASES[self._base] = self
        return self._base

    def sizet(self):
        return const(self.size, 64) if isinstance(self.size, int) else self.size


BASES = {}
NULL = Obj('null', 'null', 0)
NULLP = Ptr(NULL, const(0, 64))


def _base_facts(ts):
    """address-space facts for every object base occurring in a query"""
    bs = [v for v in tm.variables(ts) if v in BASES]
    if not bs:
        return []
    out = []
    lim = const((1 << 63) - 1, 64)
    for v in bs:
        o = BASES[v]
        s = o.sizet()
        out.append(ult(const(0, 64), v))
        out.append(ule(v, sub(const((1 << 63), 64), s)))
        if o.align > 1:
            out.append(eq(ext(v, 0, o.align.bit_length() - 1), const(0, o.align.bit_length() - 1)))
    for i in range(len(bs)):
        for j in range(i + 1, len(bs)):
            a, b = BASES[bs[i]], BASES[bs[j]]
            out.append(bor(ule(add(bs[i], a.sizet()), bs[j]), ule(add(bs[j], b.sizet()), bs[i])))
    return out


smt.fact_hooks.append(_base_facts)


class State:
    __slots__ = ('pc', 'pcs', 'env', 'mem', 'own', 'ev')

    def __init__(self):
        self.pc = ()
        self.pcs = frozenset()
        self.env = {}
        self.mem = {}
        self.own = set()
        self.ev = None

    def fork(self):
        s = State()
        s.pc = self.pc
        s.pcs = self.pcs
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.ev = self.ev
        return s

    def assume(self, t):
        if t is TRUE or t in self.pcs:
            return
        ts = t.a if t.op == 'and' and t.w == 1 else (t,)
        for x in ts:
            if x is not TRUE and x not in self.pcs:
                self.pc = self.pc + (x,)
                self.pcs = self.pcs | {x}

    def cells(self, o):
        return self.mem[o]

    def wcells(self, o):
        c = self.mem.get(o)
        if c is None:
            raise Unsupported('write to dead object ' + o.name)
        if o not in self.own:
            c = list(c)
            self.mem[o] = c
            self.own.add(o)
        return c

    def event(self, e):
        self.ev = (self.ev, e)


def merge_cell(c, x, y):
    if x is y or x == y:
        return x
    if x is None:
        return y     # undefined on one side: any value allowed
    if y is None:
        return x
    if isinstance(x, T) and isinstance(y, T):
        return ite(c, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[2] == y[2]:
        if x[0] == 'p':
            return ('p', merge_val(c, x[1], y[1]), x[2])
        if x[0] == 't':
            return ('t', ('ite', c, x[1], y[1]), x[2])
    return ('m', c, x, y)


def merge_val(c, x, y):
    if x is y or x == y:
        return x
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    if isinstance(x, T) and isinstance(y, T):
        return ite(c, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merge_val(c, a, b) for a, b in zip(x, y))
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj:
        return Ptr(x.obj, ite(c, x.off, y.off))
    if isinstance(x, (Ptr, PtrIte)) and isinstance(y, (Ptr, PtrIte)):
        return PtrIte(c, x, y)
    if isinstance(x, Tok) and isinstance(y, Tok) and x.k == y.k and x.n == y.n:
        return Tok(('ite', c, x.tok, y.tok), x.k, x.n)
    # lazily unusable value
    return ('bad-merge', c, x, y)


def merge2(a, b):
    n = 0
    pa, pb = a.pc, b.pc
    m = min(len(pa), len(pb))
    while n < m and pa[n] is pb[n]:
        n += 1
    ra, rb = pa[n:], pb[n:]
    ca = band(*ra) if ra else TRUE
    cb = band(*rb) if rb else TRUE
    s = State()
    s.pc = pa[:n]
    s.pcs = frozenset(s.pc)
    # choose merge condition
    c = ca
    if ca is TRUE and cb is TRUE:
        c = TRUE
    elif len(rb) < len(ra) or ca is TRUE:
        c = bnot(cb)
    s.assume(bor(ca, cb))
    env = dict(a.env)
    for k, v in b.env.items():
        u = env.get(k)
        if u is None:
            env[k] = v
        elif u is not v:
            env[k] = merge_val(c, u, v)
    s.env = env
    mem = dict(a.mem)
    for o, cb_ in b.mem.items():
        ca_ = mem.get(o)
        if ca_ is None:
            mem[o] = cb_
        elif ca_ is not cb_:
            mem[o] = [x if x is y else merge_cell(c, x, y) for x, y in zip(ca_, cb_)]
    s.mem = mem
    if a.ev is b.ev or a.ev == b.ev:
        s.ev = a.ev
    else:
        s.ev = ('ite', c, a.ev, b.ev)
    return s


def merge(sts):
    # merge neighbours with the longest common prefix first (stack discipline)
    sts = list(sts)
    while len(sts) > 1:
        best = None
        bl = -1
        for i in range(len(sts) - 1):
            pa, pb = sts[i].pc, sts[i + 1].pc
            n = 0
            m = min(len(pa), len(pb))
            while n < m and pa[n] is pb[n]:
                n += 1
            if n >= bl:
                bl = n
                best = i
        sts[best:best + 2] = [merge2(sts[best], sts[best + 1])]
    return sts[0]


# ------------------------------------------------------------------ control-flow structure
def succs(insts):
    t = insts[-1]
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [l for _, l in t.a[2]]
    return []


def wto(nodes, edges, entry):
    """list of items: label or ('loop', header, [items], set(nodes))"""
    nodes = set(nodes)
    idx = {}
    low = {}
    st = []
    on = set()
    comps = []
    cnt = [0]

    def strong(v0):
        work = [(v0, iter(edges[v0]))]
        idx[v0] = low[v0] = cnt[0]
        cnt[0] += 1
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            adv = False
            for u in it:
                if u not in nodes:
                    continue
                if u not in idx:
                    idx[u] = low[u] = cnt[0]
                    cnt[0] += 1
                    st.append(u)
                    on.add(u)
                    work.append((u, iter(edges[u])))
                    adv = True
                    break
                elif u in on:
                    low[v] = min(low[v], idx[u])
            if adv:
                continue
            work.pop()
            if work:
                w = work[-1][0]
                low[w] = min(low[w], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    u = st.pop()
                    on.discard(u)
                    c.append(u)
                    if u == v:
                        break
                comps.append(c)

    if entry in nodes:
        strong(entry)
    comps.reverse()
    out = []
    for c in comps:
        if len(c) == 1 and c[0] not in edges[c[0]]:
            out.append(c[0])
            continue
        cs = set(c)
        heads = set()
        for v in nodes | {entry}:
            if v in cs:
                continue
            for u in edges.get(v, ()):
                if u in cs and v in idx:
                    heads.add(u)
        if entry in cs:
            heads.add(entry)
        # heads reached from outside the node set (nested loops): give the one reached first
        if len(heads) != 1:
            raise Unsupported('irreducible control flow')
        h = heads.pop()
        e2 = {v: [u for u in edges[v] if u in cs and u != h] for v in cs}
        inner = wto2(cs, e2, h)
        out.append(('loop', h, inner, cs))
    return out


def wto2(cs, e2, h):
    # e2 has no edges into h; compute components starting at h
    return wto(cs, e2, h)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.rets = []
        self.allocas = []


class Obligation:
    __slots__ = ('kind', 'where', 'status', 'pc', 'goal', 'note')

    def __init__(self, kind, where, status, pc, goal, note=''):
        self.kind, self.where, self.status, self.pc, self.goal, self.note = kind, where, status, pc, goal, note


def solved(pc):
    """substitution from equalities in the path condition (variable = term not containing it)"""
    m = {}
    for t in pc:
        if t.op != 'eq' or t.a[0].w < 2:
            continue
        d = sub(t.a[0], t.a[1])
        if m:
            d = tm.subst([d], m)[0]
        if d.op == 'v':
            cand, e = d, const(0, d.w)
        elif d.op == 'add':
            cand = None
            full = (1 << d.w) - 1
            for u, k in d.a[1]:
                if u.op == 'v' and k in (1, full):
                    rest = sub(d, u) if k == 1 else add(d, u)
                    if u in tm.variables([rest]):
                        continue
                    cand = u
                    e = tm.neg(rest) if k == 1 else rest
                    break
            if cand is None:
                continue
        else:
            continue
        if m:
            for k in list(m):
                m[k] = tm.subst([m[k]], {cand: e})[0]
        m[cand] = e
    return m


def solve_eqs(pc, g):
    m = solved(pc)
    if not m:
        return pc, g
    return pc, tm.subst([g], m)[0]


ADDRW = 64


class Exec:
    def __init__(self, mod):
        self.mod = mod
        self.ty = mod.types
        self.globs = {}
        self.obs = []          # obligations
        self.record = True
        self.contracts = []    # list of (predicate(dem), handler)
        self.stack = []
        self.loop_hook = None
        self.trace_hook = None  # called with ('br', cond) / ('addr', ptr)
        self.max_unroll = 700
        self.assumptions = set()
        self.functions = set()
        self.used_contracts = set()
        self.timeout = 20000
        self.steps = 0
        self.step_limit = 3_000_000
        self.havoc_loads = {}
        self.loop_log = []

    # ---------------------------------------------------------------- obligations
    def where(self):
        return ' < '.join(self.stack[::-1][:3])

    def oblige(self, st, goal, kind, note=''):
        """obligation pc |= goal. Returns True if proved."""
        if goal is TRUE:
            if self.record:
                self.obs.append(Obligation(kind, self.where(), 'proved', None, None, note))
            return True
        r = smt.prove(st.pc, goal, self.timeout)
        if self.record:
            self.obs.append(Obligation(kind, self.where(), r, st.pc if r != 'proved' else None,
                                       goal if r != 'proved' else None, note))
        return r == 'proved'

    def goal(self, st, g, kind, note=''):
        if not self.record:
            return True
        if g is not TRUE:
            hyps, g2 = solve_eqs(st.pc, g)
            if g2 is TRUE:
                g = TRUE
        return self.oblige(st, g, kind, note)

    def goals(self, st, gs, kind):
        """many goals at once: [(note, goal)]"""
        if not self.record:
            return True
        rest = []
        m = solved(st.pc)
        for note, g in gs:
            if g is not TRUE and m:
                g = tm.subst([g], m)[0]
            if g is TRUE:
                if self.record:
                    self.obs.append(Obligation(kind, self.where(), 'proved', None, None, note))
            else:
                rest.append((note, g))
        ok = True
        for i in range(0, len(rest), 16):
            part = rest[i:i + 16]
            if len(part) > 1 and smt.prove(st.pc, band(*[g for _, g in part]), self.timeout) == 'proved':
                if self.record:
                    for note, g in part:
                        self.obs.append(Obligation(kind, self.where(), 'proved', None, None, note))
                continue
            for note, g in part:
                ok = self.oblige(st, g, kind, note) and ok
        return ok

    def feasible(self, st, c):
        if c is TRUE or c in st.pcs:
            return True
        if c is FALSE or bnot(c) in st.pcs:
            return False
        return smt.check(list(st.pc) + [c], self.timeout) != 'unsat'

    # ---------------------------------------------------------------- objects
    def new_mem(self, st, name, size, cells=None, ro=False, align=1):
        o = Obj('mem', name, size, ro=ro, align=align)
        st.mem[o] = list(cells) if cells is not None else [None] * size
        st.own.add(o)
        return o

    def global_ptr(self, st, name):
        if name in self.mod.fns or name in self.mod.decls:
            o = self.globs.get(name)
            if o is None:
                o = Obj('fn', name, 0)
                self.globs[name] = o
            return Ptr(o, const(0, 64))
        o = self.globs.get(name)
        if o is None:
            t, init, isconst = self.mod.glob(name)
            size = self.ty.size(t)
            if init is None or not isconst:
                o = Obj('extern', name, size, ro=False, align=8)
                self.globs[name] = o
            else:
                o = Obj('mem', name, size, ro=True, align=self.ty.align(t))
                self.globs[name] = o
                o.cells = [None] * size
                self.init_const(st, o.cells, 0, t, init)
        return Ptr(o, const(0, 64))

    def init_const(self, st, cells, off, t, op):
        t = self.ty.resolve(t)
        k = op[0]
        n = self.ty.size(t)
        if k == 'zero' or k == 'null':
            for i in range(n):
                cells[off + i] = const(0, 8)
        elif k == 'undef':
            return
        elif k == 'bytes':
            for i, b in enumerate(op[1]):
                cells[off + i] = const(b, 8)
        elif k == 'int':
            for i in range(n):
                cells[off + i] = const(op[1] >> (8 * i), 8)
        elif k == 'g' or k == 'ce':
            p = self.val(st, t, op)
            for i in range(8):
                cells[off + i] = ('p', p, i) if isinstance(p, (Ptr, PtrIte)) else ext(p, 8 * i, 8)
        elif k == 'agg':
            if t[0] == 's':
                offs, _ = self.ty.layout(t)
                for o, (et, e) in zip(offs, op[1]):
                    self.init_const(st, cells, off + o, et, e)
            else:
                es = self.ty.size(t[2])
                for i, (et, e) in enumerate(op[1]):
                    self.init_const(st, cells, off + i * es, et, e)
        elif k == 'splat':
            es = self.ty.size(op[1])
            for i in range(t[1]):
                self.init_const(st, cells, off + i * es, op[1], op[2])
        else:
            raise Unsupported('const init ' + k)

    def getcells(self, st, o):
        if o.ro and hasattr(o, 'cells'):
            return o.cells
        c = st.mem.get(o)
        if c is None:
            raise Unsupported('access to dead object ' + o.name)
        return c

    # ---------------------------------------------------------------- values
    def val(self, st, t, op):
        k = op[0]
        if k == 'l':
            v = st.env.get(op[1])
            if v is None:
                raise Unsupported('undefined local %' + op[1])
            return v
        t = self.ty.resolve(t)
        if k == 'int':
            return const(op[1], t[1])
        if k == 'g':
            return self.global_ptr(st, op[1])
        if k == 'null':
            return NULLP
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            vs = [self.val(st, et, e) for et, e in op[1]]
            if t[0] == 'v':
                return cat([self.asint(st, v) for v in reversed(vs)])
            return tuple(vs)
        if k == 'splat':
            v = self.val(st, op[1], op[2])
            return cat([v] * t[1])
        if k == 'bytes':
            return tuple(const(b, 8) for b in op[1])
        if k == 'ce':
            if op[1] == 'getelementptr':
                b = self.val(st, 'ptr', op[3][0][1])
                return self.gep(st, op[2], b, op[3][1:])
            if op[1] == 'inttoptr':
                return self.inttoptr(st, self.val(st, op[2], op[3]))
            if op[1] in ('ptrtoint', 'ptrtoaddr'):
                return self.addr(st, self.val(st, op[2], op[3]))
        raise Unsupported('operand %r' % (op,))

    def undef(self, t):
        if t == 'ptr':
            return UNDEF
        if t[0] in ('i', 'v'):
            return fresh('undef', self.ty.bits(t))
        if t[0] == 's':
            return tuple(self.undef(self.ty.resolve(x)) if True else None for x in t[2])
        if t[0] == 'a':
            return tuple(self.undef(self.ty.resolve(t[2])) for _ in range(t[1]))
        return UNDEF

    def zero(self, t):
        if t == 'ptr':
            return NULLP
        if t[0] in ('i', 'v'):
            return const(0, self.ty.bits(t))
        if t[0] == 's':
            return tuple(self.zero(self.ty.resolve(x)) for x in t[2])
        if t[0] == 'a':
            return tuple(self.zero(self.ty.resolve(t[2])) for _ in range(t[1]))
        raise Unsupported('zero')

    def addr(self, st, p):
        if isinstance(p, T):
            return p
        if isinstance(p, Ptr):
            return add(p.obj.base(), p.off)
        if isinstance(p, PtrIte):
            return ite(p.c, self.addr(st, p.x), self.addr(st, p.y))
        if p is UNDEF:
            return fresh('undef', 64)
        raise Unsupported('address of %r' % (p,))

    def asint(self, st, v):
        if isinstance(v, T):
            return v
        if isinstance(v, (Ptr, PtrIte)):
            return self.addr(st, v)
        if v is UNDEF:
            raise Unsupported('use of undef')
        if isinstance(v, Mixed):
            out = []
            for c in v.cells:
                out.append(self.cellint(st, c))
            return cat(list(reversed(out)))
        raise Unsupported('integer use of opaque value')

    def cellint(self, st, c):
        if isinstance(c, T):
            return c
        if c is None:
            return fresh('uninit', 8)
        if c[0] == 'p':
            return ext(self.addr(st, c[1]), 8 * c[2], 8)
        if c[0] == 'm':
            return ite(c[1], self.cellint(st, c[2]), self.cellint(st, c[3]))
        raise Unsupported('integer use of opaque bytes')

    def inttoptr(self, st, v):
        if isinstance(v, (Ptr, PtrIte)):
            return v
        if isc(v):
            if v.a == 0:
                return NULLP
            return Ptr(NULL, v)  # dangling
        # base + off ?
        if v.op == 'v' and v in BASES:
            return Ptr(BASES[v], const(0, 64))
        if v.op == 'add':
            for t, k in v.a[1]:
                if t in BASES and k == 1:
                    return Ptr(BASES[t], sub(v, t))
        if v.op == 'ite':
            return merge_val(v.a[0], self.inttoptr(st, v.a[1]), self.inttoptr(st, v.a[2]))
        return Ptr(NULL, v)   # an integer in pointer clothing: not dereferenceable here

    def gep(self, st, t, base, idx):
        off = const(0, 64)
        first = True
        cur = t
        for it, io in idx:
            v = self.val(st, it, io)
            v = self.asint(st, v)
            if v.w < 64:
                v = sext(v, 64)
            cur = self.ty.resolve(cur)
            if first:
                off = add(off, mul(v, const(self.ty.size(cur), 64)))
                first = False
            elif cur[0] == 's':
                offs, _ = self.ty.layout(cur)
                off = add(off, const(offs[v.a], 64))
                cur = cur[2][v.a]
            else:
                cur = cur[2]
                off = add(off, mul(v, const(self.ty.size(cur), 64)))
        return self.padd(base, off)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.obj, add(p.off, off))
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.x, off), self.padd(p.y, off))
        if p is UNDEF:
            return p
        raise Unsupported('gep on %r' % (p,))

    # ---------------------------------------------------------------- memory
    def bound(self, st, p, n, kind):
        """n: int or T. obligation [off, off+n) within object"""
        o = p.obj
        nt = const(n, 64) if isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return True
        size = o.sizet()
        if o.kind == 'null' and not isc(p.off):
            raise Unsupported('access through an integer address')
        if o.kind == 'null':
            g = eq(nt, const(0, 64))
        elif isc(p.off) and isc(nt) and isc(size):
            g = TRUE if p.off.a + nt.a <= size.a else FALSE
        else:
            g = band(ule(p.off, size), ule(nt, sub(size, p.off)))
        return self.oblige(st, g, kind)

    def load_cells(self, st, p, n):
        if isinstance(p, PtrIte):
            for c, x, y in ((p.c, p.x, p.y), (bnot(p.c), p.y, p.x)):
                if n and isinstance(x, Ptr) and x.obj is NULL:
                    self.oblige(st, bnot(c), 'load in bounds')
                    st.assume(bnot(c))
                    return self.load_cells(st, y, n)
            a = self.load_cells(self.sub(st, p.c), p.x, n)
            b = self.load_cells(self.sub(st, bnot(p.c)), p.y, n)
            return [merge_cell(p.c, x, y) for x, y in zip(a, b)]
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if self.trace_hook:
            self.trace_hook(self, st, 'addr', p.off)
        if self.ctrace is not None:
            self.ctrace.append((p.obj.name, p.off.a if isc(p.off) else None))
        o = p.obj
        if not self.bound(st, p, n, 'load in bounds'):
            return [fresh('oob', 8) for _ in range(n)]
        if o.kind == 'fun':
            return [o.reader(st, add(p.off, const(i, 64))) for i in range(n)]
        if o.kind == 'arr':
            return o.reader(self, st, p.off, n)
        if o.kind == 'extern':
            return self.extern_load(st, o, p, n)
        if o.kind != 'mem':
            raise Unsupported('load from ' + o.kind)
        cells = self.getcells(st, o)
        if isc(p.off):
            return list(cells[p.off.a:p.off.a + n])
        return self.mux(st, cells, p.off, n)

    def sub(self, st, c):
        s = State()
        s.pc, s.pcs, s.env, s.mem, s.ev = st.pc, st.pcs, st.env, st.mem, st.ev
        s.assume(c)
        return s

    def extern_load(self, st, o, p, n):
        self.assumptions.add('external global %s: arbitrary value on every read' % self.mod.dem.get(o.name, o.name)[:80])
        return [fresh('extern', 8) for _ in range(n)]

    def offsets(self, st, off, lo, hi):
        """candidate concrete values of off in [lo,hi] (pruned by z3)"""
        l, h = rng(off)
        lo, hi = max(lo, l), min(hi, h)
        if hi - lo > 64:
            # tighten with the solver
            lo = self.bsearch_min(st, off, lo, hi)
            hi = self.bsearch_max(st, off, lo, hi)
        out = []
        for k in range(lo, hi + 1):
            e = eq(off, const(k, 64))
            if e is FALSE or bnot(e) in st.pcs:
                continue
            out.append((k, e))
        return out

    def bsearch_max(self, st, t, lo, hi):
        """smallest upper bound of t in [lo,hi] under pc (t assumed <= hi)"""
        while lo < hi:
            mid = (lo + hi) // 2
            if smt.prove(st.pc, ule(t, const(mid, t.w)), 5000) == 'proved':
                hi = mid
            else:
                lo = mid + 1
        return hi

    def bsearch_min(self, st, t, lo, hi):
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if smt.prove(st.pc, ule(const(mid, t.w), t), 5000) == 'proved':
                lo = mid
            else:
                hi = mid - 1
        return lo

    def mux(self, st, cells, off, n):
        cand = self.offsets(st, off, 0, len(cells) - n)
        if not cand:
            raise Unsupported('no feasible offset')
        if len(cand) > 300:
            raise Unsupported('symbolic offset range too large')
        res = None
        for k, e in reversed(cand):
            cs = cells[k:k + n]
            if res is None:
                res = list(cs)
            else:
                res = [merge_cell(e, x, y) for x, y in zip(cs, res)]
        return res

    def from_cells(self, st, t, cs):
        t = self.ty.resolve(t)
        if t == 'ptr':
            c0 = cs[0]
            if isinstance(c0, tuple) and c0[0] == 'p' and c0[2] == 0 and all(
                    isinstance(c, tuple) and c[0] == 'p' and c[2] == i and c[1] == c0[1] for i, c in enumerate(cs)):
                return c0[1]
            if all(isinstance(c, T) for c in cs):
                return self.inttoptr(st, cat(list(reversed(cs))))
            if all(c is None for c in cs):
                return UNDEF
            if all(isinstance(c, tuple) and c[0] == 'm' and c[1] is c0[1] for c in cs):
                return merge_val(c0[1], self.from_cells(st, t, [c[2] for c in cs]), self.from_cells(st, t, [c[3] for c in cs]))
            return Mixed(cs)
        if t[0] in ('i', 'v'):
            bits = self.ty.bits(t)
            if all(isinstance(c, T) for c in cs):
                v = cat(list(reversed(cs)))
                return ext(v, 0, bits) if v.w != bits else v
            c0 = cs[0]
            if isinstance(c0, tuple) and c0[0] == 't' and all(
                    isinstance(c, tuple) and c[0] == 't' and c[1] == c0[1] and c[2] == c0[2] + i for i, c in enumerate(cs)):
                return Tok(c0[1], c0[2], len(cs))
            if isinstance(c0, tuple) and c0[0] == 'p' and c0[2] == 0 and len(cs) == 8 and all(
                    isinstance(c, tuple) and c[0] == 'p' and c[2] == i and c[1] == c0[1] for i, c in enumerate(cs)):
                return self.addr(st, c0[1])
            return Mixed(cs)
        if t[0] == 's':
            offs, _ = self.ty.layout(t)
            return tuple(self.from_cells(st, x, cs[o:o + self.ty.size(x)]) for o, x in zip(offs, t[2]))
        if t[0] == 'a':
            n = self.ty.size(t[2])
            return tuple(self.from_cells(st, t[2], cs[i * n:(i + 1) * n]) for i in range(t[1]))
        raise Unsupported('load type')

    def ssize(self, t):
        """bytes a load or store of the type touches"""
        t = self.ty.resolve(t)
        return (t[1] + 7) // 8 if t != 'ptr' and t[0] == 'i' else self.ty.size(t)

    def to_cells(self, st, t, v):
        t = self.ty.resolve(t)
        n = self.ssize(t)
        if v is UNDEF:
            return [None] * n
        if isinstance(v, Mixed):
            return list(v.cells)
        if isinstance(v, Tok):
            return [('t', v.tok, v.k + i) for i in range(v.n)]
        if t == 'ptr':
            if isinstance(v, T):
                return [ext(v, 8 * i, 8) for i in range(8)]
            if isinstance(v, Ptr) and v.obj is NULL:
                return [ext(v.off, 8 * i, 8) for i in range(8)]
            return [('p', v, i) for i in range(8)]
        if t[0] in ('i', 'v'):
            if isinstance(v, (Ptr, PtrIte)):
                return [('p', v, i) for i in range(8)]
            if not isinstance(v, T):
                raise Unsupported('store of %r' % (v,))
            if v.w < 8 * n:
                v = zext(v, 8 * n)
            return [ext(v, 8 * i, 8) for i in range(n)]
        out = [None] * n
        if t[0] == 's':
            offs, _ = self.ty.layout(t)
            for o, x, e in zip(offs, t[2], v):
                cs = self.to_cells(st, x, e)
                out[o:o + len(cs)] = cs
        else:
            es = self.ty.size(t[2])
            for i, e in enumerate(v):
                cs = self.to_cells(st, t[2], e)
                out[i * es:i * es + len(cs)] = cs
        return out

    def store_cells(self, st, p, cs):
        if isinstance(p, PtrIte):
            for c, q in ((p.c, p.x), (bnot(p.c), p.y)):
                self.store_guarded(st, c, q, cs)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if self.trace_hook:
            self.trace_hook(self, st, 'addr', p.off)
        if self.ctrace is not None:
            self.ctrace.append((p.obj.name, p.off.a if isc(p.off) else None))
        o = p.obj
        if not self.bound(st, p, len(cs), 'store in bounds'):
            return
        if o.kind != 'mem' or o.ro:
            if len(cs) == 0:
                return
            self.oblige(st, FALSE, 'store to writable memory')
            return
        w = st.wcells(o)
        if isc(p.off):
            w[p.off.a:p.off.a + len(cs)] = cs
            return
        cand = self.offsets(st, p.off, 0, len(w) - len(cs))
        if len(cand) > 300:
            raise Unsupported('symbolic store range')
        new = list(w)
        for k, e in cand:
            for i, c in enumerate(cs):
                new[k + i] = merge_cell(e, c, new[k + i]) if new[k + i] is not None or True else c
        w[:] = new

    def store_guarded(self, st, c, p, cs):
        s = self.sub(st, c)
        if not isinstance(p, Ptr):
            raise Unsupported('nested pointer choice')
        if not self.bound(s, p, len(cs), 'store in bounds'):
            return
        if p.obj.kind != 'mem' or p.obj.ro or not isc(p.off):
            raise Unsupported('guarded store')
        w = st.wcells(p.obj)
        k = p.off.a
        for i, x in enumerate(cs):
            w[k + i] = merge_cell(c, x, w[k + i])

    def memcpy(self, st, d, s, n, overlap=False):
        if isc(n):
            if n.a == 0:
                return
            if n.a > 70000:
                raise Unsupported('huge memcpy')
            cs = self.load_cells(st, s, n.a)
            self.store_cells(st, d, cs)
            return
        if isinstance(s, PtrIte) or isinstance(d, PtrIte):
            if isinstance(s, PtrIte):
                # resolve by condition if decided
                r = self.pick(st, s)
                return self.memcpy(st, d, r, n)
            return self.memcpy(st, self.pick(st, d), s, n)
        if self.trace_hook:
            self.trace_hook(self, st, 'addr', s.off)
            self.trace_hook(self, st, 'addr', d.off)
            self.trace_hook(self, st, 'addr', n)
        okd = self.bound(st, d, n, 'memcpy destination in bounds')
        oks = self.bound(st, s, n, 'memcpy source in bounds')
        if not (okd and oks):
            return
        o = d.obj
        if o.kind == 'null':
            return
        if o.kind != 'mem' or o.ro:
            self.oblige(st, eq(n, const(0, 64)), 'memcpy to writable memory')
            return
        w = st.wcells(o)
        size = len(w)
        lo = self.bsearch_min(st, d.off, rng(d.off)[0] if rng(d.off)[0] <= size else 0, size) if not isc(d.off) else d.off.a
        end = add(d.off, n)
        hi = self.bsearch_max(st, end, lo, size)
        so = s.obj
        scells = self.getcells(st, so) if so.kind == 'mem' else None
        new = list(w)
        for j in range(lo, hi):
            jj = const(j, 64)
            c = band(ule(d.off, jj), ult(jj, end))
            if c is FALSE:
                continue
            so_off = add(s.off, sub(jj, d.off))
            if so.kind == 'fun':
                v = so.reader(st, so_off)
            elif so.kind == 'mem':
                if isc(so_off):
                    if not (0 <= so_off.a < len(scells)):
                        continue
                    v = scells[so_off.a]
                else:
                    v = self.mux1(st, scells, so_off, c)
            elif so.kind == 'null':
                continue
            else:
                raise Unsupported('memcpy from ' + so.kind)
            new[j] = merge_cell(c, v, new[j])
        w[:] = new

    def mux1(self, st, cells, off, guard):
        vals = set(map(id, cells))
        if len(vals) == 1:
            return cells[0]
        l, h = rng(off)
        res = None
        for k in range(min(h, len(cells) - 1), max(l, 0) - 1, -1):
            e = eq(off, const(k, 64))
            if e is FALSE:
                continue
            res = cells[k] if res is None else merge_cell(e, cells[k], res)
        if res is None:
            return fresh('oob', 8)
        return res

    def pick(self, st, p):
        if isinstance(p, PtrIte):
            if not self.feasible(st, p.c):
                return self.pick(st, p.y)
            if not self.feasible(st, bnot(p.c)):
                return self.pick(st, p.x)
            raise Unsupported('pointer choice')
        return p

    def memset(self, st, d, v, n):
        if isc(n):
            if n.a == 0:
                return
            self.store_cells(st, d, [v] * n.a)
            return
        d = self.pick(st, d)
        if not self.bound(st, d, n, 'memset in bounds'):
            return
        if d.obj.kind != 'mem':
            raise Unsupported('memset')
        w = st.wcells(d.obj)
        end = add(d.off, n)
        hi = self.bsearch_max(st, end, 0, len(w))
        for j in range(0, hi):
            c = band(ule(d.off, const(j, 64)), ult(const(j, 64), end))
            if c is not FALSE:
                w[j] = merge_cell(c, v, w[j])

    # ---------------------------------------------------------------- functions
    def cfg(self, f):
        c = getattr(f, 'cfg', None)
        if c is None:
            edges = {l: succs(f.blocks[l]) for l in f.order}
            c = wto(f.order, edges, f.entry)
            f.cfg = c
        return c

    def call_fn(self, st, name, args):
        f = self.mod.fn(name)
        if len(self.stack) > 40:
            raise Unsupported('recursion depth')
        self.functions.add(f.dem)
        self.stack.append(f.dem)
        try:
            fr = Frame(f)
            saved = st.env
            st.env = {}
            for (t, n, at), a in zip(f.params, args):
                st.env[n] = a
            self.run_items(fr, self.cfg(f), {f.entry: [(st, None)]}, None)
            rets = fr.rets
            if not rets:
                return None
            for s, v in rets:
                s.env = {'__ret': v} if v is not None else {}
            s = merge([s for s, _ in rets])
            v = s.env.get('__ret')
            s.env = saved
            for o in fr.allocas:
                if o in s.mem:
                    del s.mem[o]
            return s, v
        finally:
            self.stack.pop()

    def run_items(self, fr, items, pending, loopctx):
        for it in items:
            if isinstance(it, tuple):
                inc = pending.pop(it[1], None)
                if inc:
                    self.run_loop(fr, it, inc, pending)
            else:
                inc = pending.pop(it, None)
                if inc:
                    self.run_block(fr, it, inc, pending)

    def enter(self, fr, label, inc):
        """apply phis for each incoming (state, pred), then merge"""
        insts = fr.fn.blocks[label]
        phis = [i for i in insts if i.op == 'phi']
        if phis:
            for st, pred in inc:
                vals = [self.known(st, self.val(st, i.ty, i.a[pred])) for i in phis]
                for i, v in zip(phis, vals):
                    st.env[i.dst] = v
        return merge([s for s, _ in inc])

    def known(self, st, v):
        """drop the choices the path condition already decides"""
        while isinstance(v, T) and v.op == 'ite':
            if v.a[0] in st.pcs:
                v = v.a[1]
            elif bnot(v.a[0]) in st.pcs:
                v = v.a[2]
            else:
                break
        while isinstance(v, PtrIte):
            if v.c in st.pcs:
                v = v.x
            elif bnot(v.c) in st.pcs:
                v = v.y
            else:
                break
        if isinstance(v, Ptr):
            off = self.known(st, v.off)
            if off is not v.off:
                v = Ptr(v.obj, off)
        return v

    def run_block(self, fr, label, inc, pending):
        if inc[0][1] == '__entered':
            st = inc[0][0]
        else:
            st = self.enter(fr, label, inc)
        if self.ctrace is not None:
            self.ctrace.append((fr.fn.name, label))
        insts = fr.fn.blocks[label]
        n = len(insts)
        i = 0
        while i < n and insts[i].op == 'phi':
            i += 1
        while i < n:
            ins = insts[i]
            self.steps += 1
            if self.steps > self.step_limit:
                raise Unsupported('step limit')
            op = ins.op
            if op == 'br':
                pending.setdefault(ins.a[0], []).append((st, label))
                return
            if op == 'condbr':
                c = self.asint(st, self.val(st, ('i', 1), ins.a[0]))
                self.branch(st, [(c, ins.a[1]), (bnot(c), ins.a[2])], label, pending)
                return
            if op == 'switch':
                v = self.asint(st, self.val(st, ins.ty, ins.a[0]))
                tg = {}
                order = []
                rest = TRUE
                for k, l in ins.a[2]:
                    e = eq(v, const(k, v.w))
                    if l not in tg:
                        tg[l] = FALSE
                        order.append(l)
                    tg[l] = bor(tg[l], e)
                    rest = band(rest, bnot(e))
                if ins.a[1] not in tg:
                    tg[ins.a[1]] = FALSE
                    order.append(ins.a[1])
                tg[ins.a[1]] = bor(tg[ins.a[1]], rest)
                self.branch(st, [(tg[l], l) for l in order], label, pending)
                return
            if op == 'ret':
                v = None if ins.a is None else self.val(st, ins.ty, ins.a)
                fr.rets.append((st, v))
                return
            if op == 'unreachable':
                self.oblige(st, FALSE, 'unreachable code not reached')
                return
            if op == 'call':
                r = self.call(fr, st, ins)
                if r is None:
                    return
                st = r
            else:
                self.step(fr, st, ins)
            i += 1
        raise Unsupported('fell off block')

    def branch(self, st, targets, label, pending):
        live = []
        for c, l in targets:
            if c is TRUE:
                live = [(c, l)]
                break
            if c is FALSE:
                continue
            live.append((c, l))
        if self.trace_hook and len(live) > 1:
            for c, l in live:
                self.trace_hook(self, st, 'br', c)
        if len(live) > 1:
            live2 = []
            for c, l in live:
                if self.feasible(st, c):
                    live2.append((c, l))
            live = live2
        if len(live) == 0:
            return
        if len(live) == 1:
            pending.setdefault(live[0][1], []).append((st, label))
            return
        for k, (c, l) in enumerate(live):
            s = st.fork()
            s.assume(c)
            pending.setdefault(l, []).append((s, label))

    def run_loop(self, fr, it, inc, pending):
        _, h, items, nodes = it
        if self.loop_hook is not None:
            r = self.loop_hook(self, fr, it, inc)
            if r is not None:
                for l, lst in r.items():
                    pending.setdefault(l, []).extend(lst)
                return
        self.unroll(fr, it, inc, pending)

    def unroll(self, fr, it, inc, pending, limit=None):
        _, h, items, nodes = it
        limit = limit or self.max_unroll
        k = 0
        cur = inc
        while cur:
            k += 1
            if k > limit:
                raise Unsupported('loop not bounded by %d iterations in %s' % (limit, fr.fn.dem[:80]))
            local = {h: cur}
            self.run_items(fr, items, local, None)
            cur = local.pop(h, None)
            for l, lst in local.items():
                pending.setdefault(l, []).extend(lst)

    # ---------------------------------------------------------------- instructions
    def lanes(self, t):
        t = self.ty.resolve(t)
        if t != 'ptr' and t[0] == 'v':
            return t[1], self.ty.bits(t[2])
        return None

    def step(self, fr, st, i):
        op = i.op
        env = st.env
        if op == 'bin':
            a = self.asint(st, self.val(st, i.ty, i.a[1]))
            b = self.asint(st, self.val(st, i.ty, i.a[2]))
            ln = self.lanes(i.ty)
            if ln:
                k, w = ln
                if i.a[0] in ('and', 'or', 'xor'):
                    env[i.dst] = self.binop(i.a[0], a, b)
                else:
                    env[i.dst] = cat([self.binop(i.a[0], ext(a, j * w, w), ext(b, j * w, w)) for j in reversed(range(k))])
            else:
                env[i.dst] = self.binop(i.a[0], a, b, st)
        elif op == 'icmp':
            env[i.dst] = self.icmp(st, i)
        elif op == 'cast':
            env[i.dst] = self.cast(st, i)
        elif op == 'select':
            ct, c, a, b = i.a
            cv = self.asint(st, self.val(st, ct, c))
            x = self.val(st, i.ty, a)
            y = self.val(st, i.ty, b)
            ln = self.lanes(ct)
            if ln:
                k, _ = ln
                w = x.w // k
                env[i.dst] = cat([ite(ext(cv, j, 1), ext(x, j * w, w), ext(y, j * w, w)) for j in reversed(range(k))])
            else:
                if cv in st.pcs:
                    cv = TRUE
                elif bnot(cv) in st.pcs:
                    cv = FALSE
                env[i.dst] = x if cv is TRUE else y if cv is FALSE else merge_val(cv, x, y)
        elif op == 'alloca':
            n, al = i.a
            size = self.ty.size(i.ty) * n
            o = self.new_mem(st, i.dst, size, align=al)
            fr.allocas.append(o)
            env[i.dst] = Ptr(o, const(0, 64))
        elif op == 'load':
            p = self.val(st, 'ptr', i.a[0])
            n = self.ssize(i.ty)
            cs = self.load_cells(st, p, n)
            env[i.dst] = self.from_cells(st, i.ty, cs)
        elif op == 'store':
            v = self.val(st, i.ty, i.a[0])
            p = self.val(st, 'ptr', i.a[1])
            self.store_cells(st, p, self.to_cells(st, i.ty, v))
        elif op == 'gep':
            b = self.val(st, 'ptr', i.a[0])
            env[i.dst] = self.gep(st, i.ty, b, i.a[1])
        elif op == 'extractvalue':
            v = self.val(st, i.ty, i.a[0])
            for k in i.a[1]:
                v = v[k]
            env[i.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, i.ty, i.a[0])
            u = self.val(st, i.a[1], i.a[2])
            env[i.dst] = self.insert(v, i.a[3], u)
        elif op == 'freeze':
            env[i.dst] = self.val(st, i.ty, i.a[0])
        elif op == 'extractelement':
            v = self.val(st, i.ty, i.a[0])
            k, w = self.lanes(i.ty)
            ix = self.val(st, ('i', 64), i.a[1])
            if not isc(ix):
                raise Unsupported('extractelement')
            env[i.dst] = ext(v, ix.a * w, w)
        elif op == 'insertelement':
            v = self.val(st, i.ty, i.a[0])
            k, w = self.lanes(i.ty)
            e = self.val(st, self.ty.resolve(i.ty)[2], i.a[1])
            ix = self.val(st, ('i', 64), i.a[2])
            if not isc(ix):
                raise Unsupported('insertelement')
            env[i.dst] = cat([e if j == ix.a else ext(v, j * w, w) for j in reversed(range(k))])
        elif op == 'shufflevector':
            a = self.val(st, i.ty, i.a[0])
            b = self.val(st, i.ty, i.a[1])
            k, w = self.lanes(i.ty)
            mt, m = i.a[2], i.a[3]
            mn = self.ty.resolve(mt)[1]
            if m[0] == 'zero':
                ms = [0] * mn
            elif m[0] == 'undef':
                ms = [None] * mn
            elif m[0] == 'splat':
                ms = [m[2][1]] * mn
            else:
                ms = [e[1] if e[0] == 'int' else None for _, e in m[1]]
            parts = []
            for x in ms:
                if x is None:
                    parts.append(fresh('undef', w))
                elif x < k:
                    parts.append(ext(a, x * w, w))
                else:
                    parts.append(ext(b, (x - k) * w, w))
            env[i.dst] = cat(list(reversed(parts)))
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction: ' + i.text.strip()[:100])

    def insert(self, v, ix, u):
        if not ix:
            return u
        l = list(v) if isinstance(v, tuple) else None
        if l is None:
            raise Unsupported('insertvalue')
        l[ix[0]] = self.insert(l[ix[0]], ix[1:], u)
        return tuple(l)

    def binop(self, op, a, b, st=None):
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op == 'and':
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op == 'xor':
            return bxor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if not isc(b) and st is not None:
                l, h = rng(b)
                if h >= a.w:
                    self.oblige(st, ult(b, const(a.w, b.w)), 'shift amount in range')
            return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b)
        if op == 'udiv' or op == 'urem':
            if not isc(b):
                if st is None:
                    raise Unsupported('vector division')
                self.oblige(st, ne(b, const(0, b.w)), 'divisor non-zero')
            return udiv(a, b) if op == 'udiv' else urem(a, b)
        if op in ('sdiv', 'srem') and isc(a) and isc(b) and b.a:
            w = a.w
            x = a.a - (1 << w) if a.a >> (w - 1) else a.a
            y = b.a - (1 << w) if b.a >> (w - 1) else b.a
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return const(q if op == 'sdiv' else x - q * y, w)
        raise Unsupported('binop ' + op)

    def icmp(self, st, i):
        pr, ao, bo = i.a
        a = self.val(st, i.ty, ao)
        b = self.val(st, i.ty, bo)
        ln = self.lanes(i.ty)
        if ln:
            k, w = ln
            return cat([self.cmp(pr, ext(a, j * w, w), ext(b, j * w, w)) for j in reversed(range(k))])
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            return self.pcmp(st, pr, a, b)
        return self.cmp(pr, self.asint(st, a), self.asint(st, b))

    def pcmp(self, st, pr, a, b):
        if isinstance(a, PtrIte):
            return ite(a.c, self.pcmp(st, pr, a.x, b), self.pcmp(st, pr, a.y, b))
        if isinstance(b, PtrIte):
            return ite(b.c, self.pcmp(st, pr, a, b.x), self.pcmp(st, pr, a, b.y))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                # same object: offsets stay within the object (plus one past the end), no wrap
                return self.cmp(pr, a.off, b.off)
            if pr in ('eq', 'ne') and (a is NULLP or b is NULLP or (a.obj is NULL and isc(a.off) and a.off.a == 0) or (b.obj is NULL and isc(b.off) and b.off.a == 0)):
                return FALSE if pr == 'eq' else TRUE
        return self.cmp(pr, self.addr(st, a), self.addr(st, b))

    def cmp(self, pr, a, b):
        if pr == 'eq':
            return eq(a, b)
        if pr == 'ne':
            return ne(a, b)
        if pr == 'ult':
            return ult(a, b)
        if pr == 'ule':
            return ule(a, b)
        if pr == 'ugt':
            return ult(b, a)
        if pr == 'uge':
            return ule(b, a)
        if pr == 'slt':
            return slt(a, b)
        if pr == 'sle':
            return sle(a, b)
        if pr == 'sgt':
            return slt(b, a)
        if pr == 'sge':
            return sle(b, a)
        raise Unsupported(pr)

    def cast(self, st, i):
        op, t, ao = i.a
        v = self.val(st, t, ao)
        t2 = self.ty.resolve(i.ty)
        if op in ('ptrtoint', 'ptrtoaddr'):
            return self.addr(st, v)
        if op == 'inttoptr':
            return self.inttoptr(st, v)
        if op == 'bitcast':
            return v
        v = self.asint(st, v)
        ln = self.lanes(t)
        w2 = self.ty.bits(t2)
        if ln:
            k, w = ln
            e2 = w2 // k
            f = {'zext': lambda x: zext(x, e2), 'sext': lambda x: sext(x, e2), 'trunc': lambda x: ext(x, 0, e2)}[op]
            return cat([f(ext(v, j * w, w)) for j in reversed(range(k))])
        if op == 'zext':
            return zext(v, w2)
        if op == 'sext':
            return sext(v, w2)
        if op == 'trunc':
            return ext(v, 0, w2)
        raise Unsupported(op)

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, ins):
        callee, args = ins.a
        if callee[0] == 'l':
            p = self.val(st, 'ptr', callee)
            if not (isinstance(p, Ptr) and p.obj.kind == 'fn'):
                raise Unsupported('indirect call')
            name = p.obj.name
        else:
            name = callee[1]
        if name.startswith('llvm.'):
            return self.intrinsic(fr, st, ins, name, args)
        dem = self.mod.dem.get(name, name)
        vals = [self.val(st, t, o) for t, o, _ in args]
        for pred, h in self.contracts:
            if pred(name, dem):
                r = h(self, st, name, dem, vals, ins)
                if r is NotImplemented:
                    continue
                self.used_contracts.add(dem)
                if r is None:
                    return None
                st, v = r
                if ins.dst is not None:
                    st.env[ins.dst] = v
                return st
        if self.is_panic(name, dem):
            if self.expect_panic:
                return None
            self.oblige(st, FALSE, 'no panic', dem)
            return None
        if name in ('memcmp', 'bcmp'):
            return self.memcmp(st, ins, vals, name)
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, vals[0], vals[1], vals[2])
            st.env[ins.dst] = vals[0]
            return st
        if name in self.mod.fns:
            r = self.call_fn(st, name, vals)
            if r is None:
                return None
            st, v = r
            if ins.dst is not None:
                st.env[ins.dst] = v
            return st
        raise Unsupported('call to %s' % dem)

    expect_panic = False
    ctrace = None       # concrete runs: list of blocks entered, addresses accessed
    PANIC = re.compile(r'^(core::panicking::|core::slice::index::slice_\w*fail|core::slice::copy_from_slice_impl::len_mismatch_fail|'
                       r'core::result::unwrap_failed|core::option::(unwrap|expect)_failed|core::str::slice_error_fail|'
                       r'alloc::raw_vec::handle_error|alloc::alloc::handle_alloc_error|core::cell::panic|core::slice::.*_fail|'
                       r'std::panicking::|alloc::raw_vec::capacity_overflow)')

    def is_panic(self, name, dem):
        if self.PANIC.search(dem):
            return True
        d = self.mod.decls.get(name)
        return False

    def memcmp(self, st, ins, vals, name):
        a, b, n = vals
        if self.trace_hook:
            self.trace_hook(self, st, 'memcmp', (a, b, n))
        if not isc(n):
            if self.trace_hook:
                st.env[ins.dst] = fresh('memcmp', 32)
                return st
            raise Unsupported('memcmp of symbolic length')
        x = [self.cellint(st, c) for c in self.load_cells(st, a, n.a)]
        y = [self.cellint(st, c) for c in self.load_cells(st, b, n.a)]
        if self.ctrace is not None:
            self.ctrace.append(('memcmp', next((i for i in range(n.a) if x[i] is not y[i]), n.a)))
        if n.a == 0:
            st.env[ins.dst] = const(0, 32)
            return st
        X, Y = cat(x), cat(y)
        if name == 'bcmp':
            r = ite(eq(X, Y), const(0, 32), const(1, 32))
            nz = fresh('bcmp', 32)
            st.assume(ne(nz, const(0, 32)))
            r = ite(eq(X, Y), const(0, 32), nz)
        else:
            pos = fresh('memcmp_gt', 32)
            st.assume(slt(const(0, 32), pos))
            st.assume(slt(pos, const(1 << 30, 32)))
            r = ite(eq(X, Y), const(0, 32), ite(ult(X, Y), tm.neg(pos), pos))
        st.env[ins.dst] = r
        return st

    def intrinsic(self, fr, st, ins, name, args):
        n = name[5:]
        if n.startswith(('lifetime.', 'experimental.noalias', 'dbg.', 'invariant.', 'prefetch', 'donothing')):
            return st
        v = [self.val(st, t, o) if t != 'metadata' else None for t, o, _ in args]
        d = ins.dst
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, v[0], v[1], v[2])
            return st
        if n.startswith('memset'):
            self.memset(st, v[0], v[1], v[2])
            return st
        if n.startswith('expect'):
            st.env[d] = v[0]
            return st
        if n.startswith('assume'):
            return st
        if n.startswith(('trap', 'abort', 'ubsantrap')):
            self.oblige(st, FALSE, 'no panic', 'trap')
            return None
        ln = self.lanes(ins.ty) if ins.ty != 'void' else None

        def lift(f, *xs):
            if not ln:
                return f(*xs)
            k, w = ln
            return cat([f(*[ext(x, j * w, w) for x in xs]) for j in reversed(range(k))])

        xs = [self.asint(st, x) if not isinstance(x, T) and not isinstance(x, tuple) and x is not UNDEF else x for x in v]
        if n.startswith('fshl') or n.startswith('fshr'):
            left = n.startswith('fshl')

            def fsh(a, b, k):
                if not isc(k):
                    w = a.w
                    if a is b and w & (w - 1) == 0:
                        k2 = urem(k, const(w, w))
                        l = bor(shl(a, k2), lshr(a, urem(sub(const(0, w), k), const(w, w))))
                        r = bor(lshr(a, k2), shl(a, urem(sub(const(0, w), k), const(w, w))))
                        return l if left else r
                    raise Unsupported('funnel shift')
                s = k.a % a.w
                z = cat([a, b])
                if left:
                    return ext(z, a.w - s, a.w)
                return ext(z, s, a.w)
            st.env[d] = lift(fsh, *xs)
        elif n.startswith('bswap'):
            st.env[d] = lift(tm.bswap, xs[0])
        elif n.startswith('umin'):
            st.env[d] = lift(tm.umin, *xs)
        elif n.startswith('umax'):
            st.env[d] = lift(tm.umax, *xs)
        elif n.startswith('smin'):
            st.env[d] = lift(lambda a, b: ite(slt(a, b), a, b), *xs)
        elif n.startswith('smax'):
            st.env[d] = lift(lambda a, b: ite(slt(a, b), b, a), *xs)
        elif n.startswith('uadd.with.overflow'):
            s = add(xs[0], xs[1])
            st.env[d] = (s, ult(s, xs[0]))
        elif n.startswith('usub.with.overflow'):
            st.env[d] = (sub(xs[0], xs[1]), ult(xs[0], xs[1]))
        elif n.startswith('umul.with.overflow'):
            w = xs[0].w
            p = mul(zext(xs[0], 2 * w), zext(xs[1], 2 * w))
            if isc(xs[1]) and xs[1].a:
                ov = ult(const(((1 << w) - 1) // xs[1].a, w), xs[0])
            else:
                ov = ne(ext(p, w, w), const(0, w))
            st.env[d] = (mul(xs[0], xs[1]), ov)
        elif n.startswith('usub.sat'):
            st.env[d] = lift(lambda a, b: ite(ult(a, b), const(0, a.w), sub(a, b)), *xs)
        elif n.startswith('uadd.sat'):
            st.env[d] = lift(lambda a, b: ite(ult(add(a, b), a), const(-1, a.w), add(a, b)), *xs)
        elif n.startswith('abs'):
            st.env[d] = lift(lambda a: ite(slt(a, const(0, a.w)), tm.neg(a), a), xs[0])
        elif n.startswith('ctpop'):
            def pop(a):
                if isc(a):
                    return const(bin(a.a).count('1'), a.w)
                return add(*[zext(ext(a, j, 1), a.w) for j in range(a.w)])
            st.env[d] = lift(pop, xs[0])
        elif n.startswith('cttz') or n.startswith('ctlz'):
            tz = n.startswith('cttz')

            def cz(a):
                r = const(a.w, a.w)
                for j in (range(a.w - 1, -1, -1) if tz else range(a.w)):
                    r = ite(ext(a, j, 1), const(j if tz else a.w - 1 - j, a.w), r)
                return r
            st.env[d] = lift(cz, xs[0])
        elif n.startswith('scmp') or n.startswith('ucmp'):
            lt = slt if n[0] == 's' else ult
            w = self.ty.bits(ins.ty)
            a, b = xs[0], xs[1]
            st.env[d] = ite(lt(a, b), const(-1, w), ite(eq(a, b), const(0, w), const(1, w)))
        elif n.startswith('bitreverse'):
            st.env[d] = lift(lambda a: cat([ext(a, j, 1) for j in range(a.w)]), xs[0])
        elif n == 'x86.sha256rnds2':
            st.env[d] = sha256rnds2(*xs)
        elif n == 'x86.sha256msg1':
            st.env[d] = sha256msg1(*xs)
        elif n == 'x86.sha256msg2':
            st.env[d] = sha256msg2(*xs)
        elif n == 'x86.ssse3.pshuf.b.128':
            a, m = xs
            out = []
            for j in reversed(range(16)):
                mj = ext(m, 8 * j, 8)
                if not isc(mj):
                    raise Unsupported('pshufb')
                out.append(const(0, 8) if mj.a & 0x80 else ext(a, 8 * (mj.a & 15), 8))
            st.env[d] = cat(out)
        elif n.startswith('vector.reduce.'):
            t = self.ty.resolve(args[0][0])
            k, w = self.lanes(t)
            ls = [ext(xs[0], j * w, w) for j in range(k)]
            kind = n.split('.')[2]
            f = {'or': bor, 'and': band, 'xor': bxor, 'add': add}.get(kind)
            if not f:
                raise Unsupported(n)
            st.env[d] = f(*ls)
        elif n.startswith(('ptrmask',)):
            raise Unsupported(n)
        else:
            raise Unsupported('intrinsic ' + n)
        return st


# Intel SDM semantics of the SHA-256 instructions
def _S(x, a, b, c):
    return bxor(tm.rotr(x, a), tm.rotr(x, b), tm.rotr(x, c))


def _ch(e, f, g):
    return bxor(band(e, f), band(bnot(e), g))


def _maj(a, b, c):
    return bxor(band(a, b), band(a, c), band(b, c))


def sha256rnds2(s1, s2, wk):
    """s1 = CDGH, s2 = ABEF, wk[63:0]"""
    d = lambda x, i: ext(x, 32 * i, 32)
    a, b, c, dd, e, f, g, h = d(s2, 3), d(s2, 2), d(s1, 3), d(s1, 2), d(s2, 1), d(s2, 0), d(s1, 1), d(s1, 0)
    for i in range(2):
        t1 = add(_ch(e, f, g), _S(e, 6, 11, 25), d(wk, i), h)
        t2 = add(_maj(a, b, c), _S(a, 2, 13, 22))
        a, b, c, dd, e, f, g, h = add(t1, t2), a, b, c, add(t1, dd), e, f, g
    return cat([a, b, e, f])


def _s0(x):
    return bxor(tm.rotr(x, 7), tm.rotr(x, 18), lshr(x, const(3, 32)))


def _s1(x):
    return bxor(tm.rotr(x, 17), tm.rotr(x, 19), lshr(x, const(10, 32)))


def sha256msg1(x, y):
    d = lambda z, i: ext(z, 32 * i, 32)
    w4, w3, w2, w1, w0 = d(y, 0), d(x, 3), d(x, 2), d(x, 1), d(x, 0)
    return cat([add(w3, _s0(w4)), add(w2, _s0(w3)), add(w1, _s0(w2)), add(w0, _s0(w1))])


def sha256msg2(x, y):
    d = lambda z, i: ext(z, 32 * i, 32)
    w14, w15 = d(y, 2), d(y, 3)
    w16 = add(d(x, 0), _s1(w14))
    w17 = add(d(x, 1), _s1(w15))
    w18 = add(d(x, 2), _s1(w16))
    w19 = add(d(x, 3), _s1(w17))
    return cat([w19, w18, w17, w16])
