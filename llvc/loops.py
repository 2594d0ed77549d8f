"""Loop invariants by ghost-variable templates.

For a loop whose trip count depends on an unbounded input, a ghost variable c (progress since loop entry) is
introduced; every location the body changes is described by a template over c (affine in c, an abstract field
supplied by the context, or nothing = arbitrary), candidate facts about c are filtered (Houdini) and what remains is
checked to hold on entry, to be preserved by one arbitrary iteration, and c is checked to grow and be bounded
(termination).  All of these checks are obligations; inference is untrusted."""
import terms as tm
from terms import (T, const, fresh, TRUE, FALSE, cat, ext, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, lshr, urem, isc)
import sx
from sx import Ptr, PtrIte, Unsupported
import smt


class Loc:
    """a changed location: ('phi', name) or ('mem', obj, off, n)"""
    __slots__ = ('kind', 'key', 'v0', 'v1', 'tmpl', 'desc')

    def __init__(self, kind, key, v0, v1):
        self.kind, self.key, self.v0, self.v1 = kind, key, v0, v1
        self.tmpl = None
        self.desc = 'arbitrary'


def snapshot(st):
    s = st.fork()
    return s


def delta(v0, v1):
    """v1 - v0 as a 64-bit (or own width) term, None if not comparable"""
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj is v1.obj:
        return sub(v1.off, v0.off)
    if isinstance(v0, T) and isinstance(v1, T) and v0.w == v1.w and v0.w >= 16:
        return sub(v1, v0)
    return None


def read(ex, st, l):
    if l.kind == 'phi':
        return st.env[l.key]
    o, off, n = l.key
    cs = ex.getcells(st, o)[off:off + n]
    if n == 8 and isinstance(cs[0], tuple) and cs[0][0] == 'p':
        return ex.from_cells(st, 'ptr', cs)
    if all(isinstance(c, T) for c in cs):
        return cat(list(reversed(cs)))
    return None


def write(ex, st, l, v):
    if l.kind == 'phi':
        st.env[l.key] = v
        return
    o, off, n = l.key
    w = st.wcells(o)
    if isinstance(v, (Ptr, PtrIte)):
        w[off:off + n] = [('p', v, i) for i in range(8)]
    else:
        w[off:off + n] = [ext(v, 8 * i, 8) for i in range(n)]


def havoc_like(v, hint='hv'):
    if isinstance(v, T):
        return fresh(hint, v.w)
    if isinstance(v, tuple):
        return tuple(havoc_like(x, hint) for x in v)
    return sx.UNDEF


class Ctx:
    """abstract fields and candidate facts; overridden per proof"""
    required = ()   # (name, fn(c)) facts the ghost encoding relies on: always obligations

    def covered(self, ex, st0):
        """cells described by fields: {obj: set(offsets)}"""
        return {}

    def fields(self, ex, st0, st1, st2, ind):
        return []

    def ghost(self, ex, st0, ind, step):
        """fresh ghost progress c and a list of facts always true of it by construction"""
        return fresh('c', 64), []

    def candidates(self, ex, st0, c, ind, step):
        return []

    def relational(self, ex, l):
        """candidate facts about an otherwise arbitrary location: [(name, f(value, c))]"""
        return []

    def phi_templates(self, ex, l, c):
        return []

    def axioms(self, ex, c):
        return []

    explicit = False    # invariant given by the proof script: no inference

    def ghost_cases(self, ex, st, c):
        """exhaustive split of the ghost: list of (ghost term, facts)"""
        return [(c, [])]

    def case_facts(self, ex, c):
        return TRUE

    def check_phi(self, ex, st, l, want, got, kind):
        """True if the context discharged the equality itself"""
        return False


class Field:
    """abstract memory field: make(c) writes cells into st; goals(st, c) -> [(name, goal)]"""

    def make(self, ex, st, c):
        raise NotImplementedError

    def check(self, ex, st, c, kind):
        raise NotImplementedError


def handle(ex, fr, it, inc, ctx):
    _, h, items, nodes = it
    inc = [(s.fork(), p) for s, p in inc]
    st0 = ex.enter(fr, h, inc)
    phis = [i for i in fr.fn.blocks[h] if i.op == 'phi']

    def run_body(st):
        local = {h: [(st, '__entered')]}
        ex.run_items(fr, items, local, None)
        back = local.pop(h, None)
        return back, local

    # --- probe one iteration from the entry state to see what changes
    rec = ex.record
    ex.record = False
    probe = st0.fork()
    try:
        back, _ = run_body(probe)
    finally:
        ex.record = rec
    if not back:
        # at most one iteration possible from here: plain execution
        return None
    st1 = ex.enter(fr, h, [(s.fork(), p) for s, p in back])
    # second probe (some values only start changing in the second iteration)
    ex.record = False
    try:
        back2, _ = run_body(st1.fork())
    except Unsupported:
        back2 = None
    finally:
        ex.record = rec
    st2 = ex.enter(fr, h, [(s.fork(), p) for s, p in back2]) if back2 else None

    covered = ctx.covered(ex, st0)
    locs = []
    for i in phis:
        v0, v1 = st0.env[i.dst], st1.env[i.dst]
        locs.append(Loc('phi', i.dst, v0, v1))
    for o, c0 in st0.mem.items():
        c1 = st1.mem.get(o)
        c2 = st2.mem.get(o) if st2 else None
        if c1 is c0 and (c2 is None or c2 is c0):
            continue
        ch = set()
        for k in range(len(c0)):
            if k in covered.get(o, ()):
                continue
            if c1 is not None and c1[k] is not c0[k] and c1[k] != c0[k]:
                ch.add(k)
            if c2 is not None and c2[k] is not c0[k] and c2[k] != c0[k]:
                ch.add(k)
        k = 0
        while k < len(c0):
            if k not in ch:
                k += 1
                continue
            b = k & ~7
            if b + 8 <= len(c0) and not any(x in covered.get(o, ()) for x in range(b, b + 8)) and c0[b] is not None:
                l = Loc('mem', (o, b, 8), None, None)
                k = b + 8
            else:
                l = Loc('mem', (o, k, 1), None, None)
                k += 1
            l.v0 = read(ex, st0, l)
            l.v1 = read(ex, st1, l)
            locs.append(l)

    # --- choose the progress indicator
    ind = None
    best = None
    for l in locs:
        d = delta(l.v0, l.v1)
        if d is None or (isc(d) and d.a == 0):
            continue
        w = d.w
        if w != 64:
            continue
        neg = isc(d) and d.a >> 63
        if neg:
            continue
        score = 0
        if isinstance(l.v0, Ptr):
            score += 2
        if isc(d):
            score += 1
            if d.a > 1:
                score += 1
        if not isc(d) and not isinstance(l.v0, Ptr):
            # non-constant step: prefer increasing ones (cannot tell cheaply): ask
            if smt.prove(st1.pc, ule(l.v0, l.v1), 3000) != 'proved':
                continue
        if best is None or score > best:
            best, ind = score, l
    if ind is None:
        raise Unsupported('no progress indicator for loop in ' + fr.fn.dem[:60])
    step = delta(ind.v0, ind.v1)
    fields = ctx.fields(ex, st0, st1, st2, ind, step)
    c, gfacts = ctx.ghost(ex, st0, ind, step)
    stepc = step.a if isc(step) else None

    # --- templates for the other locations
    for l in locs:
        d = delta(l.v0, l.v1)
        l.tmpl = None
        if l is ind:
            l.tmpl, l.desc = (1, 1), 'x0+c'
            continue
        cand = ctx.phi_templates(ex, l, c) if l.v0 is not None else None
        if cand:
            l.tmpl, l.desc = cand
            continue
        if d is None:
            if l.v0 == l.v1 and l.v0 is not None:
                l.tmpl, l.desc = (0, 1), 'x0'
            continue
        if isc(d) and d.a == 0:
            l.tmpl, l.desc = (0, 1), 'x0'
        elif d.w == 64 and smt.prove(st1.pc, eq(d, step), 3000) == 'proved':
            l.tmpl, l.desc = (1, 1), 'x0+c'
        elif d.w == 64 and smt.prove(st1.pc, eq(d, tm.neg(step)), 3000) == 'proved':
            l.tmpl, l.desc = (-1, 1), 'x0-c'
        elif d.w == 64 and isc(d) and stepc:
            dd = d.a if not d.a >> 63 else d.a - (1 << 64)
            if dd % stepc == 0:
                l.tmpl = (dd // stepc, 1)
            elif stepc % abs(dd) == 0 and (stepc // abs(dd)) & (stepc // abs(dd) - 1) == 0:
                l.tmpl = (1 if dd > 0 else -1, stepc // abs(dd))
            if l.tmpl:
                l.desc = 'x0%+d/%d*c' % l.tmpl

    def inst(l, c):
        t = l.tmpl
        if t is None:
            return None
        if callable(t):
            return t(c)
        m, dv = t
        x = c if dv == 1 else lshr(c, const(dv.bit_length() - 1, 64))
        if m == 0:
            return l.v0
        off = tm.mul(const(m, 64), x)
        if isinstance(l.v0, Ptr):
            return Ptr(l.v0.obj, add(l.v0.off, off))
        return add(l.v0, off)

    # --- candidate facts
    cands = []   # (name, fn(c) -> term)

    def addc(name, f):
        cands.append((name, f))
    if stepc and stepc & (stepc - 1) == 0 and stepc > 1:
        addc('c %% %d == 0' % stepc, lambda c: eq(ext(c, 0, stepc.bit_length() - 1), const(0, stepc.bit_length() - 1)))
    for l in locs:
        if l.tmpl == (-1, 1) and isinstance(l.v0, T):
            addc('c <= x0(%s)' % (l.key,), lambda c, l=l: ule(c, l.v0))
        if l.tmpl == (1, 1) and isinstance(l.v0, Ptr) and l.v0.obj.kind in ('fun', 'arr', 'mem'):
            o = l.v0.obj
            addc('x0+c <= size(%s)' % (o.name,), lambda c, l=l, o=o: ule(c, sub(o.sizet(), l.v0.off)))
        if isinstance(l.tmpl, tuple) and l.tmpl[0] > 0 and l.tmpl[1] > 1 and isinstance(l.v0, T):
            pass
    for name, f in ctx.candidates(ex, st0, c, ind, step):
        addc(name, f)

    rel = []     # (name, loc, f)
    if not ctx.explicit:
        for l in locs:
            if l.tmpl is None and isinstance(l.v0, T):
                rel += [(n, l, f) for n, f in ctx.relational(ex, l) if smt.prove(st0.pc + tuple(ctx.axioms(ex, const(0, 64))), f(l.v0, const(0, 64)), 5000) == 'proved']

    def arbitrary(c):
        sth = st0.fork()
        hv = {}
        for l in locs:
            v = inst(l, c)
            if v is None:
                v = havoc_like(l.v0) if l.v0 is not None else None
                if v is None:
                    o, off, n = l.key
                    w = sth.wcells(o)
                    w[off:off + n] = [None] * n
                    continue
            hv[l] = v
            write(ex, sth, l, v)
        for n, l, f in rel:
            sth.assume(f(hv[l], c))
        for fd in fields:
            fd.make(ex, sth, c)
        for g in gfacts:
            sth.assume(g)
        for g in ctx.axioms(ex, c):
            sth.assume(g)
        for name, f in cands:
            sth.assume(f(c))
        return sth

    mined = ctx.explicit
    ob0 = len(ex.obs)
    for attempt in range(14):
        # base case
        keep = []
        for name, f in cands:
            if smt.prove(st0.pc + tuple(ctx.axioms(ex, const(0, 64))), f(const(0, 64)), 5000) == 'proved':
                keep.append((name, f))
        if ctx.explicit:
            for name, f in cands:
                ex.goal(st0, f(const(0, 64)), 'loop invariant on entry', name)
            break
        cands = keep
        if ctx.explicit:
            break
        # arbitrary iteration
        sth = arbitrary(c)
        head = sth.fork()
        ex.record = False
        try:
            back, exits = run_body(sth.fork())
        finally:
            ex.record = rec
        if not mined:
            mined = True
            new = mine(ex, back, exits, head, c, locs, inst)
            if new:
                cands = cands + new
                continue
        bad = set()
        badrel = set()
        if back:
            for s, p in back:
                s2 = s.fork()
                bs = ex.enter(fr, h, [(s2, p)])
                c2 = sub(readv(read(ex, bs, ind)), readv(ind.v0))
                for k, (name, f) in enumerate(cands):
                    if k in bad:
                        continue
                    if smt.prove(bs.pc + tuple(ctx.axioms(ex, c2)), f(c2), 8000) != 'proved':
                        bad.add(k)
                for k, (name, l, f) in enumerate(rel):
                    if k not in badrel:
                        got = read(ex, bs, l)
                        if got is None or smt.prove(bs.pc + tuple(ctx.axioms(ex, c2)), f(got, c2), 8000) != 'proved':
                            badrel.add(k)
        if badrel:
            rel[:] = [x for k, x in enumerate(rel) if k not in badrel]
        if not bad and not badrel:
            break
        cands = [x for k, x in enumerate(cands) if k not in bad]
    else:
        raise Unsupported('invariant inference did not converge')

    # --- final, recorded pass
    ex.loop_log.append({'function': fr.fn.dem, 'loop': h, 'locations': ['%s: %s' % (l.key if l.kind == 'phi' else (l.key[0].name,) + l.key[1:], l.desc) for l in locs],
                        'fields': [fd.name for fd in fields], 'facts': [n for n, _ in cands] + ['%s: %s' % (l.key, n) for n, l, _ in rel]})
    for fd in fields:
        fd.check(ex, st0, const(0, 64), 'loop invariant on entry')
    for name, f in ctx.required:
        ex.goal(st0, f(const(0, 64)), 'loop invariant on entry', name)
    for name, l, f in rel:
        ex.goal(st0, f(l.v0, const(0, 64)), 'loop invariant on entry', name)
    for l in locs:
        if callable(l.tmpl):
            ex.goal(st0, eqv(inst(l, const(0, 64)), l.v0), 'loop invariant on entry', str(l.key))
    def one(c, sth, exits):
        head = sth.fork()
        back, ex1 = run_body(sth)
        for k_, lst_ in ex1.items():
            exits.setdefault(k_, []).extend(lst_)
        for s, p in back or []:
            bs = ex.enter(fr, h, [(s.fork(), p)])
            c2 = sub(readv(read(ex, bs, ind)), readv(ind.v0))
            bs2 = bs
            for g in ctx.axioms(ex, c2):
                bs2.assume(g)
            for l in locs:
                if l is ind:
                    continue
                v = inst(l, c2)
                if v is None:
                    continue
                got = read(ex, bs2, l)
                if ctx.check_phi(ex, bs2, l, v, got, 'loop invariant preserved'):
                    continue
                ex.goal(bs2, eqv(v, got), 'loop invariant preserved', '%s = %s' % (l.key if l.kind == 'phi' else l.key[1:], l.desc))
            for name, f in cands:
                ex.goal(bs2, f(c2), 'loop invariant preserved', name)
            for name, l, f in rel:
                ex.goal(bs2, f(read(ex, bs2, l), c2), 'loop invariant preserved', name)
            for fd in fields:
                fd.check(ex, bs2, c2, 'loop invariant preserved')
            for name, f in ctx.required:
                ex.goal(bs2, f(c2), 'loop invariant preserved', name)
            # frame: nothing outside the described locations changed
            for o, ch in head.mem.items():
                cn = bs2.mem.get(o)
                if cn is ch or cn is None:
                    continue
                cov = set(covered.get(o, ()))
                for l in locs:
                    if l.kind == 'mem' and l.key[0] is o:
                        cov.update(range(l.key[1], l.key[1] + l.key[2]))
                for k in range(len(ch)):
                    if k not in cov and cn[k] is not ch[k] and cn[k] != ch[k]:
                        if ch[k] is None:
                            raise Unsupported('loop writes fresh memory not seen by the probe')
                        ex.goal(bs2, eqv(cn[k], ch[k]), 'loop frame', '%s[%d]' % (o.name, k))
            ex.goal(bs2, ult(c, c2), 'loop makes progress (termination)')
    gen = arbitrary(c)
    cases = ctx.ghost_cases(ex, gen, c)
    if len(cases) > 1:
        ex.goal(gen, bor(*[ctx.case_cover(ex, c, g, facts) for g, facts in cases]), 'loop case split is exhaustive')
    exits = {}
    for cg, facts in cases:
        sth = arbitrary(cg)
        for g in facts:
            sth.assume(g)
        if len(cases) > 1 and smt.check(list(sth.pc), ex.timeout) == 'unsat':
            continue
        one(cg, sth, exits)
    return exits


def readv(v):
    if isinstance(v, Ptr):
        return v.off
    if v is None:
        raise Unsupported('indicator unreadable')
    return v


def eqv(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is b.obj:
            return eq(a.off, b.off)
        return FALSE
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    return TRUE if a == b else FALSE


def mine(ex, back, exits, head, c, locs, inst):
    """bounds on c from comparisons in the loop's branch conditions: x(c) < y with y independent of c"""
    out = []
    seen = set()
    cvars = set(tm.variables([c]))
    hp = set(head.pc)
    atoms = []
    for s, p in (back or []):
        for t in s.pc:
            if t not in hp:
                atoms.append(t)
    for l, lst in exits.items():
        for s, p in lst:
            for t in s.pc:
                if t not in hp:
                    atoms.append(t)
    work = list(atoms)
    n = 0
    while work and n < 400:
        t = work.pop()
        n += 1
        if t.op in ('and', 'or', 'xor') and t.w == 1:
            work.extend(t.a)
            continue
        if t.op == 'ult' and t.a[0].w == 64 or t.op == 'eq' and t.a[0].w == 64:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                vx, vy = set(tm.variables([x])), set(tm.variables([y]))
                if not (vx & cvars) or (vy & cvars) or any(v.a.startswith('addr!') for v in vx | vy):
                    continue
                k = sub(x, c)
                if set(tm.variables([k])) & cvars:
                    continue
                if (k, y) in seen:
                    continue
                seen.add((k, y))
                # x = k + c compared with y
                out.append(('x0+c <= bound', lambda c, k=k, y=y: band(ule(c, add(k, c)), ule(add(k, c), y))))
                out.append(('c <= bound', lambda c, y=y: ule(c, y)))
                out.append(('c <= bound-x0', lambda c, k=k, y=y: ule(c, sub(y, k))))
    return out[:24]
