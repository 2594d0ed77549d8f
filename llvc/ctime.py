"""Contract of cmp::fixed_time_eq: result, panic condition, and non-interference of control flow and addresses (two-copy proof)."""
import os
import sys
import terms as tm
from terms import T, const, fresh, var, uf, TRUE, FALSE, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, isc, zext
import sx
from sx import Exec, Ptr, PtrIte, State, Obj, Unsupported
import smt
import loops

FN = 'h_fixed_time_eq'


def c64(x):
    return const(x, 64)


def diff(k):
    """1 iff some byte before index k differs (inductive definition, unfolded by axioms())"""
    if isc(k) and k.a == 0:
        return const(0, 1)
    return uf('DIFF', 1, k)


def FA(i):
    return uf('FA', 8, i)


def FB(i):
    return uf('FB', 8, i)


def secret(ts):
    for t in tm.topo(ts):
        if t.op == 'uf' and t.a[0] in ('FA', 'FB', 'DIFF'):
            return True
        if t.op == 'v' and isinstance(t.a, str) and t.a.startswith(('hv', 'bcmp', 'memcmp', 'oob')):
            return True
    return False


def second(ts):
    """the same terms over a second pair of slices (same lengths)"""
    memo = {}
    for t in tm.topo(ts):
        if t.op == 'uf' and t.a[0] in ('FA', 'FB', 'DIFF'):
            r = uf(t.a[0] + "'", t.w, *[memo[x] for x in t.a[1:] if isinstance(x, T)])
        elif t.op == 'v' and isinstance(t.a, str) and t.a.startswith(('hv', 'bcmp', 'memcmp', 'oob')):
            r = var(t.a + "'", t.w)
        else:
            kids = [x for x in tm.kids(t)]
            m = {k: memo[k] for k in kids if memo[k] is not k}
            r = tm.rebuild(t, [memo[k] for k in kids]) if m else t
        memo[t] = r
    return [memo[t] for t in ts]


class Proof(loops.Ctx):
    def __init__(self, mod):
        self.mod = mod
        self.obs = []
        self.base = c64(0)

    def new_exec(self):
        ex = Exec(self.mod)
        ex.loop_hook = self.hook
        ex.trace_hook = self.trace
        return ex

    # ------------------------------------------------------------------ loop invariants
    def hook(self, ex, fr, it, inc):
        th = ex.trace_hook
        return loops.handle(ex, fr, it, inc, self)

    def ghost(self, ex, st0, ind, step):
        v = loops.readv(ind.v0)
        self.base = v
        self.step = step.a if isc(step) and step.a <= 64 else 1
        return fresh('c', 64), []

    def fields(self, ex, st0, st1, st2, ind, step):
        return []

    def idx(self, c):
        return add(self.base, c)

    def axioms(self, ex, c):
        out = []
        i = self.idx(c)
        for d in (-self.step, 0):
            for j in range(self.step):
                k = add(i, c64((d + j) % (1 << 64)))
                k1 = add(k, c64(1))
                out.append(bor(eq(k1, c64(0)), eq(diff(k1), bor(diff(k), ne(FA(k), FB(k))))))
        out.append(bor(ne(i, c64(0)), eq(uf('DIFF', 1, i), const(0, 1))))
        return out

    def relational(self, ex, l):
        w = l.v0.w
        z = const(0, w)
        out = [('x != 0 iff a byte differs', lambda v, c: eq(tm.zext(ne(v, z), 1) if w == 1 else ne(v, z), diff(self.idx(c)))),
               ('x == 0 iff a byte differs', lambda v, c: eq(eq(v, z), diff(self.idx(c)))),
               ('x <= 1', lambda v, c: ule(v, const(1, w)) if w > 1 else TRUE)]
        if w > 1:
            out += [('low bit set iff a byte differs', lambda v, c: eq(tm.ext(v, 0, 1), diff(self.idx(c)))),
                    ('low bit clear iff a byte differs', lambda v, c: eq(bnot(tm.ext(v, 0, 1)), diff(self.idx(c))))]
        if w > 8:
            out += [('x <= 255', lambda v, c: ule(v, const(255, w)))]
        return out

    # ------------------------------------------------------------------ non-interference
    def trace(self, ex, st, what, t):
        if not ex.record:
            return
        kind = {'br': 'the branch taken does not depend on the bytes compared', 'addr': 'the address accessed does not depend on the bytes compared',
                'memcmp': 'no early-exit comparison of the bytes'}[what]
        if what == 'memcmp':
            a, b, n = t
            s = []
            for p in (a, b):
                if isc(n) and n.a <= 4096:
                    s += [ex.cellint(st, c) for c in self.peek(ex, st, p, n.a)]
                else:
                    s = None
                    break
            if s is None or secret(s):
                ex.oblige(st, FALSE, kind)
            return
        if not secret([t]):
            ex.oblige(st, TRUE, kind)
            return
        ts = second(list(st.pc) + [t])
        s2 = st.fork()
        for x in ts[:-1]:
            s2.assume(x)
        ex.oblige(s2, eq(t, ts[-1]), kind)

    def peek(self, ex, st, p, n):
        rec, th = ex.record, ex.trace_hook
        ex.record, ex.trace_hook = False, None
        try:
            return ex.load_cells(st, p, n)
        finally:
            ex.record, ex.trace_hook = rec, th

    # ------------------------------------------------------------------ proofs
    def prove_equal_length(self):
        ex = self.new_exec()
        st = State()
        n = var('n', 64)
        st.assume(ule(n, c64((1 << 63) - 1)))
        a = Obj('fun', 'a', n, reader=lambda st, off: FA(off), ro=True)
        b = Obj('fun', 'b', n, reader=lambda st, off: FB(off), ro=True)
        r = ex.call_fn(st, FN, [Ptr(a, c64(0)), n, Ptr(b, c64(0)), n])
        if r is None:
            ex.oblige(st, FALSE, 'returns for equal lengths')
            return ex
        s, v = r
        x = smt.check(list(s.pc), ex.timeout)
        ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', FN, 'proved' if x == 'sat' else 'unknown', None, None, x))
        s.assume(bor(ne(n, c64(0)), eq(uf('DIFF', 1, n), const(0, 1))))
        v = ex.asint(s, v)
        ex.goal(s, eq(tm.ext(v, 0, 1), bnot(diff(n))), 'postcondition of fixed_time_eq: true exactly when no byte differs')
        if v.w > 1:
            ex.goal(s, ule(v, const(1, v.w)), 'postcondition of fixed_time_eq: a bool')
        ex.assumptions.add('DIFF is the inductively defined predicate "a byte before index k differs" (DIFF(0) = false, DIFF(k+1) = DIFF(k) or a[k] != b[k])')
        return ex

    def prove_unequal_length(self):
        ex = self.new_exec()
        st = State()
        n, m = var('n', 64), var('m', 64)
        for x in (n, m):
            st.assume(ule(x, c64((1 << 63) - 1)))
        st.assume(ne(n, m))
        a = Obj('fun', 'a', n, reader=lambda st, off: FA(off), ro=True)
        b = Obj('fun', 'b', m, reader=lambda st, off: FB(off), ro=True)
        ex.expect_panic = True
        try:
            r = ex.call_fn(st, FN, [Ptr(a, c64(0)), n, Ptr(b, c64(0)), m])
        finally:
            ex.expect_panic = False
        if r is None:
            ex.oblige(st, TRUE, 'panics when the lengths differ')
        else:
            ex.oblige(r[0], FALSE, 'panics when the lengths differ')
        return ex


# ---------------------------------------------------------------------- concrete replay on the same IR
class Panicked(Exception):
    pass


def concrete(mod, a, b):
    """run the compiled function on two concrete slices: (result or 'panic', trace of blocks, addresses and comparisons)"""
    ex = Exec(mod)
    ex.ctrace = []
    ex.expect_panic = True
    ex.max_unroll = 1 << 40
    st = State()
    oa = ex.new_mem(st, 'a', len(a), [const(x, 8) for x in a], ro=True)
    ob = ex.new_mem(st, 'b', len(b), [const(x, 8) for x in b], ro=True)
    r = ex.call_fn(st, FN, [Ptr(oa, c64(0)), c64(len(a)), Ptr(ob, c64(0)), c64(len(b))])
    bad = [o for o in ex.obs if o.status != 'proved']
    if bad:
        return 'undefined behaviour: ' + bad[0].kind, ex.ctrace
    if r is None:
        return 'panic', ex.ctrace
    v = ex.asint(r[0], r[1])
    return (v.a & 1 if isc(v) else str(v)), ex.ctrace


def pairs(n, seed):
    import random
    rnd = random.Random(seed * 1000003 + n)
    z = bytes(n)
    yield z, z
    r = bytes(rnd.randrange(256) for _ in range(n))
    yield r, r
    if not n:
        return
    pos = {0, n - 1, n // 2, n // 3, min(n - 1, 7), min(n - 1, 8), min(n - 1, 31)}
    for p in sorted(pos):
        for d in (1, 0x80, 0xff):
            x = bytearray(r)
            x[p] ^= d
            yield r, bytes(x)
    yield z, b'\xff' * n
    yield b'\xff' * n, z
    yield r, bytes(x ^ 0x55 for x in r)
    for _ in range(3):
        yield r, bytes(rnd.randrange(256) for _ in range(n))


def quick_pairs(n):
    z = bytes(n)
    yield z, z
    if n:
        yield z, b'\x01' + bytes(n - 1)
        yield z, bytes(n - 1) + b'\x80'
        yield z, b'\xff' * n


def find(mods, lens, seed, deadline, few=False):
    """two pairs of slices of the same length whose executions differ in control flow or addresses, or a wrong result"""
    import time
    n_eval = 0
    for n in lens:
        for cfg, mod in mods:
            first = None
            for a, b in (quick_pairs(n) if few else pairs(n, seed)):
                if time.time() > deadline:
                    return None, n_eval
                n_eval += 1
                try:
                    r, t = concrete(mod, a, b)
                except Unsupported:
                    continue
                if r != int(a == b):
                    return ('%s %s %s' % (cfg, a.hex() or '-', b.hex() or '-'), 'equal-length slices: result %s, expected %d' % (r, a == b)), n_eval
                if first is None:
                    first = (a, b, t)
                elif t != first[2]:
                    k = next((i for i, (x, y) in enumerate(zip(t, first[2])) if x != y), min(len(t), len(first[2])))
                    return ('%s %s %s %s %s' % (cfg, first[0].hex() or '-', first[1].hex() or '-', a.hex() or '-', b.hex() or '-'),
                            'executions of %d and %d steps differ at step %d: %s vs %s' % (len(first[2]), len(t), k, first[2][k:k + 1], t[k:k + 1])), n_eval
    return None, n_eval


def search(cfgs, seed, seconds, vals):
    import time
    import jobs
    deadline = time.time() + seconds
    mods = []
    for c in cfgs:
        try:
            mods.append((c, jobs.module(c)))
        except Exception:
            pass
    ls = list(range(0, 40)) + [48, 63, 64, 65, 96, 127, 128, 129]
    for v in sorted(vals):
        for d in (-1, 0, 1):
            if 0 <= v + d <= 2100:
                ls.append(v + d)
    seen = set()
    ls = [x for x in ls if not (x in seen or seen.add(x))]
    small = [x for x in ls if x <= 16]
    mid = [x for x in ls if 16 < x <= 520]
    r, n = find(mods, small, seed, deadline)
    for k, xs, few in ((1, mid, True), (2, mid, False), (3, [x for x in ls if x > 520], True)):
        if r:
            break
        r, m = find(mods, xs, seed, deadline, few)
        n += m
    return r, n


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import jobs
    import build
    cfg = sys.argv[2]
    if not os.path.exists(os.path.join(build.BUILD, cfg, 'all.ll')):
        build.build(cfg)
    xs = [bytes.fromhex(x.replace('-', '')) for x in sys.argv[3:]]
    rs = [concrete(jobs.module(cfg), xs[i], xs[i + 1]) for i in range(0, len(xs), 2)]
    for r, t in rs:
        print('result %s, %d trace events' % (r, len(t)))
    bad = any(r != int(xs[2 * i] == xs[2 * i + 1]) for i, (r, _) in enumerate(rs)) or (len(rs) == 2 and rs[0][1] != rs[1][1])
    if len(rs) == 2 and rs[0][1] != rs[1][1]:
        k = next((i for i, (x, y) in enumerate(zip(rs[0][1], rs[1][1])) if x != y), 0)
        print('first difference at event %d: %s vs %s' % (k, rs[0][1][k:k + 2], rs[1][1][k:k + 2]))
    sys.exit(1 if bad else 0)
