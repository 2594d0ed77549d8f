"""z3 back end: lazy translation of terms, queries with statistics."""
import time
import z3
from terms import T, topo, kids, const, TRUE, FALSE, bnot, evaluate, subst

_z = {}
_ufs = {}
stats = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'max': 0.0}


def _bool(e):
    return e == z3.BitVecVal(1, 1)


def _b2v(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


_zb = {}  # boolean translation of width-1 terms


def tob(t):
    r = _zb.get(t)
    if r is None:
        toz([t])
        r = _zb.get(t)
        if r is None:
            r = _z[t] == z3.BitVecVal(1, 1)
            _zb[t] = r
    return r


def toz(roots):
    for t in topo(roots):
        if t in _z:
            continue
        op, w, a = t.op, t.w, t.a
        if w == 1 and op in ('and', 'or', 'xor', 'eq', 'ult', 'slt', 'ite', 'c'):
            if op == 'c':
                b = z3.BoolVal(bool(a))
            elif op == 'and':
                b = z3.And(*[tob(x) for x in a])
            elif op == 'or':
                b = z3.Or(*[tob(x) for x in a])
            elif op == 'xor':
                b = tob(a[0])
                for x in a[1:]:
                    b = z3.Not(tob(x)) if False else z3.Xor(b, tob(x))
                if len(a) == 2 and TRUE in a:
                    o = a[0] if a[1] is TRUE else a[1]
                    b = z3.Not(tob(o))
            elif op == 'eq':
                b = _z[a[0]] == _z[a[1]]
            elif op == 'ult':
                b = z3.ULT(_z[a[0]], _z[a[1]])
            elif op == 'slt':
                b = _z[a[0]] < _z[a[1]]
            else:
                b = z3.If(tob(a[0]), tob(a[1]), tob(a[2]))
            _zb[t] = b
            _z[t] = _b2v(b)
            continue
        if op == 'c':
            e = z3.BitVecVal(a, w)
        elif op == 'v':
            e = z3.BitVec(a, w)
        elif op == 'add':
            m = 1 << w
            e = None
            for u, k in a[1]:
                x = _z[u]
                if k == 1:
                    e = x if e is None else e + x
                elif k == m - 1:
                    e = -x if e is None else e - x
                else:
                    x = x * z3.BitVecVal(k, w)
                    e = x if e is None else e + x
            if a[0]:
                e = e + z3.BitVecVal(a[0], w)
        elif op == 'cat':
            e = z3.Concat(*[_z[x] for x in a])
        elif op == 'ext':
            e = z3.Extract(a[1] + w - 1, a[1], _z[a[0]])
        elif op == 'xor':
            e = _z[a[0]]
            for x in a[1:]:
                e = e ^ _z[x]
        elif op == 'and':
            e = _z[a[0]]
            for x in a[1:]:
                e = e & _z[x]
        elif op == 'or':
            e = _z[a[0]]
            for x in a[1:]:
                e = e | _z[x]
        elif op == 'ite':
            e = z3.If(tob(a[0]), _z[a[1]], _z[a[2]])
        elif op == 'shl':
            e = _z[a[0]] << _z[a[1]]
        elif op == 'lshr':
            e = z3.LShR(_z[a[0]], _z[a[1]])
        elif op == 'ashr':
            e = _z[a[0]] >> _z[a[1]]
        elif op == 'mul':
            e = _z[a[0]] * _z[a[1]]
        elif op == 'udiv':
            e = z3.UDiv(_z[a[0]], _z[a[1]])
        elif op == 'urem':
            e = z3.URem(_z[a[0]], _z[a[1]])
        elif op == 'uf':
            args = [x for x in a[1:] if isinstance(x, T)]
            nm = '.'.join([str(a[0])] + [str(x) for x in a[1:] if not isinstance(x, T)])
            if not args:
                e = z3.BitVec(nm, w)
            else:
                key = (nm, tuple(x.w for x in args), w)
                f = _ufs.get(key)
                if f is None:
                    f = z3.Function(nm, *([z3.BitVecSort(x.w) for x in args] + [z3.BitVecSort(w)]))
                    _ufs[key] = f
                e = f(*[_z[x] for x in args])
        else:
            raise ValueError(op)
        _z[t] = e


def zof(t):
    toz([t])
    return _z[t]


_cache = {}
alts = {}
# hook: function(list of asserted terms) -> extra facts
fact_hooks = []


def check(terms, timeout=10000, model=False):
    """satisfiability of a conjunction of width-1 terms: 'sat'/'unsat'/'unknown' (and a model)"""
    ts = []
    for t in terms:
        if t is FALSE:
            return ('unsat', None) if model else 'unsat'
        if t is not TRUE:
            ts.append(t)
    if not ts and not model:
        return 'sat'
    key = frozenset(ts)
    if not model and key in _cache:
        return _cache[key]
    extra = []
    for h in fact_hooks:
        extra.extend(h(ts))
    t0 = time.time()
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', timeout)
    for t in list(ts) + extra:
        s.add(tob(t))
    r = str(s.check())
    dt = time.time() - t0
    stats['queries'] += 1
    stats['time'] += dt
    stats['max'] = max(stats['max'], dt)
    stats[r] += 1
    if r != 'unknown':
        _cache[key] = r
    if model:
        return r, (s.model() if r == 'sat' else None)
    return r


def terms_in(q):
    return topo(q)


def prove(hyps, goal, timeout=10000):
    """is hyps |= goal ?  returns 'proved' / 'refuted' / 'unknown'"""
    if goal is TRUE:
        return 'proved'
    if goal in hyps:
        return 'proved'
    q = list(hyps) + [bnot(goal)]
    if alts and timeout > 1500:
        # s = s_entry + c with s a named term: first a quick try, then the more general statement with s_entry + c for s
        # (any proof of it is a proof of this instance), then the full time
        r = check(q, 1500)
        if r == 'unknown':
            m = {a: b for a, b in alts.items() if a in set(terms_in(q))}
            if m:
                q2 = subst(q, m)
                if check(q2, min(timeout, 5000)) == 'unsat':
                    return 'proved'
            r = check(q, timeout)
    else:
        r = check(q, timeout)
    return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]


def model_of(hyps, timeout=10000):
    r, m = check(list(hyps), timeout, model=True)
    return m if r == 'sat' else None


def model_val(m, t):
    v = m.eval(zof(t), model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    return None
