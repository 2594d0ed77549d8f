"""Equivalence of two large bit-vector DAGs by word-level sweeping.

Random simulation proposes pairs of equal nodes; every pair that is merged is first discharged by the
solver on cones that are cut at already merged nodes (cutting = replacing sub-terms by fresh variables,
i.e. proving a more general statement), so simulation can never make an unequal pair equal."""
import random
import terms as tm
from terms import T, const, eq, ne, fresh, bnot
import smt


def cone_cut(ts, depth):
    """replace sub-terms at distance >= depth from the roots by fresh variables"""
    dist = {}
    frontier = list(ts)
    for t in ts:
        dist[t] = 0
    d = 0
    while frontier and d < depth:
        nxt = []
        for t in frontier:
            for k in tm.kids(t):
                if k not in dist:
                    dist[k] = d + 1
                    nxt.append(k)
        frontier = nxt
        d += 1
    m = {}
    for t in frontier:
        if t.op not in ('c', 'v'):
            m[t] = _cutvar(t)
    return m


_cv = {}


def _cutvar(t):
    v = _cv.get(t)
    if v is None:
        v = _cv[t] = tm.var('cut!%d' % t.id, t.w)
    return v


def prove_eq(u, v, depths=(1, 2, 3, 4, 6), timeout=4000):
    if u is v:
        return True
    for d in depths:
        m = cone_cut([u, v], d)
        m.pop(u, None)
        m.pop(v, None)
        # a root that lies inside the other's cone must not be cut through inconsistently: subst handles shared nodes
        a, b = tm.subst([u, v], m)
        if a is b:
            return True
        if smt.check([ne(a, b)], timeout) == 'unsat':
            return True
        if not m:
            return False
    return False


def sweep(impl, spec, cuts=(), nsim=6, seed=1, log=None, vars_fixed=None):
    """prove impl[i] == spec[i] for all i. Returns (ok, list of failing indices, stats)."""
    rnd = random.Random(seed)
    roots = list(impl) + list(spec) + list(cuts)
    if all(a is b for a, b in zip(impl, spec)):
        return True, [], {'merged': 0, 'checked': 0}
    order = tm.topo(roots)
    vs = [t for t in order if t.op == 'v']
    sims = []
    for _ in range(nsim):
        env = {v.a: rnd.getrandbits(v.w) for v in vs}
        sims.append(tm.evaluate(roots, env))
    sig = {}
    for t in order:
        sig[t] = tuple(s[t] for s in sims)
    new = {}
    rep = {}
    st = {'merged': 0, 'checked': 0, 'failed': 0}
    wide = lambda t: t.w >= 8 and not (t.op == 'cat' and sum(p.w for p in t.a if p.op != 'c') < 8)
    for t in order:
        ks = tm.kids(t)
        if ks:
            n = tm.rebuild(t, [new[k] for k in ks])
        else:
            n = t
        key = (t.w, sig[t])
        r = rep.get(key)
        if r is None:
            rep[key] = n
        elif r is not n and wide(t):
            st['checked'] += 1
            if prove_eq(r, n, depths=(2, 3, 4)):
                st['merged'] += 1
                n = r
            else:
                st['failed'] += 1
        new[t] = n
    bad = []
    for i, (a, b) in enumerate(zip(impl, spec)):
        if sig[a] != sig[b]:
            bad.append(i)
        elif new[a] is not new[b] and not prove_eq(new[a], new[b]):
            bad.append(i)
    return not bad, bad, st
