"""Hash-consed bit-vector terms with word-level normalisation (bools are 1-bit vectors)."""
import hashlib

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'd')

    def __repr__(self):
        return show(self, 4)


def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        d = 0
        if op == 'add':
            for u, _ in a[1]:
                if u.d > d:
                    d = u.d
        elif op not in ('c', 'v'):
            for u in a:
                if u.__class__ is T and u.d > d:
                    d = u.d
        t.d = d + 1
        _tab[k] = t
    return t


def const(v, w):
    return _mk('c', w, v & ((1 << w) - 1))


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, w):
    return _mk('v', w, name)


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)


def uf(name, w, *args):
    return _mk('uf', w, (name,) + tuple(args))


def isc(t):
    return t.op == 'c'


def _id(t):
    return t.id


# ------------------------------------------------------------------ concat / extract
def cat(parts):
    """parts: most significant first"""
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.a)
        elif p.w:
            out.append(p)
    if not out:
        raise ValueError
    res = [out[0]]
    for p in out[1:]:
        q = res[-1]
        if p.op == 'c' and q.op == 'c':
            res[-1] = const((q.a << p.w) | p.a, q.w + p.w)
            continue
        # adjacent extracts of the same term
        qb, ql = (q.a[0], q.a[1]) if q.op == 'ext' else (q, 0)
        pb, pl = (p.a[0], p.a[1]) if p.op == 'ext' else (p, 0)
        if qb is pb and ql == pl + p.w and not (q.op == 'c'):
            res[-1] = ext(qb, pl, q.w + p.w)
            continue
        # ite with same condition (byte-wise merged memory)
        if q.op == 'ite' and p.op == 'ite' and q.a[0] is p.a[0]:
            res[-1] = ite(q.a[0], cat([q.a[1], p.a[1]]), cat([q.a[2], p.a[2]]))
            continue
        res.append(p)
    if len(res) == 1:
        return res[0]
    if any(p.op == 'cat' for p in res):
        return cat(res)
    w = 0
    for p in res:
        w += p.w
    return _mk('cat', w, tuple(res))


_ext = {}
PUSH = 8


def ext(x, lo, w):
    if lo == 0 and w == x.w:
        return x
    k = (x, lo, w)
    r = _ext.get(k)
    if r is None:
        r = _ext[k] = ext_(x, lo, w)
    return r


def ext_(x, lo, w):
    assert lo >= 0 and w > 0 and lo + w <= x.w, (lo, w, x.w)
    op = x.op
    if op == 'c':
        return const(x.a >> lo, w)
    if op == 'ext':
        return ext(x.a[0], x.a[1] + lo, w)
    if op == 'cat':
        pos = x.w
        out = []
        hi = lo + w
        for p in x.a:
            ph = pos
            pl = pos - p.w
            pos = pl
            l = max(lo, pl)
            h = min(hi, ph)
            if l < h:
                out.append(ext(p, l - pl, h - l))
        return cat(out)
    if op == 'ite':
        a, b = x.a[1], x.a[2]
        if a.op in ('c', 'cat', 'ite', 'ext') or b.op in ('c', 'cat', 'ite', 'ext') or (a.op == 'uf') or b.op == 'uf' or a.op == 'v' or b.op == 'v':
            return ite(x.a[0], ext(a, lo, w), ext(b, lo, w))
    if op == 'add' and lo == 0 and w < 8 and x.d <= 4:
        # index arithmetic (never byte-wise splitting, which must be able to recombine)
        m = (1 << w) - 1
        c, ts = x.a
        return _addn(w, c & m, [(ext(t, 0, w), k & m) for t, k in ts])
    if op in ('and', 'or', 'xor'):
        # push only when it simplifies
        if any(p.op == 'c' or p.op == 'cat' for p in x.a):
            es = [ext(p, lo, w) for p in x.a]
            for p, e in zip(x.a, es):
                if e.op == 'c' and (e.a == 0 or (op != 'xor' and e.a == (1 << w) - 1)):
                    return {'and': band, 'or': bor, 'xor': bxor}[op](*es)
    return _mk('ext', w, (x, lo))


def zext(x, w):
    if w == x.w:
        return x
    return cat([const(0, w - x.w), x])


def trunc(x, w):
    return ext(x, 0, w)


def sext(x, w):
    if w == x.w:
        return x
    s = ext(x, x.w - 1, 1)
    return cat([ite(s, const(-1, w - x.w), const(0, w - x.w)), x])


# ------------------------------------------------------------------ linear sums
def _addn(w, c, terms):
    """terms: list of (T, coef)"""
    m = (1 << w) - 1
    d = {}
    c &= m
    stack = list(terms)
    while stack:
        t, k = stack.pop()
        k &= m
        if not k:
            continue
        op = t.op
        if op == 'c':
            c = (c + k * t.a) & m
        elif op == 'add':
            c = (c + k * t.a[0]) & m
            for u, j in t.a[1]:
                stack.append((u, j * k))
        elif op == 'cat':
            # split into disjoint shifted parts
            pos = t.w
            nz = [p for p in t.a if not (p.op == 'c' and p.a == 0)]
            if len(nz) > 1 and not (t.d > PUSH and all(p.op == 'ext' and p.a[0] is nz[0].a[0] for p in nz)):
                for p in t.a:
                    pos -= p.w
                    if p.op == 'c':
                        c = (c + k * (p.a << pos)) & m
                    else:
                        stack.append((_place(p, pos, w), k))
            elif len(nz) == 1:
                # single placed part p at position j: (zero-extended p, k << j)
                p = nz[0]
                j = t.a[-1].w if t.a[-1] is not p else 0
                k = (k << j) & m
                if not k:
                    continue
                if p.op == 'ext' and p.a[1] == 0 and p.a[0].w == w and not k % (1 << (w - p.w)):
                    stack.append((p.a[0], k))
                    continue
                b = t if j == 0 else cat([const(0, w - p.w), p])
                d[b] = (d.get(b, 0) + k) & m
            else:
                d[t] = (d.get(t, 0) + k) & m
        else:
            d[t] = (d.get(t, 0) + k) & m
    # normalise power-of-two coefficients:  2^j*odd * t -> odd * (t << j)
    items = {}
    for t, k in d.items():
        if not k:
            continue
        j = (k & -k).bit_length() - 1
        if j and j < w and (k >> j) in (1, (m >> j)):
            # +/- power of two
            neg = (k >> j) != 1
            s = _shl_raw(t, j)
            kk = m if neg else 1
            if s.op == 'c':
                c = (c + kk * s.a) & m
                continue
            items[s] = (items.get(s, 0) + kk) & m
        else:
            items[t] = (items.get(t, 0) + k) & m
    items = [(t, k) for t, k in items.items() if k]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    # merge disjoint placed parts back into a concat
    if all(k == 1 for _, k in items):
        segs = []
        ok = True
        for t, _ in items:
            if t.op == 'cat' or t.op == 'c':
                pos = t.w
                for p in t.a:
                    pos -= p.w
                    if not (p.op == 'c' and p.a == 0):
                        segs.append((pos, p))
            else:
                ok = False
                break
        if ok:
            segs.sort(key=lambda s: s[0])
            cur = 0
            for pos, p in segs:
                if pos < cur:
                    ok = False
                    break
                cur = pos + p.w
            if ok:
                # constant must fit into gaps
                cc = c
                parts = []
                cur = 0
                for pos, p in segs:
                    if pos > cur:
                        parts.append(const(c >> cur, pos - cur))
                        cc &= ~(((1 << (pos - cur)) - 1) << cur)
                    parts.append(p)
                    cur = pos + p.w
                if cur < w:
                    parts.append(const(c >> cur, w - cur))
                    cc &= ~(((1 << (w - cur)) - 1) << cur)
                if cc & m == 0:
                    parts.reverse()
                    return cat(parts)
    items.sort(key=lambda p: p[0].id)
    return _mk('add', w, (c, tuple(items)))


def _place(p, pos, w):
    parts = []
    if pos + p.w < w:
        parts.append(const(0, w - pos - p.w))
    parts.append(p)
    if pos:
        parts.append(const(0, pos))
    return cat(parts)


def _shl_raw(t, j):
    return cat([ext(t, 0, t.w - j), const(0, j)])


def add(*ts):
    w = ts[0].w
    if w == 1:
        return bxor(*ts)
    return _addn(w, 0, [(t, 1) for t in ts])


def sub(a, b):
    if a.w == 1:
        return bxor(a, b)
    return _addn(a.w, 0, [(a, 1), (b, -1)])


def neg(a):
    return _addn(a.w, 0, [(a, -1)])


def mul(a, b):
    if isc(b):
        a, b = b, a
    if isc(a):
        return _addn(a.w, 0, [(b, a.a)])
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', a.w, (a, b))


def shl(x, k):
    if isc(k):
        k = k.a
        if k >= x.w:
            return const(0, x.w)
        if k == 0:
            return x
        if x.op == 'add':
            return _addn(x.w, 0, [(x, 1 << k)])
        return _shl_raw(x, k)
    if isc(x) and x.a == 0:
        return x
    r = _shift_split(x, k, shl)
    if r is not None:
        return r
    return _mk('shl', x.w, (x, k))


def lshr(x, k):
    if isc(k):
        k = k.a
        if k >= x.w:
            return const(0, x.w)
        if k == 0:
            return x
        return cat([const(0, k), ext(x, k, x.w - k)])
    if isc(x) and x.a == 0:
        return x
    r = _shift_split(x, k, lshr)
    if r is not None:
        return r
    return _mk('lshr', x.w, (x, k))


def _shift_split(x, k, f):
    """small-range symbolic shift amounts become case distinctions on multiples"""
    if k.op == 'ite':
        if isc(k.a[1]) or isc(k.a[2]):
            return ite(k.a[0], f(x, k.a[1]), f(x, k.a[2]))
    return None


def ashr(x, k):
    if isc(k):
        k = min(k.a, x.w - 1)
        if k == 0:
            return x
        s = ext(x, x.w - 1, 1)
        return cat([ite(s, const(-1, k), const(0, k)), ext(x, k, x.w - k)])
    return _mk('ashr', x.w, (x, k))


def rotl(x, k):
    k %= x.w
    if k == 0:
        return x
    return cat([ext(x, 0, x.w - k), ext(x, x.w - k, k)])


def rotr(x, k):
    return rotl(x, x.w - k % x.w)


def udiv(a, b):
    if isc(b) and b.a:
        if isc(a):
            return const(a.a // b.a, a.w)
        if b.a & (b.a - 1) == 0:
            return lshr(a, const(b.a.bit_length() - 1, a.w))
    return _mk('udiv', a.w, (a, b))


def urem(a, b):
    if isc(b) and b.a:
        if isc(a):
            return const(a.a % b.a, a.w)
        if b.a == 1:
            return const(0, a.w)
        if b.a & (b.a - 1) == 0:
            return zext(ext(a, 0, b.a.bit_length() - 1), a.w)
    return _mk('urem', a.w, (a, b))


# ------------------------------------------------------------------ bitwise
def _disjoint(args):
    """args: cats/consts; merge if in every bit range at most one is non-zero. returns term or None"""
    w = args[0].w
    cuts = {0, w}
    for t in args:
        if t.op == 'cat':
            pos = t.w
            for p in t.a:
                cuts.add(pos)
                pos -= p.w
        elif t.op != 'c':
            return None
    cuts = sorted(cuts)
    parts = []
    for lo, hi in zip(cuts, cuts[1:]):
        nz = None
        for t in args:
            e = ext(t, lo, hi - lo)
            if e.op == 'c' and e.a == 0:
                continue
            if nz is not None:
                return None
            nz = e
        parts.append(nz if nz is not None else const(0, hi - lo))
    parts.reverse()
    return cat(parts)


def bxor(*args):
    w = args[0].w
    c = 0
    d = {}
    stack = list(args)
    while stack:
        t = stack.pop()
        if t.op == 'c':
            c ^= t.a
        elif t.op == 'xor':
            stack.extend(t.a)
        else:
            if t in d:
                del d[t]
            else:
                d[t] = 1
    l = list(d)
    if c:
        if not l:
            return const(c, w)
        if len(l) == 1 and l[0].op == 'cat':
            pos = w
            out = []
            for p in l[0].a:
                pos -= p.w
                out.append(bxor(p, const(c >> pos, p.w)))
            return cat(out)
        if len(l) == 1 and l[0].op == 'ite' and (isc(l[0].a[1]) or isc(l[0].a[2])):
            t = l[0]
            k = const(c, w)
            return ite(t.a[0], bxor(t.a[1], k), bxor(t.a[2], k))
        l.append(const(c, w))
    if not l:
        return const(0, w)
    if len(l) == 1:
        return l[0]
    if w > 1:
        r = _disjoint(l)
        if r is not None:
            return r
    l.sort(key=_id)
    return _mk('xor', w, tuple(l))


def bnot(x):
    return bxor(x, const(-1, x.w))


def band(*args):
    w = args[0].w
    full = (1 << w) - 1
    c = full
    d = {}
    stack = list(args)
    while stack:
        t = stack.pop()
        if t.op == 'c':
            c &= t.a
        elif t.op == 'and':
            stack.extend(t.a)
        else:
            d[t] = 1
    if c == 0:
        return const(0, w)
    l = list(d)
    if not l:
        return const(c, w)
    if w == 1:
        for t in l:
            if t.op == 'xor' and bxor(t, TRUE) in d:
                return FALSE
        # absorption: x & (x | y)
        out = []
        for t in l:
            if t.op == 'or' and any(u in d for u in t.a):
                continue
            if t.op == 'or':
                na = [u for u in t.a if bxor(u, TRUE) not in d]
                if len(na) < len(t.a):
                    return band(*([u for u in l if u is not t] + [bor(*na) if na else FALSE]))
            out.append(t)
        l = out
    if c != full:
        if len(l) == 1:
            # runs of ones/zeros
            runs = []
            pos = 0
            v = c
            while pos < w:
                b = (v >> pos) & 1
                e = pos
                while e < w and ((v >> e) & 1) == b:
                    e += 1
                runs.append((b, pos, e - pos))
                pos = e
            if len(runs) <= 8 or l[0].op == 'cat':
                x = l[0]
                return cat([ext(x, p, n) if b else const(0, n) for b, p, n in reversed(runs)])
        l.append(const(c, w))
    if len(l) == 1:
        return l[0]
    if w > 1 and any(t.op == 'cat' and any(p.op == 'c' and p.a == 0 for p in t.a) for t in l):
        # split along zero segments of a concat
        for t in l:
            if t.op == 'cat':
                pos = w
                out = []
                rest = [u for u in l if u is not t]
                for p in t.a:
                    pos -= p.w
                    if p.op == 'c' and p.a == 0:
                        out.append(p)
                    else:
                        out.append(band(p, *[ext(u, pos, p.w) for u in rest]))
                return cat(out)
    l.sort(key=_id)
    return _mk('and', w, tuple(l))


def bor(*args):
    w = args[0].w
    full = (1 << w) - 1
    c = 0
    d = {}
    stack = list(args)
    while stack:
        t = stack.pop()
        if t.op == 'c':
            c |= t.a
        elif t.op == 'or':
            stack.extend(t.a)
        else:
            d[t] = 1
    if c == full:
        return const(c, w)
    l = list(d)
    if not l:
        return const(c, w)
    if w == 1:
        for t in l:
            if bxor(t, TRUE) in d:
                return TRUE
        out = []
        for t in l:
            if t.op == 'and' and any(u in d for u in t.a):
                continue
            if t.op == 'and':
                na = [u for u in t.a if bxor(u, TRUE) not in d]
                if len(na) < len(t.a):
                    return bor(*([u for u in l if u is not t] + [band(*na) if na else TRUE]))
            out.append(t)
        l = out
    if c:
        l.append(const(c, w))
    if len(l) == 1:
        return l[0]
    if w > 1:
        r = _disjoint(l)
        if r is not None:
            return r
    l.sort(key=_id)
    return _mk('or', w, tuple(l))


# ------------------------------------------------------------------ predicates
def eq(a, b):
    if a is b:
        return TRUE
    assert a.w == b.w, (a.w, b.w)
    if a.w == 1:
        return bnot(bxor(a, b))
    if isc(a) and isc(b):
        return TRUE if a.a == b.a else FALSE
    if isc(a):
        a, b = b, a
    if isc(b):
        if a.op == 'cat':
            pos = a.w
            out = []
            for p in a.a:
                pos -= p.w
                e = eq(p, const(b.a >> pos, p.w))
                if e is FALSE:
                    return FALSE
                out.append(e)
            return band(*out)
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if isc(x) or isc(y):
                return ite(a.a[0], eq(x, b), eq(y, b))
        if a.op == 'add':
            if a.a[0]:
                return eq(_addn(a.w, 0, list(a.a[1])), const(b.a - a.a[0], a.w))
            if len(a.a[1]) == 1:
                t, k = a.a[1][0]
                if k == (1 << a.w) - 1:
                    return eq(t, const(-b.a, a.w))
            if b.a == 0 and len(a.a[1]) == 2:
                (t, k), (u, j) = a.a[1]
                m = (1 << a.w) - 1
                if k == 1 and j == m or k == m and j == 1:
                    return eq(t, u)
        if a.op == 'xor' and isc(a.a[-1]) or (a.op == 'xor' and any(isc(t) for t in a.a)):
            k = [t for t in a.a if isc(t)][0]
            return eq(bxor(a, k), const(b.a ^ k.a, a.w))
    else:
        if a.op == 'add' or b.op == 'add':
            d = sub(a, b)
            if isc(d):
                return TRUE if d.a == 0 else FALSE
            if d.op == 'add' and len(d.a[1]) == 2 and d.a[0] == 0:
                (t, k), (u, j) = d.a[1]
                m = (1 << a.w) - 1
                if k == 1 and j == m or k == m and j == 1:
                    if not (t is a and u is b or t is b and u is a):
                        return eq(t, u)
        if a.op == 'cat' and b.op == 'cat':
            # split on aligned boundaries
            ca = set()
            pos = a.w
            for p in a.a:
                pos -= p.w
                ca.add(pos)
            pos = b.w
            com = []
            for p in b.a:
                pos -= p.w
                if pos in ca:
                    com.append(pos)
            if len(com) > 1:
                out = []
                hi = a.w
                for lo in com:
                    e = eq(ext(a, lo, hi - lo), ext(b, lo, hi - lo))
                    if e is FALSE:
                        return FALSE
                    out.append(e)
                    hi = lo
                return band(*out)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if a.a < b.a else FALSE
    if isc(b) and b.a == 0:
        return FALSE
    if isc(a) and a.a == (1 << a.w) - 1:
        return FALSE
    if isc(b) and b.a == 1:
        return eq(a, const(0, a.w))
    if isc(a) and a.a == 0:
        return ne(b, a)
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    # strip common leading zeros
    za, zb = lz(a), lz(b)
    z = min(za, zb)
    if z >= a.w:
        z = a.w - 1
    if z and a.w - z >= 1:
        return ult(ext(a, 0, a.w - z), ext(b, 0, b.w - z))
    # strip common trailing equal parts: high parts compare
    if a.op == 'cat' and b.op == 'cat' and a.a[-1] is b.a[-1]:
        k = a.a[-1].w
        return ult(ext(a, k, a.w - k), ext(b, k, b.w - k))
    if a.op == 'cat' and b.op == 'cat':
        x, y = a.a[0], b.a[0]
        if x is y:
            return ult(ext(a, 0, a.w - x.w), ext(b, 0, a.w - x.w))
        x, y = a.a[-1], b.a[-1]
        if x.op == 'c' and y.op == 'c' and x.w == y.w and x.w < a.w:
            k = x.w
            hx, hy = ext(a, k, a.w - k), ext(b, k, b.w - k)
            return bnot(ult(hy, hx)) if x.a < y.a else ult(hx, hy)
    if isc(b) and a.op == 'cat' and b.a & ((1 << a.a[-1].w) - 1) == 0:
        k = a.a[-1].w
        if a.w > k:
            return ult(ext(a, k, a.w - k), ext(b, k, b.w - k))
    if a.op == 'ite' and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if b.op == 'ite' and isc(a) and (isc(b.a[1]) or isc(b.a[2])):
        return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    return _mk('ult', 1, (a, b))


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if isc(a) and isc(b):
        sa = a.a - (1 << w) if a.a >> (w - 1) else a.a
        sb = b.a - (1 << w) if b.a >> (w - 1) else b.a
        return TRUE if sa < sb else FALSE
    if lz(a) > 0 and lz(b) > 0:
        return ult(a, b)
    if isc(b) and b.a == 0:
        return ext(a, w - 1, 1)
    if isc(a) and a.a == (1 << w) - 1:
        return bnot(ext(b, w - 1, 1))
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return bnot(slt(b, a))


def lz(t):
    if t.op == 'c':
        return t.w - t.a.bit_length()
    if t.op == 'cat':
        p = t.a[0]
        if p.op == 'c' and p.a == 0:
            return p.w
        if p.op == 'c':
            return p.w - p.a.bit_length()
    if t.op == 'ite':
        return min(lz(t.a[1]), lz(t.a[2]))
    return 0


_rng = {}


def rng(t, depth=12):
    """unsigned interval"""
    r = _rng.get(t)
    if r is not None:
        return r
    w = t.w
    m = (1 << w) - 1
    op = t.op
    r = (0, m)
    if op == 'c':
        r = (t.a, t.a)
    elif depth <= 0:
        return r
    elif op == 'cat':
        lo = hi = 0
        for p in t.a:
            l, h = rng(p, depth - 1)
            lo = (lo << p.w) | l
            hi = (hi << p.w) | h
        r = (lo, hi)
    elif op == 'ite':
        a = rng(t.a[1], depth - 1)
        b = rng(t.a[2], depth - 1)
        r = (min(a[0], b[0]), max(a[1], b[1]))
        # min pattern ite(ult(x,y),x,y)
        c = t.a[0]
        if c.op == 'ult':
            x, y = c.a
            if t.a[1] is x and t.a[2] is y:
                r = (min(a[0], b[0]), min(a[1], b[1]))
            elif t.a[1] is y and t.a[2] is x:
                r = (max(a[0], b[0]), max(a[1], b[1]))
    elif op == 'add':
        lo = hi = t.a[0]
        ok = True
        for u, k in t.a[1]:
            l, h = rng(u, depth - 1)
            if k > m // 2:
                kk = m + 1 - k
                lo -= kk * h
                hi -= kk * l
            else:
                lo += k * l
                hi += k * h
        # normalise window
        if lo // (m + 1) == hi // (m + 1):
            r = (lo % (m + 1), hi % (m + 1))
    elif op == 'and':
        h = min(rng(u, depth - 1)[1] for u in t.a)
        r = (0, h)
    elif op == 'urem' and isc(t.a[1]) and t.a[1].a:
        r = (0, t.a[1].a - 1)
    elif op == 'udiv' and isc(t.a[1]) and t.a[1].a:
        l, h = rng(t.a[0], depth - 1)
        r = (l // t.a[1].a, h // t.a[1].a)
    elif op == 'lshr':
        r = (0, rng(t.a[0], depth - 1)[1])
    _rng[t] = r
    return r


def ite(c, x, y):
    if x is y:
        return x
    if c.op == 'c':
        return x if c.a else y
    assert x.w == y.w, (x.w, y.w)
    if c.op == 'xor' and TRUE in c.a:
        return ite(bxor(c, TRUE), y, x)
    if x.w == 1:
        if x is TRUE:
            return bor(c, y)
        if x is FALSE:
            return band(bnot(c), y)
        if y is TRUE:
            return bor(bnot(c), x)
        if y is FALSE:
            return band(c, x)
        if x is c:
            return bor(c, y)
        if y is c:
            return band(c, x)
    if x.op == 'ite':
        if x.a[0] is c:
            return ite(c, x.a[1], y)
        if x.a[2] is y:
            return ite(band(c, x.a[0]), x.a[1], y)
    if y.op == 'ite':
        if y.a[0] is c:
            return ite(c, x, y.a[2])
        if y.a[1] is x:
            return ite(bor(c, y.a[0]), x, y.a[2])
    # common concat structure
    if x.op == 'cat' and y.op == 'cat' or (x.op == 'cat' and y.op == 'c') or (x.op == 'c' and y.op == 'cat'):
        xh = x.a[0] if x.op == 'cat' else None
        yh = y.a[0] if y.op == 'cat' else None
        z = min(lz(x), lz(y))
        if z and z < x.w:
            return cat([const(0, z), ite(c, ext(x, 0, x.w - z), ext(y, 0, y.w - z))])
    return _mk('ite', x.w, (c, x, y))


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(a, b), b, a)


def bswap(x):
    return cat([ext(x, i, 8) for i in range(0, x.w, 8)])


# ------------------------------------------------------------------ traversal
def kids(t):
    op = t.op
    if op in ('c', 'v'):
        return ()
    if op == 'add':
        return tuple(u for u, _ in t.a[1])
    if op == 'ext':
        return (t.a[0],)
    if op == 'uf':
        return tuple(u for u in t.a[1:] if isinstance(u, T))
    return t.a


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        st = [(r, iter(kids(r)))]
        seen.add(r)
        while st:
            t, it = st[-1]
            for k in it:
                if k not in seen:
                    seen.add(k)
                    st.append((k, iter(kids(k))))
                    break
            else:
                out.append(t)
                st.pop()
    return out


def rebuild(t, ks):
    """t with children replaced by ks (same order as kids)"""
    op = t.op
    if op in ('c', 'v'):
        return t
    if op == 'add':
        return _addn(t.w, t.a[0], [(u, k) for u, (_, k) in zip(ks, t.a[1])])
    if op == 'ext':
        return ext(ks[0], t.a[1], t.w)
    if op == 'uf':
        it = iter(ks)
        return uf(t.a[0], t.w, *[next(it) if isinstance(u, T) else u for u in t.a[1:]])
    if op == 'cat':
        return cat(list(ks))
    if op == 'and':
        return band(*ks)
    if op == 'or':
        return bor(*ks)
    if op == 'xor':
        return bxor(*ks)
    return {'ite': ite, 'eq': eq, 'ult': ult, 'slt': slt, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'mul': mul,
            'udiv': udiv, 'urem': urem}[op](*ks)


def subst(roots, m, memo=None):
    """simultaneous substitution m: T -> T (does not look below the substituted terms); memo: table of an earlier call with the same m"""
    if memo is None:
        memo = dict(m)
    elif not memo:
        memo.update(m)
    for r in roots:
        if r in memo:
            continue
        st = [(r, kids(r), 0)]
        while st:
            t, ks, i = st.pop()
            n = len(ks)
            while i < n and ks[i] in memo:
                i += 1
            if i < n:
                st.append((t, ks, i))
                k = ks[i]
                st.append((k, kids(k), 0))
                continue
            if t in memo:
                continue
            if n:
                nk = tuple(memo[k] for k in ks)
                memo[t] = t if nk == ks else rebuild(t, nk)
            else:
                memo[t] = t
    return [memo[r] for r in roots]


def variables(roots):
    return [t for t in topo(roots) if t.op == 'v']


def _ufval(name, w, args):
    h = hashlib.blake2b(repr((name, args)).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'little') & ((1 << w) - 1)


def evaluate(roots, env, ufv=None):
    """env: name -> int (mutable: missing variables get pseudo-random values). ufv(name,w,args)->int"""
    ufv = ufv or _ufval
    val = {}
    for t in topo(roots):
        op = t.op
        w = t.w
        m = (1 << w) - 1
        a = t.a
        if op == 'c':
            v = a
        elif op == 'v':
            v = env.get(a)
            if v is None:
                v = _ufval('var:' + a, w, env.get('__seed', 0))
            v &= m
        elif op == 'add':
            v = a[0]
            for u, k in a[1]:
                v += val[u] * k
            v &= m
        elif op == 'cat':
            v = 0
            for p in a:
                v = (v << p.w) | val[p]
        elif op == 'ext':
            v = (val[a[0]] >> a[1]) & m
        elif op == 'xor':
            v = 0
            for p in a:
                v ^= val[p]
        elif op == 'and':
            v = m
            for p in a:
                v &= val[p]
        elif op == 'or':
            v = 0
            for p in a:
                v |= val[p]
        elif op == 'ite':
            v = val[a[1]] if val[a[0]] else val[a[2]]
        elif op == 'eq':
            v = 1 if val[a[0]] == val[a[1]] else 0
        elif op == 'ult':
            v = 1 if val[a[0]] < val[a[1]] else 0
        elif op == 'slt':
            x, y = val[a[0]], val[a[1]]
            s = 1 << (a[0].w - 1)
            v = 1 if (x ^ s) < (y ^ s) else 0
        elif op == 'shl':
            k = val[a[1]]
            v = (val[a[0]] << k) & m if k < w else 0
        elif op == 'lshr':
            k = val[a[1]]
            v = val[a[0]] >> k if k < w else 0
        elif op == 'ashr':
            x = val[a[0]]
            k = min(val[a[1]], w - 1)
            if x >> (w - 1):
                x -= 1 << w
            v = (x >> k) & m
        elif op == 'mul':
            v = (val[a[0]] * val[a[1]]) & m
        elif op == 'udiv':
            v = val[a[0]] // val[a[1]] if val[a[1]] else m
        elif op == 'urem':
            v = val[a[0]] % val[a[1]] if val[a[1]] else val[a[0]]
        elif op == 'uf':
            v = ufv(a[0], w, tuple(val[u] if isinstance(u, T) else u for u in a[1:])) & m
        else:
            raise ValueError(op)
        val[t] = v
    return val


def show(t, depth=6):
    if t.op == 'c':
        return '%#x:%d' % (t.a, t.w) if t.a > 9 else '%d:%d' % (t.a, t.w)
    if t.op == 'v':
        return t.a
    if depth == 0:
        return '…%d' % t.id
    d = depth - 1
    if t.op == 'add':
        m = (1 << t.w) - 1
        s = []
        for u, k in t.a[1]:
            if k == 1:
                s.append(show(u, d))
            elif k == m:
                s.append('-' + show(u, d))
            else:
                s.append('%d*%s' % (k, show(u, d)))
        if t.a[0]:
            s.append(hex(t.a[0]))
        return '(+ ' + ' '.join(s) + ')'
    if t.op == 'ext':
        return '%s[%d+%d]' % (show(t.a[0], d), t.a[1], t.w)
    if t.op == 'uf':
        return '%s(%s)' % (t.a[0], ','.join(show(u, d) if isinstance(u, T) else str(u) for u in t.a[1:]))
    return '(%s %s)' % (t.op, ' '.join(show(u, d) for u in t.a))
