"""const-evaluable SHA-256: Hash::const_hash and Midstate::hash_tag.

The block loop is given an explicit invariant (state words = H(chunks done)), checked for an arbitrary iteration by an
exhaustive case split (message length mod 64; chunk before / at / after the last whole chunk)."""
import terms as tm
from terms import (T, const, var, fresh, uf, TRUE, FALSE, cat, ext, zext, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, lshr, shl, isc)
import sx
from sx import Ptr, State, Unsupported
import loops
import specs
import sweep
import smt
import engine
import l1
from engine import c64

DEFS = {}
NAMES = {}
POS = {}      # position of a named word in its block: only the order in which matches are tried
_subs = []


def msubst(ts, m):
    """subst with the table of the previous call when the substitution is the same"""
    key = tuple(sorted((k.id, v.id) for k, v in m.items()))
    for e in _subs:
        if e[0] == key:
            return tm.subst(ts, m, e[1])
    if len(_subs) > 3:
        _subs.pop(0)
    _subs.append((key, {}))
    return tm.subst(ts, m, _subs[-1][1])


def _def_facts(ts):
    out = []
    seen = set()
    work = [v for v in tm.variables(ts) if v in DEFS]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        out.append(eq(v, DEFS[v]))
        work += [u for u in tm.variables([DEFS[v]]) if u in DEFS]
    return out


smt.fact_hooks.append(_def_facts)
_memo = {}


def compress_is(alg, ws):
    """ws (over h0.., w0..) equals compress(h, w)?"""
    key = (alg.name, tuple(t.id for t in ws))
    if key not in _memo:
        h = [var('h%d' % i, alg.ww) for i in range(alg.nw)]
        blk = []
        for i in range(16):
            blk += alg.word_bytes(var('w%d' % i, alg.ww))
        want, cuts = alg.compress(h, blk)
        ok, bad, _ = sweep.sweep(ws, want, cuts)
        _memo[key] = {i: ('refuted' if engine.sim_differs(ws[i], want[i]) else 'unknown') if i in bad else 'proved' for i in range(alg.nw)}
    return _memo[key]


class ConstHash(loops.Ctx):
    explicit = True

    def __init__(self, mod):
        self.mod = mod
        self.alg = specs.ALGS['sha256']
        self.obs = []
        self.tagcount = 0

    def H(self, i, k):
        if isc(k) and k.a == 0:      # H(0) = initial value, by definition
            return const(self.alg.iv[i], 32)
        return uf('H_sha256', 32, i, k)

    # --- naming of block words
    def is_wordfn(self, name, dem):
        if name not in self.mod.fns or name.startswith('h_'):
            return False
        f = self.mod.fn(name)
        if not f.params or f.params[0][0] != 'ptr':
            return False
        at = f.params[0][2]
        d = at.get('dereferenceable')
        return 'sret' in at and bool(d) and int(d[0][1]) == 64

    def name_words(self, ex, st, name, dem, vals, ins):
        r = ex.call_fn(st, name, vals)
        if r is None:
            return None
        st, v = r
        p = vals[0]
        if not (isinstance(p, Ptr) and isc(p.off) and p.obj.kind == 'mem'):
            return st, v
        w = st.wcells(p.obj)
        for i in range(16):
            o = p.off.a + 4 * i
            cs = w[o:o + 4]
            if all(isinstance(c, T) for c in cs):
                d = specs.le(cs)
                x = NAMES.get((d, i))
                if x is None:
                    x = NAMES[d, i] = fresh('W', 32)
                    DEFS[x] = d
                    POS[x] = i
                w[o:o + 4] = specs.to_le(x)
        return st, v

    def new_exec(self):
        ex = sx.Exec(self.mod)
        ex.contracts = [(engine.is_detect, engine.havoc_detect), (self.is_wordfn, self.name_words)]
        ex.loop_hook = self.loop_hook
        self.ex = ex
        return ex

    # --- loops
    looped = None

    def loop_hook(self, ex, fr, it, inc):
        if self.looped is None:
            return None
        # the block loop: the only loop on whose entry some location holds the initial value and the length is unbounded
        key = (fr.fn.dem, it[1])
        if key in self.looped:
            return loops.handle(ex, fr, it, inc, self)
        return None

    def covered(self, ex, st0):
        cov = {}
        self.states = []
        for o, cs in st0.mem.items():
            if len(cs) >= 32:
                for off in range(0, len(cs) - 31, 4):
                    if all(isinstance(c, T) for c in cs[off:off + 32]) and all(isc(specs.le(cs[off + 4 * i:off + 4 * i + 4])) and specs.le(cs[off + 4 * i:off + 4 * i + 4]).a == self.alg.iv[i] for i in range(8)):
                        cov.setdefault(o, set()).update(range(off, off + 32))
                        self.states.append((o, off))
        return cov

    def fields(self, ex, st0, st1, st2, ind, step):
        if not isc(step) or step.a not in (1, 64):
            raise Unsupported('block loop step')
        self.unit = step.a
        if any(isinstance(ind.v0, Ptr) for _ in (0,)) or not (isc(ind.v0) and ind.v0.a == 0):
            if not isinstance(ind.v0, Ptr):
                raise Unsupported('block loop counter start')
        return [StateField(self, o, off) for o, off in self.states]

    def kof(self, c):
        return c if self.unit == 1 else lshr(c, c64(6))

    def ghost(self, ex, st0, ind, step):
        self.required = ()
        if self.unit == 64:
            self.required = (('counter multiple of 64', lambda c: eq(ext(c, 0, 6), const(0, 6))),)
            return cat([fresh('c', 58), const(0, 6)]), []
        return fresh('c', 64), []

    def candidates(self, ex, st0, c, ind, step):
        return [('chunks done <= chunks of the padded message', lambda c: ule(self.kof(c), self.nchunks))]

    def ghost_cases(self, ex, st, c):
        mul = (lambda t: t) if self.unit == 1 else (lambda t: shl(t, c64(6)))
        out = [(c, [ult(self.kof(c), self.N)])]
        for d in range(self.extra + 1):
            out.append((mul(add(self.N, c64(d))), []))
        return out

    def case_cover(self, ex, c, g, facts):
        return band(*facts) if facts else eq(c, g)

    def phi_templates(self, ex, l, c):
        if isinstance(l.v0, T) and isc(l.v0) and l.v0.w == 32 and l.v0.a in self.alg.iv:
            i = self.alg.iv.index(l.v0.a)
            return (lambda c: self.H(i, self.kof(c))), 'H_%d(chunks done)' % i
        return None

    def check_phi(self, ex, st, l, want, got, kind):
        if not callable(l.tmpl):
            return False
        i = want.a[1]
        self.word_goal(ex, st, i, got, want, kind)
        return True

    def word_goal(self, ex, st, i, got, want, kind):
        """got == H_i(k+1): unfold one compression"""
        alg = self.alg
        if got is want:
            return ex.goal(st, TRUE, kind, 'chain word %d' % i)
        m = sx.solved(st.pc)
        g, w = msubst([got, want], m) if m else (got, want)
        if not ex.record:
            return
        ks = []
        ivs = []
        for t in tm.topo([g]):
            if t.op == 'uf' and t.a[0] == 'H_sha256' and t.a[2] not in ks:
                ks.append(t.a[2])
        kk = w.a[2]
        k0 = sub(kk, c64(1))
        if g.op == 'uf' or (len(ks) and not any(sub(k, k0) is c64(0) for k in ks)):
            return ex.goal(st, eq(got, want), kind, 'chain word %d' % i)
        sm = {self.H(j, k0): var('h%d' % j, 32) for j in range(8) if not isc(self.H(j, k0))}
        used = sorted([v for v in tm.variables([g]) if v in DEFS], key=lambda v: POS[v])
        base = shl(k0, c64(6))
        words = [specs.be([self.stream.at(add(base, c64(4 * j + b))) for b in range(4)]) for j in range(16)]
        left = list(range(16))
        for v in used:
            hit = None
            dv = DEFS[v]
            for j in sorted(left, key=lambda j: (j != POS[v], dv is not words[j])):
                if dv is words[j]:
                    hit = j
                    break
                if not plausible(dv, words[j]):
                    continue
                if smt.prove(st.pc, eq(dv, words[j]), ex.timeout) == 'proved':
                    hit = j
                    break
            if hit is None:
                return ex.oblige(st, FALSE if not left else eq(g, w), kind, 'block word handed to the rounds is not the padded message word') 
            left.remove(hit)
            sm[v] = var('w%d' % hit, 32)
            ex.obs.append(sx.Obligation('block word = word of the padded message', ex.where(), 'proved', None, None, 'word %d' % hit))
        h = msubst([g], sm)[0]
        res = self.one_word(i, h)
        ex.obs.append(sx.Obligation(kind, ex.where(), res, None, None, 'chain word %d = compression of block k' % i))

    def one_word(self, i, t):
        key = (i, t.id)
        if key not in _memo:
            alg = self.alg
            hs = [var('h%d' % j, 32) for j in range(8)]
            blk = []
            for j in range(16):
                blk += alg.word_bytes(var('w%d' % j, 32))
            want, cuts = alg.compress(hs, blk)
            ok, bad, _ = sweep.sweep([t], [want[i]], cuts)
            _memo[key] = 'proved' if ok else 'refuted' if engine.sim_differs(t, want[i]) else 'unknown'
        return _memo[key]

    # --- proofs
    def profile(self):
        counts = []
        for n in (3 * 64 + 3, 7 * 64 + 3):
            ex = self.new_exec()
            ex.record = False
            cnt = {}

            def hook(ex, fr, it, inc, cnt=cnt):
                _, h, items, nodes = it
                cur, pend, k = inc, {}, 0
                while cur:
                    k += 1
                    if k > 3000:
                        raise Unsupported('profile')
                    local = {h: cur}
                    ex.run_items(fr, items, local, None)
                    cur = local.pop(h, None)
                    for l, lst in local.items():
                        pend.setdefault(l, []).extend(lst)
                key = (fr.fn.dem, h)
                cnt[key] = max(cnt.get(key, 0), k)
                return pend
            ex.loop_hook = hook
            st = State()
            data = sx.Obj('fun', 'data', n, reader=lambda st, off: const(7, 8), ro=True)
            out = ex.new_mem(st, 'out', 32)
            found = []

            def rec(ex, st, name, dem, vals, ins, found=found, data=data, n=n):
                t = self.shape(name, vals, data, c64(n))
                if t:
                    found.append(t)
                return NotImplemented
            ex.contracts.insert(0, (lambda name, dem: True, rec))
            ex.call_fn(st, 'h_const_hash', [Ptr(data, c64(0)), c64(n), Ptr(out, c64(0))])
            self.target = found[-1] if found else None
            counts.append(cnt)
        self.looped = {k for k in counts[1] if counts[1][k] > counts[0].get(k, 0)}
        return self.looped

    target = None

    def shape(self, name, vals, data, n):
        """(function, argument pattern) of a call that gets (result pointer, data, length, constants...)"""
        if name not in self.mod.fns:
            return None
        f = self.mod.fn(name)
        if not f.params or 'sret' not in f.params[0][2]:
            return None
        d = f.params[0][2].get('dereferenceable')
        if not d or int(d[0][1]) != 32:
            return None
        pat = ['out']
        for v in vals[1:]:
            if isinstance(v, Ptr) and v.obj is data and isc(v.off) and v.off.a == 0:
                pat.append('data')
            elif v is n:
                pat.append('n')
            elif isinstance(v, T) and isc(v):
                pat.append(v)
            else:
                return None
        if pat.count('data') != 1 or pat.count('n') != 1:
            return None
        return name, tuple(pat)

    def run_target(self, ex, st, data, n, out):
        if self.target is None:
            return ex.call_fn(st, 'h_const_hash', [Ptr(data, c64(0)), n, Ptr(out, c64(0))])
        name, pat = self.target
        m = {'out': Ptr(out, c64(0)), 'data': Ptr(data, c64(0)), 'n': n}
        return ex.call_fn(st, name, [m[x] if isinstance(x, str) else x for x in pat])

    def prove_const_hash(self, cases=range(64)):
        ex = self.new_exec()
        for r in cases:
            self.case(ex, r)
            if sum(1 for o in ex.obs if o.status != 'proved') > 20:
                break
        return ex

    def case(self, ex, r):
        st = State()
        self.N = zext(var('N', 58), 64)
        n = cat([var('N', 58), const(r, 6)])
        self.extra = 1 if r <= 55 else 2
        self.nchunks = add(self.N, c64(self.extra))
        st.assume(ule(n, c64(l1.MAXMSG)))

        class P:
            sp = engine.SpecEngine('sha256')
        self.stream, Tlen = l1.padded_stream(P, n)
        data = sx.Obj('fun', 'data', n, reader=lambda st, off: uf('P', 8, off), ro=True)
        out = ex.new_mem(st, 'out', 32)
        rr = self.run_target(ex, st, data, n, out)
        if rr is None:
            ex.oblige(st, FALSE, 'const_hash returns')
            return
        st, _ = rr
        v = smt.check(list(st.pc), ex.timeout)
        ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', 'const_hash', 'proved' if v == 'sat' else 'unknown', None, None, v))
        oc = [ex.cellint(st, c) for c in st.mem[out]]
        k = lshr(Tlen, c64(6))
        ex.goals(st, [('digest word %d' % i, eq(specs.be(oc[4 * i:4 * i + 4]), self.H(i, k))) for i in range(8)],
                 'postcondition of const_hash: digest = chain value after the padded message')

    def prove_wrappers(self):
        """Hash::const_hash returns the digest; hash_tag(tag) = SHA-256 state after the block digest(tag) || digest(tag)"""
        ex = self.new_exec()
        saved, self.looped = self.looped, None
        try:
            return self._wrappers(ex)
        finally:
            self.looped = saved

    def _wrappers(self, ex):
        D = [var('D%d' % i, 32) for i in range(8)]
        db = []
        for w in D:
            db += specs.to_be(w)
        cur = {}

        def is_t(name, dem):
            return self.target is not None and name == self.target[0] or dem == '<chf::sha256::Hash>::const_hash'

        def ct(ex, st, name, dem, vals, ins):
            t = self.shape(name, vals, cur['data'], cur['n'])
            if t is None or (t != self.target and cur['what'] == 'h_const_hash'):
                return NotImplemented
            if t != self.target and dem != '<chf::sha256::Hash>::const_hash':
                return NotImplemented
            ex.store_cells(st, vals[0], db)
            return st, None
        ex.contracts.insert(0, (is_t, ct))
        for what in ('h_const_hash', 'h_hash_tag'):
            st = State()
            n = var('n', 64)
            st.assume(ule(n, c64(l1.MAXMSG)))
            data = sx.Obj('fun', 'data', n, reader=lambda st, off: uf('P', 8, off), ro=True)
            out = ex.new_mem(st, 'out', 32)
            cur.update(data=data, n=n, what=what)
            if what == 'h_const_hash' and self.target is None:
                continue
            self.nounroll = True
            rr = ex.call_fn(st, what, [Ptr(data, c64(0)), n, Ptr(out, c64(0))])
            if rr is None:
                ex.oblige(st, FALSE, what + ' returns')
                continue
            st, _ = rr
            oc = [ex.cellint(st, c) for c in st.mem[out]]
            if what == 'h_const_hash':
                ex.goals(st, [('byte %d' % j, eq(x, y)) for j, (x, y) in enumerate(zip(oc, db))], 'postcondition of Hash::const_hash')
            else:
                self.tag_goal(ex, st, oc, D)
        return ex

    def tag_goal(self, ex, st, oc, D):
        impl = [specs.be(oc[4 * i:4 * i + 4]) for i in range(8)]
        for _ in range(6):
            m = {v: DEFS[v] for v in tm.variables(impl) if v in DEFS}
            if not m:
                break
            impl = tm.subst(impl, m)
        blk = []
        for w in D + D:
            blk += specs.to_be(w)
        want, cuts = self.alg.compress([const(x, 32) for x in self.alg.iv], blk)
        ok, bad, _ = sweep.sweep(impl, want, cuts)
        for i in range(8):
            s = 'proved' if i not in bad else 'refuted' if engine.sim_differs(impl[i], want[i]) else 'unknown'
            ex.obs.append(sx.Obligation('postcondition of hash_tag: state after SHA256(tag)||SHA256(tag)', 'hash_tag', s, None, None, 'word %d' % i))


def plausible(a, b):
    import random
    rnd = random.Random(3)
    try:
        env = {v.a: rnd.getrandbits(v.w) for v in tm.variables([a, b])}
        ev = tm.evaluate([a, b], env)
        return ev[a] == ev[b] or not (tm_is_simple(a) and tm_is_simple(b))
    except Exception:
        return True


def tm_is_simple(t):
    return not any(x.op == 'ite' for x in tm.topo([t]))


class StateField(loops.Field):
    name = 'state words = H(chunks done)'

    def __init__(self, p, o, off):
        self.p, self.o, self.off = p, o, off

    def make(self, ex, st, c):
        w = st.wcells(self.o)
        for i in range(8):
            w[self.off + 4 * i:self.off + 4 * i + 4] = specs.to_le(self.p.H(i, self.p.kof(c)))

    def check(self, ex, st, c, kind):
        cs = [ex.cellint(st, x) for x in ex.getcells(st, self.o)]
        k = self.p.kof(c)
        for i in range(8):
            w = specs.le(cs[self.off + 4 * i:self.off + 4 * i + 4])
            if isc(w):
                ex.goal(st, eq(k, c64(0)) if w.a == self.p.alg.iv[i] else FALSE, kind, 'initial value word %d' % i)
            else:
                self.p.word_goal(ex, st, i, w, self.p.H(i, k), kind)
