"""L1: representation invariants and contracts of the streaming engines, proved at byte level."""
import random
import terms as tm
from terms import (T, const, var, fresh, uf, TRUE, FALSE, cat, ext, zext, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, lshr, isc)
import sx
from sx import Ptr, State, Unsupported
import loops
import specs
import sweep
import smt

MAXLEN = 1 << 62    # stream positions (messages are < 2^61 bytes)


def c64(x):
    return const(x, 64)


def lg2(n):
    return n.bit_length() - 1


class SpecEngine:
    """what the engine must do: block size, chain values, invariant fields"""

    def __init__(self, name):
        self.name = name
        if name == 'siphash24':
            self.B, self.nw, self.ww = 8, 4, 64
            self.compress = specs.sip_compress
            self.alg = None
        else:
            a = specs.ALGS[name]
            self.alg = a
            self.B, self.nw, self.ww = a.block, a.nw, a.ww
            self.compress = a.compress
        self.wb = self.ww // 8
        self.lg = lg2(self.B)

    def H(self, i, k):
        return uf('H_' + self.name, self.ww, i, k)

    def kof(self, s):
        return lshr(s, c64(self.lg))


class Layout:
    def __init__(self):
        self.size = None
        self.h = None       # list of byte offsets of chain words (machine order words)
        self.len = None
        self.buf = None     # offset of block buffer / tail word
        self.ntail = None   # siphash
        self.hset = set()
        self.bufset = set()
        self.lenset = set()


class Stream:
    """P(i): the byte at stream position i"""

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def at(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self.f(i)
        return r


def plain_stream():
    return Stream(lambda i: uf('P', 8, i))


class EngineProof(loops.Ctx):
    def __init__(self, mod, name, pre=None, log=None):
        self.mod = mod
        self.sp = SpecEngine(name)
        self.name = name
        self.pre = pre or name
        self.stream = plain_stream()
        self.summ = {}
        self.ex = None
        self.obs = []
        self.lay = None
        self.loopset = None
        self.profile_counts = None
        self.inlined_h = False
        self.log = log or (lambda *a: None)

    # ------------------------------------------------------------------ executor set-up
    def new_exec(self, contracts=(), loops_on=True):
        ex = sx.Exec(self.mod)
        ex.contracts = list(contracts) + [(self.is_summarisable, self.call_summary), (is_detect, havoc_detect)]
        ex.loop_hook = self.loop_hook if loops_on else None
        self.ex = ex
        return ex

    def entry(self, what):
        n = 'h_%s_%s' % (self.pre, what)
        self.mod.probes.add(n)
        if n not in self.mod.fns:
            raise Unsupported('no entry ' + n)
        return n

    # ------------------------------------------------------------------ compress summaries
    content = True      # decide the content of the compression function

    def is_summarisable(self, name, dem):
        if name not in self.mod.fns or name.startswith('h_'):
            return False
        if ' as ' in dem or 'chf::' not in dem:
            return False
        return self.sp.alg is not None and self.summary(name) is not None

    def summary(self, name):
        if name in self.summ:
            return self.summ[name]
        self.summ[name] = None
        try:
            self.summ[name] = self.make_summary(name)
        except Unsupported as e:
            self.log('no summary for %s: %s' % (self.mod.dem[name], e))
        return self.summ[name]

    def make_summary(self, name):
        f = self.mod.fn(name)
        sp = self.sp
        if f.ret != 'void' or len(str(f.text)) < 3000:
            return None
        res = None
        wordvars = None
        for phase in (0, 1):
            ex = sx.Exec(self.mod)
            ex.contracts = [(is_detect, havoc_detect)]
            st = State()
            args = []
            objs = []
            for k, (t, n, at) in enumerate(f.params):
                if t == 'ptr':
                    d = at.get('dereferenceable')
                    size = int(d[0][1]) if d else sp.B
                    cells = [var('m%d_%d' % (k, i), 8) for i in range(size)]
                    if phase == 1:
                        if k == hk:
                            for i in range(sp.nw):
                                o = hoff + i * sp.wb
                                cells[o:o + sp.wb] = specs.to_le(var('h%d' % i, sp.ww))
                        if k == bk:
                            for i in range(16):
                                o = boff + i * sp.wb
                                cells[o:o + sp.wb] = sp.alg.word_bytes(var('w%d' % i, sp.ww))
                    ro = 'readonly' in at
                    o = ex.new_mem(st, 'arg%d' % k, size, cells, align=at.get('align', 1) or 1)
                    objs.append((k, o, cells))
                    args.append(Ptr(o, c64(0)))
                elif t != 'ptr' and t[0] == 'i' and t[1] == 64:
                    args.append(c64(sp.B))
                else:
                    return None
            r = ex.call_fn(st, name, args)
            if r is None:
                return None
            st, _ = r
            ch = []
            for k, o, cells in objs:
                new = st.mem[o]
                for i in range(len(cells)):
                    if new[i] is not cells[i]:
                        ch.append((k, i))
            if phase == 0:
                if len(ch) != sp.nw * sp.wb or len({k for k, _ in ch}) != 1 or ch[-1][1] - ch[0][1] != len(ch) - 1:
                    return None
                hk, hoff = ch[0]
                o = [o for k, o, _ in objs if k == hk][0]
                new = st.mem[o][hoff:hoff + len(ch)]
                vs = {v.a for v in tm.variables([c for c in new if isinstance(c, T)])}
                if any(not v.startswith('m') for v in vs):
                    return None
                pos = sorted(tuple(map(int, v[1:].split('_'))) for v in vs)
                pos = [p for p in pos if not (p[0] == hk and hoff <= p[1] < hoff + len(ch))]
                if not pos or len({k for k, _ in pos}) != 1:
                    return None
                bk, lo, hi = pos[0][0], pos[0][1], pos[-1][1]
                if hi - lo + 1 != sp.B:
                    # a wrong compression function may ignore some block bytes: accept if the range fits
                    return None
                boff = lo
            else:
                o = [o for k, o, _ in objs if k == hk][0]
                new = st.mem[o]
                impl = [specs.le(new[hoff + i * sp.wb:hoff + (i + 1) * sp.wb]) for i in range(sp.nw)]
                h = [var('h%d' % i, sp.ww) for i in range(sp.nw)]
                blk = []
                for i in range(16):
                    blk += sp.alg.word_bytes(var('w%d' % i, sp.ww))
                obs = list(ex.obs)
                if not self.content:
                    ok, stt = True, {}
                    ex.assumptions.add('the compression function is treated as one unspecified function of chaining value and block here (its content is what C01-C04 decide)')
                else:
                    want, cuts = sp.compress(h, blk)
                    ok, bad, stt = sweep.sweep(impl, want, cuts)
                for i in range(sp.nw if self.content else 0):
                    status = 'proved' if i not in bad else 'refuted' if sim_differs(impl[i], want[i]) else 'unknown'
                    obs.append(sx.Obligation('compression function equals its specification', self.mod.dem[name], status, None, None, 'word %d' % i))
                return {'hk': hk, 'hoff': hoff, 'bk': bk, 'boff': boff, 'obs': obs, 'ok': ok, 'sweep': stt, 'functions': set(ex.functions) | {f.dem},
                        'assumptions': ex.assumptions, 'lens': [k for k, (t, _, _) in enumerate(f.params) if t != 'ptr']}

    def call_summary(self, ex, st, name, dem, vals, ins):
        s = self.summ[name]
        sp = self.sp
        if not s.get('reported'):
            s['reported'] = True
            ex_obs_extend(self, s)
        hp, bp = vals[s['hk']], vals[s['bk']]
        for k in s['lens']:
            ex.goal(st, eq(vals[k], c64(sp.B)), 'compress precondition', 'block length')
        hp2 = ex.padd(hp, c64(s['hoff']))
        hc = ex.load_cells(st, hp2, sp.nw * sp.wb)
        words = [specs.le([ex.cellint(st, c) for c in hc[i * sp.wb:(i + 1) * sp.wb]]) for i in range(sp.nw)]
        k = self.chain_index(words)
        if k is None:
            return NotImplemented
        gs = [('chain word %d' % i, eq(words[i], sp.H(i, k)) if not self.is_iv(words[i], i, k) else TRUE) for i in range(sp.nw)]
        bc = ex.load_cells(st, ex.padd(bp, c64(s['boff'])), sp.B)
        base = tm.shl(k, c64(sp.lg))
        gs += [('block byte %d' % j, eq(ex.cellint(st, bc[j]), self.stream.at(add(base, c64(j))))) for j in range(sp.B)]
        ex.goals(st, gs, 'compress precondition: the block handed to the compression function')
        new = []
        k1 = add(k, c64(1))
        for i in range(sp.nw):
            new += specs.to_le(sp.H(i, k1))
        ex.store_cells(st, hp2, new)
        return st, None

    def is_iv(self, w, i, k):
        return isc(k) and k.a == 0 and isc(w) and self.sp.alg is not None and w.a == self.sp.alg.iv[i]

    def chain_index(self, words):
        nm = 'H_' + self.name
        sp = self.sp

        def idx(t, i):
            if t.op == 'uf' and t.a[0] == nm and t.a[1] == i:
                return t.a[2]
            if t.op == 'ite':
                a, b = idx(t.a[1], i), idx(t.a[2], i)
                if a is not None and b is not None:
                    return ite(t.a[0], a, b)
            if t.op == 'c' and sp.alg is not None and t.a == sp.alg.iv[i]:
                return c64(0)
            return None
        for i, w in enumerate(words):
            k = idx(w, i)
            if k is not None:
                return k
        return None

    # ------------------------------------------------------------------ layout
    def discover(self):
        lay = Layout()
        self.lay = lay
        ex = self.new_exec(loops_on=False)
        ex.record = False
        st = State()
        o = ex.new_mem(st, 'sizes', 24)
        st, _ = ex.call_fn(st, self.entry('sizes'), [Ptr(o, c64(0))])
        sz = [specs.le(st.mem[o][8 * i:8 * i + 8]).a for i in range(3)]
        lay.size, lay.mid, lay.dig = sz
        # length
        st = State()
        cells = [var('e%d' % i, 8) for i in range(lay.size)]
        o = ex.new_mem(st, 'eng', lay.size, cells, align=8)
        st, v = ex.call_fn(st, self.entry('n_bytes'), [Ptr(o, c64(0))])
        lay.len = locate(v, 8)
        if lay.len is None:
            raise Unsupported('length is not stored as one word')
        lay.lenset = set(range(lay.len, lay.len + 8))
        # chain words
        st = State()
        cells = [var('e%d' % i, 8) for i in range(lay.size)]
        cells[lay.len:lay.len + 8] = [const(0, 8)] * 8
        o = ex.new_mem(st, 'eng', lay.size, cells, align=8)
        out = ex.new_mem(st, 'out', lay.mid, align=8)
        st, _ = ex.call_fn(st, self.entry('midstate'), [Ptr(o, c64(0)), Ptr(out, c64(0))])
        sp = self.sp
        m = st.mem[out]
        lay.h = []
        for i in range(sp.nw):
            bs = m[i * sp.wb:(i + 1) * sp.wb]
            if sp.alg is not None and sp.alg.bigend:
                w = specs.be(bs)
                bs = specs.to_le(w)
            off = locate(specs.le(bs), sp.wb)
            if off is None:
                raise Unsupported('chain word is not stored as one word')
            lay.h.append(off)
        if sp.alg is None:
            # State is an opaque struct v0,v2,v1,v3 in memory; identify the words by with_keys
            pos = {off: sp.wb * i for i, off in enumerate(lay.h)}
            lay.h = self.sip_words(ex)
            if set(pos) != set(lay.h):
                raise Unsupported('sip midstate is not the state words')
            self.midpos = [pos[off] for off in lay.h]
        for off in lay.h:
            lay.hset |= set(range(off, off + sp.wb))
        # buffer
        st = State()
        cells = [var('e%d' % i, 8) for i in range(lay.size)]
        cells[lay.len:lay.len + 8] = [const(0, 8)] * 8
        if sp.alg is None:
            cells = [c if i in lay.hset or i in self.keycells else const(0, 8) for i, c in enumerate(cells)]
        o = ex.new_mem(st, 'eng', lay.size, cells, align=8)
        d = ex.new_mem(st, 'data', 1, [var('d0', 8)])
        st, _ = ex.call_fn(st, self.entry('input'), [Ptr(o, c64(0)), Ptr(d, c64(0)), c64(1)])
        new = st.mem[o]
        ch = [i for i in range(lay.size) if new[i] is not cells[i] and i not in lay.lenset]
        b = [i for i in ch if isinstance(new[i], T) and new[i].op == 'v' and new[i].a == 'd0']
        if len(b) != 1:
            raise Unsupported('buffer not found')
        lay.buf = b[0]
        lay.bufset = set(range(lay.buf, lay.buf + sp.B))
        if sp.alg is None:
            r = [i for i in ch if i != lay.buf and isc(new[i]) and new[i].a == 1]
            if len(r) != 1:
                raise Unsupported('ntail not found')
            lay.ntail = r[0]
        if lay.buf + sp.B > lay.size or (lay.bufset & (lay.hset | lay.lenset)) or (lay.hset & lay.lenset):
            raise Unsupported('overlapping engine fields')
        self.ex = None
        return lay

    def sip_words(self, ex):
        st = State()
        o = ex.new_mem(st, 'eng', self.lay.size, align=8)
        k0, k1 = var('k0', 64), var('k1', 64)
        st, _ = ex.call_fn(st, 'h_sip_with_keys', [k0, k1, Ptr(o, c64(0))])
        cells = st.mem[o]
        want = specs.sip_init(k0, k1)
        res = []
        for w in want:
            off = [i for i in range(0, self.lay.size - 7, 8) if all(isinstance(c, T) for c in cells[i:i + 8]) and specs.le(cells[i:i + 8]) is w]
            if len(off) != 1:
                raise Unsupported('sip state words not found')
            res.append(off[0])
        self.keys = []
        self.keycells = set()
        for k in (k0, k1):
            off = [i for i in range(0, self.lay.size - 7, 8) if all(isinstance(c, T) for c in cells[i:i + 8]) and specs.le(cells[i:i + 8]) is k]
            if len(off) != 1:
                raise Unsupported('sip keys not found')
            self.keys.append(off[0])
            self.keycells |= set(range(off[0], off[0] + 8))
        return res

    # ------------------------------------------------------------------ invariant
    def inv_cells(self, s, tag, stream=None, base=None):
        """cells of an engine satisfying Inv(s); bytes not covered keep `base`"""
        lay, sp = self.lay, self.sp
        stream = stream or self.stream
        cells = list(base) if base is not None else [var('%s_e%d' % (tag, i), 8) for i in range(lay.size)]
        k = sp.kof(s)
        for i, off in enumerate(lay.h):
            cells[off:off + sp.wb] = specs.to_le(sp.H(i, k))
        cells[lay.len:lay.len + 8] = specs.to_le(s)
        self.buf_cells(cells, s, tag, stream)
        return cells

    def buf_cells(self, cells, s, tag, stream):
        lay, sp = self.lay, self.sp
        r = ext(s, 0, sp.lg)
        hi = ext(s, sp.lg, 64 - sp.lg)
        for j in range(sp.B):
            p = stream.at(cat([hi, const(j, sp.lg)]))
            junk = const(0, 8) if sp.alg is None else fresh('junk', 8)
            cells[lay.buf + j] = ite(ult(const(j, sp.lg), r), p, junk)
        if lay.ntail is not None:
            cells[lay.ntail:lay.ntail + 8] = specs.to_le(zext(r, 64))

    def buf_goals(self, cells, s, stream):
        lay, sp = self.lay, self.sp
        r = ext(s, 0, sp.lg)
        hi = ext(s, sp.lg, 64 - sp.lg)
        gs = []
        for j in range(sp.B):
            p = stream.at(cat([hi, const(j, sp.lg)]))
            x = cells[lay.buf + j]
            u = ult(const(j, sp.lg), r)
            if sp.alg is None:
                gs.append(('tail byte %d' % j, eq(x, ite(u, p, const(0, 8)))))
            else:
                gs.append(('buffer byte %d' % j, bor(bnot(u), eq(x, p))))
        if lay.ntail is not None:
            gs.append(('ntail', eq(specs.le(cells[lay.ntail:lay.ntail + 8]), zext(r, 64))))
        return gs

    def h_goals(self, ex, st, cells, k, kind):
        """chain words equal H(k): syntactic / solver / unfolding of one compression step"""
        sp, lay = self.sp, self.lay
        words = [specs.le(cells[off:off + sp.wb]) for off in lay.h]
        self.word_goals(ex, st, words, k, kind)

    def word_goals(self, ex, st, words, k, kind):
        sp = self.sp
        want = [sp.H(i, k) for i in range(sp.nw)]
        if all(self.chain_index([w] if i == 0 else [None] * 0 + [w]) is not None or True for i, w in enumerate(words)) and \
                all(is_chain(self, w, i) for i, w in enumerate(words)):
            gs = []
            for i in range(sp.nw):
                w = words[i]
                gs.append(('chain word %d' % i, eq(w, want[i]) if not (isc(w) and not isc(want[i])) else
                           (eq(k, c64(0)) if sp.alg is not None and w.a == sp.alg.iv[i] else FALSE)))
            return ex.goals(st, gs, kind)
        # unfold
        m = sx.solved(st.pc)
        ws = tm.subst(words, m) if m else words
        ws = decide_ites(st, ws)
        kk = tm.subst([k], m)[0] if m else k
        ks = []
        for t in tm.topo(ws):
            if t.op == 'uf' and t.a[0] == 'H_' + self.name and t.a[2] not in ks:
                ks.append(t.a[2])
        for k0 in ks:
            if smt.prove(st.pc, eq(add(k0, c64(1)), kk), ex.timeout) == 'proved':
                h = [sp.H(i, k0) for i in range(sp.nw)]
                base = tm.shl(k0, c64(sp.lg))
                blk = [self.stream.at(add(base, c64(j))) for j in range(sp.B)]
                want, cuts = sp.compress(h, blk)
                bad = []
                if any(a is not b for a, b in zip(ws, want)):
                    ok, bad, _ = sweep.sweep(ws, want, cuts)
                for i in range(sp.nw):
                    g = TRUE if i not in bad else eq(ws[i], want[i])
                    ex.oblige(st, g, kind, 'chain word %d is the compression of block k' % i)
                return
        for i in range(sp.nw):
            ex.oblige(st, eq(words[i], sp.H(i, k)), kind, 'chain word %d' % i)

    def check_inv(self, ex, st, cells, s, kind, base=None, stream=None):
        lay, sp = self.lay, self.sp
        stream = stream or self.stream
        cs = [ex.cellint(st, c) for c in cells]
        self.h_goals(ex, st, cs, sp.kof(s), kind)
        gs = [('length', eq(specs.le(cs[lay.len:lay.len + 8]), s))]
        gs += self.buf_goals(cs, s, stream)
        if base is not None:
            cov = lay.hset | lay.lenset | lay.bufset
            if lay.ntail is not None:
                cov = cov | set(range(lay.ntail, lay.ntail + 8))
            for i in range(lay.size):
                if i not in cov and cs[i] is not base[i]:
                    gs.append(('frame byte %d' % i, eq(cs[i], base[i])))
        ex.goals(st, gs, kind)

    # ------------------------------------------------------------------ loops (input)
    def loop_hook(self, ex, fr, it, inc):
        key = (fr.fn.dem, it[1])
        if self.profiling:
            cnt = self.profile_counts
            cnt.setdefault(key, []).append(0)
            slot = len(cnt[key]) - 1
            _, h, items, nodes = it
            cur = inc
            pend = {}
            while cur:
                cnt[key][slot] += 1
                if cnt[key][slot] > 5000:
                    raise Unsupported('profile')
                local = {h: cur}
                ex.run_items(fr, items, local, None)
                cur = local.pop(h, None)
                for l, lst in local.items():
                    pend.setdefault(l, []).extend(lst)
            return pend
        if self.loopset and key in self.loopset:
            return loops.handle(ex, fr, it, inc, self)
        return None

    profiling = False

    def profile(self, run):
        """run(n): concrete run with n data bytes; loops whose trip count grows with n need an invariant"""
        res = []
        for n in (5 * self.sp.B + 3, 11 * self.sp.B + 5):
            self.profile_counts = {}
            self.profiling = True
            try:
                run(n)
            finally:
                self.profiling = False
            res.append({k: max(v) for k, v in self.profile_counts.items()})
        self.loopset = {k for k in res[1] if res[1][k] > res[0].get(k, 0)}
        return self.loopset

    # Ctx interface -----------------------------------------------------
    eng = None     # (obj, offset 0) of the engine in the current proof
    s0 = None
    dataobj = None

    def covered(self, ex, st0):
        lay = self.lay
        cov = lay.hset | lay.bufset
        if lay.ntail is not None:
            cov = cov | set(range(lay.ntail, lay.ntail + 8))
        return {self.eng: cov}

    def fields(self, ex, st0, st1, st2, ind, step):
        sp, lay = self.sp, self.lay
        c0 = st0.mem[self.eng]
        others = [s.mem[self.eng] for s in (st1, st2) if s is not None]
        fl = []
        # stream position of the indicator at entry
        x0 = ind.v0.off if isinstance(ind.v0, Ptr) else ind.v0
        words = [specs.le([ex.cellint(st0, c) for c in c0[off:off + sp.wb]]) for off in lay.h]
        cands = [add(self.s0, x0), self.s0, x0]
        self.s_entry = None
        k = self.chain_index(words)
        if k is None:
            # unfolded words: index from the only H they mention, plus one
            ks = {t.a[2] for t in tm.topo(words) if t.op == 'uf' and t.a[0] == 'H_' + self.name}
            if len(ks) == 1:
                k = add(list(ks)[0], c64(1))
        for s in cands:
            if k is None or smt.prove(st0.pc, eq(sp.kof(s), k), 5000) == 'proved':
                self.s_entry = s
                break
        if self.s_entry is None:
            self.s_entry = cands[0]
        self.k_entry = k
        self.mode = 'floor'
        if any(any(o[i] is not c0[i] for i in lay.hset) for o in others):
            fl.append(HField(self))
        else:
            fl.append(KeepField(self, lay.hset, 'chain'))
        bufs = lay.bufset | (set(range(lay.ntail, lay.ntail + 8)) if lay.ntail is not None else set())
        if any(any(o[i] is not c0[i] for i in bufs) for o in others):
            fl.append(BufField(self))
        else:
            fl.append(KeepField(self, bufs, 'buffer'))
        for f in fl:
            f.entry = list(c0)
        return fl

    def ghost(self, ex, st0, ind, step):
        sp = self.sp
        self.required = ()
        if isc(step) and step.a % sp.B == 0:
            m = sx.solved(st0.pc)
            se = self.s_entry
            low = ext(se, 0, sp.lg)
            if not isc(low) and smt.prove(st0.pc, eq(low, const(0, sp.lg)), 5000) == 'proved':
                low = const(0, sp.lg)      # established by the entry obligation of the fact 's aligned' / required below
            s = cat([fresh('K', 64 - sp.lg), low])
            self.required = (('s keeps its position in the block', lambda c, se=se, low=low: eq(ext(add(se, c), 0, sp.lg), low)),)
        else:
            s = cat([fresh('K', 64 - sp.lg), fresh('r', sp.lg)])
        c = sub(s, self.s_entry)
        if s.op == 'cat':
            smt.alts[s] = add(self.s_entry, fresh('cc', 64))
        return c, []

    def candidates(self, ex, st0, c, ind, step):
        sp = self.sp
        out = []
        n = self.n
        if n is not None:
            out.append(('c <= n', lambda c: ule(c, n)))
            out.append(('s <= s0+n', lambda c: ule(sub(add(self.s_entry, c), self.s0), n)))
        out.append(('s aligned', lambda c: eq(ext(add(self.s_entry, c), 0, sp.lg), const(0, sp.lg))))
        out.append(('s aligned or at the end', lambda c: bor(eq(c, c64(0)), eq(ext(add(self.s_entry, c), 0, sp.lg), const(0, sp.lg)), eq(sub(add(self.s_entry, c), self.s0), n if n is not None else c64(0)))))
        return out


def decide_ites(st, ws, limit=24):
    """replace if-then-else conditions that the path condition decides"""
    for _ in range(4):
        cs = []
        for t in tm.topo(ws):
            if t.op == 'ite' and t.a[0] not in cs:
                cs.append(t.a[0])
        m = {}
        for c in cs[:limit]:
            if smt.prove(st.pc, c, 3000) == 'proved':
                m[c] = TRUE
            elif smt.prove(st.pc, bnot(c), 3000) == 'proved':
                m[c] = FALSE
        if not m:
            return ws
        ws = tm.subst(ws, m)
    return ws


def is_chain(self, t, i):
    if t.op == 'uf':
        return t.a[0] == 'H_' + self.name
    if t.op == 'ite':
        return is_chain(self, t.a[1], i) and is_chain(self, t.a[2], i)
    return t.op == 'c' and self.sp.alg is not None


def sim_differs(a, b):
    rnd = random.Random(7)
    env = {v.a: rnd.getrandbits(v.w) for v in tm.variables([a, b])}
    ev = tm.evaluate([a, b], env)
    return ev[a] != ev[b]


def ex_obs_extend(self, s):
    self.obs.extend(s['obs'])


def locate(v, n):
    """offset of n consecutive little-endian cells e<off>.. making up v"""
    if v is None or not isinstance(v, T) or v.w != 8 * n:
        return None
    bs = specs.to_le(v)
    if not all(b.op == 'v' and b.a[0] == 'e' for b in bs):
        return None
    o = int(bs[0].a[1:])
    return o if all(int(b.a[1:]) == o + i for i, b in enumerate(bs)) else None


class HField(loops.Field):
    name = 'chain words = H(blocks of the stream consumed so far)'

    def __init__(self, p):
        self.p = p

    def make(self, ex, st, c):
        p = self.p
        w = st.wcells(p.eng)
        k = p.sp.kof(add(p.s_entry, c))
        for i, off in enumerate(p.lay.h):
            w[off:off + p.sp.wb] = specs.to_le(p.sp.H(i, k))

    def check(self, ex, st, c, kind):
        p = self.p
        cells = [ex.cellint(st, x) for x in st.mem[p.eng]]
        p.h_goals(ex, st, cells, p.sp.kof(add(p.s_entry, c)), kind)


class BufField(loops.Field):
    name = 'buffer = stream bytes since the last block boundary'

    def __init__(self, p):
        self.p = p

    def make(self, ex, st, c):
        p = self.p
        p.buf_cells(st.wcells(p.eng), add(p.s_entry, c), 'lp', p.stream)

    def check(self, ex, st, c, kind):
        p = self.p
        cells = [ex.cellint(st, x) for x in st.mem[p.eng]]
        ex.goals(st, p.buf_goals(cells, add(p.s_entry, c), p.stream), kind)


class KeepField(loops.Field):
    def __init__(self, p, cells, name):
        self.p = p
        self.cells = cells
        self.name = name + ' unchanged by the loop'

    def make(self, ex, st, c):
        pass

    def check(self, ex, st, c, kind):
        cur = st.mem[self.p.eng]
        ex.goals(st, [('%s[%d]' % (self.name, i), loops.eqv(cur[i], self.entry[i])) for i in sorted(self.cells) if cur[i] is not self.entry[i]], kind)


def is_detect(name, dem):
    return dem.startswith('std_detect::detect::cache::detect_and_initialize')


def havoc_detect(ex, st, name, dem, vals, ins):
    ex.assumptions.add('std_detect::detect_and_initialize: arbitrary result (both CPU paths are verified)')
    w = ex.ty.resolve(ins.ty)
    if w == 'ptr':
        raise Unsupported('detect')
    if w[0] == 's':
        return st, tuple(fresh('detect', ex.ty.bits(x)) for x in w[2])
    if w[0] == 'a':
        return st, tuple(fresh('detect', ex.ty.bits(w[2])) for _ in range(w[1]))
    return st, fresh('detect', ex.ty.bits(w))


# ---------------------------------------------------------------------- proofs
def prove_input(p, split=None):
    """requires Inv(e, s0), s0+n <= 2^61-1; ensures Inv(e, s0+n), nothing else changed.
    split: concrete (r, n mod B) for exhaustive case analysis"""
    sp, lay = p.sp, p.lay
    ex = p.new_exec()
    st = State()
    K = var('K', 64 - sp.lg)
    if split is None:
        s0 = cat([K, var('r', sp.lg)])
        n = var('n', 64)
    else:
        s0 = cat([K, const(split[0], sp.lg)])
        n = cat([var('N', 64 - sp.lg), const(split[1], sp.lg)])
    p.stream = plain_stream()
    st.assume(ule(s0, c64(MAXLEN)))
    st.assume(ule(n, c64(MAXLEN)))
    st.assume(ule(add(s0, n), c64(MAXLEN)))
    cells = p.inv_cells(s0, 'in')
    eng = ex.new_mem(st, 'engine', lay.size, cells, align=8)
    cells = list(st.mem[eng])
    data = sx.Obj('fun', 'data', n, reader=lambda st, off: p.stream.at(add(s0, off)), ro=True)
    p.eng, p.s0, p.n, p.dataobj = eng, s0, n, data
    r = ex.call_fn(st, p.entry('input'), [Ptr(eng, c64(0)), Ptr(data, c64(0)), n])
    if r is None:
        ex.oblige(st, FALSE, 'input returns')
        return ex
    st, _ = r
    vac = smt.check(list(st.pc), ex.timeout)
    ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', 'input', 'proved' if vac == 'sat' else 'unknown', None, None, vac))
    p.check_inv(ex, st, st.mem[eng], add(s0, n), 'postcondition of input: engine invariant', base=cells)
    return ex


def profile_input(p):
    def run(n):
        ex = p.new_exec()
        ex.record = False
        st = State()
        s0 = c64(3)
        p.stream = plain_stream()
        cells = [c if isinstance(c, T) else c for c in p.inv_cells(s0, 'pf')]
        eng = ex.new_mem(st, 'engine', p.lay.size, cells, align=8)
        data = sx.Obj('fun', 'data', n, reader=lambda st, off: p.stream.at(add(s0, off)), ro=True)
        p.eng, p.s0, p.n = eng, s0, c64(n)
        ex.call_fn(st, p.entry('input'), [Ptr(eng, c64(0)), Ptr(data, c64(0)), c64(n)])
    return p.profile(run)
