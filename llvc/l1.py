"""L1 contracts (byte level) of every engine: new/default, input, finalize, midstate, from_midstate, n_bytes, clone."""
import terms as tm
from terms import (T, const, var, fresh, uf, TRUE, FALSE, cat, ext, zext, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, lshr, shl, isc)
import sx
from sx import Ptr, State, Unsupported
import specs
import sweep
import smt
import engine
from engine import EngineProof, c64, Stream

LIM_IN = 1 << 62          # input contract: stream position stays below this
MAXMSG = (1 << 61) - 1    # longest message


def own_names(name):
    n = [name]
    if name in ('sha384', 'sha512_256'):
        n.append('sha512')
    return n


def is_input_of(name):
    pats = tuple('<chf::%s::Engine as chf::HashEngine>::input' % x for x in own_names(name))
    return lambda n, dem: dem in pats


def padded_stream(p, L):
    """message bytes P(0..L), then 0x80, zeroes, and the 8*lenbytes-bit length"""
    a = p.sp.alg
    B, lg = p.sp.B, p.sp.lg
    r = ext(L, 0, lg)
    if isc(r):
        Tlen = add(cat([ext(L, lg, 64 - lg), const(0, lg)]), c64((r.a + 1 + a.lenbytes + B - 1) // B * B))
    else:
        Tlen = shl(lshr(add(L, c64(a.lenbytes + B)), c64(lg)), c64(lg))   # (L+1+lenbytes) rounded up to B
    bits = shl(L, c64(3))
    lb = [const(0, 8)] * (a.lenbytes - 8) + specs.to_be(bits) if a.bigend else specs.to_le(bits) + [const(0, 8)] * (a.lenbytes - 8)

    def f(i):
        d = sub(i, L)
        t = sub(i, Tlen)
        if isc(d) and isc(t):
            # positions at a constant distance from the end of the message (no wrap-around: L < 2^61)
            dd = d.a - (1 << 64) if d.a >> 63 else d.a
            tt = t.a - (1 << 64) if t.a >> 63 else t.a
            if abs(dd) < 4096 and abs(tt) < 4096:
                if dd < 0:
                    return uf('P', 8, i)
                if dd == 0:
                    return const(0x80, 8)
                return lb[tt + a.lenbytes] if -a.lenbytes <= tt < 0 else const(0, 8)
        r = const(0, 8)
        for j in range(a.lenbytes):
            if isc(lb[j]) and lb[j].a == 0:
                continue
            r = ite(eq(i, add(Tlen, c64(j - a.lenbytes))), lb[j], r)
        r = ite(eq(i, L), const(0x80, 8), r)
        return ite(ult(i, L), uf('P', 8, i), r)
    return Stream(f), Tlen


class L1(EngineProof):
    def input_contract(self, ex, st, name, dem, vals, ins):
        """requires Inv(e, s) for the stream (s = the length field), data = stream[s..s+n]; ensures Inv(e, s+n)"""
        sp, lay = self.sp, self.lay
        e, d, n = vals
        cells = ex.load_cells(st, e, lay.size)
        cs = [ex.cellint(st, c) for c in cells]
        s = specs.le(cs[lay.len:lay.len + 8])
        m = sx.solved(st.pc)
        if m:
            s = tm.subst([s], m)[0]
        ex.goal(st, band(ule(s, c64(LIM_IN)), ule(n, c64(LIM_IN)), ule(add(s, n), c64(LIM_IN))), 'input precondition', 'stream position bounded')
        self.check_inv(ex, st, cells, s, 'input precondition: engine invariant')
        gs = []
        hi = n.a if isc(n) else ex.bsearch_max(st, n, 0, 4 * sp.B)
        if not isc(n):
            if smt.prove(st.pc, ule(n, c64(hi))) != 'proved':
                raise Unsupported('input of unbounded data inside the function')
        for j in range(hi):
            g = ult(c64(j), n)
            sub_ = ex.sub(st, g)
            b = ex.cellint(st, ex.load_cells(sub_, ex.padd(d, c64(j)), 1)[0])
            gs.append(('data byte %d' % j, bor(bnot(g), eq(b, self.stream.at(add(s, c64(j)))))))
        ex.goals(st, gs, 'input precondition: data is the stream at this position')
        new = self.inv_cells(add(s, n), 'ct', base=cells)
        ex.store_cells(st, e, new)
        return st, None

    def prove_finalize(self):
        """exhaustive case split on the number of buffered bytes; the number of whole blocks stays symbolic"""
        ex = self.new_exec([(is_input_of(self.name), self.input_contract)])
        for r in range(self.sp.B):
            self.finalize_case(ex, r)
            if sum(1 for o in ex.obs if o.status != 'proved') > 20:
                break
        return ex

    def finalize_case(self, ex, r):
        sp, lay, a = self.sp, self.lay, self.sp.alg
        st = State()
        K = var('K', 64 - sp.lg)
        L = cat([K, const(r, sp.lg)])
        st.assume(ule(L, c64(MAXMSG)))
        self.stream = engine.plain_stream()
        cells = self.inv_cells(L, 'in')
        self.stream, Tlen = padded_stream(self, L)
        eng = ex.new_mem(st, 'engine', lay.size, cells, align=8)
        out = ex.new_mem(st, 'out', lay.dig)
        self.eng, self.s0, self.n, self.dataobj = eng, L, None, None
        args = self.by_value(ex, st, 'finalize', eng)
        rr = ex.call_fn(st, self.entry('finalize'), args + [Ptr(out, c64(0))])
        if not self.returned(ex, st, rr, 'finalize'):
            return ex
        st, _ = rr
        oc = [ex.cellint(st, c) for c in st.mem[out]]
        k = lshr(Tlen, c64(sp.lg))
        words = []
        if lay.dig != a.outbytes:
            ex.oblige(st, FALSE, 'digest length')
            return ex
        gs = []
        for i in range(a.outw):
            bs = oc[i * sp.wb:(i + 1) * sp.wb]
            w = specs.be(bs) if a.bigend else specs.le(bs)
            words.append(w)
            gs.append(('digest word %d' % i, eq(w, sp.H(i, k))))
        ex.goals(st, gs, 'postcondition of finalize: digest = chain value after the padded message')
        return ex

    def by_value(self, ex, st, what, eng):
        f = self.mod.fn(self.entry(what))
        if f.params[0][0] == 'ptr':
            return [Ptr(eng, c64(0))]
        raise Unsupported('engine passed in registers')

    def returned(self, ex, st, r, what):
        if r is None:
            ex.oblige(st, FALSE, '%s returns' % what)
            return False
        v = smt.check(list(r[0].pc), ex.timeout)
        ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', what, 'proved' if v == 'sat' else 'unknown', None, None, v))
        return True

    def prove_new(self, what='new'):
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        st = State()
        out = ex.new_mem(st, 'engine', lay.size, align=8)
        r = ex.call_fn(st, self.entry(what), [Ptr(out, c64(0))])
        if not self.returned(ex, st, r, what):
            return ex
        st, _ = r
        self.check_inv(ex, st, st.mem[out], c64(0), 'postcondition of %s: initial value, nothing hashed' % what)
        return ex

    def prove_default(self):
        return self.prove_new('default')

    def prove_h_engine(self):
        return self.prove_new('h_engine')

    def prove_midstate(self):
        sp, lay, a = self.sp, self.lay, self.sp.alg
        ex = self.new_exec()
        st = State()
        K = var('K', 64 - sp.lg)
        s = cat([K, const(0, sp.lg)])
        st.assume(ule(s, c64(LIM_IN)))
        self.stream = engine.plain_stream()
        eng = ex.new_mem(st, 'engine', lay.size, self.inv_cells(s, 'in'), align=8)
        before = list(st.mem[eng])
        out = ex.new_mem(st, 'out', lay.mid, align=8)
        r = ex.call_fn(st, self.entry('midstate'), [Ptr(eng, c64(0)), Ptr(out, c64(0))])
        if not self.returned(ex, st, r, 'midstate'):
            return ex
        st, _ = r
        self.same(ex, st, st.mem[eng], before, 'midstate leaves the engine unchanged')
        gs = [('byte %d' % j, eq(ex.cellint(st, x), y)) for j, (x, y) in enumerate(zip(st.mem[out], self.mid_bytes(sp.kof(s))))]
        ex.goals(st, gs, 'postcondition of midstate: chain value after the consumed blocks')
        return ex

    def mid_bytes(self, k):
        sp, a = self.sp, self.sp.alg
        out = []
        if a is None:
            # State: the words where with_keys puts them
            cells = [None] * self.lay.mid
            for i, off in enumerate(self.midpos):
                cells[off:off + 8] = specs.to_le(sp.H(i, k))
            return cells
        for i in range(sp.nw):
            out += a.word_bytes(sp.H(i, k))
        return out

    def same(self, ex, st, x, y, kind):
        gs = []
        for i, (a, b) in enumerate(zip(x, y)):
            if a is b or a == b:
                continue
            gs.append(('byte %d' % i, eq(ex.cellint(st, a), ex.cellint(st, b))))
        if not gs:
            gs = [('all bytes', TRUE)]
        ex.goals(st, gs, kind)

    def prove_from_midstate(self, what='from_midstate'):
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        st = State()
        K = var('K', 64 - sp.lg)
        s = cat([K, const(0, sp.lg)])
        st.assume(ule(s, c64(LIM_IN)))
        self.stream = engine.plain_stream()
        mid = ex.new_mem(st, 'midstate', lay.mid, self.mid_bytes(sp.kof(s)), align=8)
        out = ex.new_mem(st, 'engine', lay.size, align=8)
        r = ex.call_fn(st, self.entry(what), [Ptr(mid, c64(0)), s, Ptr(out, c64(0))])
        if not self.returned(ex, st, r, 'from_midstate'):
            return ex
        st, _ = r
        self.check_inv(ex, st, st.mem[out], s, 'postcondition of from_midstate: engine invariant')
        if sp.alg is None:
            return ex
        # unaligned length: must panic
        ex.expect_panic = True
        st = State()
        s = cat([K, var('r', sp.lg)])
        st.assume(ne(var('r', sp.lg), const(0, sp.lg)))
        mid = ex.new_mem(st, 'midstate', lay.mid, [var('mm%d' % i, 8) for i in range(lay.mid)], align=8)
        out = ex.new_mem(st, 'engine', lay.size, align=8)
        r = ex.call_fn(st, self.entry(what), [Ptr(mid, c64(0)), s, Ptr(out, c64(0))])
        ex.expect_panic = False
        if r is None:
            ex.oblige(st, TRUE, 'from_midstate panics on an unaligned length')
        else:
            ex.oblige(r[0], FALSE, 'from_midstate panics on an unaligned length')
        return ex

    def prove_n_bytes(self):
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        st = State()
        s = cat([var('K', 64 - sp.lg), var('r', sp.lg)])
        self.stream = engine.plain_stream()
        eng = ex.new_mem(st, 'engine', lay.size, self.inv_cells(s, 'in'), align=8)
        before = list(st.mem[eng])
        r = ex.call_fn(st, self.entry('n_bytes'), [Ptr(eng, c64(0))])
        if not self.returned(ex, st, r, 'n_bytes_hashed'):
            return ex
        st, v = r
        self.same(ex, st, st.mem[eng], before, 'n_bytes_hashed leaves the engine unchanged')
        ex.goal(st, eq(v, s), 'postcondition of n_bytes_hashed: number of bytes input')
        return ex

    def prove_clone(self):
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        st = State()
        s = cat([var('K', 64 - sp.lg), var('r', sp.lg)])
        st.assume(ule(s, c64(LIM_IN)))
        self.stream = engine.plain_stream()
        eng = ex.new_mem(st, 'engine', lay.size, self.inv_cells(s, 'in'), align=8)
        before = list(st.mem[eng])
        out = ex.new_mem(st, 'out', lay.size, align=8)
        r = ex.call_fn(st, self.entry('clone'), [Ptr(eng, c64(0)), Ptr(out, c64(0))])
        if not self.returned(ex, st, r, 'clone'):
            return ex
        st, _ = r
        self.same(ex, st, st.mem[eng], before, 'clone leaves the original unchanged')
        self.check_inv(ex, st, st.mem[out], s, 'postcondition of clone: engine invariant of the same stream', base=before if sp.alg is None else None)
        return ex

    def prove_block_size(self):
        ex = self.new_exec()
        st = State()
        r = ex.call_fn(st, self.entry('block_size'), [])
        ex.goal(r[0], eq(r[1], c64(self.sp.B)), 'BLOCK_SIZE constant')
        return ex

    # ------------------------------------------------------------------ SipHash
    def sip_engine(self, ex, st, s):
        self.stream = engine.plain_stream()
        eng = ex.new_mem(st, 'engine', self.lay.size, self.inv_cells(s, 'in'), align=8)
        return eng

    def prove_sip_input(self):
        exs = []
        for r in range(8):
            for n in range(8):
                exs.append(engine.prove_input(self, (r, n)))
        return merge_exec(exs)

    def prove_sip_finalize(self, what='finalize'):
        """r buffered bytes (exhaustive), whole words symbolic"""
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        for r in range(8):
            st = State()
            L = cat([var('K', 61), const(r, 3)])
            st.assume(ule(L, c64(LIM_IN)))
            eng = self.sip_engine(ex, st, L)
            args = [Ptr(eng, c64(0))]
            if what == 'finalize':
                out = ex.new_mem(st, 'out', 8)
                rr = ex.call_fn(st, self.entry('finalize'), args + [Ptr(out, c64(0))])
            else:
                rr = ex.call_fn(st, 'h_sip_from_engine_to_u64', args)
            if not self.returned(ex, st, rr, what):
                return ex
            st, v = rr
            if what == 'finalize':
                v = specs.le([ex.cellint(st, c) for c in st.mem[out]])
            want, cuts = self.sip_result(L)
            ok, bad, _ = sweep.sweep([v], [want], cuts)
            ex.goal(st, TRUE if ok else FALSE if engine.sim_differs(v, want) else eq(v, want), 'postcondition of %s: SipHash-2-4 of the bytes input' % what)
        return ex

    def sip_result(self, L):
        sp = self.sp
        k = sp.kof(L)
        r = ext(L, 0, 3)
        hi = ext(L, 3, 61)
        v = [sp.H(i, k) for i in range(4)]
        blk = [ite(ult(const(j, 3), r), self.stream.at(cat([hi, const(j, 3)])), const(0, 8)) for j in range(7)] + [ext(L, 0, 8)]
        v, cuts = specs.sip_compress(v, blk)
        return specs.sip_final(v, cuts), cuts

    def prove_sip_new(self):
        """with_keys, new, default: initial state for the keys, nothing hashed; keys() returns them"""
        sp, lay = self.sp, self.lay
        ex = self.new_exec()
        for what in ('h_sip_with_keys', 'h_sip_new', 'h_siphash24_new', 'h_siphash24_default', 'h_siphash24_h_engine'):
            st = State()
            out = ex.new_mem(st, 'engine', lay.size, align=8)
            keyed = what == 'h_sip_with_keys'
            k0, k1 = (var('k0', 64), var('k1', 64)) if keyed else (c64(0), c64(0))
            r = ex.call_fn(st, what, ([k0, k1] if keyed else []) + [Ptr(out, c64(0))])
            if not self.returned(ex, st, r, what):
                continue
            st, _ = r
            cs = [ex.cellint(st, c) for c in st.mem[out]]
            gs = [('v%d' % i, eq(specs.le(cs[o:o + 8]), w)) for i, (o, w) in enumerate(zip(lay.h, specs.sip_init(k0, k1)))]
            gs += [('length', eq(specs.le(cs[lay.len:lay.len + 8]), c64(0)))]
            gs += [('tail', eq(specs.le(cs[lay.buf:lay.buf + 8]), c64(0)))]
            gs += [('ntail', eq(specs.le(cs[lay.ntail:lay.ntail + 8]), c64(0)))]
            gs += [('key %d' % i, eq(specs.le(cs[o:o + 8]), k)) for i, (o, k) in enumerate(zip(self.keys, (k0, k1)))]
            ex.goals(st, gs, 'postcondition of %s: SipHash initial state for the keys' % what)
        st = State()
        eng = self.sip_engine(ex, st, cat([var('K', 61), var('r', 3)]))
        cs = list(st.mem[eng])
        out = ex.new_mem(st, 'out', 16, align=8)
        r = ex.call_fn(st, 'h_sip_keys', [Ptr(eng, c64(0)), Ptr(out, c64(0))])
        if self.returned(ex, st, r, 'keys'):
            st = r[0]
            ex.goals(st, [('key %d' % i, eq(specs.le(st.mem[out][8 * i:8 * i + 8]), specs.le(cs[o:o + 8]))) for i, o in enumerate(self.keys)], 'postcondition of keys')
        return ex

    def prove_sip_u64(self):
        ex = self.new_exec()
        st = State()
        b = [var('b%d' % i, 8) for i in range(8)]
        h = ex.new_mem(st, 'hash', 8, b)
        r = ex.call_fn(st, 'h_sip_as_u64', [Ptr(h, c64(0))])
        if self.returned(ex, st, r, 'as_u64'):
            ex.goal(r[0], eq(r[1], specs.le(b)), 'postcondition of as_u64: little-endian value of the bytes')
        st = State()
        x = var('x', 64)
        out = ex.new_mem(st, 'out', 8)
        r = ex.call_fn(st, 'h_sip_from_u64', [x, Ptr(out, c64(0))])
        if self.returned(ex, st, r, 'from_u64'):
            st = r[0]
            ex.goal(st, eq(specs.le(st.mem[out]), x), 'postcondition of from_u64: little-endian bytes of the value')
        return ex


def merge_exec(exs):
    e = exs[0]
    for x in exs[1:]:
        e.obs.extend(x.obs)
        e.functions |= x.functions
        e.assumptions |= x.assumptions
        e.used_contracts |= x.used_contracts
        e.loop_log.extend(x.loop_log)
    return e
