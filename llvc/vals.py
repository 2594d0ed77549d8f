"""Contracts of the digest value types: conversions, comparison, text form, serde."""
import terms as tm
from terms import T, const, fresh, var, uf, TRUE, FALSE, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, isc, cat, zext
import sx
from sx import Exec, Ptr, PtrIte, State, Obj, Unsupported
import smt
import loops

PRE = {'sha1': 20, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha512_256': 32, 'ripemd160': 20, 'siphash24': 8, 'sha256t': 32,
       'hmac20': 20, 'hmac32': 32, 'hmac48': 48, 'hmac64': 64, 'midstate': 32}
DEFAULT_OPTIONS = 0x60000020    # core::fmt::FormattingOptions::new()


def c64(x):
    return const(x, 64)


def hexdigit(nib, upper):
    """ASCII of a 4-bit value"""
    n = zext(nib, 8)
    return ite(ult(nib, const(10, 4)), add(n, const(0x30, 8)), add(n, const(0x37 if upper else 0x57, 8)))


def ishex(c):
    return bor(rng(c, '0', '9'), rng(c, 'a', 'f'), rng(c, 'A', 'F'))


def rng(c, lo, hi):
    return band(ule(const(ord(lo), 8), c), ule(c, const(ord(hi), 8)))


def nibble(c):
    d = ite(rng(c, '0', '9'), sub(c, const(0x30, 8)), ite(rng(c, 'a', 'f'), sub(c, const(0x57, 8)), sub(c, const(0x37, 8))))
    return tm.ext(d, 0, 4)


class Ctx(loops.Ctx):
    pass


class V:
    def __init__(self, mod, pre):
        self.mod, self.pre, self.N = mod, pre, PRE[pre]

    # ------------------------------------------------------------------ set-up
    def new_exec(self):
        ex = Exec(self.mod)
        ex.contracts = [(lambda n, d, k=k: k(n, d), h) for k, h in (
            (lambda n, d: n == 'probe_emit', self.c_emit),
            (lambda n, d: n == 'probe_hash_write', self.c_hash),
            (lambda n, d: n == 'probe_ser_bytes', self.c_ser),
            (lambda n, d: d == '<core::fmt::Formatter>::pad_integral', self.c_pad_integral),
            (lambda n, d: d == '<core::fmt::Formatter>::pad', self.c_pad),
            (lambda n, d: d == '<core::fmt::Formatter>::write_str' or d == '<core::fmt::Formatter as core::fmt::Write>::write_str', self.c_write_str),
            (lambda n, d: d == '<core::fmt::Formatter as core::fmt::Write>::write_char', self.c_write_char),
            (lambda n, d: d == '<core::fmt::Formatter>::fill', self.c_fill),
            (lambda n, d: d == 'core::fmt::write', self.c_fmt_write),
            (lambda n, d: self.arg_fmt(n, d) is not None and n not in self.mod.fns, self.c_arg),
            (lambda n, d: d == 'core::str::converts::from_utf8', self.c_from_utf8),
            (lambda n, d: '__rust_alloc' in d or '__rustc::__rust_alloc' in d or '__rust_no_alloc' in d or d.endswith('__rust_dealloc'), self.c_alloc))]
        ctx = Ctx()

        def hook(ex, fr, it, inc):
            # loops with a concrete bound are unrolled
            try:
                saved, n = ex.max_unroll, len(ex.obs)
                pend = {}
                ex.max_unroll = 160
                ex.unroll(fr, it, [(s.fork(), p) for s, p in inc], pend)
                return pend
            except Unsupported as e:
                if 'not bounded' not in str(e):
                    raise
                del ex.obs[n:]
                return loops.handle(ex, fr, it, inc, ctx)
            finally:
                ex.max_unroll = saved
        ex.loop_hook = hook
        return ex

    def value(self, ex, st, name='h'):
        cs = [var('%s%d' % (name, i), 8) for i in range(self.N)]
        return ex.new_mem(st, name, self.N, cs, ro=True), cs

    def call(self, ex, st, what, args, ok=True):
        f = 'h_%s_v_%s' % (self.pre, what)
        self.mod.probes.add(f)
        if f not in self.mod.fns:
            raise Unsupported('no entry ' + f)
        r = ex.call_fn(st, f, args)
        if r is None:
            if ok:
                ex.oblige(st, FALSE, '%s returns' % what)
            return None
        v = smt.check(list(r[0].pc), ex.timeout)
        ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', what, 'proved' if v == 'sat' else 'unknown', None, None, v))
        return r

    def has(self, what):
        n = 'h_%s_v_%s' % (self.pre, what)
        self.mod.probes.add(n)
        return n in self.mod.fns

    def bytes_at(self, ex, st, p, n):
        rec = ex.record
        cs = ex.load_cells(st, p, n)
        return [ex.cellint(st, c) for c in cs]

    def same(self, ex, st, got, want, kind):
        if len(got) != len(want) or any(g is None for g in got):
            ex.oblige(st, FALSE, kind, 'length or uninitialised')
            return
        ex.goals(st, [('byte %d' % i, eq(g, w)) for i, (g, w) in enumerate(zip(got, want))], kind)

    def cells(self, ex, st, o):
        return [ex.cellint(st, c) if c is not None else None for c in st.mem[o]]

    def slice_result(self, ex, st, v, kind, off, n, h, cs):
        """the returned slice shows bytes off.. of h"""
        p, ln = v
        ln = ex.asint(st, ln)
        ex.goal(st, eq(ln, n), kind, 'length')
        p = ex.pick(st, p) if isinstance(p, PtrIte) else p
        if isc(n) and isc(off):
            self.same(ex, st, self.bytes_at(ex, st, p, n.a), cs[off.a:off.a + n.a], kind)
        elif isinstance(p, Ptr) and p.obj is h:
            ex.goal(st, bor(eq(n, c64(0)), eq(p.off, off)), kind, 'starts at the right byte')
        else:
            raise Unsupported('returned slice')

    # ------------------------------------------------------------------ contracts of what is outside the repository
    def emit(self, ex, st, cells):
        st.event(('emit', tuple(cells)))

    def txt(self, ex, st, p, n):
        if not isc(n):
            raise Unsupported('emitted text of symbolic length')
        return [ex.cellint(st, c) for c in ex.load_cells(st, p, n.a)] if n.a else []

    def c_emit(self, ex, st, name, dem, vals, ins):
        self.emit(ex, st, self.txt(ex, st, vals[0], vals[1]))
        return st, const(1, 1)

    def options(self, ex, st, f):
        cs = [ex.cellint(st, c) for c in ex.load_cells(st, ex.padd(f, c64(16)), 8)]
        ex.oblige(st, eq(cat(list(reversed(cs))), c64(DEFAULT_OPTIONS)), 'assumed contract applies: formatter has default options')

    def c_pad_integral(self, ex, st, name, dem, vals, ins):
        f, nonneg, pp, pn, bp, bn = vals
        ex.assumptions.add('core::fmt::Formatter::pad_integral with default options writes exactly its digits (assumed)')
        self.options(ex, st, f)
        ex.oblige(st, eq(nonneg, const(1, 1)), 'assumed contract applies: non-negative')
        self.emit(ex, st, self.txt(ex, st, bp, bn))
        return st, const(0, 1)

    def c_pad(self, ex, st, name, dem, vals, ins):
        f, p, n = vals
        ex.assumptions.add('core::fmt::Formatter::pad with default options writes exactly its argument (assumed)')
        self.options(ex, st, f)
        self.emit(ex, st, self.txt(ex, st, p, n))
        return st, const(0, 1)

    def c_write_str(self, ex, st, name, dem, vals, ins):
        f, p, n = vals
        ex.assumptions.add('core::fmt::Formatter::write_str writes exactly its argument (assumed)')
        self.emit(ex, st, self.txt(ex, st, p, n))
        return st, const(0, 1)

    def c_write_char(self, ex, st, name, dem, vals, ins):
        f, c = vals
        ex.assumptions.add('core::fmt::Formatter::write_char writes exactly its (ASCII) argument (assumed)')
        ex.oblige(st, ult(c, const(128, c.w)), 'assumed contract applies: ASCII')
        self.emit(ex, st, [tm.ext(c, 0, 8)])
        return st, const(0, 1)

    def c_fill(self, ex, st, name, dem, vals, ins):
        ex.assumptions.add('core::fmt::Formatter::fill with default options is a space (assumed)')
        self.options(ex, st, vals[0])
        return st, const(32, 32)

    @staticmethod
    def arg_fmt(name, dem):
        for t in ('usize', 'u64', 'u32', 'u8'):
            for k in ('Display', 'LowerHex', 'UpperHex'):
                if dem == '<%s as core::fmt::%s>::fmt' % (t, k):
                    return {'usize': 8, 'u64': 8, 'u32': 4, 'u8': 1}[t], k

    def c_arg(self, ex, st, name, dem, vals, ins):
        """integer formatting of core"""
        n, k = self.arg_fmt(name, dem)
        opts = [ex.cellint(st, c) for c in ex.load_cells(st, ex.padd(vals[1], c64(16)), 8)]
        opts = cat(list(reversed(opts)))
        v = cat(list(reversed([ex.cellint(st, c) for c in ex.load_cells(st, vals[0], n)])))
        if k == 'Display':
            ex.assumptions.add('core: Display of an unsigned integer with default options writes its decimal form (assumed)')
            ex.oblige(st, eq(opts, c64(DEFAULT_OPTIONS)), 'assumed contract applies: formatter has default options')
            st.event(('dec', v))
        elif n == 1 and opts is c64(DEFAULT_OPTIONS | 1 << 24 | 1 << 27 | 2 << 32):
            ex.assumptions.add('core: {:02x} of a byte writes its two hex digits (assumed)')
            self.emit(ex, st, [hexdigit(tm.ext(v, 4, 4), k == 'UpperHex'), hexdigit(tm.ext(v, 0, 4), k == 'UpperHex')])
        else:
            raise Unsupported('formatting options of ' + dem)
        return st, const(0, 1)

    def c_fmt_write(self, ex, st, name, dem, vals, ins):
        """core::fmt::write: literal pieces verbatim, each placeholder by calling its formatting function"""
        w, vt, tp, ap = vals
        ex.assumptions.add('core::fmt::write writes the literal pieces and calls the formatting function of each placeholder with its options, in order (assumed)')
        if not isinstance(tp, Ptr):
            raise Unsupported('format template')
        if not isinstance(ap, Ptr):
            n = ap
            if not (isinstance(n, T) and isc(n) and n.a & 1):
                raise Unsupported('format arguments')
            self.emit(ex, st, self.txt(ex, st, tp, c64(n.a >> 1)))
            return st, const(0, 1)
        pos = 0

        def get(k):
            nonlocal pos
            cs = [ex.cellint(st, c) for c in ex.load_cells(st, ex.padd(tp, c64(pos)), k)]
            if not all(isc(c) for c in cs):
                raise Unsupported('format template')
            pos += k
            return [c.a for c in cs]

        def le(b):
            return sum(x << 8 * i for i, x in enumerate(b))
        nxt = 0
        while True:
            b = get(1)[0]
            if b == 0:
                break
            if b <= 0x80:
                n = b if b < 0x80 else le(get(2))
                self.emit(ex, st, [const(x, 8) for x in get(n)])
                continue
            if b & 0xc0 != 0xc0 or b & 0x30:
                raise Unsupported('format placeholder')
            flags = le(get(4)) if b & 1 else DEFAULT_OPTIONS
            width = le(get(2)) if b & 2 else 0
            prec = le(get(2)) if b & 4 else 0
            i = le(get(2)) if b & 8 else nxt
            nxt = i + 1
            cells = ex.load_cells(st, ex.padd(ap, c64(16 * i)), 16)
            val, fn = (ex.from_cells(st, 'ptr', cells[j:j + 8]) for j in (0, 8))
            if not (isinstance(fn, Ptr) and fn.obj.kind == 'fn'):
                raise Unsupported('format argument')
            f = ex.new_mem(st, 'formatter', 24, ex.to_cells(st, 'ptr', w) + ex.to_cells(st, 'ptr', vt) + ex.to_cells(st, ('i', 64), c64(flags | width << 32 | prec << 48)), align=8)
            fname = fn.obj.name
            if fname in self.mod.fns:
                r = ex.call_fn(st, fname, [val, Ptr(f, c64(0))])
            else:
                fd = self.mod.dem.get(fname, fname)
                if not self.arg_fmt(fname, fd):
                    raise Unsupported('format argument ' + fd)
                r = self.c_arg(ex, st, fname, fd, [val, Ptr(f, c64(0))], None)
            if r is None:
                return None
            st, v = r
            if not (isc(v) and v.a == 0):
                raise Unsupported('formatting function that fails')
        return st, const(0, 1)

    def c_hash(self, ex, st, name, dem, vals, ins):
        st.event(('hash', tuple(self.txt(ex, st, vals[0], vals[1]))))
        return st, None

    def c_ser(self, ex, st, name, dem, vals, ins):
        st.event(('bytes', tuple(self.txt(ex, st, vals[0], vals[1]))))
        return st, None

    def c_from_utf8(self, ex, st, name, dem, vals, ins):
        out, p, n = vals
        ex.assumptions.add('core::str::from_utf8 accepts ASCII and returns the same bytes; on other input either outcome is considered (assumed)')
        bad = fresh('utf8_err', 1)
        if isc(n):
            cs = self.txt(ex, st, p, n)
            bad = band(bnot(band(*[ult(c, const(128, 8)) for c in cs])) if cs else FALSE, bad)
        # (the payload of the error outcome is not modelled: an address-valued integer if a caller looks at it)
        ex.store_cells(st, out, ex.to_cells(st, ('i', 64), zext(bad, 64)) + ex.to_cells(st, 'ptr', p) + ex.to_cells(st, ('i', 64), n))
        return st, None

    def c_alloc(self, ex, st, name, dem, vals, ins):
        if 'dealloc' in dem:
            return st, None
        if 'no_alloc' in dem:
            return st, None
        size = vals[0]
        if not isc(size):
            raise Unsupported('allocation of symbolic size')
        ex.assumptions.add('the allocator returns a fresh block or diverges (assumed)')
        o = ex.new_mem(st, 'heap', size.a, [const(0, 8) if 'zeroed' in dem else None] * size.a, align=16)
        return st, Ptr(o, c64(0))

    # ------------------------------------------------------------------ events
    def check_events(self, ex, st, ev, want, kind, tag):
        """the concatenation of the recorded events of kind tag is want"""
        for cond, lst in self.flatten(ev, TRUE):
            s = st.fork()
            s.assume(cond)
            if cond is not TRUE and smt.check(list(s.pc), ex.timeout) == 'unsat':
                continue
            got = []
            for e in lst:
                if e[0] != tag:
                    ex.oblige(s, FALSE, kind, 'unexpected %s' % e[0])
                    return
                got += list(e[1])
            self.same(ex, s, got, want, kind)

    def flatten(self, ev, cond):
        if ev is None:
            return [(cond, [])]
        if ev[0] == 'ite' and len(ev) == 4:
            return self.flatten(ev[2], band(cond, ev[1])) + self.flatten(ev[3], band(cond, bnot(ev[1])))
        out = self.flatten(ev[0], cond)
        if len(out) > 64:
            raise Unsupported('event paths')
        return [(c, l + [ev[1]]) for c, l in out]

    # ------------------------------------------------------------------ C12
    def prove_bytes(self):
        N = self.N
        ex = self.new_exec()
        K = 'postcondition of %s: the same bytes in order'

        def simple(what, ret):
            if not self.has(what):
                return
            st = State()
            h, cs = self.value(ex, st)
            k = K % what
            if ret == 'out':
                out = ex.new_mem(st, 'out', N)
                r = self.call(ex, st, what, [Ptr(h, c64(0)), Ptr(out, c64(0))])
                if r:
                    self.same(ex, r[0], self.cells(ex, r[0], out), cs, k)
            elif ret == 'vec':
                out = ex.new_mem(st, 'out', N, [const(0, 8)] * N)
                r = self.call(ex, st, what, [Ptr(h, c64(0)), Ptr(out, c64(0))])
                if r:
                    ex.goal(r[0], eq(r[1], c64(N)), k, 'length')
                    self.same(ex, r[0], self.cells(ex, r[0], out), cs, k)
            elif ret == 'ref':
                r = self.call(ex, st, what, [Ptr(h, c64(0))])
                if r:
                    self.same(ex, r[0], self.bytes_at(ex, r[0], r[1], N), cs, k)
            elif ret == 'slice':
                r = self.call(ex, st, what, [Ptr(h, c64(0))])
                if r:
                    self.slice_result(ex, r[0], r[1], k, c64(0), c64(N), h, cs)
            if r:
                self.same(ex, r[0], self.cells(ex, r[0], h), cs, '%s leaves its argument unchanged' % what)
        for what, ret in (('from_byte_array', 'out'), ('to_byte_array', 'out'), ('clone', 'out'), ('to_bytes', 'vec'), ('as_byte_array', 'ref'), ('as_ref_array', 'ref'),
                          ('from_bytes_ref', 'ref'), ('as_bytes', 'slice'), ('as_ref', 'slice'), ('idx_full', 'slice')):
            simple(what, ret)
        if self.has('from_bytes_mut'):
            st = State()
            cs = [var('h%d' % i, 8) for i in range(N)]
            h = ex.new_mem(st, 'h', N, cs)
            r = self.call(ex, st, 'from_bytes_mut', [Ptr(h, c64(0))])
            if r:
                p = r[1]
                ex.goal(r[0], TRUE if isinstance(p, Ptr) and p.obj is h and isc(p.off) and p.off.a == 0 else FALSE, 'postcondition of from_bytes_mut: refers to the given array')
                self.same(ex, r[0], self.cells(ex, r[0], h), cs, 'from_bytes_mut leaves the bytes unchanged')
        if self.has('len'):
            st = State()
            r = self.call(ex, st, 'len', [])
            if r:
                ex.goal(r[0], eq(r[1], c64(N)), 'LEN is the digest length')
        return ex

    def prove_from_slice(self):
        N = self.N
        ex = self.new_exec()
        for right in (True, False):
            st = State()
            n = c64(N) if right else var('n', 64)
            if not right:
                st.assume(ne(n, c64(N)))
                st.assume(ule(n, c64((1 << 63) - 1)))
            b = Obj('fun', 'slice', n, reader=lambda st, off: uf('B', 8, off), ro=True)
            out = ex.new_mem(st, 'out', N, [const(0, 8)] * N)
            err = ex.new_mem(st, 'err', 32, [const(0xee, 8)] * 32, align=8)
            r = self.call(ex, st, 'from_slice', [Ptr(b, c64(0)), n, Ptr(out, c64(0)), Ptr(err, c64(0))])
            if not r:
                continue
            s, v = r
            ex.goal(s, eq(v, const(1 if right else 0, 1)), 'postcondition of from_slice: succeeds iff the slice has %d bytes' % N)
            if right:
                self.same(ex, s, self.cells(ex, s, out), [uf('B', 8, c64(i)) for i in range(N)], 'postcondition of from_slice: the same bytes in order')
            else:
                e = self.cells(ex, s, err)
                for k, (nm, w) in enumerate((('expected', c64(N)), ('got', n), ('expected_length()', c64(N)), ('invalid_length()', n))):
                    g = [c for c in e[8 * k:8 * k + 8]]
                    ex.goal(s, eq(cat(list(reversed(g))), w), 'postcondition of from_slice: error reports expected and actual length', nm)
        return ex

    def prove_index(self):
        N = self.N
        ex = self.new_exec()
        a, b = var('a', 64), var('b', 64)
        for what, pre, off, n in (('idx_range', [ule(a, b), ule(b, c64(N))], a, sub(b, a)), ('idx_from', [ule(a, c64(N))], a, sub(c64(N), a)),
                                  ('idx_to', [ule(b, c64(N))], c64(0), b), ('idx_incl', [ule(a, b), ult(b, c64(N))], a, sub(add(b, c64(1)), a))):
            if not self.has(what):
                continue
            st = State()
            h, cs = self.value(ex, st)
            for p in pre:
                st.assume(p)
            args = {'idx_range': [a, b], 'idx_from': [a], 'idx_to': [b], 'idx_incl': [a, b]}[what]
            r = self.call(ex, st, what, [Ptr(h, c64(0))] + args)
            if r:
                self.slice_result(ex, r[0], r[1], 'postcondition of %s: the bytes of that range' % what, off, n, h, cs)
        st = State()
        h, cs = self.value(ex, st)
        i = var('i', 64)
        st.assume(ult(i, c64(N)))
        r = self.call(ex, st, 'idx', [Ptr(h, c64(0)), i])
        if r:
            w = cs[0]
            for k in range(1, N):
                w = ite(eq(i, c64(k)), cs[k], w)
            ex.goal(r[0], eq(ex.asint(r[0], r[1]), w), 'postcondition of idx: byte i')
        return ex

    # ------------------------------------------------------------------ C16
    def prove_compare(self):
        ex = self.new_exec()
        N = self.N

        def two():
            st = State()
            x, xs = self.value(ex, st, 'x')
            y, ys = self.value(ex, st, 'y')
            return st, [Ptr(x, c64(0)), Ptr(y, c64(0))], cat(xs), cat(ys)
        for what in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp'):
            st, args, X, Y = two()
            r = self.call(ex, st, what, args)
            if not r:
                continue
            s, v = r
            v = ex.asint(s, v)
            if v.w == 1:
                w = {'eq': eq(X, Y), 'ne': ne(X, Y), 'lt': ult(X, Y), 'le': ule(X, Y), 'gt': ult(Y, X), 'ge': ule(Y, X)}[what]
            else:
                w = ite(ult(X, Y), const(0xff, 8), ite(eq(X, Y), const(0, 8), const(1, 8)))
            ex.goal(s, eq(v, w), 'postcondition of %s: %s of the bytes' % (what, 'equality' if what in ('eq', 'ne') else 'lexicographic order'))
        return ex

    def prove_stdhash(self):
        ex = self.new_exec()
        st = State()
        h, cs = self.value(ex, st)
        r = self.call(ex, st, 'stdhash', [Ptr(h, c64(0))])
        if r:
            ok = set(str(v.a) for v in cs)
            for cond, lst in self.flatten(r[0].ev, TRUE):
                used = tm.variables([cond] + [c for e in lst for c in e[1]])
                ex.oblige(r[0], TRUE if all(str(v.a) in ok for v in used) else FALSE, 'postcondition of Hash::hash: what is fed to the hasher is a function of the bytes')
                ex.oblige(r[0], TRUE if lst else FALSE, 'Hash::hash feeds something')
        return ex

    def prove_zero(self):
        ex = self.new_exec()
        for what in ('all_zeros', 'default'):
            if self.has(what):
                st = State()
                out = ex.new_mem(st, 'out', self.N)
                r = self.call(ex, st, what, [Ptr(out, c64(0))])
                if r:
                    self.same(ex, r[0], self.cells(ex, r[0], out), [const(0, 8)] * self.N, 'postcondition of %s: all zero bytes' % what)
        return ex

    # ------------------------------------------------------------------ C13
    def text(self, cs, upper=False):
        out = []
        for c in cs:
            out += [hexdigit(tm.ext(c, 4, 4), upper), hexdigit(tm.ext(c, 0, 4), upper)]
        return out

    def prove_err(self):
        """FromSliceError: accessors, constructor and text"""
        ex = self.new_exec()
        got, expected = var('got', 64), var('expected', 64)
        st = State()
        out = ex.new_mem(st, 'out', 32, align=8)
        r = ex.call_fn(st, 'h_err_new', [got, expected, Ptr(out, c64(0))])
        if r is None:
            ex.oblige(st, FALSE, 'FromSliceError::new returns')
        else:
            cs = self.cells(ex, r[0], out)
            for i, w in enumerate((expected, got, expected, got)):
                ex.goal(r[0], eq(cat(list(reversed(cs[8 * i:8 * i + 8]))), w), 'postcondition of FromSliceError::new and accessors', ('expected', 'got', 'expected_length', 'invalid_length')[i])
        st = State()
        r = ex.call_fn(st, 'h_err_display', [got, expected])
        if r is None:
            ex.oblige(st, FALSE, 'FromSliceError display returns')
            return ex
        st, v = r
        ex.goal(st, eq(v, const(1, 1)), 'FromSliceError display succeeds')
        evs, e = [], st.ev
        while e:
            e, x = e
            evs.insert(0, x)
        lit, seen = '', []
        for x in evs:
            if x[0] == 'emit' and all(isc(c) for c in x[1]):
                lit += ''.join(chr(c.a) for c in x[1])
            elif x[0] == 'dec':
                k = 'expected' if 'expected' in lit else 'got'
                seen.append(k)
                ex.goal(st, eq(x[1], expected if k == 'expected' else got), 'postcondition of FromSliceError display: reports both lengths', k)
                lit = ''
            else:
                raise Unsupported('text of FromSliceError')
        ex.oblige(st, TRUE if sorted(seen) == ['expected', 'got'] else FALSE, 'postcondition of FromSliceError display: reports both lengths', 'both')
        return ex

    def prove_fmt(self):
        ex = self.new_exec()
        for what in ('display', 'lower', 'upper'):
            st = State()
            h, cs = self.value(ex, st)
            r = self.call(ex, st, what, [Ptr(h, c64(0))])
            if r:
                s, v = r
                ex.goal(s, eq(v, const(1, 1)), 'formatting succeeds', what)
                self.check_events(ex, s, s.ev, self.text(cs, what == 'upper'), 'postcondition of %s: exactly the %s hex of the bytes' % (what, 'uppercase' if what == 'upper' else 'lowercase'), 'emit')
        return ex

    def parse_like(self, what, kind):
        N = self.N
        ex = self.new_exec()
        for right in (True, False):
            st = State()
            n = c64(2 * N) if right else var('n', 64)
            if not right:
                st.assume(ne(n, c64(2 * N)))
                st.assume(ule(n, c64((1 << 63) - 1)))
                b = Obj('fun', 'text', n, reader=lambda st, off: uf('B', 8, off), ro=True)
            cs = [var('s%d' % i, 8) for i in range(2 * N)]
            if right:
                b = ex.new_mem(st, 'text', 2 * N, cs, ro=True)
            out = ex.new_mem(st, 'out', N, [const(0, 8)] * N)
            r = self.call(ex, st, what, [Ptr(b, c64(0)), n, Ptr(out, c64(0))])
            if not r:
                continue
            s, v = r
            if not right:
                ex.goal(s, eq(v, const(0, 1)), 'postcondition of %s: text of another length is rejected' % kind)
                continue
            ex.goal(s, eq(v, band(*[ishex(c) for c in cs])), 'postcondition of %s: succeeds iff every character is a hex digit' % kind)
            s2 = s.fork()
            for c in cs:
                s2.assume(ishex(c))
            self.same(ex, s2, self.cells(ex, s2, out), [cat([nibble(cs[2 * i]), nibble(cs[2 * i + 1])]) for i in range(N)], 'postcondition of %s: the bytes the digits denote' % kind)
        return ex

    def prove_parse(self):
        return self.parse_like('parse', 'parse')

    def prove_from_hex(self):
        return self.parse_like('from_hex', 'from_hex')

    # ------------------------------------------------------------------ C14
    def prove_ser(self):
        ex = self.new_exec()
        for what in ('ser_human', 'ser_bin'):
            st = State()
            h, cs = self.value(ex, st)
            r = self.call(ex, st, what, [Ptr(h, c64(0))])
            if r:
                s, v = r
                ex.goal(s, eq(v, const(1, 1)), 'serialization succeeds', what)
                if what == 'ser_human':
                    self.check_events(ex, s, s.ev, self.text(cs), 'postcondition of serialize (human readable): the lowercase hex string', 'emit')
                else:
                    self.check_events(ex, s, s.ev, cs, 'postcondition of serialize (binary): exactly the raw bytes', 'bytes')
        return ex

    def prove_de_str(self):
        return self.parse_like('de_str', 'deserialize (string)')

    def prove_de_human_bytes(self):
        return self.parse_like('de_human_bytes', 'deserialize (string given as bytes)')

    def prove_de_bstr(self):
        return self.parse_like('de_bstr', 'deserialize (borrowed string)')

    def prove_de_human_bbytes(self):
        return self.parse_like('de_human_bbytes', 'deserialize (string given as borrowed bytes)')

    def prove_de_bbytes(self):
        return self.prove_de_bytes('de_bbytes')

    def prove_de_bytes(self, entry='de_bytes'):
        N = self.N
        ex = self.new_exec()
        for right in (True, False):
            st = State()
            n = c64(N) if right else var('n', 64)
            if not right:
                st.assume(ne(n, c64(N)))
                st.assume(ule(n, c64((1 << 63) - 1)))
            b = Obj('fun', 'bytes', n, reader=lambda st, off: uf('B', 8, off), ro=True)
            out = ex.new_mem(st, 'out', N, [const(0, 8)] * N)
            r = self.call(ex, st, entry, [Ptr(b, c64(0)), n, Ptr(out, c64(0))])
            if not r:
                continue
            s, v = r
            ex.goal(s, eq(v, const(1 if right else 0, 1)), 'postcondition of deserialize (binary): succeeds iff the byte string has %d bytes' % N)
            if right:
                self.same(ex, s, self.cells(ex, s, out), [uf('B', 8, c64(i)) for i in range(N)], 'postcondition of deserialize (binary): the same bytes')
        return ex
