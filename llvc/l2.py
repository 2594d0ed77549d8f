"""L2 contracts: code that only uses engines through their methods (HMAC, tagged hashes, one-shot helpers, io::Write).

An engine's bytes are opaque names E!<id>!<k>; the ghost value behind a name is its *content*: the sequence of bytes
absorbed so far, as a tuple of segments
  ('any', tag, len)            arbitrary earlier content of symbolic length
  ('mid', bytes, len)          resumed from a midstate the caller supplied
  ('sip', k0, k1)              a SipHash engine with these keys, nothing absorbed
  ('bytes', (b0, b1, ...))     these bytes
  ('data', obj, off, n)        obj[off .. off+n]
  ('chunks', arr, i)           the first i slices of the slice-of-slices arr, concatenated
The contracts used for the engine's own methods are the ones proved byte by byte in l1.py."""
import re
import terms as tm
from terms import (T, const, var, fresh, uf, TRUE, FALSE, cat, ext, zext, add, sub, band, bor, bnot, eq, ne, ult, ule, ite, lshr, isc)
import sx
from sx import Ptr, PtrIte, State, Unsupported, Obj
import loops
import smt
import specs
from engine import c64

LIM = (1 << 61) - 512      # message bytes (leaves room for an HMAC pad block and a digest)
BLOCK = {'sha1': 64, 'sha256': 64, 'sha384': 128, 'sha512': 128, 'sha512_256': 128, 'ripemd160': 64, 'siphash24': 8, 'sha256t': 64}
ENGINES = ['sha1', 'sha256', 'sha512', 'sha384', 'sha512_256', 'ripemd160', 'siphash24']


def base_of(e):
    if e.startswith('hmac_'):
        e = e[5:]
    return 'sha256' if e == 'sha256t' else e


def dup_ok(mod, dem):
    """all functions with this demangled name are instances of one Rust function (same mangled path, possibly
    instantiated once per crate): rustc compiles them from the same MIR"""
    c = mod.__dict__.get('_dups')
    if c is None:
        c = {}
        for n in mod.fns:
            c.setdefault(mod.dem.get(n, n), set()).add(re.sub(r'(B\w{0,3}_|Cs\w+_\d+[a-z]\w*)?$', '', re.sub(r'\.\d+$', '', n)))
        mod._dups = c
    return len(c.get(dem, ())) < 2


class L2(loops.Ctx):
    explicit = False

    def __init__(self, mod, eng):
        self.mod = mod
        self.eng = eng
        self.base = base_of(eng)
        self.contents = []
        self.ids = {}
        self.digs = {}
        self.digc = []
        self.mids = []
        self.midi = {}
        p = '<chf::%s::Engine as ' % self.base
        h = p + 'chf::HashEngine>::'
        self.methods = {h + 'input': self.c_input, h + 'finalize': self.c_finalize, h + 'midstate': self.c_midstate,
                        h + 'from_midstate': self.c_from_midstate, h + 'n_bytes_hashed': self.c_n_bytes, h + 'new': self.c_default,
                        p + 'core::default::Default>::default': self.c_default, p + 'core::clone::Clone>::clone': self.c_clone,
                        '<chf::%s::Engine>::from_midstate' % self.base: self.c_from_midstate}
        if self.base == 'siphash24':
            self.methods['<chf::siphash24::Hash>::from_engine_to_u64'] = self.c_finalize
            self.methods['<chf::siphash24::Engine>::with_keys'] = self.c_with_keys
        self.sizes()

    def sizes(self):
        def get(e):
            ex = sx.Exec(self.mod)
            st = State()
            o = ex.new_mem(st, 'sizes', 24)
            st, _ = ex.call_fn(st, 'h_%s_sizes' % e, [Ptr(o, c64(0))])
            return [specs.le(st.mem[o][8 * i:8 * i + 8]).a for i in range(3)]
        self.esize, self.msize, self.dsize = get(self.base)
        self.size, self.mid, self.dig = get(self.eng)
        self.B = BLOCK[self.base]

    def new_exec(self):
        ex = sx.Exec(self.mod)
        ex.contracts = [(lambda n, d: d in self.methods, self.dispatch), (lambda n, d: n.startswith('probe_') or d.endswith('probe_tag'), self.probe),
                        (lambda n, d: d == '<harness::AnyTag as chf::sha256t::Tag>::engine', self.c_tag)]
        ex.loop_hook = self.loop_hook
        self.ex = ex
        return ex

    def dispatch(self, ex, st, name, dem, vals, ins):
        if not dup_ok(self.mod, dem):
            raise Unsupported('copies of %s differ' % dem)
        return self.methods[dem](ex, st, vals, ins)

    def probe(self, ex, st, name, dem, vals, ins):
        if name == 'probe_tag':
            ex.store_cells(st, vals[0], [var('tag%d' % i, 8) for i in range(32)])
            return st, self.taglen
        return NotImplemented

    taglen = None
    anytag = False      # the tag's engine is in an arbitrary state, not only one resumed from a midstate

    def c_tag(self, ex, st, name, dem, vals, ins):
        if not self.anytag or len(vals) != 1:
            return NotImplemented
        ex.store_cells(st, vals[0], self.cells_of(self.tag_content()))
        return st, None

    # ------------------------------------------------------------------ ghost values
    def token(self, content):
        content = self.norm(content)
        i = self.ids.get(content)
        if i is None:
            i = self.ids[content] = len(self.contents)
            self.contents.append(content)
        return i

    def cells_of(self, content):
        i = self.token(content)
        return [var('E!%d!%d' % (i, k), 8) for k in range(self.esize)]

    @staticmethod
    def norm(content):
        out = []
        for s in content:
            if s[0] == 'bytes' and not s[1]:
                continue
            if s[0] == 'data' and isc(s[3]) and s[3].a == 0:
                continue
            if s[0] == 'chunks' and isc(s[2]) and s[2].a == 0:
                continue
            if s[0] == 'data' and out and out[-1][0] == 'data' and out[-1][1] is s[1] and add(out[-1][2], out[-1][3]) is s[2]:
                p = out.pop()
                s = ('data', s[1], p[2], add(p[3], s[3]))
            if s[0] == 'bytes' and out and out[-1][0] == 'bytes':
                s = ('bytes', out.pop()[1] + s[1])
            if s[0] == 'data' and out and out[-1][0] == 'chunks' and out[-1][1].chunkobj is s[1]:
                a, i = out[-1][1], out[-1][2]
                if a.coff(i) is s[2] and a.clen(i) is s[3]:
                    out[-1] = ('chunks', a, add(i, c64(1)))
                    continue
            out.append(s)
        return tuple(out)

    def length(self, st, content):
        n = c64(0)
        for s in content:
            if s[0] in ('any', 'mid'):
                n = add(n, s[2])
            elif s[0] == 'bytes':
                n = add(n, c64(len(s[1])))
            elif s[0] == 'data':
                n = add(n, s[3])
            elif s[0] == 'chunks':
                s[1].facts(st, s[2])
                n = add(n, s[1].csum(s[2]))
        return n

    def digest(self, content):
        content = self.norm(content)
        i = self.digs.get(content)
        if i is None:
            i = self.digs[content] = len(self.digc)
            self.digc.append(content)
        return [var('D!%d!%d' % (i, k), 8) for k in range(self.dsize)]

    def midbytes(self, content):
        content = self.norm(content)
        if len(content) == 1 and content[0][0] == 'mid':
            return list(content[0][1])     # chaining value of a state that has absorbed nothing since it was resumed
        i = self.midi.get(content)
        if i is None:
            i = self.midi[content] = len(self.mids)
            self.mids.append(content)
        return [var('M!%d!%d' % (i, k), 8) for k in range(self.msize)]

    @staticmethod
    def run_of(cells, pre):
        """id if cells are pre!id!0.."""
        i = None
        for k, c in enumerate(cells):
            if not (isinstance(c, T) and c.op == 'v' and c.a.startswith(pre + '!')):
                return None
            _, a, b = c.a.split('!')
            if int(b) != k or (i is not None and a != i):
                return None
            i = a
        return None if i is None else int(i)

    def split(self, cells):
        """condition on which the cells were merged"""
        for c in cells:
            if isinstance(c, T) and c.op == 'ite':
                return c.a[0]
            if isinstance(c, tuple) and c[0] == 'm':
                return c[1]
        return None

    @staticmethod
    def choose(cells, c, side):
        out = []
        for x in cells:
            if isinstance(x, T) and x.op == 'ite' and x.a[0] is c:
                x = x.a[1] if side else x.a[2]
            elif isinstance(x, T) and x.op == 'ite' and x.a[0] is bnot(c):
                x = x.a[2] if side else x.a[1]
            elif isinstance(x, tuple) and x[0] == 'm' and x[1] is c:
                x = x[2] if side else x[3]
            out.append(x)
        return out

    def cases(self, ex, st, cells, pre, depth=0):
        """[(state under guard, guard, id)]"""
        i = self.run_of(cells, pre)
        if i is not None:
            return [(st, TRUE, i)]
        c = self.split(cells)
        if c is None or depth > 6:
            return [(st, TRUE, None)]
        out = []
        for g, side in ((c, True), (bnot(c), False)):
            if not ex.feasible(st, g):
                continue
            for s, g2, i in self.cases(ex, ex.sub(st, g), self.choose(cells, c, side), pre, depth + 1):
                out.append((s, band(g, g2), i))
        return out

    def engines(self, ex, st, p):
        p = ex.pick(st, p)
        cells = ex.load_cells(st, p, self.esize)
        cs = self.cases(ex, st, cells, 'E')
        if any(i is None for _, _, i in cs):
            raise Unsupported('engine bytes that no contract produced')
        return p, cs

    def put(self, ex, st, p, opts, mk):
        """store mk(case) merged over the guards"""
        res = None
        for s, g, i in reversed(opts):
            cells = mk(s, i)
            res = cells if res is None else [sx.merge_cell(g, x, y) for x, y in zip(cells, res)]
        ex.store_cells(st, p, res)

    def seg(self, ex, st, d, n):
        if isc(n) and n.a == 0:
            return ('bytes', ())
        d = ex.pick(st, d) if isinstance(d, (Ptr, PtrIte)) else d
        if not isinstance(d, Ptr):
            raise Unsupported('data pointer')
        if d.obj.kind == 'fun':
            ex.bound(st, d, n, 'load in bounds')
            return ('data', d.obj, d.off, n)
        if not isc(n):
            hi = ex.bsearch_max(st, n, 0, 256)
            if d.obj.kind == 'null' or (hi == 0 and smt.prove(st.pc, eq(n, c64(0))) == 'proved'):
                ex.bound(st, d, n, 'load in bounds')
                return ('bytes', ())
            raise Unsupported('input of a symbolic part of a local buffer')
        return ('bytes', tuple(ex.cellint(st, c) for c in ex.load_cells(st, d, n.a)))

    # ------------------------------------------------------------------ contracts of the engine's methods
    def c_input(self, ex, st, vals, ins):
        p, opts = self.engines(ex, st, vals[0])
        sg = self.seg(ex, st, vals[1], vals[2])

        def mk(s, i):
            ex.goal(s, ule(add(self.length(s, self.contents[i]), vals[2]), c64(1 << 62)), 'input precondition', 'stream position bounded')
            return self.cells_of(self.contents[i] + (sg,))
        self.put(ex, st, p, opts, mk)
        return st, None

    def c_finalize(self, ex, st, vals, ins):
        ret = ins.dst is not None
        p, opts = self.engines(ex, st, vals[0] if ret else vals[1])
        res = None
        for s, g, i in reversed(opts):
            ex.goal(s, ule(self.length(s, self.contents[i]), c64((1 << 61) - 1)), 'finalize precondition', 'message length bounded')
            d = self.digest(self.contents[i])
            res = d if res is None else [ite(g, x, y) for x, y in zip(d, res)]
        if ret:
            return st, cat(list(reversed(res)))
        ex.store_cells(st, vals[0], res)
        return st, None

    def c_midstate(self, ex, st, vals, ins):
        p, opts = self.engines(ex, st, vals[1])
        res = None
        for s, g, i in reversed(opts):
            n = self.length(s, self.contents[i])
            lg = self.B.bit_length() - 1
            ex.goal(s, eq(ext(n, 0, lg), const(0, lg)), 'midstate precondition', 'whole number of blocks absorbed')
            d = self.midbytes(self.contents[i])
            res = d if res is None else [ite(g, x, y) for x, y in zip(d, res)]
        ex.store_cells(st, vals[0], res)
        return st, None

    def c_from_midstate(self, ex, st, vals, ins):
        out, m, n = vals
        cells = [ex.cellint(st, c) for c in ex.load_cells(st, ex.pick(st, m), self.msize)]
        lg = self.B.bit_length() - 1
        ex.goal(st, eq(ext(n, 0, lg), const(0, lg)), 'no panic', 'from_midstate: length is a multiple of the block size')
        i = self.run_of(cells, 'M')
        if i is not None:
            ct = self.mids[i]
            if smt.prove(st.pc, eq(n, self.length(st, ct))) == 'proved':
                ex.store_cells(st, out, self.cells_of(ct))
                return st, None
        ex.store_cells(st, out, self.cells_of((('mid', tuple(cells), n),)))
        return st, None

    def c_n_bytes(self, ex, st, vals, ins):
        p, opts = self.engines(ex, st, vals[0])
        res = None
        for s, g, i in reversed(opts):
            n = self.length(st, self.contents[i])
            res = n if res is None else ite(g, n, res)
        return st, res

    def initial(self):
        return (('sip', c64(0), c64(0)),) if self.base == 'siphash24' else ()

    def c_default(self, ex, st, vals, ins):
        ex.store_cells(st, vals[0], self.cells_of(self.initial()))
        return st, None

    def c_with_keys(self, ex, st, vals, ins):
        ex.store_cells(st, vals[0], self.cells_of((('sip', vals[1], vals[2]),)))
        return st, None

    def c_clone(self, ex, st, vals, ins):
        cells = ex.load_cells(st, vals[1], self.esize)
        ex.store_cells(st, vals[0], cells)
        return st, None

    # ------------------------------------------------------------------ comparison of ghost values
    def same_content(self, ex, st, A, B, kind, note=''):
        """obligations: A (actual) and B (expected) are the same byte sequence"""
        if self.norm(A) == self.norm(B):
            ex.oblige(st, TRUE, kind, note)
            return
        m = sx.solved(st.pc)

        def fix(S):
            out = []
            for s in self.norm(S):
                if m:
                    s = tuple(tm.subst([x], m)[0] if isinstance(x, T) else x for x in s)
                out.append(s)
            return list(self.norm(out))
        A, B = fix(A), fix(B)

        def P(g):
            return g is TRUE or (g is not FALSE and smt.prove(st.pc, g, 5000) == 'proved')

        def empty(s):
            if s[0] == 'data':
                return P(eq(s[3], c64(0)))
            if s[0] == 'chunks':
                return P(eq(s[2], c64(0)))
            return s[0] == 'bytes' and not s[1]
        fuel = 60
        while A or B:
            fuel -= 1
            if fuel < 0:
                raise Unsupported('content comparison')
            if A and empty(A[0]):
                A.pop(0)
                continue
            if B and empty(B[0]):
                B.pop(0)
                continue
            if not A or not B:
                # what remains must be empty
                r = (A or B)
                n = self.length(st, r)
                if any(s[0] in ('sip', 'mid', 'any') for s in r):
                    n = c64(1)
                ex.goal(st, eq(n, c64(0)), kind, note + ': bytes %s' % ('too many' if A else 'missing'))
                return
            a, b = A[0], B[0]
            if a == b:
                A.pop(0)
                B.pop(0)
                continue
            k = (a[0], b[0])
            if k == ('sip', 'sip'):
                ex.goals(st, [(note + ' key 0', eq(a[1], b[1])), (note + ' key 1', eq(a[2], b[2]))], kind)
                A.pop(0)
                B.pop(0)
            elif k == ('mid', 'mid'):
                ex.goals(st, [(note + ': resumed length', eq(a[2], b[2]))] + [(note + ': midstate byte %d' % i, eq(x, y)) for i, (x, y) in enumerate(zip(a[1], b[1]))], kind)
                A.pop(0)
                B.pop(0)
            elif k == ('data', 'data') and a[1] is b[1]:
                if not ex.goal(st, eq(a[2], b[2]), kind, note + ': data position'):
                    return
                if P(ule(a[3], b[3])):
                    A.pop(0)
                    B[0] = ('data', b[1], add(b[2], a[3]), sub(b[3], a[3]))
                elif P(ule(b[3], a[3])):
                    B.pop(0)
                    A[0] = ('data', a[1], add(a[2], b[3]), sub(a[3], b[3]))
                else:
                    ex.goal(st, eq(a[3], b[3]), kind, note + ': data length')
                    return
            elif k == ('bytes', 'bytes'):
                n = min(len(a[1]), len(b[1]))
                self.same_bytes(ex, st, a[1][:n], b[1][:n], kind, note)
                A[0] = ('bytes', a[1][n:])
                B[0] = ('bytes', b[1][n:])
            elif set(k) == {'bytes', 'data'}:
                X = A if a[0] == 'data' else B
                s = X[0]
                h = ex.bsearch_max(st, s[3], 0, 300)
                if not P(eq(s[3], c64(h))):
                    ex.goal(st, FALSE, kind, note + ': content differs')
                    return
                X[0] = ('bytes', tuple(s[1].reader(st, add(s[2], c64(i))) for i in range(h)))
            elif k == ('chunks', 'chunks') and a[1] is b[1]:
                if P(eq(a[2], b[2])):
                    A.pop(0)
                    B.pop(0)
                    continue
                for X, lo, hi in ((B, a, b), (A, b, a)):
                    if P(eq(add(lo[2], c64(1)), hi[2])):
                        a[1].facts(st, lo[2])
                        X[0:1] = [('chunks', a[1], lo[2]), ('data', a[1].chunkobj, a[1].coff(lo[2]), a[1].clen(lo[2]))]
                        break
                else:
                    ex.goal(st, eq(a[2], b[2]), kind, note + ': number of slices absorbed')
                    return
            else:
                ex.goal(st, FALSE, kind, note + ': content differs')
                return
        ex.oblige(st, TRUE, kind, note)

    def same_bytes(self, ex, st, a, b, kind, note):
        i = 0
        gs = []
        while i < len(a):
            done = False
            for pre, table, n in (('D', self.digc, self.dsize), ('M', self.mids, self.msize)):
                x, y = self.run_of(a[i:i + n], pre), self.run_of(b[i:i + n], pre)
                if len(a) - i >= n and x is not None and y is not None:
                    if x != y:
                        self.same_content(ex, st, table[x], table[y], kind, note + ': hashed content')
                    else:
                        gs.append((note, TRUE))
                    i += n
                    done = True
                    break
            if not done:
                gs.append((note + ': byte %d' % i, eq(a[i], b[i])))
                i += 1
        ex.goals(st, gs, kind)

    def check_engine(self, ex, st, cells, want, kind, note=''):
        for s, g, i in self.cases(ex, st, cells, 'E'):
            if i is None:
                ex.goal(s, FALSE, kind, note + ': not a valid engine state')
                continue
            self.same_content(ex, s, self.contents[i], want, kind, note)

    def check_digest(self, ex, st, cells, want, kind, note=''):
        """cells are the digest of `want`"""
        d = self.digest(want)
        for s, g, i in self.cases(ex, st, cells[:self.dsize], 'D'):
            if i is None:
                c = [ex.cellint(s, x) for x in cells]
                self.same_bytes(ex, s, c, d, kind, note)
            else:
                self.same_content(ex, s, self.digc[i], want, kind, note)

    # ------------------------------------------------------------------ loops that absorb
    def loop_hook(self, ex, fr, it, inc):
        hook = any(isinstance(o, ChunkArr) or o.kind == 'fun' and not isinstance(o.size, int) and not isc(o.size) for o in self.objs)
        if not hook:
            return None
        # unroll if the trip count is bounded by the path condition (short probe)
        if self.bounded(ex, fr, it, inc):
            return None
        return loops.handle(ex, fr, it, inc, self)

    def bounded(self, ex, fr, it, inc, limit=140):
        _, h, items, nodes = it
        rec = ex.record
        steps = ex.steps
        nt = (len(self.contents), dict(self.ids))
        ex.record = False
        try:
            cur = [(s.fork(), p) for s, p in inc]
            k = 0
            while cur:
                k += 1
                if k > limit:
                    return False
                local = {h: cur}
                ex.run_items(fr, items, local, None)
                cur = local.pop(h, None)
                if cur and k >= 3:
                    # a symbolic number of iterations so far: treat as unbounded
                    if any(len(s.pc) > len(inc[0][0].pc) + 1 for s, _ in cur):
                        return False
            return True
        except Unsupported:
            return False
        finally:
            ex.record = rec
            ex.steps = steps

    def covered(self, ex, st0):
        self.tokens = []
        cov = {}
        for o, cells in st0.mem.items():
            k = 0
            while k + self.esize <= len(cells):
                c = cells[k]
                if isinstance(c, T) and c.op == 'v' and c.a.startswith('E!') and c.a.endswith('!0'):
                    i = self.run_of(cells[k:k + self.esize], 'E')
                    if i is not None:
                        self.tokens.append((o, k, i))
                        cov.setdefault(o, set()).update(range(k, k + self.esize))
                        k += self.esize
                        continue
                k += 1
        return cov

    def fields(self, ex, st0, st1, st2, ind, step):
        out = []
        for o, k, i in self.tokens:
            c1 = st1.mem.get(o)
            if c1 is None:
                raise Unsupported('engine freed in a loop')
            c0 = self.contents[i]
            ext_ = None
            for s, g, j in self.cases(ex, st1, c1[k:k + self.esize], 'E'):
                if j is None:
                    raise Unsupported('engine changed in a loop outside its methods')
                if j != i:
                    ext_ = (c0, self.contents[j])
            if ext_ is None:
                out.append(TokField(self, o, k, lambda c, c0=c0: c0, 'unchanged'))
                continue
            new = ext_[1]
            arr = [x for x in self.objs if isinstance(x, ChunkArr)]
            added = new[len(c0):]
            if arr and isinstance(ind.v0, Ptr) and ind.v0.obj is arr[0] and isc(step) and step.a == 16 and isc(ind.v0.off):
                a = arr[0]
                i0 = ind.v0.off.a // 16
                out.append(TokField(self, o, k, lambda c, c0=c0: c0 + (('chunks', a, lshr(c, c64(4))),) if i0 == 0 else None, 'absorbed the first c/16 slices'))
            elif len(added) == 1 and added[0][0] == 'data':
                s = added[0]
                if smt.prove(st1.pc, eq(step, s[3]), 3000) != 'proved':
                    raise Unsupported('absorbing loop with unrelated progress')
                out.append(TokField(self, o, k, lambda c, c0=c0, s=s: c0 + (('data', s[1], s[2], c),), 'absorbed c bytes'))
            else:
                raise Unsupported('absorbing loop of unknown shape')
        return out

    def ghost(self, ex, st0, ind, step):
        if isc(step) and step.a and step.a & (step.a - 1) == 0 and step.a > 1:
            lg = step.a.bit_length() - 1
            return cat([fresh('c', 64 - lg), const(0, lg)]), []
        return fresh('c', 64), []


class TokField(loops.Field):
    def __init__(self, p, obj, off, content, name):
        self.p, self.obj, self.off, self.content = p, obj, off, content
        self.name = 'engine %s: %s' % (obj.name, name)

    def make(self, ex, st, c):
        w = st.wcells(self.obj)
        w[self.off:self.off + self.p.esize] = self.p.cells_of(self.content(c))

    def check(self, ex, st, c, kind):
        self.p.check_engine(ex, st, st.mem[self.obj][self.off:self.off + self.p.esize], self.content(c), kind, self.name)


class ChunkArr(Obj):
    """&[&[u8]] of symbolic length: element i is the slice [coff(i), coff(i)+clen(i)) of one big object"""

    def __init__(self, n, cap):
        self.cap = cap
        super().__init__('arr', 'slices', tm.shl(n, c64(4)), ro=True, align=8)
        self.n = n
        self.bigsize = var('allbytes', 64)
        self.chunkobj = Obj('fun', 'slice data', self.bigsize, reader=lambda st, off: uf('Q', 8, off), ro=True)
        self.reader = self.read

    def coff(self, i):
        return uf('coff', 64, i)

    def clen(self, i):
        return uf('clen', 64, i)

    def csum(self, i):
        if isc(i) and i.a == 0:
            return c64(0)
        return uf('csum', 64, i)

    def facts(self, st, i):
        """facts about slice i and the running totals up to i and i+1 (i <= n)"""
        st.assume(bor(ule(self.n, i), band(ule(self.coff(i), self.bigsize), ule(self.clen(i), sub(self.bigsize, self.coff(i))),
                                           eq(self.csum(add(i, c64(1))), add(self.csum(i), self.clen(i))), ule(self.clen(i), self.cap))))
        for j in (i, add(i, c64(1))):
            st.assume(bor(ult(self.n, j), ule(self.csum(j), self.cap)))

    def read(self, ex, st, off, n):
        lo = ext(off, 0, 4)
        if not isc(lo):
            raise Unsupported('misaligned access to slice array')
        i = lshr(off, c64(4))
        self.facts(st, i)
        p = Ptr(self.chunkobj, self.coff(i))
        cells = [('p', p, k) for k in range(8)] + [ext(self.clen(i), 8 * k, 8) for k in range(8)]
        if lo.a + n > 16:
            raise Unsupported('access across slice array elements')
        return cells[lo.a:lo.a + n]


# ====================================================================== the contracts proved here
class Proofs(L2):
    def setup(self):
        self.objs = []
        st = State()
        if self.eng.endswith('sha256t'):
            self.taglen = var('TL', 64) if self.anytag else cat([var('TK', 64 - 6), const(0, 6)])
            st.assume(ule(self.taglen, c64(LIM)))
            self.cap = sub(c64(LIM), self.taglen)
        return st

    cap = c64(LIM)

    def tag_content(self):
        if self.anytag:
            return (('any', 'tag', self.taglen),)
        return (('mid', tuple(var('tag%d' % i, 8) for i in range(32)), self.taglen),)

    def start(self):
        """content of a fresh underlying engine"""
        return self.tag_content() if self.eng.endswith('sha256t') else self.initial()

    def data(self, ex, st, name='msg', n=None):
        n = var('n_' + name, 64) if n is None else n
        if not isc(n):
            st.assume(ule(n, self.cap))
        o = Obj('fun', name, n, reader=lambda st, off: uf('B_' + name, 8, off), ro=True)
        self.objs.append(o)
        return o, n

    def any(self, ex, st, name, aligned=False):
        L = cat([var('L_' + name, 65 - self.B.bit_length()), const(0, self.B.bit_length() - 1)]) if aligned else var('L_' + name, 64)
        st.assume(ule(L, c64(LIM)))
        return (('any', name, L),)

    hm = property(lambda self: self.eng.startswith('hmac_'))

    def engine_arg(self, ex, st, aligned=False):
        """an engine in an arbitrary reachable state: (object, [content of each part])"""
        cs = [self.any(ex, st, 'in', aligned)] + ([self.any(ex, st, 'out', aligned)] if self.hm else [])
        cells = []
        for c in cs:
            cells += self.cells_of(c)
        if len(cells) != self.size:
            raise Unsupported('engine layout')
        o = ex.new_mem(st, 'engine', self.size, cells, align=8)
        return o, cs

    def call(self, ex, st, what, args, note=None):
        f = 'h_%s_%s' % (self.eng, what)
        self.mod.probes.add(f)
        if f not in self.mod.fns:
            raise Unsupported('no entry ' + f)
        r = ex.call_fn(st, f, args)
        if r is None:
            ex.oblige(st, FALSE, '%s returns' % what)
            return None
        v = smt.check(list(r[0].pc), ex.timeout)
        ex.obs.append(sx.Obligation('precondition and exit reachable (vacuity)', what, 'proved' if v == 'sat' else 'unknown', None, None, v))
        return r

    # ---------------------------------------------------------------- HMAC order of the two halves
    def parts(self, cells):
        return [cells[i * self.esize:(i + 1) * self.esize] for i in range(self.size // self.esize)]

    def check_state(self, ex, st, obj, want, kind):
        cs = self.parts(st.mem[obj])
        for k, (c, w) in enumerate(zip(cs, want)):
            self.check_engine(ex, st, c, w, kind, ('inner', 'outer')[k] if self.hm else 'engine')

    def result(self, want):
        """content whose digest the engine in state `want` must produce"""
        if not self.hm:
            return want[0]
        return want[1] + (('bytes', tuple(self.digest(want[0]))),)

    def check_out(self, ex, st, out, want, kind):
        self.check_digest(ex, st, list(st.mem[out]), self.result(want), kind, 'digest')

    # ---------------------------------------------------------------- methods of hmac::Engine / sha256t::Engine
    def order(self):
        """which half of an HMAC engine absorbs the message (found by running input on a concrete state, checked by the contracts)"""
        return

    def prove_input(self):
        ex = self.new_exec()
        st = self.setup()
        o, cs = self.engine_arg(ex, st)
        d, n = self.data(ex, st)
        r = self.call(ex, st, 'input', [Ptr(o, c64(0)), Ptr(d, c64(0)), n])
        if r:
            self.check_state(ex, r[0], o, [cs[0] + (('data', d, c64(0), n),)] + cs[1:], 'postcondition of input: exactly the data is absorbed')
        return ex

    def prove_write(self, which):
        ex = self.new_exec()
        for what in ('write', 'flush', 'write_all'):
            st = self.setup()
            o, cs = self.engine_arg(ex, st)
            d, n = self.data(ex, st)
            if what == 'flush':
                r = self.call(ex, st, which + '_flush', [Ptr(o, c64(0))])
            elif what == 'write':
                k = ex.new_mem(st, 'count', 8, align=8)
                r = self.call(ex, st, which + '_write', [Ptr(o, c64(0)), Ptr(d, c64(0)), n, Ptr(k, c64(0))])
            else:
                r = self.call(ex, st, which + '_write_all', [Ptr(o, c64(0)), Ptr(d, c64(0)), n])
            if not r:
                continue
            st, v = r
            kind = 'postcondition of %s %s' % ({'bio': 'bitcoin_io', 'std': 'std::io'}[which], what)
            ex.goal(st, eq(v, const(1, v.w)), kind, 'succeeds')
            if what == 'write':
                ex.goal(st, eq(specs.le([ex.cellint(st, c) for c in st.mem[k]]), n), kind, 'reports the whole buffer as written')
            self.check_state(ex, st, o, cs if what == 'flush' else [cs[0] + (('data', d, c64(0), n),)] + cs[1:], kind)
        return ex

    def prove_bio(self):
        return self.prove_write('bio')

    def prove_std(self):
        return self.prove_write('std')

    def prove_n_bytes(self):
        ex = self.new_exec()
        st = self.setup()
        o, cs = self.engine_arg(ex, st)
        r = self.call(ex, st, 'n_bytes', [Ptr(o, c64(0))])
        if r:
            ex.goal(r[0], eq(r[1], self.length(r[0], cs[0])), 'postcondition of n_bytes_hashed: bytes absorbed by the message engine')
            self.check_state(ex, r[0], o, cs, 'n_bytes_hashed leaves the engine unchanged')
        return ex

    def prove_clone(self):
        ex = self.new_exec()
        st = self.setup()
        o, cs = self.engine_arg(ex, st)
        out = ex.new_mem(st, 'out', self.size, align=8)
        r = self.call(ex, st, 'clone', [Ptr(o, c64(0)), Ptr(out, c64(0))])
        if r:
            self.check_state(ex, r[0], o, cs, 'clone leaves the original unchanged')
            self.check_state(ex, r[0], out, cs, 'postcondition of clone: same state')
        return ex

    def prove_finalize(self, what='finalize'):
        ex = self.new_exec()
        st = self.setup()
        o, cs = self.engine_arg(ex, st)
        out = ex.new_mem(st, 'out', self.dig)
        r = self.call(ex, st, what, [Ptr(o, c64(0)), Ptr(out, c64(0))])
        if r:
            self.check_out(ex, r[0], out, cs, 'postcondition of %s' % what)
        return ex

    def prove_h_from_engine(self):
        return self.prove_finalize('h_from_engine')

    def prove_midstate(self):
        ex = self.new_exec()
        st = self.setup()
        o, cs = self.engine_arg(ex, st, aligned=True)
        out = ex.new_mem(st, 'out', self.mid, align=8)
        r = self.call(ex, st, 'midstate', [Ptr(o, c64(0)), Ptr(out, c64(0))])
        if r:
            st = r[0]
            self.check_state(ex, st, o, cs, 'midstate leaves the engine unchanged')
            got = [ex.cellint(st, c) for c in st.mem[out]]
            want = []
            for c in cs:
                want += self.midbytes(c)
            self.same_bytes(ex, st, got, want, 'postcondition of midstate: midstate of the engine', 'midstate')
        return ex

    def prove_from_midstate(self):
        """arbitrary midstate bytes and aligned length"""
        ex = self.new_exec()
        st = self.setup()
        lg = self.B.bit_length() - 1
        n = cat([var('NK', 64 - lg), const(0, lg)])
        st.assume(ule(n, c64(LIM)))
        bs = [var('mid%d' % i, 8) for i in range(self.mid)]
        m = ex.new_mem(st, 'midstate', self.mid, bs, align=8)
        out = ex.new_mem(st, 'engine', self.size, align=8)
        r = self.call(ex, st, 'from_midstate', [Ptr(m, c64(0)), n, Ptr(out, c64(0))])
        if r:
            want = [(('mid', tuple(bs[:self.msize]), n),)]
            if self.hm:
                want.append((('mid', tuple(bs[self.msize:]), add(self.length(r[0], self.start()), c64(self.B))),))
            self.check_state(ex, r[0], out, want, 'postcondition of from_midstate')
        return ex

    def prove_resume(self):
        """from_midstate(e.midstate(), e.n_bytes_hashed()) is e, for every engine made by new(key) plus whole blocks"""
        ex = self.new_exec()
        st = self.setup()
        lg = self.B.bit_length() - 1
        n = cat([var('NK', 64 - lg), const(0, lg)])
        st.assume(ule(n, self.cap))
        d, _ = self.data(ex, st, 'msg', n)
        if self.hm:
            pads = [[var('%spad%d' % (x, i), 8) for i in range(self.B)] for x in 'io']
            cs = [self.start() + (('bytes', tuple(p)),) for p in pads]
            cs[0] = cs[0] + (('data', d, c64(0), n),)
        else:
            cs = [self.start() + (('data', d, c64(0), n),)]
        cells = []
        for c in cs:
            cells += self.cells_of(c)
        e = ex.new_mem(st, 'engine', self.size, cells, align=8)
        m = ex.new_mem(st, 'midstate', self.mid, align=8)
        r = self.call(ex, st, 'midstate', [Ptr(e, c64(0)), Ptr(m, c64(0))])
        if not r:
            return ex
        r = self.call(ex, r[0], 'n_bytes', [Ptr(e, c64(0))])
        if not r:
            return ex
        st, k = r
        out = ex.new_mem(st, 'resumed', self.size, align=8)
        r = self.call(ex, st, 'from_midstate', [Ptr(m, c64(0)), k, Ptr(out, c64(0))])
        if r:
            self.check_state(ex, r[0], out, cs, 'resuming from midstate() and n_bytes_hashed() gives the same engine')
        return ex

    # ---------------------------------------------------------------- constructors
    def hmac_states(self, keybytes):
        out = []
        for pad in (0x36, 0x5c):
            b = [tm.bxor(k, const(pad, 8)) for k in keybytes] + [const(pad, 8)] * (self.B - len(keybytes))
            out.append(self.start() + (('bytes', tuple(b)),))
        return out

    def prove_new(self, what='new'):
        ex = self.new_exec()
        st = self.setup()
        out = ex.new_mem(st, 'engine', self.size, align=8)
        r = self.call(ex, st, what, [Ptr(out, c64(0))])
        if r:
            want = self.hmac_states([]) if self.hm else [self.start()]
            self.check_state(ex, r[0], out, want, 'postcondition of %s' % what)
        return ex

    def prove_default(self):
        return self.prove_new('default')

    def prove_h_engine(self):
        return self.prove_new('h_engine')

    def prove_with_key(self):
        """every key length up to the block size (each with all key bytes symbolic), then all longer keys at once"""
        ex = self.new_exec()
        for n in range(self.B + 1):
            st = self.setup()
            d, _ = self.data(ex, st, 'key', c64(n))
            self.objs = []
            out = ex.new_mem(st, 'engine', self.size, align=8)
            r = self.call(ex, st, 'with_key', [Ptr(d, c64(0)), c64(n), Ptr(out, c64(0))])
            if r:
                self.check_state(ex, r[0], out, self.hmac_states([d.reader(st, c64(i)) for i in range(n)]), 'postcondition of Engine::new(key), %d-byte key' % n)
            if sum(1 for o in ex.obs if o.status != 'proved') > 12:
                return ex
        st = self.setup()
        d, n = self.data(ex, st, 'key')
        self.objs = []
        st.assume(ult(c64(self.B), n))
        out = ex.new_mem(st, 'engine', self.size, align=8)
        r = self.call(ex, st, 'with_key', [Ptr(d, c64(0)), n, Ptr(out, c64(0))])
        if r:
            kd = self.digest(self.start() + (('data', d, c64(0), n),))
            self.check_state(ex, r[0], out, self.hmac_states(kd), 'postcondition of Engine::new(key), key longer than a block')
        return ex

    # ---------------------------------------------------------------- one-shot helpers
    def fresh_states(self):
        return self.hmac_states([]) if self.hm else [self.start()]

    def prove_tr_hash(self, what='tr_hash'):
        ex = self.new_exec()
        st = self.setup()
        d, n = self.data(ex, st)
        out = ex.new_mem(st, 'out', self.dig)
        r = self.call(ex, st, what, [Ptr(d, c64(0)), n, Ptr(out, c64(0))])
        if r:
            cs = self.fresh_states()
            cs[0] = cs[0] + (('data', d, c64(0), n),)
            self.check_out(ex, r[0], out, cs, 'postcondition of %s: digest of the bytes' % what)
        return ex

    def prove_h_hash(self):
        return self.prove_tr_hash('h_hash')

    def prove_chunks(self):
        ex = self.new_exec()
        st = self.setup()
        n = var('n_slices', 64)
        st.assume(ule(n, c64(1 << 56)))
        a = ChunkArr(n, self.cap)
        st.assume(ule(a.bigsize, c64(1 << 62)))
        a.facts(st, n)
        self.objs.append(a)
        out = ex.new_mem(st, 'out', self.dig)
        r = self.call(ex, st, 'chunks', [Ptr(a, c64(0)), n, Ptr(out, c64(0))])
        if r:
            cs = self.fresh_states()
            cs[0] = cs[0] + (('chunks', a, n),)
            self.check_out(ex, r[0], out, cs, 'postcondition of hash_byte_chunks: digest of the concatenation')
        return ex

    # ---------------------------------------------------------------- SipHash helpers
    def prove_sip_helpers(self):
        ex = self.new_exec()
        k0, k1 = var('k0', 64), var('k1', 64)
        for f in ('h_sip_hash_with_keys', 'h_sip_hash_to_u64_with_keys', 'h_sip_from_engine_to_u64'):
            st = self.setup()
            d, n = self.data(ex, st)
            if f == 'h_sip_hash_with_keys':
                out = ex.new_mem(st, 'out', 8)
                r = ex.call_fn(st, f, [k0, k1, Ptr(d, c64(0)), n, Ptr(out, c64(0))])
            elif f == 'h_sip_hash_to_u64_with_keys':
                r = ex.call_fn(st, f, [k0, k1, Ptr(d, c64(0)), n])
            elif f == 'h_sip_from_engine_to_u64':
                o, cs = self.engine_arg(ex, st)
                r = ex.call_fn(st, f, [Ptr(o, c64(0))])
            if r is None:
                ex.oblige(st, FALSE, '%s returns' % f)
                continue
            st, v = r
            want = cs[0] if 'from_engine' in f else (('sip', k0, k1), ('data', d, c64(0), n))
            cells = list(st.mem[out]) if f == 'h_sip_hash_with_keys' else [ext(v, 8 * i, 8) for i in range(8)]
            self.check_digest(ex, st, cells, want, 'postcondition of %s' % f[6:], 'digest')
        return ex
