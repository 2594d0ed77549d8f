"""Parser for the subset of textual LLVM IR that rustc + opt produce for this crate."""
import re
import subprocess

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<gl>@"[^"]*"|@[\w.$-]+)
|(?P<lo>%"[^"]*"|%[\w.$-]+)
|(?P<md>![\w.]*(?:\([^()]*\))?)
|(?P<at>\#\d+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
|(?P<id>[A-Za-z_][\w.]*:?)
|(?P<dots>\.\.\.)
|(?P<p>[\[\]{}()<>,=*|:])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise ParseError('token: ' + s[pos:pos + 60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('gl', 'lo') and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
        pos = m.end()
    return out


# types: ('i',n) 'ptr' 'void' ('a',n,t) ('s',packed,(t..)) ('v',n,t) ('f',n)
class Types:
    def __init__(self):
        self.named = {}

    def size(self, t):
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            return self.layout(t)[1]
        if k == 'v':
            b = t[1] * self.bits(t[2])
            return (b + 7) // 8
        if k == 'n':
            return self.size(self.named[t[1]])
        raise ParseError('size %r' % (t,))

    def bits(self, t):
        if t == 'ptr':
            return 64
        if t[0] == 'i':
            return t[1]
        if t[0] == 'v':
            return t[1] * self.bits(t[2])
        if t[0] == 'n':
            return self.bits(self.named[t[1]])
        raise ParseError('bits %r' % (t,))

    def align(self, t):
        if t == 'ptr':
            return 8
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[1] or not t[2]:
                return 1
            return max(self.align(x) for x in t[2])
        if k == 'v':
            n = self.size(t)
            a = 1
            while a < n:
                a *= 2
            return a
        if k == 'n':
            return self.align(self.named[t[1]])
        raise ParseError('align %r' % (t,))

    def layout(self, t):
        """offsets, size of a struct"""
        if t[0] == 'n':
            t = self.named[t[1]]
        off = 0
        offs = []
        al = 1
        for x in t[2]:
            if not t[1]:
                a = self.align(x)
                al = max(al, a)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[1]:
            off = (off + al - 1) // al * al
        return offs, off

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'n':
            t = self.named[t[1]]
        return t


class P:
    """token cursor"""

    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError('expected %s got %r at %d in %s' % (v, x, self.i, ' '.join(str(y[1]) for y in self.t[:60])))

    def is_type(self):
        k, v = self.peek()
        if k == 'id':
            return v in ('ptr', 'void', 'float', 'double', 'metadata', 'half') or re.fullmatch(r'i\d+', v) is not None
        if k == 'p':
            return v in '[{<'
        if k == 'lo':
            return v[1:] in self.types.named
        return False

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                return 'ptr'
            if v == 'void':
                return 'void'
            if v == 'metadata':
                return 'metadata'
            if v == 'float':
                return ('f', 32)
            if v == 'double':
                return ('f', 64)
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                return ('i', int(m.group(1)))
            raise ParseError('type ' + v)
        if k == 'lo':
            return ('n', v[1:])
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('a', n, t)
        if v == '{':
            return self._struct(False)
        if v == '<':
            if self.eat('{'):
                r = self._struct(True)
                self.expect('>')
                return r
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('v', n, t)
        raise ParseError('type %r' % (v,))

    def _struct(self, packed):
        ts = []
        if self.eat('}'):
            return ('s', packed, ())
        while True:
            ts.append(self.type())
            if self.eat('}'):
                break
            self.expect(',')
        return ('s', packed, tuple(ts))

    def skip_parens(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def attrs(self):
        """skip attributes up to a type; return dict of interesting ones"""
        out = {}
        while not self.is_type():
            k, v = self.next()
            if k == 'at' or k == 'str':
                continue
            if k != 'id':
                raise ParseError('attr %r in %s' % (v, ' '.join(str(y[1]) for y in self.t[:40])))
            if self.peek()[1] == '(':
                s = self.i
                self.skip_parens()
                out[v] = self.t[s + 1:self.i - 1]
            elif v == 'align':
                out[v] = int(self.next()[1])
            else:
                out[v] = True
        return out

    # constants / operands: ('l',name) ('g',name) ('int',v) ('null',) ('undef',) ('zero',) ('agg',[ (t,op) ]) ('bytes',b)
    # ('ce',op,...)
    def operand(self, ty):
        k, v = self.next()
        if k == 'lo':
            return ('l', v[1:])
        if k == 'gl':
            return ('g', v[1:])
        if k == 'num':
            if 'x' in v or '.' in v:
                raise ParseError('float constant')
            return ('int', int(v))
        if k == 'str':
            return ('bytes', unescape(v))
        if k == 'id':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                o = self.operand(t)
                self.expect(')')
                return ('splat', t, o)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.peek(-1)[1] == 'inrange':
                        self.skip_parens()
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = self._typed_list(')')
                return ('ce', 'getelementptr', t, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'ptrtoaddr'):
                self.expect('(')
                t = self.type()
                o = self.operand(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, t, o, t2)
            if v in ('add', 'sub', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                ops = self._typed_list(')')
                return ('ce', v, ops)
        if v == '[' or v == '{':
            return ('agg', self._typed_list(']' if v == '[' else '}'))
        if v == '<':
            if self.eat('{'):
                r = ('agg', self._typed_list('}'))
                self.expect('>')
                return r
            return ('agg', self._typed_list('>'))
        raise ParseError('operand %r' % (v,))

    def _typed_list(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            t = self.type()
            out.append((t, self.operand(t)))
            if self.eat(end):
                return out
            self.expect(',')


def unescape(s):
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'fl', 'text')

    def __init__(self, op, dst, ty, a, fl, text):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.fl = fl
        self.text = text


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []  # (type, name, attrs)
        self.ret = None
        self.blocks = {}  # label -> [Inst]
        self.order = []
        self.lines = None
        self.dem = name


BIN = {'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'volatile', 'fast', 'tail',
         'musttail', 'notail', 'atomic', 'monotonic', 'acquire', 'release', 'seq_cst', 'unordered'}


class Module:
    def __init__(self, text):
        self.types = Types()
        self.fns = {}
        self.decls = {}
        self.probes = set()
        self.globals = {}  # name -> (type, operand, const?)
        self._gl_lines = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Fn(name)
                f.lines = lines[i:j]
                self.fns[name] = f
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('@'):
                m = re.match(r'@("[^"]+"|[\w.$-]+) = ', l)
                self._gl_lines[m.group(1).strip('"')] = l[m.end():]
            elif l.startswith('%') and ' = type ' in l:
                m = re.match(r'%("[^"]+"|[\w.$-]+) = type (.*)$', l)
                self.types.named[m.group(1).strip('"')] = m.group(2)
            i += 1
        raw = dict(self.types.named)
        for n, s in raw.items():
            self.types.named[n] = None
        for n, s in raw.items():
            if s == 'opaque':
                continue
            self.types.named[n] = P(tokenize(s), self.types).type()
        names = list(self.fns) + list(self.decls)
        d = demangle(names)
        self.dem = dict(zip(names, d))
        for n, f in self.fns.items():
            f.dem = self.dem[n]

    def fn(self, name):
        f = self.fns.get(name)
        if f is not None and f.lines is not None:
            parse_fn(f, self.types)
            f.text = '\n'.join(f.lines)
            f.lines = None
        return f

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            l = self._gl_lines[name]
            p = P(tokenize(l), self.types)
            kind = None
            while True:
                k, v = p.peek()
                if v in ('constant', 'global'):
                    kind = v
                    p.next()
                    break
                p.next()
                if p.peek()[1] == '(':
                    p.skip_parens()
            t = p.type()
            ext = ' external ' in ' ' + l[:l.index(kind)] + ' '
            op = None if ext else p.operand(t)
            g = (t, op, kind == 'constant')
            self.globals[name] = g
        return g


def demangle(names):
    p = subprocess.run(['c++filt', '-s', 'rust'], input='\n'.join(names), text=True, capture_output=True)
    out = p.stdout.split('\n')[:len(names)]
    out = [re.sub(r'\[[0-9a-f]{8,16}\]', '', o) for o in out]
    return out


def parse_fn(f, types):
    l = f.lines[0]
    p = P(tokenize(re.sub(r'\{$', '', l)), types)
    p.expect('define')
    p.attrs()
    f.ret = p.type()
    p.next()
    p.expect('(')
    while not p.eat(')'):
        t = p.type()
        at = {}
        while p.peek()[0] != 'lo' and p.peek()[1] not in (',', ')'):
            k, v = p.next()
            if p.peek()[1] == '(':
                s = p.i
                p.skip_parens()
                at[v] = p.t[s + 1:p.i - 1]
            elif v == 'align':
                at[v] = int(p.next()[1])
            else:
                at[v] = True
        n = None
        if p.peek()[0] == 'lo':
            n = p.next()[1][1:]
        f.params.append((t, n, at))
        p.eat(',')
    cur = None
    # unnamed params / first block numbering
    cnt = 0
    ps = []
    for t, n, at in f.params:
        if n is None:
            n = str(cnt)
            cnt += 1
        elif n.isdigit():
            cnt = int(n) + 1
        ps.append((t, n, at))
    f.params = ps
    body = f.lines[1:]
    i = 0
    while i < len(body):
        s = body[i].split(' ; ')[0].rstrip() if ' ; ' in body[i] and '"' not in body[i] else body[i].rstrip()
        i += 1
        if not s.strip() or s.lstrip().startswith(';'):
            continue
        if not s.startswith(' '):
            m = re.match(r'^("[^"]+"|[\w.$-]+):', s)
            cur = m.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = str(cnt)
            f.blocks[cur] = []
            f.order.append(cur)
        if s.strip().startswith('switch') and s.rstrip().endswith('['):
            while not s.rstrip().endswith(']'):
                s += ' ' + body[i].strip()
                i += 1
            # keep possible metadata
        try:
            f.blocks[cur].append(parse_inst(s, types))
        except ParseError as e:
            m = re.match(r'\s*%([\w.]+) = ', s)
            f.blocks[cur].append(Inst('unsupported', m.group(1) if m else None, None, str(e), set(), s))
    f.entry = f.order[0]


def parse_inst(s, types):
    toks = tokenize(s)
    p = P(toks, types)
    dst = None
    if p.peek()[0] == 'lo' and p.peek(1)[1] == '=':
        dst = p.next()[1][1:]
        p.next()
    k, op = p.next()
    fl = set()
    while op in ('tail', 'musttail', 'notail'):
        k, op = p.next()

    def flags():
        while p.peek()[0] == 'id' and p.peek()[1] in FLAGS:
            fl.add(p.next()[1])

    if op in BIN:
        flags()
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        b = p.operand(t)
        return Inst('bin', dst, t, (op, a, b), fl, s)
    if op == 'icmp':
        flags()
        pr = p.next()[1]
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        b = p.operand(t)
        return Inst('icmp', dst, t, (pr, a, b), fl, s)
    if op in CASTS:
        flags()
        t = p.type()
        a = p.operand(t)
        p.expect('to')
        t2 = p.type()
        return Inst('cast', dst, t2, (op, t, a), fl, s)
    if op == 'select':
        flags()
        ct = p.type()
        c = p.operand(ct)
        p.expect(',')
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        t2 = p.type()
        b = p.operand(t2)
        return Inst('select', dst, t, (ct, c, a, b), fl, s)
    if op == 'phi':
        flags()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.operand(t)
            p.expect(',')
            l = p.next()[1][1:]
            p.expect(']')
            inc[l] = v
            if not p.eat(','):
                break
            if p.peek()[1] != '[':
                break
        return Inst('phi', dst, t, inc, fl, s)
    if op == 'br':
        if p.eat('label'):
            return Inst('br', None, None, (p.next()[1][1:],), fl, s)
        t = p.type()
        c = p.operand(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:]
        return Inst('condbr', None, None, (c, a, b), fl, s)
    if op == 'switch':
        t = p.type()
        c = p.operand(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type()
            v = p.operand(t2)
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()[1][1:]))
        return Inst('switch', None, t, (c, d, cases), fl, s)
    if op == 'ret':
        t = p.type()
        if t == 'void':
            return Inst('ret', None, t, None, fl, s)
        return Inst('ret', None, t, p.operand(t), fl, s)
    if op == 'unreachable':
        return Inst('unreachable', None, None, None, fl, s)
    if op == 'alloca':
        flags()
        t = p.type()
        n = 1
        if p.peek()[1] == ',' and p.peek(1)[1] != 'align' and p.peek(1)[0] != 'md':
            p.next()
            nt = p.type()
            o = p.operand(nt)
            if o[0] != 'int':
                raise ParseError('dynamic alloca')
            n = o[1]
        al = 1
        m = re.search(r'align (\d+)', s)
        if m:
            al = int(m.group(1))
        return Inst('alloca', dst, t, (n, al), fl, s)
    if op == 'load':
        flags()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.operand(pt)
        return Inst('load', dst, t, (a,), fl, s)
    if op == 'store':
        flags()
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        pt = p.type()
        a = p.operand(pt)
        return Inst('store', None, t, (v, a), fl, s)
    if op == 'getelementptr':
        flags()
        t = p.type()
        p.expect(',')
        pt = p.type()
        b = p.operand(pt)
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'md':
                break
            it = p.type()
            idx.append((it, p.operand(it)))
        return Inst('gep', dst, t, (b, idx), fl, s)
    if op == 'extractvalue':
        t = p.type()
        v = p.operand(t)
        ix = []
        while p.eat(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        return Inst('extractvalue', dst, t, (v, ix), fl, s)
    if op == 'insertvalue':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        t2 = p.type()
        u = p.operand(t2)
        ix = []
        while p.eat(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        return Inst('insertvalue', dst, t, (v, t2, u, ix), fl, s)
    if op == 'extractelement':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        it = p.type()
        i = p.operand(it)
        return Inst('extractelement', dst, t, (v, i), fl, s)
    if op == 'insertelement':
        t = p.type()
        v = p.operand(t)
        p.expect(',')
        et = p.type()
        e = p.operand(et)
        p.expect(',')
        it = p.type()
        i = p.operand(it)
        return Inst('insertelement', dst, t, (v, e, i), fl, s)
    if op == 'shufflevector':
        t = p.type()
        a = p.operand(t)
        p.expect(',')
        t2 = p.type()
        b = p.operand(t2)
        p.expect(',')
        mt = p.type()
        m = p.operand(mt)
        return Inst('shufflevector', dst, t, (a, b, mt, m), fl, s)
    if op == 'freeze':
        t = p.type()
        return Inst('freeze', dst, t, (p.operand(t),), fl, s)
    if op == 'fence':
        return Inst('fence', dst, None, (), fl, s)
    if op == 'call':
        flags()
        while p.peek()[0] == 'id' and p.peek()[1] in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        p.attrs()
        t = p.type()
        if p.peek()[1] == '(':  # full function type (varargs)
            p.skip_parens()
        k, v = p.next()
        if k == 'gl':
            callee = ('g', v[1:])
        elif k == 'lo':
            callee = ('l', v[1:])
        elif v == 'asm':
            return Inst('asm', dst, t, None, fl, s)
        else:
            raise ParseError('callee %r' % v)
        p.expect('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            if at == 'metadata':
                while p.peek()[1] not in (',', ')'):
                    p.next()
                args.append((at, ('undef',), {}))
                p.eat(',')
                continue
            attrs = {}
            while True:
                k, v = p.peek()
                if k == 'id' and v not in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
                                           'inttoptr', 'ptrtoint', 'bitcast', 'splat', 'add', 'sub', 'trunc'):
                    p.next()
                    if p.peek()[1] == '(':
                        st = p.i
                        p.skip_parens()
                        attrs[v] = p.t[st + 1:p.i - 1]
                    elif v == 'align':
                        p.next()
                    else:
                        attrs[v] = True
                else:
                    break
            args.append((at, p.operand(at), attrs))
            p.eat(',')
        return Inst('call', dst, t, (callee, args), fl, s)
    return Inst('unsupported', dst, None, op, fl, s)
