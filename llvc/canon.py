"""Is the text a job read in one configuration the same in another configuration?

A job reads a set of functions (those it parsed), the globals they mention and nothing else of the module. The signature is a
hash of that text after renaming symbols, locals and labels consistently (symbol hashes differ between configurations because
cargo puts the features into them) and disregarding the order of side-effect-free instructions within a basic block (an
instruction of that kind is identified by its operation and its operands; rustc orders them differently from module to
module). Equal signature: the verification conditions are the same formulas, so the result carries over."""
import hashlib
import re
import l2

SYM = re.compile(r'@("[^"]+"|[\w.$-]+)')
LOC = re.compile(r'%("[^"]+"|[\w.$-]+)')
LAB = re.compile(r'^("[^"]+"|[\w.$-]+):')
CMT = re.compile(r'[ \t]+;[^"\n]*$', re.M)
META = re.compile(r'metadata !\d+| personality ptr @\w+|(, )?![\w.]+ !\d+| #\d+|, !(noundef|nonnull) !\{\}')
DEF = re.compile(r'^\s+%("[^"]+"|[\w.$-]+) = (.*)$')
PURE = re.compile(r'^(add|sub|mul|and|or|xor|shl|lshr|ashr|icmp|zext|sext|trunc|getelementptr|select|ptrtoint|inttoptr|freeze|extractvalue|insertvalue)\b'
                  r'|^(tail )?call [\w() ]*@llvm\.(fshl|fshr|bswap|umin|umax|ctpop|smin|smax)\.')


def digest(s):
    return hashlib.sha256(s.encode()).hexdigest()[:24]


def normal(types, text):
    """(text with canonical local names, symbols left as they are; named types mentioned)"""
    lines = CMT.sub('', META.sub('', text)).split('\n')
    used = set()
    name = {}
    pure = {}

    def local(m):
        k = m.group(1).strip('"')
        if k in name:
            return '%' + name[k]
        if k in types:
            used.add(k)
            return m.group(0)
        if k in pure:
            name[k] = digest(sub(pure[k]))
            return '%' + name[k]
        name[k] = 'x%d' % len(name)       # a label of the header or an unknown name: by first mention
        return '%' + name[k]

    def sub(s):
        return LOC.sub(local, s)

    head = lines[0]
    for i, m in enumerate(LOC.finditer(head)):
        k = m.group(1).strip('"')
        if k not in types:
            name.setdefault(k, 'a%d' % i)
    nb = ne = 0
    kinds = []
    for l in lines[1:]:
        m = LAB.match(l)
        if m:
            nb += 1
            ne = 0
            name[m.group(1).strip('"')] = 'b%d' % nb
            kinds.append('label')
            continue
        m = DEF.match(l)
        if m:
            k, rhs = m.group(1).strip('"'), m.group(2)
            if PURE.match(rhs) and all(x.startswith('llvm.') for x in SYM.findall(rhs)):
                pure[k] = rhs
                kinds.append('pure')
                continue
            ne += 1
            name[k] = 'e%d.%d' % (nb, ne)
        kinds.append('effect')
    out = [sub(head)]
    block = []
    for l, kd in zip(lines[1:], kinds):
        if kd == 'label':
            out += sorted(block)
            block = []
            out.append('%' + name[LAB.match(l).group(1).strip('"')] + ':')
        elif kd == 'pure':
            block.append(sub('%' + DEF.match(l).group(1)))
        else:
            out.append(sub(l))
    out += sorted(block)
    for s in SYM.findall('\n'.join(out)):
        if s.strip('"') in types:
            used.add(s.strip('"'))
    return '\n'.join(out), used


def prepared(mod, n):
    """pieces of text between symbols, the symbols, the types"""
    cache = mod.__dict__.setdefault('_canon', {})
    if n not in cache:
        if n in mod.fns:
            f = mod.fns[n]
            t, used = normal(mod.types.named, '\n'.join(f.lines) if f.lines is not None else f.text)
            head = SYM.sub('@', t.split('\n')[0])
        else:
            t = META.sub('', mod.decls[n] if n in mod.decls else mod._gl_lines[n])
            used = {k.strip('"') for k in LOC.findall(t)} & set(mod.types.named)
            head = None
        ps = SYM.split(t)
        cache[n] = ('\0'.join(ps[0::2]), [x.strip('"') for x in ps[1::2]], frozenset(used), head)
    return cache[n]


def signature(mod, roots, read, probes):
    """roots: entry points; read: demangled names of the functions whose bodies were read (None: all reachable); probes: names whose existence was asked"""
    if any(r not in mod.fns for r in roots):
        return None
    num = {r: i for i, r in enumerate(roots)}
    out = []
    todo = list(roots)
    reached = set()
    types = set()

    def refs(ss):
        for n in ss:
            if n not in num:
                num[n] = len(num)
                todo.append(n)
        return ' '.join(str(num[n]) for n in ss)

    i = 0
    while i < len(todo):
        n = todo[i]
        i += 1
        dem = mod.dem.get(n, n)
        if n in mod.fns:
            t, ss, used, head = prepared(mod, n)
            types |= used
            out.append('fn %d %s %s' % (num[n], dem, l2.dup_ok(mod, dem)))
            if read is None or dem in read:
                reached.add(dem)
                out += [t, refs(ss)]
            else:
                out.append(head)        # only its signature can matter
        elif n in mod.decls:
            t, _, used, _ = prepared(mod, n)
            types |= used
            out += ['decl %d %s' % (num[n], dem), t]
        elif n in mod._gl_lines:
            t, ss, used, _ = prepared(mod, n)
            types |= used
            out += ['global %d' % num[n], t, refs(ss)]
        else:
            out.append('extern %s' % n)
    if read is not None and reached != set(read):
        return None
    out.append(repr(sorted((p, p in mod.fns) for p in probes)))
    new = types
    while new:
        nxt = set()
        for k in sorted(new):
            d = str(mod.types.named[k])
            out.append('type %s %s' % (k, d))
            nxt |= {x for x in mod.types.named if x in d}
        new = nxt - types
        types |= nxt
    return hashlib.sha256('\n'.join(out).encode()).hexdigest()


def reads(mod):
    """(entry points, demangled names) of the functions parsed so far in this process"""
    fs = [f for f in mod.fns.values() if f.lines is None]
    return sorted(f.name for f in fs if f.name.startswith('h_')), sorted({f.dem for f in fs}), sorted(getattr(mod, 'probes', ()))
