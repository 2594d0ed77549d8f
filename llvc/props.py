"""Which contracts decide which property."""
import build
import jobs
from jobs import Job, l1_jobs, sip_jobs, const_jobs, l2_jobs, val_jobs, HMACS, klass, MD

TRUSTED = [
    'rustc 1.99.1: the LLVM IR it emits (no MIR inlining) is the code that runs; LLVM passes always-inline, inline, sroa, early-cse, instcombine, simplifycfg',
    'llvc/ (this verification-condition generator: ir.py, sx.py, loops.py, terms.py rewrite rules, sweep.py) and z3',
    'llvc/specs.py: the mathematical specifications (self-tested against hashlib and published vectors)',
    'harness/src: entry points calling the public API',
    'x86-64 memory model of sx.py: distinct allocations do not overlap; usize is 64 bits',
]


class Prop:
    def __init__(self, mk, relevant=None, assumptions=(), builds=('dev-std', 'dev-small', 'release-core'), hint=None, thorough_cfgs='ABCDE', cfgs='AB'):
        self.mk, self._rel, self.assumptions, self.native_builds, self._hint = mk, relevant, assumptions, builds, hint
        self.cfgs, self.thorough_cfgs = cfgs, thorough_cfgs

    def jobs(self, tier):
        out = []
        for c in (self.cfgs if tier == 'quick' else self.thorough_cfgs):
            out += self.mk(c)
        return out

    def relevant(self, o):
        return self._rel(o) if self._rel else True

    extra = None    # additional replay on the compiled code: f(seed, seconds, values) -> ((case, why, rerun) or None, evaluations)

    hard = staticmethod(lambda o, results: jobs.hard(o, results))

    def hint(self, unit, m, v):
        return self._hint(unit, m, v) if self._hint else None


LEN61 = 'messages are shorter than 2^61 bytes (precondition; beyond that 8*length does not fit 64 bits)'


ONESHOT = ['tr_hash', 'h_hash', 'h_from_engine', 'chunks']
INST = 'hash_byte_chunks is verified at the instance I = &[&[u8]] (generic code is verified per instance)'


def inh(c, a, **kw):
    return l1_jobs(c, a, ['from_midstate_inh'], **kw) if a == 'sha256' else []


def digest_prop(algs):
    def mk(c):
        out = []
        for a in algs:
            out += l1_jobs(c, a, ['input', 'finalize', 'new', 'default', 'h_engine'])
            out += l2_jobs(c, a, ONESHOT)
            out += l1_jobs(c, a, ['from_midstate'], role='aux')
        return out

    def hint(unit, m, v):
        if unit in algs:
            return 'dig|%s|split|%d|x%s' % (unit, min(len(m), v.get('r', 0)), m.hex())
    return Prop(mk, assumptions=[LEN61, INST], hint=hint, cfgs='ABCDE')


def noalg(o):
    return klass(o) != 'alg'


def c05(c):
    return sip_jobs(c) + l2_jobs(c, 'siphash24', ONESHOT + ['sip_helpers'])


def c06(c):
    out = []
    for a in MD:
        out += l1_jobs(c, a, ['input', 'finalize', 'new', 'default'])
    out += l1_jobs(c, 'sha256', ['from_midstate']) + inh(c, 'sha256')
    for h in HMACS:
        out += l2_jobs(c, h, ['with_key', 'new', 'default', 'h_engine', 'input', 'finalize', 'h_from_engine', 'tr_hash', 'chunks'])
    return out


def c07(c):
    out = []
    for a in MD:
        out += l1_jobs(c, a, ['input', 'n_bytes', 'clone', 'new', 'default'], content=False)
        out += l2_jobs(c, a, ['chunks', 'tr_hash'])
    out += sip_jobs(c, ['sip_new', 'n_bytes', 'clone']) + l2_jobs(c, 'siphash24', ['chunks', 'tr_hash'])
    for h in HMACS + ['sha256t']:
        out += l2_jobs(c, h, ['input', 'n_bytes', 'clone', 'chunks', 'tr_hash'])
    return out


def c08(c):
    out = []
    for a in MD:
        out += l1_jobs(c, a, ['midstate', 'from_midstate', 'input', 'finalize', 'n_bytes'], content=False) + inh(c, a, content=False)
    out += sip_jobs(c)
    for h in HMACS + ['sha256t']:
        out += l2_jobs(c, h, ['midstate', 'from_midstate', 'resume', 'input', 'finalize', 'n_bytes'])
    return out


def c10(c):
    return (l1_jobs(c, 'sha256', ['input', 'finalize', 'from_midstate', 'midstate', 'n_bytes', 'clone']) + inh(c, 'sha256') +
            l2_jobs(c, 'sha256t', ['new', 'default', 'h_engine', 'input', 'finalize', 'h_from_engine', 'h_hash', 'tr_hash', 'chunks', 'midstate', 'from_midstate', 'resume', 'n_bytes', 'clone']))


def ERR(c):
    return [Job(c, 'FromSliceError value.err', jobs.run_vals, (c, 'sha1', ['err']), 1)]


def BIO(c):
    return ['bio'] if jobs.has_io(c) else []


def c15(c):
    out = []
    for e in ['sha1', 'sha256', 'sha512', 'ripemd160', 'siphash24', 'sha256t'] + HMACS:
        out += l2_jobs(c, e, BIO(c) + (['std'] if jobs.has_std(c) else []))
    return out


def c13(c):
    return val_jobs(c, ['fmt', 'parse'], split=True) + val_jobs(c, ['from_hex'], ['midstate'])


DE = ['ser', 'de_str', 'de_bstr', 'de_human_bytes', 'de_human_bbytes', 'de_bytes', 'de_bbytes']


def c14(c):
    return val_jobs(c, DE, split=True)


def c11_extra(seed, seconds, vals):
    import ctime
    r, n = ctime.search('FG', seed, seconds, vals)
    return (r + ('cd /verif && python3-vt llvc/ctime.py trace ' + r[0],) if r else None), n


ALLV = ['bytes', 'from_slice', 'index', 'compare', 'stdhash', 'zero', 'fmt', 'parse']
ENG2 = ['new', 'default', 'h_engine', 'input', 'finalize', 'h_from_engine', 'n_bytes', 'clone', 'midstate', 'from_midstate', 'resume', 'tr_hash', 'chunks']


def c17(c):
    """memory safety and absence of panics: the safety obligations of every unit"""
    if c in 'FG':
        return jobs.ctime_jobs(c)
    out = []
    for a in MD:
        out += l1_jobs(c, a, ['input', 'finalize', 'new', 'default', 'h_engine', 'midstate', 'from_midstate', 'n_bytes', 'clone'], content=False) + inh(c, a, content=False)
        out += l2_jobs(c, a, ONESHOT + ([] if a in ('sha384', 'sha512_256') else BIO(c)))
    if c not in 'BC':    # no small-hash code there: would repeat A with fewer checks
        out += sip_jobs(c) + l2_jobs(c, 'siphash24', ONESHOT + ['sip_helpers'] + BIO(c)) + const_jobs(c)
    for h in HMACS + ['sha256t']:
        out += l2_jobs(c, h, ENG2 + (['with_key'] if h != 'sha256t' else ['h_hash']) + BIO(c))
    out += val_jobs(c, ALLV + (DE if 'serde' in build.CONFIGS[c][0] else []))
    out += val_jobs(c, ['from_hex'], ['midstate']) + ERR(c)
    return out


def c18(c):
    out = []
    for a in MD:
        out += l1_jobs(c, a, ['input', 'finalize', 'new', 'default', 'from_midstate']) + l2_jobs(c, a, ONESHOT)
    out += inh(c, 'sha256')
    out += c05(c) + const_jobs(c)
    for h in HMACS:
        out += l2_jobs(c, h, ['with_key', 'new', 'default', 'input', 'finalize', 'tr_hash'])
    return out + l2_jobs(c, 'sha256t', ['new', 'default', 'input', 'finalize', 'tr_hash'])


def safety_hard(o, results):
    """C17: a refuted safety obligation counts unless an inferred loop invariant of the same unit failed as well"""
    r = [r for r in results if r['id'] == o['job']]
    return bool(r) and not r[0]['error'] and klass(o) == 'safety' and (bool(o.get('free')) or not any(klass(x) != 'safety' and x['status'] != 'proved' for x in r[0]['obs']))


def config_hard(o, results):
    """C18: refuted in one configuration, the same unit fully proved in another"""
    c, unit = o['job'].split(':', 1)
    same = [r for r in results if r['unit'] == unit and r['cfg'] != c]
    return jobs.hard(o, results) and any(not r['error'] and r['obs'] and all(x['status'] == 'proved' for x in r['obs']) for r in same)


PROPS = {
    'C01': digest_prop(['sha1']),
    'C02': digest_prop(['sha256']),
    'C03': digest_prop(['sha512', 'sha384', 'sha512_256']),
    'C04': digest_prop(['ripemd160']),
    'C05': Prop(c05, assumptions=[INST], builds=('dev-std', 'release-core')),
    'C06': Prop(c06, assumptions=[LEN61, INST]),
    'C07': Prop(c07, noalg, [LEN61, INST]),
    'C08': Prop(c08, noalg, [LEN61]),
    'C09': Prop(const_jobs, assumptions=[LEN61], builds=('dev-std', 'release-core')),
    'C10': Prop(c10, assumptions=[LEN61, INST]),
    'C11': Prop(jobs.ctime_jobs, cfgs='FG', thorough_cfgs='FG', builds=('dev-std', 'release-core')),
    'C12': Prop(lambda c: val_jobs(c, ['bytes', 'from_slice', 'index']) + ERR(c)),
    'C13': Prop(c13),
    'C14': Prop(c14, cfgs='A', thorough_cfgs='AE'),
    'C15': Prop(c15, assumptions=[LEN61]),
    'C16': Prop(lambda c: val_jobs(c, ['compare', 'stdhash', 'zero'])),
    'C17': Prop(c17, lambda o: klass(o) in ('safety', 'loop', 'vacuity'), [LEN61, INST], builds=('dev-std', 'release-core', 'dev-small'), cfgs='ABDEF', thorough_cfgs='ABCDEFG'),
    'C18': Prop(c18, assumptions=[LEN61, INST], builds=('dev-std', 'dev-small', 'release-small-std', 'release-core'), cfgs='ABCDE'),
}
PROPS['C17'].hard = safety_hard
PROPS['C18'].hard = config_hard
PROPS['C11'].extra = c11_extra
