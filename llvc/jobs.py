"""Verification jobs: each discharges the contracts of one unit (function or case of an exhaustive split)."""
import os
import pickle
import select
import signal
import time
import traceback
import build
import canon
import ir

MD = ['sha1', 'sha256', 'sha512', 'sha384', 'sha512_256', 'ripemd160']
SAFETY = ('no panic', 'load in bounds', 'store in bounds', 'store to writable memory', 'memcpy', 'memset', 'unreachable code', 'shift amount', 'divisor', 'call ', 'volatile', 'alignment')

# fresh variables that stand for any value the environment may supply; all others (havoced locations, ghost counters, stale
# buffer bytes, undefined values) stand for values the code may never reach, so a refutation that mentions them is no violation yet
SOLID = ('detect!', 'bcmp!', 'memcmp', 'extern!', 'hv_in!')


def klass(o):
    """alg: content of the compression function / initial value; safety: panics and memory; spec: the rest"""
    k, n = o['kind'], o.get('note') or ''
    if 'in bounds' in k or k.startswith(SAFETY):
        return 'safety'
    if k.startswith('compression function') or 'initial value' in k or 'is the compression of block' in n or 'compression of block' in n:
        return 'alg'
    if k.startswith('loop'):
        return 'loop'
    if 'vacuity' in k:
        return 'vacuity'
    return 'spec'


class Job:
    def __init__(self, cfg, unit, fn, args=(), cost=5, role='main'):
        self.cfg, self.unit, self.fn, self.args, self.cost, self.role = cfg, unit, fn, args, cost, role

    @property
    def id(self):
        return '%s:%s' % (self.cfg, self.unit)


_mods = {}


def module(cfg):
    if cfg not in _mods:
        _mods[cfg] = ir.Module(open(os.path.join(build.BUILD, cfg, 'all.ll')).read())
    return _mods[cfg]


# ------------------------------------------------------------------ job bodies (run in a forked child)
def run_l1(cfg, alg, fn, content=True):
    import l1
    import engine
    p = l1.L1(module(cfg), alg, log=lambda *a: None)
    p.content = content
    p.discover()
    if fn == 'input':
        engine.profile_input(p)
        ex = engine.prove_input(p)
    elif fn == 'sip_finalize_u64':
        ex = p.prove_sip_finalize('from_engine_to_u64')
    elif fn == 'from_midstate_inh':
        ex = p.prove_from_midstate('from_midstate_inh')
    else:
        ex = getattr(p, 'prove_' + fn)()
    ex.obs = ex.obs + p.obs
    return ex


def run_sipin(cfg, cases):
    import l1
    import engine
    p = l1.L1(module(cfg), 'siphash24', log=lambda *a: None)
    p.discover()
    engine.profile_input(p)
    exs = [engine.prove_input(p, c) for c in cases]
    ex = l1.merge_exec(exs)
    ex.obs = ex.obs + p.obs
    return ex


def run_const(cfg, cases):
    import consth
    p = consth.ConstHash(module(cfg))
    p.profile()
    return p.prove_const_hash(cases)


def run_constw(cfg):
    import consth
    p = consth.ConstHash(module(cfg))
    p.profile()
    return p.prove_wrappers()


def run_l2(cfg, eng, fns):
    import l1
    import l2
    exs = []
    for f in fns:
        p = l2.Proofs(module(cfg), eng)
        p.anytag = eng == 'sha256t' and f != 'resume'
        exs.append(getattr(p, 'prove_' + f)())
    return l1.merge_exec(exs)


def run_ctime(cfg, fn):
    import ctime
    p = ctime.Proof(module(cfg))
    return getattr(p, 'prove_' + fn)()


def ctime_jobs(cfg):
    return [Job(cfg, 'fixed_time_eq.' + f, run_ctime, (cfg, f), 3) for f in ('equal_length', 'unequal_length')]


def run_vals(cfg, pre, fns):
    import l1
    import vals
    p = vals.V(module(cfg), pre)
    return l1.merge_exec([getattr(p, 'prove_' + f)() for f in fns])


def val_jobs(cfg, fns, pres=None, split=False):
    import vals
    out = []
    for p in pres or vals.PRE:
        big = vals.PRE[p] >= 48
        for g in ([[f] for f in fns] if split else [fns]):
            out.append(Job(cfg, '%s value.%s' % (p, '+'.join(g)), run_vals, (cfg, p, g), 8 if big else 3))
    return out


HMACS = ['hmac_' + x for x in ('sha1', 'sha256', 'sha384', 'sha512', 'sha512_256', 'ripemd160', 'sha256t')]


def l2_jobs(cfg, eng, fns):
    return [Job(cfg, '%s.%s' % (eng, f), run_l2, (cfg, eng, [f]), 2) for f in fns]


def has_std(cfg):
    return 'std' in build.CONFIGS[cfg][0]


def has_io(cfg):
    return 'io' in build.CONFIGS[cfg][0]


def l1_jobs(cfg, alg, fns, content=True, **kw):
    costs = {'input': {'sha1': 16, 'sha256': 30, 'sha512': 35, 'sha384': 35, 'sha512_256': 35, 'ripemd160': 14}.get(alg, 30), 'finalize': 10}
    return [Job(cfg, '%s.%s' % (alg, f), run_l1, (cfg, alg, f, content), costs.get(f, 1), **kw) for f in fns]


def sip_jobs(cfg, fns=('sip_new', 'sip_u64', 'sip_finalize', 'sip_finalize_u64', 'n_bytes', 'clone', 'midstate', 'from_midstate')):
    allc = [(r, n) for r in range(8) for n in range(8)]
    js = [Job(cfg, 'siphash24.input[%d]' % k, run_sipin, (cfg, allc[k::16]), 16) for k in range(16)]
    return js + l1_jobs(cfg, 'siphash24', list(fns))


def const_jobs(cfg):
    return [Job(cfg, 'const_hash[r=%d mod 8]' % k, run_const, (cfg, list(range(k, 64, 8))), 110) for k in range(8)] + [Job(cfg, 'hash_tag', run_constw, (cfg,), 12)]


# ------------------------------------------------------------------ execution
LATER = 'CDE'       # configurations whose text is mostly that of A or B: run after them, reusing results for identical text


def hint(o):
    """counterexample of a refuted obligation: variable values and stream bytes"""
    import smt
    import terms as tm
    from terms import T
    try:
        m = smt.model_of(list(o.pc) + [tm.bnot(o.goal)], 10000)
        if m is None:
            return None
        out = {'vars': {}, 'bytes': {}, 'data': {}}
        ts = list(o.pc) + [o.goal]
        for v in tm.variables(ts):
            x = smt.model_val(m, v)
            if x is not None and len(out['vars']) < 200:
                out['vars'][str(v.a)] = x
        for t in tm.topo(ts):
            if t.op == 'uf' and t.w == 8 and len([x for x in t.a[1:] if isinstance(x, T)]) == 1 and len(out['bytes']) < 2000:
                i = smt.model_val(m, [x for x in t.a[1:] if isinstance(x, T)][0])
                b = smt.model_val(m, t)
                if i is not None and b is not None:
                    out['bytes'][i] = b
        return out
    except Exception:
        return None


def child(job, w):
    import smt
    import sx
    import terms as tm
    t0 = time.time()
    res = {'id': job.id, 'cfg': job.cfg, 'unit': job.unit, 'obs': [], 'error': None, 'functions': [], 'assumptions': [], 'contracts': [], 'loops': []}
    try:
        ex = job.fn(*job.args)
        nh = 0
        for o in ex.obs:
            d = {'kind': o.kind, 'where': o.where, 'status': o.status, 'note': str(o.note)}
            if o.status == 'refuted' and o.pc is not None:
                d['free'] = not any('!' in str(v.a) and not str(v.a).startswith(SOLID) for v in tm.variables(list(o.pc) + [o.goal]))
            elif o.status == 'refuted':
                d['free'] = klass(d) == 'alg'      # refuted by evaluating code and specification on concrete values
            if o.status == 'refuted' and o.pc is not None and nh < 6:
                nh += 1
                d['hint'] = hint(o)
                d['goal'] = str(o.goal)[:600]
            res['obs'].append(d)
        res['functions'] = sorted(ex.functions)
        res['assumptions'] = sorted(ex.assumptions)
        res['contracts'] = sorted(ex.used_contracts)
        res['loops'] = ex.loop_log
        if not res['obs']:
            res['error'] = 'no obligations generated'
    except sx.Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except RecursionError:
        res['error'] = 'unsupported: recursion limit'
    except Exception:
        res['error'] = 'unsupported: ' + traceback.format_exc()[-1500:]
    res['reads'] = canon.reads(module(job.cfg))
    res['time'] = time.time() - t0
    res['smt'] = dict(smt.stats)
    with os.fdopen(w, 'wb') as f:
        f.write(pickle.dumps(res))


def run_jobs(jobs, deadline, ncpu=None, job_timeout=600, log=None, on_result=None, stop=None):
    ncpu = ncpu or min(8, os.cpu_count() or 8)
    for c in {j.cfg for j in jobs}:
        module(c)
    todo = sorted(jobs, key=lambda j: (j.role != 'aux', j.cfg in LATER, -j.cost))
    live = {}
    results = []
    done = {}

    def finish(j, res):
        results.append(res)
        if res.get('reads'):
            done.setdefault(j.unit, []).append(res)
        if on_result:
            on_result(res, results)
        if log:
            bad = [o for o in res['obs'] if o['status'] != 'proved']
            log('%-34s %6.1fs %5d obligations %s %s %s' % (res['id'], res['time'], len(res['obs']), ('%d FAILED' % len(bad)) if bad else '', res['error'] or '', res.get('same_as', '')))

    def pick():
        for j in todo:
            if j.cfg in LATER and any(x[0].unit == j.unit and may_share(j, x[0]) for x in live.values()):
                continue        # its text may be the same as that of a job still running
            todo.remove(j)
            return j
    try:
        while todo or live:
            now = time.time()
            if stop and stop():
                for j in todo + [x[0] for x in live.values()]:
                    results.append(failed(j, 'unsupported: not run to the end, a failing input was found'))
                break
            if now > deadline:
                for j in todo:
                    results.append(failed(j, 'unsupported: time budget used up'))
                todo = []
            while todo and len(live) < ncpu and time.time() < deadline:
                j = pick()
                if j is None:
                    break
                if j.cfg in LATER:
                    s = same(j, done.get(j.unit, ()))
                    if s:
                        finish(j, s)
                        continue
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        os.close(r)
                        signal.signal(signal.SIGTERM, signal.SIG_DFL)
                        import sys
                        sys.setrecursionlimit(20000)
                        child(j, w)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (j, pid, time.time(), [])
            rs, _, _ = select.select(list(live), [], [], 1.0) if live else ([], [], [])
            for r in rs:
                b = os.read(r, 1 << 20)
                j, pid, t0, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    res = pickle.loads(b''.join(buf))
                except Exception:
                    res = failed(j, 'unsupported: job died')
                finish(j, res)
            for r in list(live):
                j, pid, t0, buf = live[r]
                if time.time() > deadline or time.time() - t0 > (120 if ' value.' in j.id else job_timeout):
                    kill(pid)
                    os.close(r)
                    del live[r]
                    results.append(failed(j, 'unsupported: time limit'))
    finally:
        for r, (j, pid, t0, buf) in live.items():
            kill(pid)
    return results


_full = {}


def may_share(j, k):
    """(scheduling only) could the text of long job j be that of job k?"""
    if j.cost < 10:
        return k.cfg not in LATER
    root = 'h_' + j.unit.replace('.', '_').split('[')[0]
    if root not in module(j.cfg).fns:
        return k.cfg not in LATER
    for c in (j.cfg, k.cfg):
        if (c, root) not in _full:
            _full[c, root] = canon.signature(module(c), [root], None, ())
    return _full[j.cfg, root] == _full[k.cfg, root]


def same(j, others):
    """the result of the same unit in another configuration whose text is the same"""
    for r in others:
        sig = canon.signature(module(r['cfg']), *r['reads'])
        if sig and sig == canon.signature(module(j.cfg), *r['reads']):
            d = {k: v for k, v in r.items() if k != 'reads'}
            d.update(id=j.id, cfg=j.cfg, same_as=r['id'], time=0, smt={'queries': 0, 'time': 0}, obs=[dict(o) for o in r['obs']])
            return d
    return None


def kill(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
            break
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def failed(j, why):
    return {'id': j.id, 'cfg': j.cfg, 'unit': j.unit, 'obs': [], 'error': why, 'functions': [], 'assumptions': [], 'contracts': [], 'loops': [], 'time': 0, 'smt': {'queries': 0, 'time': 0}}


def hard(o, results):
    """a refutation that does not rest on an inferred loop invariant or on values the code may never reach"""
    r = [r for r in results if r['id'] == o['job']]
    return bool(r) and not r[0]['error'] and bool(o.get('free')) and klass(o) not in ('loop', 'vacuity')
