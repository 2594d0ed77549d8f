#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]: discharge the contracts a property depends on, generated from /repo's current source.

exit 0: every obligation discharged (or, where a function is out of the verifier's reach, the bounded stand-in found nothing;
        the evidence says so); exit 1 + VIOLATION line: an obligation failed."""
import json
import os
import re
import subprocess
import sys
import threading
import time
T0 = time.time()
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'llvc'))
import build          # noqa: E402
import jobs           # noqa: E402
import props          # noqa: E402
import native         # noqa: E402


def log(*a):
    print(*a, flush=True)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 700 if tier == 'quick' else 3000
    P = props.PROPS[prop]
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    js = P.jobs(tier)
    cfgs = sorted({j.cfg for j in js})
    log('%s (%s): building %s from /repo' % (prop, tier, ', '.join(cfgs)))
    berr = {}
    pids = []
    for c in cfgs:
        p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'llvc', 'build.py'), c], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        pids.append((c, p))
    for c, p in pids:
        o, e = p.communicate()
        if p.returncode:
            berr[c] = e[-2500:]
    results = []
    for j in [j for j in js if j.cfg in berr]:
        results.append(jobs.failed(j, 'unsupported: the harness does not build in configuration %s: %s' % (j.cfg, berr[j.cfg][-600:])))
    js = [j for j in js if j.cfg not in berr]
    for c, e in berr.items():
        log('configuration %s does not build: %s' % (c, e[-800:]))
    roles = {j.id: j.role for j in P.jobs(tier)}
    log('%d jobs; build took %.0f s' % (len(js), time.time() - T0))
    naux = len([j for j in js if j.role == 'aux'])
    S = Searcher(prop, P, tier, seed, roles, naux)
    if berr:
        S.on_result(None, results)
    results += jobs.run_jobs(js, T0 + budget - 110, log=log if os.environ.get('VERBOSE') else None, on_result=S.on_result, stop=S.hit)
    code = verdict(prop, P, tier, seed, results, roles, S)
    sys.exit(code)


def bad_obs(P, results, roles):
    out = []
    for r in results:
        if roles.get(r['id']) == 'main':
            for o in r['obs']:
                if o['status'] != 'proved' and P.relevant(o):
                    o['job'] = r['id']
                    out.append(o)
    return out


class Searcher:
    """as soon as an obligation is not discharged, look for a failing input on the real code next to the remaining proof work"""

    def __init__(self, prop, P, tier, seed, roles, naux):
        self.prop, self.P, self.tier, self.seed, self.roles, self.naux = prop, P, tier, seed, roles, naux
        self.thread = None
        self.found = None
        self.evals, self.distinct, self.builds = 0, 0, []

    def aux_ok(self, results):
        ax = [r for r in results if self.roles.get(r['id']) == 'aux']
        return len(ax) == self.naux and all(not r['error'] and all(o['status'] == 'proved' for o in r['obs']) for r in ax)

    def on_result(self, res, results):
        if self.thread or self.found:
            return
        new = results if res is None else [res]
        if bad_obs(self.P, new, self.roles) or any(r['error'] for r in new if self.roles.get(r['id']) == 'main'):
            obs = bad_obs(self.P, results, self.roles)
            self.thread = threading.Thread(target=self.run, args=(list(obs), self.aux_ok(results), 45), daemon=True)
            self.thread.start()

    def run(self, obs, aux_ok, seconds):
        try:
            f = native.search(self.prop, self.P, self.seed, obs, aux_ok, seconds)
        except Exception as e:
            log('native search failed: %r' % e)
            return
        self.evals += f['evals']
        self.distinct += f['distinct']
        self.builds = f['builds']
        if f['case'] and not self.found:
            self.found = f

    def hit(self):
        return self.found is not None

    def final(self, obs, results, seconds):
        if self.thread:
            self.thread.join()
        if not self.found:
            self.seed += 1000
            self.run(obs, self.aux_ok(results), seconds)
        return self.found or {'case': None}


def verdict(prop, P, tier, seed, results, roles, S):
    main_res = [r for r in results if roles.get(r['id']) == 'main']
    total = proved = 0
    failed, undecided, errors = [], [], []
    for r in main_res:
        if r['error']:
            errors.append(r)
        if r.get('same_as'):
            continue            # counted (and reported, if it failed) under the configuration it shares its text with
        rel = [o for o in r['obs'] if P.relevant(o)]
        total += len(rel)
        bad = [o for o in rel if o['status'] != 'proved']
        proved += len(rel) - len(bad)
        for o in bad:
            o['job'] = r['id']
            (failed if o['status'] == 'refuted' else undecided).append(o)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof'}
    cov = {
        'obligations': total, 'discharged': proved,
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': props.TRUSTED,
        'backend': 'z3 %s (QF_UFBV) + structural sweeping of bit-vector terms in llvc/terms.py, llvc/sweep.py' % z3_version(),
        'solver_queries': sum(r['smt'].get('queries', 0) for r in results),
        'solver_seconds': round(sum(r['smt'].get('time', 0) for r in results), 1),
        'cpu_seconds': round(sum(r['time'] for r in results), 1),
        'jobs': len(results),
        'units_with_text_identical_to_a_proved_one_in_another_configuration': len([r for r in results if r.get('same_as')]),
        'configurations': {c: 'features %s, overflow checks and debug assertions %s' % (build.CONFIGS[c][0], 'on' if build.CONFIGS[c][1] else 'off') for c in sorted({r['cfg'] for r in results})},
        'functions_under_contract': sorted({f for r in main_res for f in r['functions']}),
        'callees_replaced_by_contract': sorted({f for r in main_res for f in r['contracts']}),
        'assumptions_unchecked': sorted({a for r in main_res for a in r['assumptions']} | set(P.assumptions)),
        'loop_invariants': [l for r in main_res[:400] for l in r['loops']][:12],
        'obligation_kinds': kinds(main_res, P),
        'failed_obligations': [slim(o) for o in failed[:20]],
        'undecided_obligations': [slim(o) for o in undecided[:20]],
        'out_of_reach': [{'unit': r['id'], 'why': r['error'][:400]} for r in errors][:40],
    }
    ev['coverage'] = cov
    code = 0
    if failed or undecided or errors:
        log('%d of %d obligations not discharged, %d units out of reach' % (total - proved, total, len(errors)))
        for o in (failed + undecided)[:8]:
            log('  %s [%s] %s %s @ %s' % (o['status'], o['job'], o['kind'], o['note'], o['where'][:120]))
        for r in errors[:8]:
            log('  %s: %s' % (r['id'], r['error'][:300]))
        left = 800 - (time.time() - T0) if tier == 'quick' else 600
        f = S.final(failed + undecided, results, max(20, min(left - 40, 45 if tier == 'quick' else 400)))
        cov['bounded_stand_in'] = {'label': 'bounded', 'what': 'native execution of the real code against independent reference implementations', 'evaluations': S.evals, 'distinct': S.distinct, 'builds': S.builds}
        hard = [o for o in failed if P.hard(o, results)]
        if f['case'] or hard:
            path = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % prop)
            rep = {'property': prop, 'failed_obligations': [slim(o) for o in (failed + undecided)[:10]], 'units_out_of_reach': [r['id'] + ': ' + r['error'][:200] for r in errors][:10]}
            if f['case']:
                rep.update({'failing_case': f['case'], 'why': f['why'], 'build': f['build'], 'rerun': f['rerun']})
                log('failing input on the real code (%s): %s -- %s' % (f['build'], f['case'][:300], f['why'][:400]))
            else:
                rep['verifier_output'] = [{'obligation': slim(o), 'goal': o.get('goal'), 'counterexample': o.get('hint')} for o in hard[:5]]
            json.dump(rep, open(path, 'w'), indent=1, default=str)
            log('VIOLATION property=%s replay=%s%s' % (prop, path, '' if f['case'] else ' no-failing-input-found'))
            code = 1
        else:
            cov['undecided'] = True
            ev['level'] = 'other'
            cov['explanation'] = 'not every obligation could be decided on this tree; a bounded native comparison found no violation'
            log('undecided obligations, bounded stand-in found no violation')
    else:
        log('%s: all %d obligations discharged (%d jobs, %.0f s)' % (prop, total, len(results), time.time() - T0))
    ev['wall_s'] = round(time.time() - T0, 1)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    return code


def slim(o):
    return {k: o.get(k) for k in ('job', 'kind', 'note', 'where', 'status')}


def kinds(res, P):
    d = {}
    for r in res:
        for o in r['obs']:
            if P.relevant(o):
                d[o['kind']] = d.get(o['kind'], 0) + 1
    return d


def z3_version():
    import z3
    return z3.get_version_string()


def fallback(why):
    """the verifier itself broke down: no proof; the bounded stand-in decides, and the evidence says so"""
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    log('the verifier broke down: ' + why[-1500:])
    f = {'case': None, 'evals': 0, 'distinct': 0, 'builds': []}
    try:
        f = native.search(prop, props.PROPS[prop], seed, [], False, 45)
    except Exception as e:
        log('native search failed: %r' % e)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - T0, 1),
          'coverage': {'explanation': 'the verifier broke down on this tree, nothing is proved: ' + why[-600:],
                       'bounded_stand_in': {'label': 'bounded', 'evaluations': f['evals'], 'distinct': f['distinct'], 'builds': f['builds']}}}
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if f['case']:
        path = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % prop)
        json.dump({'property': prop, 'failing_case': f['case'], 'why': f['why'], 'build': f['build'], 'rerun': f['rerun']}, open(path, 'w'), indent=1)
        log('failing input on the real code (%s): %s -- %s' % (f['build'], f['case'][:300], f['why'][:400]))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        sys.exit(fallback(traceback.format_exc()))
