"""Replay on the real code: build /verif/replay against /repo and search for a failing case."""
import os
import re
import subprocess
import build

ROOT = build.ROOT
DIR = os.path.join(ROOT, 'replay')
# name: (features, release?)
BUILDS = {
    'dev-std': (['std', 'serde'], False),
    'dev-small': (['small-hash', 'serde'], False),
    'release-small-std': (['std', 'small-hash', 'serde'], True),
    'release-core': (['serde'], True),
}


def build_replay(name):
    feats, rel = BUILDS[name]
    env = dict(build.ENV)
    env['CARGO_TARGET_DIR'] = os.path.join(build.BUILD, 'replay-' + name)
    cmd = ['cargo', 'build', '--offline', '--no-default-features', '--features', ','.join(feats)] + (['--release'] if rel else [])
    r = subprocess.run(cmd, cwd=DIR, env=env, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-2000:]
    return os.path.join(env['CARGO_TARGET_DIR'], 'release' if rel else 'debug', 'replay'), None


def dictionary():
    vals = set()
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            if f.endswith('.rs'):
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32)?\b', open(os.path.join(d, f), errors='replace').read()):
                    try:
                        v = int(m.group(1).replace('_', ''), 0)
                    except ValueError:
                        continue
                    if 2 < v < 1 << 64:
                        vals.add(v)
    return vals


def hint_cases(P, obs):
    """concrete cases from solver counterexamples"""
    vals, cases = set(), []
    for o in obs:
        h = o.get('hint')
        if not h:
            continue
        for v in h['vars'].values():
            if 0 < v < 1 << 64:
                vals.add(v)
        unit = o['job'].split(':', 1)[1].split('.')[0]
        idx = {int(k): v for k, v in h['bytes'].items()}
        small = {k: v for k, v in idx.items() if k < 5000}
        if small:
            n = max(small) + 1
            m = bytes(small.get(i, 0) for i in range(n))
            cases.append((unit, m, h['vars']))
    return vals, cases


def search(prop, P, seed, obs, aux_ok, seconds):
    out = {'case': None, 'why': None, 'evals': 0, 'distinct': 0, 'builds': [], 'build': None, 'rerun': None}
    names = P.native_builds
    d = os.path.join(build.BUILD, 'hints')
    os.makedirs(d, exist_ok=True)
    hv, hc = hint_cases(P, obs)
    dic = dictionary()
    p = os.path.join(d, 'dict-' + prop)
    open(p, 'w').write('\n'.join(str(x) for x in sorted(hv | set(sorted(dic)[:4000]))))
    ready = []
    for n in names:
        b, err = build_replay(n)
        if b is None:
            out['builds'].append('%s: does not build' % n)
            continue
        ready.append((n, b))
        out['builds'].append(n)
    if prop == 'C18':
        dumps(out, ready, seed)
        if out['case']:
            return out
    hf = os.path.join(d, 'cases-' + prop)
    open(hf, 'w').write('\n'.join(P.hint(u, m, v) for u, m, v in hc for _ in (0,) if P.hint(u, m, v)))
    procs = []
    for n, b in ready:
        cmd = [b, 'search', prop, str(seed), str(int(seconds * 1000)), p, hf] + ([] if aux_ok else ['nobig'])
        rc = os.path.join(d, 'current-%s-%s' % (prop, n))
        procs.append((n, b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, REPLAY_CASE=rc)), rc))
    if P.extra:
        r, k = P.extra(seed, seconds, hv | dic)
        out['evals'] += k
        if r:
            out.update(case=r[0], why=r[1], build='compiled IR, executed concretely', rerun=r[2])
    for n, b, pr, rc in procs:
        try:
            o, _ = pr.communicate(timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            pr.kill()
            continue
        m = re.search(r'^EVALS (\d+) (\d+)', o, re.M)
        if m:
            out['evals'] += int(m.group(1))
            out['distinct'] += int(m.group(2))
        if prop == 'C18':
            across(out, ready, n, re.findall(r'^CASE (.*)$', o, re.M))
            continue
        c, w = re.search(r'^CASE (.*)$', o, re.M), re.search(r'^WHY (.*)$', o, re.M)
        if c and not out['case']:
            out.update(case=c.group(1), why=w.group(1) if w else '', build=n, rerun=rerun(n, prop, c.group(1)))
        elif pr.returncode in (-4, -6, -7, -8, -11) and not out['case']:
            try:
                c = open(rc, errors='replace').readline().strip()
            except OSError:
                c = ''
            out.update(case=c or 'search %s %d' % (prop, seed), why='the process died with signal %d (memory outside the arguments is touched)' % -pr.returncode, build=n, rerun=rerun(n, prop, c))
    return out


def across(out, ready, name, cases):
    """C18: the same case in every build; a difference between builds is a violation"""
    for c in cases:
        if out['case']:
            return
        got = []
        for n, b in ready:
            r = subprocess.run([b, 'one_', 'C18', c], capture_output=True, text=True, timeout=120)
            got.append((n, r.stdout.strip() or 'died %d' % r.returncode))
        if len({g for _, g in got}) > 1:
            out.update(case=c, why='; '.join('%s: %s' % (n, g[:150]) for n, g in got), build=name, rerun=' and '.join(rerun(n, 'C18', c) for n, _ in got[:2]))


def rerun(n, prop, case):
    return "cd /verif/replay && cargo run --offline %s--no-default-features --features %s -- one %s '%s'" % ('--release ' if BUILDS[n][1] else '', ','.join(BUILDS[n][0]), prop, case)


def dumps(out, ready, seed):
    ref = None
    for n, b in ready:
        r = subprocess.run([b, 'dump', str(seed)], capture_output=True, text=True)
        lines = r.stdout.splitlines()
        out['evals'] += len(lines)
        if ref is None:
            ref = (n, lines)
            out['distinct'] = len(set(lines))
            continue
        for x, y in zip(ref[1], lines):
            if x != y and not out['case']:
                out.update(case=x.rsplit(' ', 1)[0], why='%s gives %s, %s gives %s' % (ref[0], x[-200:], n, y[-200:]), build='%s vs %s' % (ref[0], n), rerun='replay dump %d in both builds' % seed)
        if len(lines) != len(ref[1]) and not out['case']:
            out.update(case='dump', why='different number of results', build='%s vs %s' % (ref[0], n), rerun='replay dump %d' % seed)
    return out
