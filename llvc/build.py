"""Compile the harness + /repo to one normalised LLVM IR module."""
import os
import re
import subprocess
import shutil
import hashlib
import time
import ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_BOOTSTRAP='1', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)
ENV.setdefault('HOME', '/root')
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/bin:/bin')
ENV['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'

CONFIGS = {
    # name: (features, checks on?)
    'A': (['std', 'io', 'serde'], True),      # default build + io + serde, dev profile semantics
    'B': (['io', 'small-hash'], False),       # no_std + io + small-hash, release semantics
    'C': (['std'], False),                    # default, release semantics
    'D': ([], True),                          # no_std, no io
    'E': (['std', 'io', 'serde', 'small-hash'], True),
    # branches kept as compiled (no simplifycfg / instcombine), for the constant-time property
    'F': (['std'], True),
    'G': ([], False),
}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '--print', 'sysroot'], capture_output=True, text=True, env=ENV, check=True).stdout.strip()


def build(cfg, keep=False):
    feats, checks = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    onoff = 'on' if checks else 'off'
    env = dict(ENV)
    env['CARGO_TARGET_DIR'] = os.path.join(d, 't')
    env['RUSTFLAGS'] = ('--emit=llvm-bc,link -C no-prepopulate-passes -C codegen-units=1 -C panic=abort '
                        '-C overflow-checks=%s -C debug-assertions=%s -C opt-level=2 -Zmir-opt-level=1 '
                        '-Zinline-mir=no -Zub-checks=no -C symbol-mangling-version=v0 -Zunstable-options -Awarnings' % (onoff, onoff))
    cmd = ['cargo', 'build', '--offline', '--no-default-features']
    if feats:
        cmd += ['--features', ','.join(feats)]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=env, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-6000:])
    b = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    deps = os.path.join(d, 't/debug/deps')
    bcs = sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith('.bc'))
    bcs = [f for f in bcs if not os.path.basename(f).startswith(('proc_macro', 'serde_derive', 'syn', 'quote'))]
    run([b + '/llvm-link'] + bcs + ['-o', d + '/all.bc'])
    run([b + '/llvm-dis', d + '/all.bc', '-o', d + '/pre.ll'])
    mark(d + '/pre.ll', d + '/marked.ll')
    simp = 'sroa,instsimplify' if cfg in 'FG' else 'sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg'
    run([b + '/opt', '-S', '-passes=always-inline,function(%s),cgscc(inline,function(%s))' % (simp, simp),
         d + '/marked.ll', '-o', d + '/all.ll'])
    shutil.rmtree(d + '/t', ignore_errors=True)
    for f in ('all.bc', 'pre.ll', 'marked.ll'):
        os.remove(os.path.join(d, f))
    return d + '/all.ll'


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[-3000:])


NOINLINE = re.compile(r'as chf::HashEngine>::|<chf::[\w:<> ]* as core::(default::Default|clone::Clone)>|as core::fmt::\w+>::fmt|'
                      r'as chf::sha256t::Tag>::engine|^<chf::hmac::Engine<|^<chf::siphash24::Engine>::with_keys|^<chf::siphash24::Hash>::from_engine_to_u64|^<chf::sha256::Engine>::from_midstate')
BIG = 150


def mark(src, dst):
    text = open(src).read()
    lines = text.split('\n')
    ai = set()
    for l in lines:
        if l.startswith('attributes #'):
            if 'alwaysinline' in l:
                ai.add(l.split()[1])
    defs = []
    i = 0
    while i < len(lines):
        if lines[i].startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$-]+)\(', lines[i])
            j = i
            while lines[j] != '}':
                j += 1
            n = sum(1 for l in lines[i:j] if not re.search(r'lifetime|noalias.scope|= alloca ', l))
            defs.append((i, m.group(1).strip('"'), n))
            i = j
        i += 1
    dem = ir.demangle([n for _, n, _ in defs])
    for (i, n, sz), d in zip(defs, dem):
        l = lines[i]
        m = re.search(r'\)[^()]*? (#\d+)[^()]*\{$', l)
        if m and m.group(1) in ai:
            continue
        if (NOINLINE.search(d) and 'harness' not in d.split('>::')[0][:0]) or ('chf::' in d and sz > BIG):
            if m:
                lines[i] = l[:m.start(1)] + 'noinline ' + l[m.start(1):]
            else:
                lines[i] = re.sub(r' \{$', ' noinline {', l) if '!guid' not in l else re.sub(r' (!guid)', r' noinline \1', l, 1)
    open(dst, 'w').write('\n'.join(lines))


if __name__ == '__main__':
    import sys
    t = time.time()
    for c in sys.argv[1:] or ['A']:
        print(build(c), time.time() - t)
