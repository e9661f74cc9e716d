"""Extraction: dump the MIR of /repo's crates with the repository's own compiler on every run."""
import os, subprocess, glob, shutil, sys, time, fcntl
from mir import Unsupported
from core import Crate

REPO = os.environ.get('SERUM_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get('SERUM_BUILD', os.path.join(os.path.dirname(HERE), '.build'))
CRATES = {'dex': ('dex', 'serum_dex'), 'pool': ('pool', 'serum_pool'), 'schema': ('pool/schema', 'serum_pool_schema'), 'examples': ('pool/examples/admin-controlled', 'serum_pool'),
          'permissioned': ('dex/permissioned', 'serum_dex_permissioned'), 'assert-owner': ('assert-owner', 'serum_assert_owner')}
SRCS = {'permissioned': ['dex/src']}      # type definitions only
DEPS = {'pool': ('schema',), 'examples': ('pool', 'schema')}
_cache = {}


class BuildError(Exception):
    pass


def dump(name):
    rel, _ = CRATES[name]
    root = os.path.join(REPO, rel)
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, 'target')
    out = os.path.join(BUILD, name + '.mir')
    if os.path.exists(out): os.unlink(out)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pk = subprocess.run(['grep', '-m1', '^name', os.path.join(root, 'Cargo.toml')], capture_output=True, text=True).stdout
        pk = pk.split('"')[1] if '"' in pk else ''
        for d in glob.glob(os.path.join(tgt, '*', '.fingerprint', pk + '-*')): shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_BOOTSTRAP='1')
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'): env.pop(k, None)
        cmd = ['cargo', '+1.72.1', 'rustc', '--lib', '--profile', 'check', '--locked', '--target-dir', tgt, '--', '-Zunpretty=mir', '-Zmir-opt-level=1', '-Zinline-mir=no',
               '-Zmir-include-spans=yes', '-Coverflow-checks=on', '-Cdebug-assertions=off', '-Awarnings', '-o', out]
        p = subprocess.run(cmd, cwd=root, env=env, capture_output=True, text=True)
        if not os.path.exists(out) and '--locked' in cmd:
            cmd.remove('--locked')
            p = subprocess.run(cmd, cwd=root, env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise BuildError('MIR extraction of %s failed:\n%s' % (name, p.stderr[-3000:]))
    return out, root, ' '.join(cmd)


def crate(name):
    if name not in _cache:
        out, root, cmd = dump(name)
        rel = CRATES[name][0]
        if rel == 'dex': c = Crate(out, root)
        else: c = Crate(out, REPO, [rel + '/src'] + [CRATES[d][0] + '/src' for d in DEPS.get(name, ())] + SRCS.get(name, []), [dump(d)[0] for d in DEPS.get(name, ())])
        c.cmd = cmd
        _cache[name] = c
    return _cache[name]
