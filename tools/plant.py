"""plant.py <id> <spec.py>: build a planted bug in a scratch copy, confirm it, keep it in seeded/<id>.
spec: prop, needs, breaks, edits=[(file, old, new)], args (dexsim arguments), optional demo (text of demo.sh)."""
import sys, os, subprocess, json, shutil, runpy, re
W = '/tmp/plant/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# random histories through the public State::process, compared with an independent model of the exchange
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/sim" "$t/sim"
sed -i "s#/repo/dex#$repo/dex#" "$t/sim/Cargo.toml"
export CARGO_NET_OFFLINE=true
(cd "$t/sim" && cargo +1.72.1 build --offline --target-dir "$t/target") > "$t/log" 2>&1 || { tail -30 "$t/log"; exit 2; }
exec_ok=0
for a in %s; do
  timeout 200 "$t/target/debug/dexsim" ${a//,/ } || exec_ok=1
  [ $exec_ok = 1 ] && break
done
exit $exec_ok
'''
PDEMO = DEMO.replace('/repo/dex#$repo/dex', '/repo/#$repo/').replace('dexsim', 'poolsim').replace('# random histories through the public State::process, compared with an independent model of the exchange', '# generated requests through the real entry points, compared with an independent reference')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
id_, spec = sys.argv[1], runpy.run_path(sys.argv[2])
sh('git -C %s checkout -q -- . && git -C %s reset -q --hard' % (W, W))
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
if sh('git -C %s rev-parse HEAD' % W).stdout.strip() != head: sh('git -C %s fetch -q /repo && git -C %s checkout -q %s' % (W, W, head))
for f, o, n in spec['edits']:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(p, 'w').write(s.replace(o, n))
diff = sh('git -C %s diff' % W).stdout
r = sh('. /opt/vp/env.sh; (cd %s/dex && cargo test --no-fail-fast --offline -- --test-threads 8); (cd %s && cargo test --workspace --no-fail-fast --offline -- --test-threads 8)' % (W, W))
base = json.load(open('/opt/vp/BASELINE.json'))
names = base.get('passed') or base.get('stable') or base
fails = re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)
if 'error' in r.stderr and 'could not compile' in r.stderr: print(r.stderr[-2500:]); sys.exit('does not compile')
print('failing tests:', fails)
stable = json.dumps(base)
bad = [f for f in fails if f.split('::')[-1] in stable]
D = os.path.join('/tmp/plant', id_); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
open(D + '/patch.diff', 'w').write(diff)
args = spec.get('args', '1,300,400')
pool = spec.get('pool'); sim = pool if isinstance(pool, str) else 'poolsim'
open(D + '/demo.sh', 'w').write(spec.get('demo') or (PDEMO.replace('poolsim', sim) if pool else DEMO) % args)
if not spec.get('nosim'): shutil.copytree(ROOT + ('/' + sim if pool else '/native'), D + '/sim', ignore=shutil.ignore_patterns('target'))
for f, t in spec.get('files', {}).items(): os.makedirs(os.path.dirname(os.path.join(D, f)), exist_ok=True); open(os.path.join(D, f), 'w').write(t)
json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(D + '/meta.json', 'w'), indent=1)
a = sh('bash %s/demo.sh' % D, cwd=W)
print('with patch: exit', a.returncode, '\n', a.stdout[:600], a.stderr[-300:])
b = sh('bash %s/demo.sh' % D, cwd='/repo')
print('without: exit', b.returncode, b.stdout[:200])
sh('git -C %s checkout -q -- .' % W)
if not bad and a.returncode == 1 and b.returncode == 0:
    S = os.path.join(ROOT, 'seeded', id_); shutil.rmtree(S, ignore_errors=True); shutil.copytree(D, S); print('KEPT', id_)
else: print('NOT KEPT', id_, bad)
