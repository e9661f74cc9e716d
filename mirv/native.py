"""Bounded stand-in: the real code (built from /repo now) on generated histories, compared with a reference model (native/).

Labelled bounded and never counted as proved.  It runs beside every proof for the functions the contracts assume (book, queue, byte
layouts), longer when a change has put a function outside the verifier, and to find a failing input when an obligation fails."""
import os, subprocess, time, re, shutil, json
import build

NAT = os.path.join(os.path.dirname(build.HERE), 'native')


PARTS = {'WIRE', 'RING', 'CODEC', 'TREE'}     # categories of `dexsim parts`
POOL = {'POOLMONEY', 'POOLACCT', 'OWNER', 'PERM'}     # categories of `poolsim` and `permsim`


def sim_of(cats): return 'permsim' if 'PERM' in cats else 'poolsim' if set(cats) & POOL else 'dexsim'


def build_sim(exe='dexsim'):
    tgt = os.path.join(build.BUILD, {'poolsim': 'poolt', 'permsim': 'permt', 'dexsim': 'simt'}[exe])
    src = os.path.join(build.BUILD, exe)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(NAT if exe == 'dexsim' else os.path.join(os.path.dirname(NAT), exe), src, ignore=shutil.ignore_patterns('target'))
    ct = os.path.join(src, 'Cargo.toml')
    t = open(ct).read().replace('"/repo/', '"' + build.REPO + '/')
    open(ct, 'w').write(t)
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'): env.pop(k, None)
    for d in os.listdir(os.path.join(tgt, 'debug', '.fingerprint')) if os.path.isdir(os.path.join(tgt, 'debug', '.fingerprint')) else []:
        if d.startswith('serum_') or d.startswith('serum-pool') or d.startswith('serum-dex'): shutil.rmtree(os.path.join(tgt, 'debug', '.fingerprint', d), ignore_errors=True)
    p = subprocess.run(['cargo', '+1.72.1', 'build', '--offline', '--target-dir', tgt], cwd=src, env=env, capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-1500:]
    return os.path.join(tgt, 'debug', exe), ''


class Bg:
    """build of the simulator in the background (its own process: the verifier forks, so it stays single-threaded)"""

    def __init__(s, cats=()):
        r, w = os.pipe()
        s.pid = os.fork()
        if s.pid == 0:
            os.close(r)
            try: exe, err = build_sim(sim_of(cats))
            except BaseException as e: exe, err = None, repr(e)
            with os.fdopen(w, 'w') as f: json.dump([exe, err], f)
            os._exit(0)
        os.close(w); s.r = r

    def join(s):
        with os.fdopen(s.r) as f: d = f.read()
        os.waitpid(s.pid, 0)
        return json.loads(d) if d else (None, 'build process died')


def run(pid, cats, seed, tier, secs=None, bg=None):
    """cats: categories of difference that bear on this property."""
    if not cats: return {'ok': False, 'violation': False, 'note': 'no native stand-in for this property'}
    t0 = time.time()
    bg = bg or Bg(cats); exe, err = bg.join()
    if exe is None: return {'ok': False, 'violation': False, 'note': 'stand-in does not build: ' + err}
    secs = secs or (60 if tier == 'quick' else 600)
    end = time.time() + secs
    n = min(8, os.cpu_count() or 4)
    batch, tx, hist, other = 0, 0, 0, []
    running = []
    hit = None
    nxt = [seed * 100000]

    small = set(cats) & PARTS; big = set(cats) - PARTS

    def spawn():
        nxt[0] += 1
        if big & POOL:
            running.append(subprocess.Popen([exe, str(nxt[0]), '3000'] + (['owner'] if 'OWNER' in big else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            return
        parts = small and (not big or nxt[0] % 3 == 1)
        running.append(subprocess.Popen([exe, 'parts', str(nxt[0])] if parts else [exe, str(nxt[0]), '20', '400'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    for _ in range(n): spawn()
    while running:
        p = running.pop(0)
        out = p.communicate()[0]
        m = re.search(r'OK (\d+) histories, (\d+) trans', out)
        if m: hist += int(m.group(1)); tx += int(m.group(2))
        elif 'MISMATCH' in out:
            found = set()
            for l in out.splitlines():
                if l.startswith('CAT '): found |= set(re.match(r'((?:[A-Z]+ )+)', l[4:]).group(1).split())
            if found & set(cats): hit = out; break
            other.append(sorted(found))
        else:
            other.append(['crash'])
        if time.time() < end: spawn()
    for p in running: p.kill(); p.wait()
    r = {'ok': hit is None, 'violation': hit is not None, 'label': 'bounded', 'bound': 'generated requests with valid and damaged accounts through the real entry points' if big & POOL else 'random and adversarial histories of up to 400 transactions through State::process', 'categories': sorted(cats),
         'histories': hist, 'transactions': tx, 'wall_s': round(time.time() - t0, 1)}
    if other: r['differences_outside_this_property'] = other[:5]
    if hit: r['input'] = ('generated request through the real entry point, compared with the reference (rerun: %s <seed> 3000)\n' % sim_of(cats) if big & POOL else 'generated history through the real State::process, compared with the reference model (rerun: native dexsim, seed on the first line)\n') + hit
    return r
