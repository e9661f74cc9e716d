"""check <property-id>: extract, generate obligations, discharge, report."""
import os, sys, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
from verify import *
import props

ROOT = os.path.dirname(build.HERE)


def unit(name, fn, tier, procs):
    """one verification unit in a process of its own: execute, discharge, summarise"""
    led = Ledger(tier); lim = []
    quick = tier == 'quick'
    Engine.deadline = time.time() + (330 if quick else 2400)
    try:
        fn(led)
    except Unsupported as e:
        lim.append((name, 'outside the verifier: %s' % e))
    except (KeyError, ValueError, IndexError, AttributeError, TypeError, AssertionError, RecursionError, z3.Z3Exception) as e:
        # the source no longer has the shape the contract is attached to
        tb = traceback.extract_tb(e.__traceback__)[-1]
        lim.append((name, 'contract could not be attached: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
    try:
        led.discharge(timeout_ms=10000 if tier == 'quick' else 60000, procs=procs, limit=480 if quick else 4200)
    except Unsupported as e:
        lim.append((name, str(e)))
    unreached = set(led.check_covers())
    return dict(res=led.res, functions=led.functions, assumed=led.assumed, bounded=led.bounded, covers={k: k not in unreached for k in led.covers}, notes=led.notes,
                solver_s=led.solver_s, backends=led.backends, stats=led.stats, lim=lim,
                fail=[(t.name, str(t.goal)[:4000], info) for t, info in led.fail], undecided=[(t.name, info) for t, info in led.undecided])


def run_units(units, led, limits, tier, procs=None):
    import pickle
    procs = procs or max(1, 8 // max(1, len(units)))
    todo = list(enumerate(units)); live = {}; done = {}
    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < 8:
            k, (name, fn) = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try: out = unit(name, fn, tier, procs)
                except BaseException as e: out = dict(crash='%s: %r' % (name, e))
                with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            live[r] = (k, name, pid, [])
        import select
        for r in select.select(list(live), [], [])[0]:
            b = os.read(r, 1 << 16)
            k, name, pid, buf = live[r]
            if b: buf.append(b); continue
            os.close(r); os.waitpid(pid, 0); del live[r]
            try: done[k] = pickle.loads(b''.join(buf))
            except Exception as e: done[k] = dict(crash='%s: worker died' % name)
    for k in sorted(done):
        d = done[k]
        if 'crash' in d: limits.append((units[k][0], 'verification unit died: ' + d['crash'])); continue
        for n, r in d['res'].items():
            x = led.res.setdefault(n, dict(n=0, ok=0, trivial=0, t=0.0))
            for f in r: x[f] += r[f]
        led.functions |= d['functions']; led.assumed |= d['assumed']; led.bounded += d['bounded']; led.notes += d['notes']
        for n, ok in d['covers'].items(): led.covers[n] = led.covers.get(n, False) or ok
        led.solver_s += d['solver_s']
        for n, v in d['backends'].items(): led.backends[n] = led.backends.get(n, 0) + v
        for n, v in d['stats'].items(): led.stats[n] = round(led.stats.get(n, 0) + v, 2)
        limits += d['lim']; led.fail += d['fail']; led.undecided += d['undecided']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    led = Ledger(tier)
    import native
    bg = native.Bg(P['native']) if P.get('native') else None
    led.seed = seed
    limits, cmds = [], []
    try:
        for c in P.get('crates', ('dex',)): build.crate(c)
    except build.BuildError as e:
        print(str(e)); sys.exit(3)
    except Exception as e:
        limits.append(('extraction', '%s: %s' % (type(e).__name__, e)))
    if not limits: run_units(P['units'], led, limits, tier, P.get('procs'))
    for c in build._cache.values(): cmds.append(c.cmd)
    bad = [n for n, ok in led.covers.items() if not ok]
    for b in bad: limits.append((b, 'cover unreachable (vacuity guard)'))
    for n, info in led.undecided: limits.append((n, 'solver undecided %s' % (info,)))
    known = load_known(pid)
    viol, kf = [], []
    byname = {}
    for n, goal, info in led.fail: byname.setdefault(n, []).append((goal, info))
    for name, lst in sorted(byname.items()):
        k = [x for x in known if x['obligation'] == name]
        if k: kf.append((name, k[0])); continue
        viol.append((name, lst))
    rc = 0
    for name, k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nat = None
    if P.get('native') or limits:
        nat = native.run(pid, P.get('native', ()), seed, tier, secs=(40 if viol else 60 if limits else 12) if tier == 'quick' else None, bg=bg)
    obl = sum(r['n'] for r in led.res.values()); dis = sum(r['ok'] for r in led.res.values())
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    reps = []
    if viol:
        for i, (name, lst) in enumerate(viol):
            rp = os.path.join(ROOT, 'evidence', 'replay-%s-%d.txt' % (pid, i))
            goal, info = lst[0]
            with open(rp, 'w') as f:
                f.write('property %s\nfailed obligation: %s\n(%d failing paths)\n' % (pid, name, len(lst)))
                f.write('verifier: mirv (z3 %s), obligation generated from the MIR of the current source\n' % z3.get_version_string())
                f.write('counterexample (symbol = value):\n')
                for k in sorted(info): f.write('  %s = %s\n' % (k, info[k]))
                f.write('\nobligation:\n%s\n' % goal)
                if nat and nat.get('input'): f.write('\nreplayed against the real code:\n%s\n' % nat['input'])
            print('failed obligation: %s (%d paths)' % (name, len(lst)))
            reps.append(rp)
        rc = 1
    elif nat and nat.get('violation'):
        rp = os.path.join(ROOT, 'evidence', 'replay-%s-native.txt' % pid)
        with open(rp, 'w') as f: f.write(nat['input'])
        reps.append(rp); rc = 1
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='python3-vt mirv/main.py %s' % pid,
                            trusted_base=P.get('trusted', []) + ['mirv (this verifier: MIR semantics, path enumeration)', 'z3 ' + z3.get_version_string(), 'cvc5 1.1.2 (fallback)', 'rustc 1.72.1 MIR lowering'],
                            named_obligations={k: dict(instances=r['n'], discharged=r['ok'], solver_s=round(r['t'], 2)) for k, r in sorted(led.res.items())},
                            functions_under_contract=sorted(led.functions), covers=sorted(k for k, v in led.covers.items() if v is True),
                            backends=led.backends, trivially_true=sum(r['trivial'] for r in led.res.values()), solver_s=round(led.solver_s, 2), extraction=cmds,
                            bounded=sorted(set(led.bounded)), outside_this_run=[list(x) for x in limits], stats=led.stats, notes=led.notes, replay_files=[os.path.basename(x) for x in reps]),
              assumptions=sorted(led.assumed) + P.get('assume', []) + GLOBAL_ASSUME,
              violations=len(reps), wall_s=round(time.time() - t0, 2))
    if nat: ev['coverage']['native_stand_in'] = {k: v for k, v in nat.items() if k != 'input'}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations generated, %d discharged (%d named), %d functions, %.1fs solver, %.1fs wall' %
          (pid, obl, dis, len(led.res), len(led.functions), led.solver_s, time.time() - t0))
    for n, w in limits[:20]: print('NOTE %s: %s' % (n, w))
    for rp in reps:
        tail = '' if nat and nat.get('violation') else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail))
        break
    if rc == 0 and limits and not (nat and nat.get('ok')):
        print('UNDECIDED: no stand-in covers what is outside the verifier here'); sys.exit(4)
    sys.exit(rc)


GLOBAL_ASSUME = ['arithmetic is checked: an operation that would overflow (or an array index out of range) aborts the transaction; the proof covers the executions in which none does'
                 ' (where a property proves absence of overflow it says so)',
                 'a transaction that returns Err or panics has no effect (Solana runtime atomicity)']


def load_known(pid):
    fn = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l or l.startswith('fixed:') or l.startswith('#'): continue
            d = json.loads(l)
            if d.get('property') == pid and d.get('status', 'open') == 'open': out.append(d)
    return out


if __name__ == '__main__':
    main()
