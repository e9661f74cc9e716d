"""Obligation ledger, parallel discharge, evidence."""
import os, sys, json, time, subprocess, tempfile, pickle, traceback
import z3
from core import *
import models

NPROC = int(os.environ.get('MIRV_PROCS', '8'))


class Task:
    __slots__ = ('name', 'pc', 'goal', 'ctx', 'kind', 'weak')


class Ledger:
    def __init__(self, tier='quick'):
        self.tasks = []
        self.res = {}       # name -> dict
        self.functions = set()
        self.assumed = set()
        self.bounded = []
        self.covers = {}
        self.notes = []
        self.tier = tier
        self.t0 = time.time()
        self.solver_s = 0.0
        self.backends = {}
        self.fail = []
        self.undecided = []
        self.stats = {}

    def add_stats(self, ex):
        for k, v in ex.stats.items(): self.stats[k] = round(self.stats.get(k, 0) + v, 2)

    # an obligation: pc => goal
    def prove(self, ex, st, name, goal, ctx=None):
        r = self.res.setdefault(name, dict(n=0, ok=0, trivial=0, t=0.0))
        r['n'] += 1
        if isinstance(goal, bool):
            if goal: r['ok'] += 1; r['trivial'] += 1; return
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g): r['ok'] += 1; r['trivial'] += 1; return
        ex._axs(st, goal)
        t = Task(); t.name = name; t.pc = list(st.pc); t.goal = goal; t.ctx = ctx; t.kind = 'prove'
        self.tasks.append(t)

    def lemma(self, name, pc, goal):
        r = self.res.setdefault(name, dict(n=0, ok=0, trivial=0, t=0.0)); r['n'] += 1
        t = Task(); t.name = name; t.pc = list(pc); t.goal = goal; t.ctx = None; t.kind = 'prove'
        self.tasks.append(t)

    def cover(self, ex, st, name, cond=True):
        """reachability of a condition behind the preconditions (vacuity guard)"""
        if self.covers.get(name) is True: return
        lst = self.covers.setdefault(name, [])
        if len(lst) < 400:
            if not isinstance(cond, bool): ex._axs(st, cond)
            if cond is False: return
            lst.append((list(st.pc), z3.BoolVal(True) if cond is True else cond))

    def note_engine(self, ex):
        for f in ex.inlined.values(): self.functions.add(f.name)
        for k in ex.modelled: self.assumed.add('std/extern model: ' + k)
        for k in ex.contracted: self.assumed.add('callee contract: ' + k)
        for (f, bb), n in ex.cutseen.items():
            self.bounded.append('loop in %s (bb%d) unrolled at most %d times on %d paths' % (f, bb, ex.loop_bound, n))

    # ------------------------------------------------------------ discharge
    def discharge(self, timeout_ms=10000, procs=NPROC, limit=1e9):
        tasks = self.tasks; end = self.t0 + limit
        if not tasks: return
        n = min(procs, max(1, len(tasks) // 4))
        pipes = []
        sys.stdout.flush()
        for w in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = []
                try:
                    for i in range(w, len(tasks), n):
                        out.append((i,) + (solve(tasks[i], timeout_ms) if time.time() < end else ('unknown', 0.0, 'none', ['time limit of the run'])))
                except BaseException as e:
                    out.append((-1, 'error', 0, '', repr(e)))
                with os.fdopen(wfd, 'wb') as f: pickle.dump(out, f)
                os._exit(0)
            os.close(wfd)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            if not data: raise Unsupported('solver worker died')
            for i, verdict, dt, be, info in pickle.loads(data):
                if i < 0: raise Unsupported('solver worker: ' + info)
                t = tasks[i]; rr = self.res[t.name]
                rr['t'] += dt; self.solver_s += dt
                if verdict == 'unsat':
                    rr['ok'] += 1
                    self.backends[be] = self.backends.get(be, 0) + 1
                elif verdict == 'sat':
                    self.fail.append((t, info))
                else: self.undecided.append((t, info))
        self.tasks = []

    def check_covers(self):
        bad = []
        for name, lst in self.covers.items():
            if lst is True: continue
            ok = False
            for pc, c in lst:
                s = z3.Solver(); s.set('timeout', 3000)
                s.add(*pc); s.add(c)
                r = s.check()
                if r == z3.sat: ok = True; break
            if ok: self.covers[name] = True
            else: bad.append(name)
        return bad


def _smt2(t):
    s = z3.Solver()
    s.add(*t.pc); s.add(z3.Not(t.goal))
    return s.to_smt2()


def relevant(pc, goal):
    """cone of influence: constraints sharing symbols (transitively) with the goal"""
    syms = set(x for x in consts_of(goal))
    rest = [(c, consts_of(c)) for c in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c, cs in rest:
            if not cs or cs & syms:
                out.append(c); syms |= cs; changed = True
            else: nr.append((c, cs))
        rest = nr
    return out


def solve(t, timeout_ms):
    t0 = time.time()
    neg = z3.Not(t.goal)
    best = 'unknown'
    tried = []
    if getattr(t, 'weak', None):
        if t.weak(3 * timeout_ms): return ('unsat', time.time() - t0, 'z3-laws', None)
    for k, (label, mk, ms, useall) in enumerate((('z3', lambda: z3.Solver(), 1500, True),
                                        ('z3-slice', lambda: z3.Solver(), timeout_ms, False),
                                        ('z3-arith2', lambda: _arith2(), timeout_ms, True),
                                        ('z3-qfnia', lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(), timeout_ms, False))):
        s = mk(); s.set('timeout', ms)
        pc = t.pc if useall else relevant(t.pc, t.goal)
        s.add(*pc); s.add(neg)
        try: r = s.check()
        except z3.Z3Exception as e: tried.append(label + ':' + str(e)); continue
        if r == z3.unsat: return ('unsat', time.time() - t0, label, None)
        if r == z3.sat and useall:
            m = s.model()
            return ('sat', time.time() - t0, label, model_dict(m))
        tried.append(label)
    # cvc5
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(_smt2(t)); fn = f.name
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', fn], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        os.unlink(fn)
        if p.stdout.startswith('unsat'): return ('unsat', time.time() - t0, 'cvc5', None)
    except Exception as e: tried.append(repr(e)[:80])
    return ('unknown', time.time() - t0, 'none', tried)


def _arith2():
    s = z3.SolverFor('QF_NIA') if False else z3.Solver()
    try: s.set('smt.arith.solver', 2)
    except z3.Z3Exception: pass
    return s


def model_dict(m):
    d = {}
    for x in m.decls():
        if x.arity() == 0:
            v = m[x]
            try: d[x.name()] = v.as_long()
            except Exception: d[x.name()] = str(v)
    return d
