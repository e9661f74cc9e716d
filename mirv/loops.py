"""Unbounded loops by induction: the state at the loop head is an arbitrary state that differs from the entry state only where the
body writes (found by iteration to a fixpoint and checked on every back edge); every segment entry->head, head->back edge,
head->return is handed to the specification, which proves its relation for it.  Vectors filled in a loop become `SymVec`s: an
element is whatever some iteration pushed, under the conditions that held in that iteration (with that iteration's symbols renamed)."""
import re, itertools
from models import *


class Auto:
    def __init__(s):
        s.heads = set(); s.mods = {}; s.changed = False; s.hook = None; s.final = False
        s.tmpl = {}; s.ntmpl = {}; s.arr = {}
        s.facts = {}; s.nfacts = {}

    def eager(s, fn): return '::process_' in fn

    def round(s):
        """start of an exploration"""
        s.changed = False; s.arr = {}; s.ntmpl = {}; s.nfacts = {}

    def end_round(s):
        a = {k: [t.sig() for t in v] for k, v in s.tmpl.items()}; b = {k: [t.sig() for t in v] for k, v in s.ntmpl.items()}
        if a != b: s.changed = True
        s.tmpl = s.ntmpl
        fs = lambda d: {k: sorted('; '.join(sorted(str(p) for p in t.pcs)) for t in v) for k, v in d.items()}
        if fs(s.facts) != fs(s.nfacts): s.changed = True
        s.facts = s.nfacts


class Tmpl:
    """one push: value, path condition since the loop head, names already fixed at the head"""
    def __init__(s, val, pcs, known): s.val = val; s.pcs = pcs; s.known = known
    def sig(s): return repr(s.val) + ' | ' + '; '.join(sorted(str(p) for p in s.pcs))


class SymVec:
    __slots__ = ('vid', 'base', 'pend', 'n')

    def __init__(s, vid, base, pend, n): s.vid = vid; s.base = base; s.pend = pend; s.n = n
    def vlen(s, ex, st): return s.n
    def __repr__(s): return 'SymVec(%s)' % (s.vid,)


IMMUT = re.compile(r'^(accs\[[^!]*$|ins[^!]*$|naccs$|prog\b|sysvar|any_|(ctx|state|basket|req)\b[^!]*$|(tokens|size)$)')


def map_val(v, f):
    if is_z3(v): return f(v)
    if isinstance(v, Rec):
        if v.name is not None and not IMMUT.match(str(v.name)): raise Unsupported('lazy record in a vector: %s' % v.name)
        return Rec(v.ty, v.name, {k: map_val(x, f) for k, x in v.f.items()})
    if isinstance(v, Enum):
        return Enum(v.ty, v.name, map_val(v.d, f), {k: map_val(x, f) for k, x in v.f.items()})
    if isinstance(v, Arr): return Arr(v.ty, [map_val(x, f) for x in v.items])
    if isinstance(v, (int, bool, Ptr, Str)) or v is None: return v
    raise Unsupported('vector element %r' % (v,))


def force(ex, st, v):
    """materialise lazily named records completely"""
    if isinstance(v, Rec) and v.name is not None and v.ty in ex.crate.src.stypes:
        for i, t in enumerate(ex.crate.src.stypes[v.ty]): ex.get1(st, v, ('f', i, t))
        return Rec(v.ty, None, {k: force(ex, st, x) for k, x in v.f.items()})
    return v


def z3consts(e, out):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        todo.extend(x.children())


def instance(ex, st, t):
    """an element pushed under template t: fresh copies of everything that iteration introduced"""
    cs = {}
    def see(x): z3consts(x, cs); return x
    map_val(t.val, see)
    for p in t.pcs: z3consts(p, cs)
    sub = []
    for n, c in sorted(cs.items()):
        if n in t.known or IMMUT.match(n): continue
        fresh = z3.Const(ex.gensym('el.' + n.split('!')[0]), c.sort())
        if n in ex.axioms: pass
        sub.append((c, fresh))
    S = (lambda e: z3.substitute(e, *sub)) if sub else (lambda e: e)
    for p in t.pcs: ex.assume(st, S(p))
    return map_val(t.val, S)


def elements(ex, st, sv):
    """[(state, element)]: any element of the vector"""
    out = []
    pool = [('b', x) for x in sv.base] + [('t', t) for t in ex.auto.tmpl.get(sv.vid, ())] + [('b', x) for x in sv.pend]
    for k, x in pool:
        s = st.fork()
        v = x if k == 'b' else instance(ex, s, x)
        if k == 't' and not ex.feasible(s, z3.BoolVal(True)): continue
        out.append((s, v))
    return out


# ---------------------------------------------------------------- differences between two states
def ncell(st, cell):
    if cell[0] == 'L':
        for k, f in enumerate(st.frames):
            if f.id == cell[1]: return ('L', k, cell[2])
        return None
    return cell


def rcell(st, c):
    if c[0] == 'L': return ('L', st.frames[c[1]].id, c[2]) if c[1] < len(st.frames) else None
    return c


def diff(ex, st, a, b, path, out):
    if a is b: return
    if isinstance(a, Rec) and isinstance(b, Rec) and a.ty == b.ty:
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f: diff(ex, st, a.f[k], b.f[k], path + (k,), out); continue
            r = a if k not in a.f else b
            try:
                if r.name is None: raise Unsupported('missing field')
                x = ex.get1(st, r, ('f', k, ex.crate.src.stypes[r.ty][k]))
            except (Unsupported, KeyError, IndexError, TypeError):
                out.append((path + (k,), None, None)); continue
            diff(ex, st, x if r is a else a.f[k], x if r is b else b.f[k], path + (k,), out)
        return
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)): diff(ex, st, x, y, path + (i,), out)
            return
        out.append((path, a, b)); return
    if isinstance(a, ZArr) and isinstance(b, ZArr):
        if a.a.eq(b.a): return
        out.append((path, a, b)); return
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b: return
        out.append((path, a, b)); return
    if isinstance(a, (Opq, SymVec)) or isinstance(b, (Opq, SymVec)):
        out.append((path, a, b)); return
    if isinstance(a, Enum) and isinstance(b, Enum) and not is_z3(a.d) and not is_z3(b.d) and a.d == b.d and set(a.f) == set(b.f):
        for k in a.f: diff(ex, st, a.f[k], b.f[k], path + (('e', k),), out)
        return
    try:
        e = veq(ex, st, a, b)
        if e is True or (e is not False and ex.must(st, e)): return
    except Unsupported: pass
    out.append((path, a, b))


def leafty(ex, v, path, lty):
    """integer type at a position inside a value of type lty, or None"""
    if not path: return lty if lty in INTS else None
    if isinstance(v, Rec):
        k = path[0]
        t = None
        st = ex.crate.src.stypes.get(v.ty)
        if st and isinstance(k, int) and k < len(st): t = st[k]
        if t is None and ty_head(v.ty) in ('Range', 'RangeInclusive') and ty_args(v.ty): t = ty_args(v.ty)[0]
        if t is None and k == 'i': t = 'usize'
        return leafty(ex, v.f.get(k), path[1:], t)
    return None


def put_at(v, path, f):
    if not path: return f(v)
    k = path[0]
    if isinstance(v, Rec): return v.set(k, put_at(v.f.get(k), path[1:], f))
    if isinstance(v, Arr): return Arr(v.ty, [put_at(x, path[1:], f) if i == k else x for i, x in enumerate(v.items)])
    if isinstance(v, Enum) and isinstance(k, tuple): g = dict(v.f); g[k[1]] = put_at(g.get(k[1]), path[1:], f); return Enum(v.ty, v.name, v.d, g)
    raise Unsupported('havoc inside %r' % (v,))


def mat(ex, st, v, path):
    """materialise the lazily named fields along a path"""
    for k in path:
        if not isinstance(v, Rec): return
        if k not in v.f:
            if v.name is None or v.ty not in ex.crate.src.stypes: return
            ex.get1(st, v, ('f', k, ex.crate.src.stypes[v.ty][k]))
        v = v.f[k]


class Drop(Exception): pass


def havoc_leaf(ex, st, key, info, ty, it=None):
    from book import Book
    def f(v):
        if it is not None and info.get('ctr') and is_int(v): return v + it
        if is_bool(v): return z3.Bool(ex.gensym('hv'))
        if is_int(v):
            x = z3.Int(ex.gensym('hv'))
            if ty in INTS: x = ex.int_sym(x.decl().name(), ty)
            if info.get('sub'): ex.subs[x.decl().name()] = ex.z(v)
            return x
        if isinstance(v, ZArr): return ZArr(v.ety, z3.Const(ex.gensym('hv'), v.a.sort()), v.n)
        if isinstance(v, Opq) and isinstance(v.v, Book):
            b = Book(v.v.side, v.v.name); b.n = v.v.n + 1; b.epoch = v.v.epoch
            return Opq(v.ty, b)
        if isinstance(v, Arr) and info.get('vec'):
            k = len(v.items)
            n = ex.int_sym(ex.gensym('veclen'), 'usize'); ex.assume(st, n >= k)
            return Opq('SymVec', SymVec((key, info['path']), v.items, (), n))
        if isinstance(v, Opq) and isinstance(v.v, SymVec):
            n = ex.int_sym(ex.gensym('veclen'), 'usize')
            return Opq('SymVec', SymVec((key, info['path']), v.v.base, (), n))
        raise Drop()
    return f


GHOST0 = ('xfer', 'req', 'newo', 'elems', 'cpi')


def clear_ghost(st):
    for k in list(st.ghost):
        if k in GHOST0 or (isinstance(k, tuple) and k[0] in ('push', 'pop')): del st.ghost[k]


def segment(ex, st, kind):
    A = ex.auto
    if A.hook and A.final:
        # the specification must not disturb the exploration (symbol numbering, path condition)
        ctr, cd = ex.ctr, ex.cache_div
        A.hctr = getattr(A, 'hctr', None) or itertools.count(10 ** 6)
        ex.ctr = A.hctr; ex.cache_div = dict(cd)
        try: A.hook(ex, st.ghost.get('base'), st.fork(), kind)
        finally: ex.ctr, ex.cache_div = ctr, cd


def head(ex, st, key):
    """loop entry -> header record; st becomes an arbitrary state at the loop head"""
    from book import Book
    A = ex.auto
    segment(ex, st, 'enter')
    npc0, known0, mark = len(st.pc), set(st.pcset), next(ex.ctr)
    arr = A.arr.get(key, 0); A.arr[key] = arr + 1
    vkey = (key, arr)
    it = ex.int_sym(ex.gensym('it'), 'usize') if ex.counters else None
    for (c, path), info in sorted(A.mods.setdefault(key, {}).items(), key=str):
        cell = rcell(st, c)
        if cell is None or cell not in st.mem: continue
        lty = None
        if cell[0] == 'L':
            fr = [x for x in st.frames if x.id == cell[1]][0]
            lty = ex.subst(st, fr.fn.locals.get(cell[2], '?'))
        info = dict(info, path=path)
        mat(ex, st, st.mem[cell], path)
        try:
            st.mem[cell] = put_at(st.mem[cell], path, havoc_leaf(ex, st, vkey, info, leafty(ex, st.mem[cell], path, lty), it))
        except Drop:
            if cell[0] != 'L' and cell[0] != 'A': raise Unsupported('loop changes %r at %s' % (c, path))
            del st.mem[cell]
            continue
        v = st.mem[cell]
        if ex.counters and path and path[-1] == 0 and info.get('ctr'):
            # a Range that next() advances by one stops at its end
            for k in path[:-1]: v = v.f[k]
            if isinstance(v, Rec) and ty_head(v.ty) == 'Range' and is_z3(v.f[0]):
                s0 = z3.simplify(v.f[0] - it); e = ex.z(v.f[1])
                ex.assume(st, v.f[0] <= z3.If(s0 <= e, e, s0))
        elif ex.counters and path and path[-1] == 'i':
            for k in path[:-1]: v = v.f[k]
            if 'n' in v.f and is_z3(v.f['i']): ex.assume(st, z3.And(v.f['i'] >= 0, v.f['i'] <= v.f['n']))
        elif isinstance(v, Rec) and path and path[0] == 'i': ex.assume(st, z3.And(v.f['i'] >= 0, v.f['i'] <= v.f['n']))
    clear_ghost(st)
    st.ghost['qgen'] = mark
    for c, v in list(st.mem.items()):
        if c[0] == 'BOOK' and v.v.log:
            b = v.v.copy(); b.log = (); st.mem[c] = Opq(v.ty, b)
    if ex.counters and vkey in A.facts:
        # every completed iteration took one of the paths an iteration takes (induction; the paths are those of the previous round, compared at its end)
        ds = []
        for t in A.facts[vkey]: ds.append(z3.And([z3.BoolVal(True)] + past(ex, t)))
        ex.assume(st, z3.Implies(z3.And(ANYK >= 0, ANYK < it), z3.Or(ds) if ds else z3.BoolVal(False)))
    hdr = (key, arr, dict(st.mem), npc0, known0, mark, len(st.pc), it)
    st.ghost['base'] = hdr
    return hdr


def back(ex, st, hdr):
    A = ex.auto
    key, arr, hm, npc, known, mark = hdr[:6]
    mods = A.mods.setdefault(key, {})
    for cell, hv in hm.items():
        if cell not in st.mem: continue
        cv = st.mem[cell]
        if cv is hv: continue
        c = ncell(st, cell)
        if c is None: continue
        ds = []
        diff(ex, st, hv, cv, (), ds)
        for path, a, b in ds:
            info = mods.get((c, path))
            vec = None
            if isinstance(a, Arr) and isinstance(b, Arr) and len(b.items) > len(a.items): vec = b.items[len(a.items):]
            if isinstance(a, Opq) and isinstance(a.v, SymVec) and isinstance(b, Opq) and isinstance(b.v, SymVec): vec = b.v.pend[len(a.v.pend):]
            if vec is not None:
                if info is None: mods[(c, path)] = dict(vec=True); A.changed = True
                for x in vec: add_tmpl(ex, st, hdr, ((key, arr), path), x)
                continue
            if info is None:
                info = dict(sub=subset(ex, st, a, b), ctr=ex.counters and is_plus1(ex, st, a, b)); mods[(c, path)] = info; A.changed = True
            elif info.get('sub') and not subset(ex, st, a, b):
                info['sub'] = False; A.changed = True
            elif info.get('ctr') and not is_plus1(ex, st, a, b):
                info['ctr'] = False; A.changed = True
    if ex.counters:
        for (c, path), info in list(mods.items()):
            if not info.get('ctr'): continue
            cell = rcell(st, c)
            a, b = leaf_at(hm.get(cell), path), leaf_at(st.mem.get(cell), path)
            if a is None or b is None or not is_plus1(ex, st, a, b): info['ctr'] = False; A.changed = True
        t = Tmpl(None, st.pc[hdr[6]:], hdr[4]); t.it = hdr[7]; t.idx = ex.idxexpr
        A.nfacts.setdefault((key, arr), []).append(t)
    for cell, v in st.mem.items():
        if cell in hm or cell[0] not in ('OV', 'BW', 'BOOK'): continue
        m = [int(x) for x in re.findall(r'!(\d+)', str(cell[1]))]
        if any(x > mark for x in m): continue                    # an account chosen in this iteration: arbitrary at the head anyway
        if cell[0] == 'OV':
            from acct import HEAD
            T = cell[2]
            ini = Rec(T, '%s.%s' % (cell[1], T), {} if T == 'MarketStateV2' else {0: ex.int_sym('%s.w@%d' % (cell[1], HEAD), 'u64')})
            ds = []; diff(ex, st, ini, v, (), ds)
            if ds: raise Unsupported('loop changes %s %s' % (cell[1], T))
        elif cell[0] == 'BW':
            if not serum_padding(ex, cell[1], v): raise Unsupported('loop writes bytes of %s' % cell[1])
        elif v.v.log: raise Unsupported('loop changes the book %s' % cell[1])
    segment(ex, st, 'iter')


def leaf_at(v, path):
    for k in path:
        if isinstance(v, Rec): v = v.f.get(k)
        elif isinstance(v, Arr): v = v.items[k]
        elif isinstance(v, Enum) and isinstance(k, tuple): v = v.f.get(k[1])
        else: return None
    return v


ANYK = z3.Int('any_k')


def is_plus1(ex, st, a, b):
    # a counter that went untouched on some path of the body (a `continue`) is none
    return is_int(a) and is_int(b) and ex.must(st, b == a + 1)


def canon(ex, e):
    e = z3.simplify(e, som=True)
    if z3.is_int_value(e): return e.as_long()
    ts = [str(x).replace('\n', ' ') for x in (e.children() if z3.is_add(e) else [e])]
    s = ' + '.join(sorted(ts))
    ex.idxexpr[s] = e
    return s


def past(ex, t):
    """the path condition of iteration any_k, from that of iteration t.it"""
    cs = {}
    for p in t.pcs: z3consts(p, cs)
    itn = t.it.decl().name()
    sub = [(t.it, ANYK)]
    for n, c in sorted(cs.items()):
        if n == itn: continue
        m = [x for x in re.findall(r'\[([^\[\]]*)\]', n) if x in t.idx]
        inv = [x for x in m if itn in x]
        rest = n
        for x in inv: rest = rest.replace('[%s]' % x, '')
        if inv and '!' not in rest:
            n2 = n
            for x in inv: n2 = n2.replace('[%s]' % x, '[%s]' % canon(ex, z3.substitute(t.idx[x], (t.it, ANYK))))
            c2 = z3.Const(n2, c.sort())
            if n in ex.axioms: ex.axioms.setdefault(n2, z3.substitute(ex.axioms[n], (c, c2)))
        elif n in t.known or IMMUT.match(n): continue
        else: c2 = z3.Const(ex.gensym('pa.' + n.split('!')[0]), c.sort())
        sub.append((c, c2))
    return [z3.substitute(p, *sub) for p in t.pcs]


def serum_padding(ex, acc, v):
    from acct import offkey, data_len
    for (off, n), w in v.v.items():
        b = bytes(w.items) if isinstance(w, Arr) and all(isinstance(x, int) for x in w.items) else None
        if b != (b'serum' if (off, n) == ('0', 5) else b'padding' if (off, n) == (offkey(data_len(ex, acc) - 7), 7) else None): return False
    return True


def add_tmpl(ex, st, hdr, vid, x):
    x = force(ex, st, x)
    ex.auto.ntmpl.setdefault(vid, []).append(Tmpl(x, st.pc[hdr[3]:], hdr[4]))


def subset(ex, st, a, b):
    if not (is_int(a) and is_int(b)): return False
    if not any(s in str(b) for s in ('CLRB', 'SETB')): return False
    k = z3.Int('any_bit')
    return ex.must(st, z3.Implies(z3.And(k >= 0, k < 128, BIT(ex.z(b), k)), BIT(ex.z(a), k)))


def subs_ax(ex):
    def f(x):
        if x.decl().name() == 'BIT':
            v, k = x.children()
            if z3.is_const(v) and v.decl().name() in ex.subs: yield z3.Implies(z3.And(x, k >= 0, k < 128), BIT(ex.subs[v.decl().name()], k))
    return f


# ---------------------------------------------------------------- loops written with iterator adaptors
def model_loop(ex, st, key, body):
    """loop { body }: body(state) -> [('exit', state, value) | ('back', state)]; returns [(state, value)] of the exits"""
    base = st.ghost.get('base')
    hdr = head(ex, st, key)
    out = []
    for r in body(st):
        if r[0] == 'exit': out.append((r[1], r[2]))
        else: back(ex, r[1], hdr)
    return out


def site(ex, st, what):
    fr = st.frames[-1] if st.frames else None
    return ((fr.fn.name, fr.bb, what) if fr else ('top', 0, what))


L = {}


def lm(*ks):
    def d(f):
        for k in ks: L[k] = f
        return f
    return d


@lm('<* as Iterator>::filter_map')
def _fm(ex, st, a, c): return Rec('FilterMap', None, {'in': a[0], 'f': a[1]})


@lm('<* as Iterator>::filter')
def _fi(ex, st, a, c): return Rec('Filter', None, {'in': a[0], 'f': a[1]})


@lm('<* as Iterator>::map')
def _mp(ex, st, a, c): return Rec('Map', None, {'in': a[0], 'f': a[1]})


@lm('<* as Iterator>::cloned', '<* as Iterator>::copied')
def _cl(ex, st, a, c): return Rec('Cloned', None, {'in': a[0]})


@lm('<* as IntoIterator>::into_iter')
def _ii(ex, st, a, c):
    v = a[0]
    if isinstance(v, Rec) and (v.ty in ('FilterMap', 'Filter', 'Map', 'Cloned', 'Zip', 'Enumerate') or user_next(ex, v)): return v
    if isinstance(v, Opq) and isinstance(v.v, SymVec): return Rec('VecIter', None, {'v': v})
    if isinstance(v, Ptr) and not (v.path and v.path[-1][0] == 's'):
        t = ex.load(st, v)
        if isinstance(t, Opq) and isinstance(t.v, SymVec): return Rec('VecIter', None, {'v': t, 'ref': True})
    from acct import _intoiter
    return _intoiter(ex, st, a, c)


@lm('[]::iter')
def _it(ex, st, a, c):
    v = ex.load(st, a[0]) if not (a[0].path and a[0].path[-1][0] == 's') else None
    if isinstance(v, Opq) and isinstance(v.v, SymVec): return Rec('VecIter', None, {'v': v, 'ref': True})
    from acct import _iter
    return _iter(ex, st, a, c)


def user_next(ex, v):
    if not isinstance(v, Rec): return None
    h = ty_head(v.ty).split('::')[-1]
    for f in ex.crate.fns.values() if isinstance(ex.crate.fns, dict) else ex.crate.fns:
        if f.name.endswith('::next') and len(f.args) == 1 and ty_head(re.sub(r'^&mut ', '', f.args[0][1])).split('::')[-1] == h: return f
    return None


def nxt(ex, st, p):
    """[(state, Option item)] of advancing the iterator at p"""
    v = ex.load(st, p)
    if not isinstance(v, Rec): raise Unsupported('next of %r' % (v,))
    if v.ty == 'VecIter':
        out = []
        for s, x in elements(ex, st, v.f['v'].v):
            s.ghost['elems'] = s.ghost.get('elems', ()) + (x,)
            out.append((s, ex.some(Ptr(ex.alloc(s, x)) if 'ref' in v.f else x, '?')))
        st.ghost['exh'] = st.ghost.get('exh', ()) + (v.f['v'].v.vid,)
        return out + [(st, ex.none())]
    if v.ty == 'Zip':
        out = []
        for s, x in nxt(ex, st, Ptr(p.cell, p.path + (('f', 'a', '?'),))):
            if x.d == 0: out.append((s, x)); continue
            for s2, y in nxt(ex, s, Ptr(p.cell, p.path + (('f', 'b', '?'),))):
                out.append((s2, y if y.d == 0 else ex.some(Rec('(?, ?)', None, {0: x.f[('Some', 0)], 1: y.f[('Some', 0)]}), '?')))
        return out
    if v.ty == 'Enumerate':
        out = []
        for s, x in nxt(ex, st, Ptr(p.cell, p.path + (('f', 'in', '?'),))):
            if x.d == 0: out.append((s, x)); continue
            w = ex.load(s, p); k = w.f['k']
            ex.store(s, p, w.set('k', k + 1))
            out.append((s, ex.some(Rec('(usize, ?)', None, {0: k, 1: x.f[('Some', 0)]}), '?')))
        return out
    if v.ty in ('FilterMap', 'Filter', 'Map', 'Cloned'):
        inner = Ptr(p.cell, p.path + (('f', 'in', '?'),)); fp = Ptr(p.cell, p.path + (('f', 'f', '?'),))

        def one(st):
            res = []
            for s, o in nxt(ex, st, inner):
                if o.d == 0: res.append(('exit', s, ex.none())); continue
                x = o.f[('Some', 0)]
                if v.ty == 'Cloned': res.append(('exit', s, ex.some(ex.load(s, x) if isinstance(x, Ptr) else x, '?'))); continue
                arg = Ptr(ex.alloc(s, x)) if v.ty == 'Filter' else x
                for oc in ex.call_value(s, fp, [arg]):
                    if v.ty == 'Map': res.append(('exit', oc.st, ex.some(oc.val, '?'))); continue
                    if v.ty == 'Filter':
                        for s2, t in ex.split_bool(oc.st, oc.val): res.append(('exit', s2, ex.some(x, '?')) if t else ('back', s2))
                        continue
                    for s2, nm in ex.split(oc.st, oc.val):
                        if nm == 'Some': res.append(('exit', s2, ex.some(ex.payload(s2, oc.val, 'Some', 0), '?')))
                        else: res.append(('back', s2))
            return res
        if v.ty in ('Map', 'Cloned'): return [(s, x) for _, s, x in one(st)]
        return model_loop(ex, st, site(ex, st, 'next'), one)
    f = user_next(ex, v)
    if f is not None:
        d = len(st.frames)
        ex.inlined[f.name] = f
        ex.push(st, f, [p], None, None, None)
        return [(s2, o2) for o in ex.run_until(st, d) if o.kind == 'ret' for s2, o2 in optsplit(ex, o.st, o.val)]
    from acct import _next
    if isinstance(v.f.get('own'), Arr) and is_z3(v.f['i']): return own_next(ex, st, p, v)
    pp = v.f.get('p')
    if isinstance(pp, Ptr) and is_z3(v.f.get('i')) and isinstance(ex.load(st, pp) if not (pp.path and pp.path[-1][0] == 's') else None, Arr): return own_next(ex, st, p, v, ex.load(st, pp))
    r = _next(ex, st, [p], None)
    return r if isinstance(r, list) else [(st, r)]


def own_next(ex, st, p, v, arr=None):
    items = (arr or v.f['own']).items; i = v.f['i']
    out = []
    for s, t in ex.split_bool(st, i < len(items)):
        if not t: out.append((s, ex.none())); continue
        ex.store(s, p, v.set('i', i + 1))
        if all(is_int(x) for x in items):
            e = ex.z(items[-1])
            for k in range(len(items) - 2, -1, -1): e = z3.If(i == k, ex.z(items[k]), e)
            out.append((s, ex.some(Ptr(ex.alloc(s, e)) if arr is not None else e, '?'))); continue
        for k, x in enumerate(items):
            s2 = s.fork(); ex.assume(s2, i == k)
            if ex.feasible(s2, z3.BoolVal(True)): out.append((s2, ex.some(Ptr(ex.alloc(s2, x)) if arr is not None else x, '?')))
    return out


def optsplit(ex, st, o):
    out = []
    for s, nm in ex.split(st, o): out.append((s, ex.none() if nm == 'None' else ex.some(ex.payload(s, o, 'Some', 0), '?')))
    return out


@lm('<* as Iterator>::next')
def _nx(ex, st, a, c): return nxt(ex, st, a[0])


@lm('<* as Iterator>::find')
def _find(ex, st, a, c):
    p = a[0]
    fp = Ptr(ex.alloc(st, a[1]))

    def one(st):
        res = []
        for s, o in nxt(ex, st, p):
            if o.d == 0: res.append(('exit', s, ex.none())); continue
            x = o.f[('Some', 0)]
            for oc in ex.call_value(s, fp, [Ptr(ex.alloc(s, x))]):
                for s2, t in ex.split_bool(oc.st, oc.val): res.append(('exit', s2, ex.some(x, '?')) if t else ('back', s2))
        return res
    return model_loop(ex, st, site(ex, st, 'find'), one)


@lm('<* as Iterator>::any')
def _any(ex, st, a, c):
    p = a[0]
    fp = Ptr(ex.alloc(st, a[1]))

    def one(st):
        res = []
        for s, o in nxt(ex, st, p):
            if o.d == 0: res.append(('exit', s, False)); continue
            for oc in ex.call_value(s, fp, [o.f[('Some', 0)]]):
                for s2, t in ex.split_bool(oc.st, oc.val): res.append(('exit', s2, True) if t else ('back', s2))
        return res
    return model_loop(ex, st, site(ex, st, 'any'), one)


def tfe(wrap):
    def run(ex, st, a, c):
        p = a[0]
        if not isinstance(p, Ptr):
            cell = ('ITF', site(ex, st, 'tfe')); st.mem[cell] = p; p = Ptr(cell)
        fc = ('ITFF', site(ex, st, 'tfe')); st.mem[fc] = a[1]
        fp = Ptr(fc)

        def one(st):
            res = []
            for s, o in nxt(ex, st, p):
                if o.d == 0: res.append(('exit', s, ex.ok(UNIT, 'Result<(), DexError>') if wrap else UNIT)); continue
                for oc in ex.call_value(s, fp, [o.f[('Some', 0)]]):
                    if not wrap: res.append(('back', oc.st)); continue
                    for s2, nm in ex.split(oc.st, oc.val):
                        if nm == 'Ok': res.append(('back', s2))
                        elif nm == 'Err': res.append(('exit', s2, ex.err(ex.payload(s2, oc.val, 'Err', 0), 'Result<(), DexError>')))
                        else: raise Unsupported('try_for_each over ' + nm)
            return res
        return model_loop(ex, st, site(ex, st, 'tfe'), one)
    return run


L['<* as Iterator>::try_for_each'] = tfe(True)
L['<* as Iterator>::for_each'] = tfe(False)


def bounded(ex, st, v):
    """the iterator runs over a list of known, small length"""
    while isinstance(v, Rec) and v.ty in ('Map', 'Cloned', 'Enumerate'): v = v.f['in']
    if isinstance(v, Rec) and v.ty == 'Zip': return bounded(ex, st, v.f['a']) or bounded(ex, st, v.f['b'])
    if isinstance(v, Rec) and v.ty == 'SliceIter': return isinstance(v.f['i'], int) and isinstance(v.f['n'], int) and v.f['n'] <= 32
    if isinstance(v, Rec) and ty_head(v.ty) == 'Range': return isinstance(v.f.get(0), int) and isinstance(v.f.get(1), int) and v.f[1] - v.f[0] <= 32
    return False


@lm('<* as Iterator>::zip')
def _zip(ex, st, a, c):
    b = a[1]
    if not (isinstance(b, Rec) and ('i' in b.f or b.ty in ('FilterMap', 'Filter', 'Map', 'Cloned', 'VecIter'))): b = _ii(ex, st, [b], c)
    return Rec('Zip', None, {'a': a[0], 'b': b})


@lm('<* as Iterator>::enumerate')
def _enum(ex, st, a, c): return Rec('Enumerate', None, {'in': a[0], 'k': 0})


@lm('<* as Iterator>::collect')
def _collect(ex, st, a, c):
    if bounded(ex, st, a[0]):
        cell = ('ITC', next(ex.ctr)); st.mem[cell] = a[0]
        live, out = [(st, ())], []
        while live:
            s, xs = live.pop()
            for s2, o in nxt(ex, s, Ptr(cell)):
                if o.d == 0: out.append((s2, Arr('?', xs)))
                else: live.append((s2, xs + (o.f[('Some', 0)],)))
        return out
    k = site(ex, st, 'collect')
    cell = ('IT', k); st.mem[cell] = a[0]
    vc = ('ITV', k); st.mem[vc] = Arr('?', [])
    ex.auto.mods.setdefault(k, {}).setdefault((vc, ()), dict(vec=True))

    def one(st):
        res = []
        for s, o in nxt(ex, st, Ptr(cell)):
            if o.d == 0:
                v = s.mem[vc]
                if isinstance(v, Opq): s.ghost['made'] = s.ghost.get('made', ()) + (v.v.vid,)
                res.append(('exit', s, v)); continue
            vpush(ex, s, Ptr(vc), o.f[('Some', 0)])
            res.append(('back', s))
        return res
    return model_loop(ex, st, k, one)


def vpush(ex, st, p, x):
    v = ex.load(st, p)
    if isinstance(v, Opq) and isinstance(v.v, SymVec):
        sv = v.v
        ex.store(st, p, Opq('SymVec', SymVec(sv.vid, sv.base, sv.pend + (x,), sv.n + 1)))
    elif isinstance(v, Arr): ex.store(st, p, Arr(v.ty, v.items + (x,)))
    else: raise Unsupported('push onto %r' % (v,))


@lm('Vec::push')
def _vp(ex, st, a, c): vpush(ex, st, a[0], a[1]); return UNIT


@lm('Vec::as_slice', 'Vec::as_mut_slice')
def _as(ex, st, a, c): return a[0]


@lm('Vec::len')
def _vl(ex, st, a, c): return ex.length(st, a[0])


@lm('Vec::is_empty')
def _ve(ex, st, a, c): return ex.length(st, a[0]) == 0


@lm('[]::contains')
def _contains(ex, st, a, c):
    v = ex.load(st, a[0]); x = ex.load(st, a[1])
    if isinstance(v, Opq) and isinstance(v.v, SymVec):
        out = []
        no = st.fork()
        for s, e in elements(ex, st, v.v):
            q = veq(ex, s, e, x)
            if q is False: continue
            if q is not True:
                if not ex.feasible(s, q): continue
                ex.assume(s, q)
            out.append((s, True))
        return out + [(no, False)]
    if isinstance(v, Arr): return z3.Or([ex.b(veq(ex, st, e, x)) for e in v.items] or [z3.BoolVal(False)])
    raise Unsupported('contains in %r' % (v,))


@lm('[]::binary_search_by_key')
def _bs(ex, st, a, c):
    """Ok(i): an element whose key equals the one sought; Err: anything (the slice need not be sorted)"""
    p, key, f = a
    n = ex.length(st, p)
    no = st.fork()
    i = ex.int_sym(ex.gensym('bs'), 'usize')
    ex.assume(st, i < n)
    out = [(no, ex.err(ex.int_sym(ex.gensym('bs'), 'usize'), 'Result<usize, usize>'))]
    if not ex.feasible(st, z3.BoolVal(True)): return out
    if p.path and p.path[-1][0] == 's': e = Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),))
    else: e = Ptr(p.cell, p.path + (('i', i),))
    kv = ex.load(st, key)
    for oc in ex.call_value(st, f, [e]):
        q = veq(ex, oc.st, oc.val, kv)
        if q is not True: ex.assume(oc.st, ex.b(q))
        if ex.feasible(oc.st, z3.BoolVal(True)): out.append((oc.st, ex.ok(i, 'Result<usize, usize>')))
    return out


def install_loops(ex, auto):
    ex.auto = auto; ex.subs = {}
    ex.axfn.append(subs_ax(ex))
    ex.models = dict(ex.models); ex.models.update(L)


@lm('alloc::exchange_malloc', 'exchange_malloc')
def _xm(ex, st, a, c): return Ptr(ex.alloc(st, None))


@lm('[]::into_vec', 'slice::into_vec', 'into_vec')
def _iv(ex, st, a, c): return ex.load(st, a[0])
