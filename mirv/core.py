"""Symbolic weakest-precondition engine over MIR: path-wise forward execution with z3 integers,
callee contracts, loop contracts, and an obligation ledger."""
import re, time, itertools
import z3
from mir import *
from src import SrcIndex

INTS = {}
for _b in (8, 16, 32, 64, 128):
    INTS['u%d' % _b] = (0, 2 ** _b - 1)
    INTS['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INTS['usize'] = INTS['u64']; INTS['isize'] = INTS['i64']; INTS['char'] = (0, 0x10ffff)
for _b in (8, 16, 32, 64, 128):
    INTS['NonZeroU%d' % _b] = (1, 2 ** _b - 1)
    INTS['NonZero<u%d>' % _b] = (1, 2 ** _b - 1)

STD_ENUMS = {
    'Option': [('None', 0, []), ('Some', 1, ['0'])],
    'Result': [('Ok', 0, ['0']), ('Err', 1, ['0'])],
    'ControlFlow': [('Continue', 0, ['0']), ('Break', 1, ['0'])],
    'Ordering': [('Less', -1, []), ('Equal', 0, []), ('Greater', 1, [])],
    'COption': [('None', 0, []), ('Some', 1, ['0'])],
    'Cow': [('Borrowed', 0, ['0']), ('Owned', 1, ['0'])],
    'ProgramError': [('Custom', 0, ['0']), ('InvalidArgument', 1, []), ('InvalidInstructionData', 2, []), ('InvalidAccountData', 3, []), ('AccountDataTooSmall', 4, []), ('InsufficientFunds', 5, []), ('IncorrectProgramId', 6, []), ('MissingRequiredSignature', 7, []), ('AccountAlreadyInitialized', 8, []), ('UninitializedAccount', 9, []), ('NotEnoughAccountKeys', 10, []), ('AccountBorrowFailed', 11, []), ('MaxSeedLengthExceeded', 12, []), ('InvalidSeeds', 13, []), ('BorshIoError', 14, ['0']), ('AccountNotRentExempt', 15, []), ('UnsupportedSysvar', 16, []), ('IllegalOwner', 17, []), ('MaxAccountsDataSizeExceeded', 18, []), ('ActiveVoteAccountClose', 19, [])],
    'TokenError': [('NotRentExempt', 0, []), ('InsufficientFunds', 1, []), ('InvalidMint', 2, []), ('MintMismatch', 3, []), ('OwnerMismatch', 4, []), ('FixedSupply', 5, []), ('AlreadyInUse', 6, []), ('InvalidNumberOfProvidedSigners', 7, []), ('InvalidNumberOfRequiredSigners', 8, []), ('UninitializedState', 9, []), ('NativeNotSupported', 10, []), ('NonNativeHasBalance', 11, []), ('InvalidInstruction', 12, []), ('InvalidState', 13, []), ('Overflow', 14, []), ('AuthorityTypeNotSupported', 15, []), ('MintCannotFreeze', 16, []), ('AccountFrozen', 17, []), ('MintDecimalsMismatch', 18, []), ('NonNativeNotSupported', 19, [])],
    'AccountState': [('Uninitialized', 0, []), ('Initialized', 1, []), ('Frozen', 2, [])],
}


def is_z3(x): return isinstance(x, z3.ExprRef)
def is_bool(x): return isinstance(x, bool) or isinstance(x, z3.BoolRef)
def is_int(x): return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, (z3.ArithRef, z3.BitVecRef))


class Rec:
    """struct / tuple / closure value; missing fields materialise lazily from `name`"""
    __slots__ = ('ty', 'name', 'f')

    def __init__(self, ty, name, f): self.ty = ty; self.name = name; self.f = f
    def __repr__(self): return '%s{%s}' % (self.ty if self.name is None else self.ty + '@' + str(self.name),
                                          ', '.join('%s:%r' % kv for kv in sorted(self.f.items(), key=lambda t: str(t[0]))))

    def set(self, i, v):
        g = dict(self.f); g[i] = v
        return Rec(self.ty, self.name, g)


class Enum:
    __slots__ = ('ty', 'name', 'd', 'f')

    def __init__(self, ty, name, d, f): self.ty = ty; self.name = name; self.d = d; self.f = f
    def __repr__(self): return '%s#%s%s' % (self.ty, self.d, self.f if self.f else '')


class Arr:
    __slots__ = ('ty', 'items')

    def __init__(self, ty, items): self.ty = ty; self.items = tuple(items)
    def __repr__(self): return 'Arr%r' % (self.items,)


class ZArr:
    """array/slice of integers with symbolic index: z3 array + length"""
    __slots__ = ('ety', 'a', 'n')

    def __init__(self, ety, a, n): self.ety = ety; self.a = a; self.n = n
    def __repr__(self): return 'ZArr(%s;%s)' % (self.a, self.n)


class Ptr:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return '&%s%s' % (self.cell, list(self.path) or '')
    def __eq__(self, o): return isinstance(o, Ptr) and self.cell == o.cell and _pk(self.path) == _pk(o.path)
    def __hash__(self): return hash((self.cell, _pk(self.path)))


def _pk(p): return tuple(x[:2] if x[0] == 'f' else x for x in p)


class FnVal:
    __slots__ = ('path', 'env')

    def __init__(self, path, env=None): self.path = path; self.env = env
    def __repr__(self): return 'fn ' + self.path


class Str:
    __slots__ = ('s',)

    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % self.s


class Opq:
    """opaque ghost value with a python payload (abstract data: books, queues, vectors)"""
    __slots__ = ('ty', 'v')

    def __init__(self, ty, v): self.ty = ty; self.v = v
    def __repr__(self): return 'Opq(%s,%r)' % (self.ty, self.v)


UNIT = Rec('()', None, {})


class Frame:
    __slots__ = ('fn', 'id', 'bb', 'ip', 'dest', 'ret', 'subst', 'visits', 'inloop')

    def copy(self):
        f = Frame(); f.fn = self.fn; f.id = self.id; f.bb = self.bb; f.ip = self.ip
        f.dest = self.dest; f.ret = self.ret; f.subst = self.subst; f.visits = dict(self.visits)
        f.inloop = self.inloop
        return f


class State:
    __slots__ = ('mem', 'frames', 'pc', 'pcset', 'ghost', 'trail', 'cut')

    def __init__(self):
        self.mem = {}; self.frames = []; self.pc = []; self.pcset = set(); self.ghost = {}; self.trail = (); self.cut = False

    def fork(self):
        s = State(); s.mem = dict(self.mem); s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc); s.pcset = set(self.pcset); s.ghost = dict(self.ghost); s.trail = self.trail; s.cut = self.cut
        return s


class Panic(Exception):
    def __init__(self, msg): self.msg = msg


class Outcome:
    def __init__(self, kind, st, val=None, msg=None): self.kind = kind; self.st = st; self.val = val; self.msg = msg


class Crate:
    """MIR + source index of one crate"""

    def __init__(self, mirfile, root, dirs=('src',), deps=()):
        self.root = root
        self.src = SrcIndex(root, dirs)
        self.fns, self.consts, self.allocs = parse_file(mirfile)
        for d in deps:          # functions and constants of the repository's crates it depends on
            f, c, a = parse_file(d, 'alloc77')
            self.fns = self.fns + f; self.allocs.update(a)
            for k, v in c.items(): self.consts.setdefault(k, v)
        self.enums = dict(STD_ENUMS); self.enums.update(self.src.enums)
        self.structs = self.src.structs
        self.by_method = {}
        self.closures = {}
        for f in self.fns:
            self._classify(f)
            if f.kind == 'ctfe' and any(g.name == f.name and g.kind == 'fn' for g in self.by_method.get(f.short, [])): continue
            self.by_method.setdefault(f.short, []).append(f)
            if '{closure#' in f.short and f.args:
                t = f.args[0][1]
                m = re.search(r'\[closure@[^\]]*\]', t)
                if m: self.closures[m.group(0)] = f
        self.cache = {}

    def _classify(self, f):
        segs = split_path(f.name)
        f.short = segs[-1]
        f.selfty = f.trait = None
        for k in range(len(segs) - 2, -1, -1):
            m = re.match(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>$', segs[k])
            if m and k == len(segs) - 2:
                h = self.src.impl_header(m.group(1), int(m.group(2)), int(m.group(3)))
                if h is None: break
                if h.startswith('derive '):
                    f.selfty = h[7:]; f.trait = '?'
                else:
                    h = re.sub(r'^(unsafe )?impl\s*', '', h)
                    if h.startswith('<'):
                        e = match_close(h, 0)
                        f.implgen = [x.split(':')[0].strip() for x in split_top(h[1:e]) if not x.strip().startswith("'")]
                        h = h[e + 1:].strip()
                    h = h.split(' where ')[0]
                    if ' for ' in h:
                        tr, ty = h.split(' for ', 1)
                        f.trait = ty_head(norm_ty(tr)); f.selfty = norm_ty(ty)
                    else: f.selfty = norm_ty(h)
                    al = self.src.alias.get(ty_head(f.selfty))
                    if al: f.selfty = norm_ty(al)
            break

    def variants(self, ty):
        return self.enums.get(ty_head(ty))

    def find(self, selfhead, method, nargs=None):
        """functions by (self type head or module, method)"""
        c = []
        for f in self.by_method.get(method, []):
            if f.selfty is not None:
                if selfhead is not None and ty_head(f.selfty) == selfhead: c.append(f)
            else:
                segs = split_path(f.name)
                if selfhead is None or (len(segs) > 1 and segs[-2] == selfhead): c.append(f)
        return c

    def fidx(self, struct, field):
        return self.structs[struct].index(field)

    def vidx(self, enum, variant, field):
        for nm, d, fl in self.enums[enum]:
            if nm == variant: return fl.index(field)
        raise KeyError(variant)

    def vdisc(self, enum, variant):
        for nm, d, fl in self.enums[enum]:
            if nm == variant: return d
        raise KeyError(variant)


_symcache = {}


def consts_of(e):
    """names of uninterpreted constants/function applications in a z3 expression (cached)"""
    k = e.get_id()
    r = _symcache.get(k)
    if r is not None: return r[1]
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _symcache: todo.pop(); continue
        if z3.is_quantifier(x): ch = [x.body()]
        elif z3.is_var(x): ch = []
        else: ch = x.children()
        miss = [c for c in ch if c.get_id() not in _symcache]
        if miss: todo.extend(miss); continue
        todo.pop()
        s = _none
        for c in ch:
            cs = _symcache[c.get_id()][1]
            if cs and not cs <= s: s = s | cs
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if ch: s = s | {'@' + str(i)}; _apps[i] = x
            else: s = s | {x.decl().name()}
        _symcache[i] = (x, s)
    return _symcache[k][1]


_none = frozenset()
_apps = {}


class Engine:
    counters = False    # loop counters as entry value + iteration number; facts about completed iterations at the loop head
    vecs = False        # Vec<T> values of unknown content as slices with symbolic index
    deadline = None     # wall-clock limit of one verification unit's exploration
    def __init__(self, crate, opts=None):
        self.crate = crate
        self.axioms = {}        # const name -> z3 bool (range of that symbol)
        self.axfn = [bit_axioms]          # functions app -> list of axioms (for uninterpreted function instances)
        self.watch = set()      # callees whose calls are recorded
        self.contracts = {}     # key -> python contract
        self.celltypes = {}
        self.ctr = itertools.count()
        self.fid = itertools.count()
        self.models = {}
        self.solver = z3.Solver(); self.solver.set('timeout', 250)
        self.sstack = []
        self.loop_bound = 8
        self.loop_specs = {}
        self.inlined = {}
        self.modelled = {}
        self.contracted = {}
        self.stats = dict(feas=0, feas_t=0.0, paths=0, panics=0, stmts=0)
        self.inline_hook = None
        self.max_paths = 20000
        self.obl = None         # ledger callback set by property code
        self.cutseen = {}
        self.auto = None        # loops.Auto: induction for loops without a contract of their own
        self.typecache = {}
        self.allow_inline = True
        self.cache_div = {}
        self.idxexpr = {}

    # ------------------------------------------------------------ symbols
    def gensym(self, base): return '%s!%d' % (base, next(self.ctr))

    def int_sym(self, name, ty):
        v = z3.Int(name)
        if name not in self.axioms:
            lo, hi = INTS[ty]
            self.axioms[name] = z3.And(v >= lo, v <= hi)
        return v

    def fresh(self, ty, name):
        ty = ty.strip()
        if ty in INTS: return self.int_sym(name, ty)
        if ty == 'bool': return z3.Bool(name)
        if ty == '()': return UNIT
        if ty[0] == '&' or ty.startswith('*const ') or ty.startswith('*mut '):
            t = re.sub(r'^(&mut |&|\*const |\*mut )', '', ty)
            cell = ('S', name)
            self.celltypes[cell] = t
            return Ptr(cell)
        if ty[0] == '(':
            return Rec(ty, name, {})
        if ty[0] == '[' and not ty.startswith('[closure'):
            p = split_top(ty[1:-1], ';')
            if len(p) == 2:
                try: n = int(p[1].replace('_usize', ''))
                except ValueError: n = None
                if n is not None:
                    if p[0] == 'u8' and n == 32: return Rec(ty, name, {})
                    if n <= 16 and not (p[0] == 'u8' and n == 32):
                        return Arr(p[0], [self.fresh(p[0], '%s[%d]' % (name, i)) for i in range(n)])
                    if p[0] in INTS:
                        return self.zarr(p[0], name, n)
            elif p[0] in INTS:
                ln = self.int_sym(name + '.len', 'usize')
                return self.zarr(p[0], name, ln)
            return Rec(ty, name, {})
        if ty_head(ty) == 'Vec' and self.vecs:
            t = ty_args(ty)[0]
            if t in INTS: return self.zarr(t, name, self.int_sym(name + '.len', 'usize'))
            return Rec('[%s]' % t, name, {})
        if ty_head(ty) == 'Box':
            t = ty_args(ty)[0]
            cell = ('S', name); self.celltypes[cell] = t
            return Ptr(cell)
        vs = self.crate.variants(ty)
        if vs is not None and ty_head(ty) not in self.crate.structs:
            d = z3.Int(name + '.d')
            ds = [x[1] for x in vs]
            if None in ds: raise Unsupported('enum discriminants of ' + ty)
            if (name + '.d') not in self.axioms:
                lo, hi = min(ds), max(ds)
                if len(ds) == hi - lo + 1: self.axioms[name + '.d'] = z3.And(d >= lo, d <= hi)
                else: self.axioms[name + '.d'] = z3.Or([d == x for x in ds])
            return Enum(ty, name, d, {})
        return Rec(ty, name, {})

    def zarr(self, ety, name, n):
        return ZArr(ety, z3.Array(name, z3.IntSort(), z3.IntSort()), n)

    def rng(self, st, v, ty):
        """assume v in range of ty"""
        lo, hi = INTS[ty]
        if is_z3(v): self.assume(st, z3.And(v >= lo, v <= hi))

    # ------------------------------------------------------------ path condition
    def _axs(self, st, e):
        for n in consts_of(e):
            if n in st.pcset: continue
            st.pcset.add(n)
            if n[0] == '@':
                x = _apps[int(n[1:])]
                for fn in self.axfn:
                    for a in fn(x) or ():
                        st.pc.append(a); self._axs(st, a)
            else:
                a = self.axioms.get(n)
                if a is not None:
                    st.pc.append(a); self._axs(st, a)

    def assume(self, st, c):
        if isinstance(c, bool):
            if not c: st.pc.append(z3.BoolVal(False))
            return
        c = z3.simplify(c) if z3.is_and(c) is False and False else c
        if z3.is_true(c): return
        self._axs(st, c)
        st.pc.append(c)

    def _sync(self, pc):
        # keep solver stack equal to pc (common prefix)
        k = 0
        ss = self.sstack
        m = min(len(ss), len(pc))
        while k < m and ss[k] is pc[k]: k += 1
        if len(ss) > k:
            self.solver.pop(len(ss) - k); del ss[k:]
        for c in pc[k:]:
            self.solver.push(); self.solver.add(c); ss.append(c)

    def feasible(self, st, c=None):
        if c is not None:
            if isinstance(c, bool):
                if not c: return False
                c = None
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c): return False
            if z3.is_true(c): c = None
        if c is None: return True   # states are kept feasible by construction
        self._axs(st, c)
        self._sync(st.pc)
        t = time.time()
        self.solver.push(); self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.stats['feas'] += 1; self.stats['feas_t'] += time.time() - t
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
        return r != z3.unsat

    def must(self, st, c):
        """c is implied by the path condition"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return not self.feasible(st, z3.Not(c))

    # ------------------------------------------------------------ types
    def subst(self, st, ty):
        sub = st.frames[-1].subst if st.frames else None
        if sub:
            def r(m): return sub.get(m.group(0), m.group(0))
            return re.sub(r'\b[A-Z]\w*\b', r, ty)
        return ty

    def place_ty(self, st, pl):
        fn = st.frames[-1].fn
        t = self.subst(st, fn.locals.get(pl[0], fn.ret if pl[0] == 0 else '?'))
        for p in pl[1]:
            if p[0] == '*':
                t = re.sub(r'^(&mut |&|\*const |\*mut )', '', t) if not t.startswith('Box<') else ty_args(t)[0]
            elif p[0] == 'f': t = self.subst(st, p[2])
            elif p[0] in 'ic':
                if t[0] == '[': t = split_top(t[1:-1], ';')[0]
        return t

    def op_ty(self, st, o):
        if o[0] in ('copy', 'move'): return self.place_ty(st, o[1])
        if o[0] == 'const': return o[2]
        if o[0] == 'uneval':
            m = re.match(r'Const \{ ty: (.*?), val: ', o[1])
            return norm_ty(m.group(1))
        if o[0] == 'constpath': return '?'
        return '?'

    # ------------------------------------------------------------ memory
    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            if c[0] == 'S':
                v = self.fresh(self.celltypes[c], c[1] + '*')
                st.mem[c] = v
            elif c[0] == 'L':
                raise Unsupported('read of uninitialised local %r' % (c,))
            else: raise Unsupported('unknown cell %r' % (c,))
        return v

    def getp(self, st, v, path):
        for k, p in enumerate(path):
            v = self.get1(st, v, p)
        return v

    def get1(self, st, v, p):
        t = p[0]
        if isinstance(v, Opq) and hasattr(v.v, 'get1'): return v.v.get1(self, st, v, p)
        if t == 'f':
            i = p[1]
            if isinstance(v, Rec):
                x = v.f.get(i)
                if x is None:
                    if v.name is None:
                        raise Unsupported('missing field %s of %r' % (i, v))
                    x = self.fresh(self.subst(st, p[2]), '%s.%s' % (v.name, self.fname(v.ty, i)))
                    v.f[i] = x
                return x
            if isinstance(v, tuple) and v[0] == 'variant':
                e, var = v[1], v[2]
                x = e.f.get((var, i))
                if x is None:
                    if e.name is None: raise Unsupported('missing payload %s.%s of %r' % (var, i, e))
                    x = self.fresh(self.subst(st, p[2]), '%s.%s.%s' % (e.name, var, i))
                    e.f[(var, i)] = x
                return x
            if is_int(v) and i == 0: return v     # newtype over int (NonZero)
            if isinstance(v, Ptr) and i == 0: return v   # Box/Unique/NonNull wrappers
            raise Unsupported('field of %r' % (v,))
        if t == 'v':
            if isinstance(v, Enum): return ('variant', v, p[1])
            raise Unsupported('downcast of %r' % (v,))
        if t == 'i':
            i = p[1]
            if isinstance(v, Arr):
                if isinstance(i, int): return v.items[i]
                raise Unsupported('symbolic index into concrete array')
            if isinstance(v, ZArr):
                e = z3.Select(v.a, i)
                return self.elem(st, v, e)
            if isinstance(v, Rec) and (isinstance(i, int) or v.ty in self.symidx):
                if not isinstance(i, int):
                    if self.counters: i = self.canon(self, i)
                    else:
                        i = z3.simplify(i)
                        i = i.as_long() if z3.is_int_value(i) else str(i).replace('\n', ' ')
                x = v.f.get(('i', i))
                if x is None and v.name is not None and v.ty.startswith('['):
                    et = split_top(v.ty[1:-1], ';')[0]
                    x = self.fresh(et, '%s[%s]' % (v.name, i))
                    v.f[('i', i)] = x
                if x is not None: return x
            raise Unsupported('index of %r' % (v,))
        if t == 's':
            if isinstance(v, Arr): return Arr(v.ty, v.items[p[1]:p[1] + p[2]])
            if isinstance(v, ZArr):
                if isinstance(p[1], int) and p[1] == 0: return ZArr(v.ety, v.a, p[2])
                j = z3.Int('j!s')
                return ZArr(v.ety, z3.Lambda([j], z3.Select(v.a, j + p[1])), p[2])
            if isinstance(v, Rec) and isinstance(p[1], int) and isinstance(p[2], int):
                return Arr(split_top(v.ty[1:-1], ';')[0], [self.get1(st, v, ('i', p[1] + k)) for k in range(p[2])])
            raise Unsupported('subslice of %r' % (v,))
        raise Unsupported('proj %r' % (p,))

    def elem(self, st, v, e):
        lo, hi = INTS[v.ety]
        self.assume(st, z3.And(e >= lo, e <= hi))
        return e

    def setp(self, st, v, path, nv):
        if not path: return nv
        p = path[0]; t = p[0]
        if isinstance(v, Opq) and hasattr(v.v, 'setp'): return v.v.setp(self, st, v, path, nv)
        if t == 'f':
            if v is None: v = Rec('?', None, {})
            if isinstance(v, Rec):
                if len(path) == 1: return v.set(p[1], nv)
                return v.set(p[1], self.setp(st, self.get1(st, v, p), path[1:], nv))
            if is_int(v) and p[1] == 0 and len(path) == 1: return nv
            raise Unsupported('set field of %r' % (v,))
        if t == 'v':
            q = path[1]
            if not isinstance(v, Enum) or q[0] != 'f': raise Unsupported('set variant of %r' % (v,))
            g = dict(v.f)
            if len(path) == 2: g[(p[1], q[1])] = nv
            else:
                old = self.get1(st, ('variant', v, p[1]), q)
                g = dict(v.f)
                g[(p[1], q[1])] = self.setp(st, old, path[2:], nv)
            return Enum(v.ty, v.name, v.d, g)
        if t == 'i':
            i = p[1]
            if isinstance(v, Arr) and isinstance(i, int):
                it = list(v.items); it[i] = self.setp(st, it[i], path[1:], nv)
                return Arr(v.ty, it)
            if isinstance(v, ZArr) and len(path) == 1:
                return ZArr(v.ety, z3.Store(v.a, i, nv), v.n)
            if isinstance(v, Rec) and isinstance(i, int):
                old = None if len(path) == 1 else self.get1(st, v, p)
                return v.set(('i', i), self.setp(st, old, path[1:], nv))
            raise Unsupported('set index of %r' % (v,))
        if t == 's':
            q = path[1] if len(path) > 1 else None
            if isinstance(v, Arr):
                sub = Arr(v.ty, v.items[p[1]:p[1] + p[2]])
                sub = self.setp(st, sub, path[1:], nv)
                its = sub.items if isinstance(sub, Arr) else None
                if its is None: raise Unsupported('slice store')
                return Arr(v.ty, v.items[:p[1]] + tuple(its) + v.items[p[1] + p[2]:])
            if q is not None and q[0] == 'i':
                return self.setp(st, v, (('i', p[1] + q[1]),) + tuple(path[2:]), nv)
            if isinstance(v, ZArr) and isinstance(p[2], int) and q is None:
                a = v.a
                for k in range(p[2]): a = z3.Store(a, p[1] + k, self.get1(st, nv, ('i', k)))
                return ZArr(v.ety, a, v.n)
            raise Unsupported('slice store of %r' % (v,))
        raise Unsupported('set %r' % (p,))

    def fname(self, ty, i):
        s = self.crate.structs.get(ty_head(ty))
        if s and isinstance(i, int) and i < len(s): return s[i]
        return i

    # resolve a MIR place to (cell, path)
    def resolve(self, st, pl):
        fr = st.frames[-1]
        cell, path = ('L', fr.id, pl[0]), []
        for p in pl[1]:
            t = p[0]
            if t == '*':
                v = self.getp(st, self.cell(st, cell), path)
                if isinstance(v, Ptr): cell, path = v.cell, list(v.path)
                elif isinstance(v, Str): cell, path = self.alloc(st, v), []
                else: raise Unsupported('deref of %r' % (v,))
            elif t == 'i':
                i = self.read(st, (p[1], []))
                path.append(('i', i))
            elif t == 'c':
                if p[2]:
                    n = self.length(st, Ptr(cell, path))
                    path.append(('i', n - p[1]))
                else: path.append(('i', p[1]))
            elif t == 's':
                n = self.length(st, Ptr(cell, path))
                end = n - p[2] if p[3] else p[2]
                path.append(('s', p[1], end - p[1]))
            elif t == 'f': path.append(('f', p[1], self.subst(st, p[2])))
            else: path.append(p)
            # collapse s + i
            if len(path) >= 2 and path[-1][0] == 'i' and path[-2][0] == 's':
                path[-2:] = [('i', path[-2][1] + path[-1][1])]
            elif len(path) >= 2 and path[-1][0] == 's' and path[-2][0] == 's':
                path[-2:] = [('s', path[-2][1] + path[-1][1], path[-1][2])]
        return cell, tuple(path)

    def length(self, st, ptr):
        if ptr.path and ptr.path[-1][0] == 's': return ptr.path[-1][2]
        v = self.getp(st, self.cell(st, ptr.cell), ptr.path)
        return self.vlen(st, v)

    def vlen(self, st, v):
        if isinstance(v, Opq) and hasattr(v.v, 'vlen'): return v.v.vlen(self, st)
        if isinstance(v, Arr): return len(v.items)
        if isinstance(v, ZArr): return v.n
        if isinstance(v, Str): return len(v.s)
        if isinstance(v, Rec) and v.ty.startswith('['):
            p = split_top(v.ty[1:-1], ';')
            if len(p) == 2: return int(p[1].replace('_usize', ''))
            if 'len' in v.f: return v.f['len']
            if v.name is not None: return self.int_sym('%s.len' % v.name, 'usize')
        raise Unsupported('len of %r' % (v,))

    def read(self, st, pl):
        c, p = self.resolve(st, pl)
        v = self.getp(st, self.cell(st, c), p)
        if isinstance(v, tuple): raise Unsupported('read of variant')
        return v

    def load(self, st, ptr):
        if isinstance(ptr, Str): return ptr
        if not isinstance(ptr, Ptr): raise Unsupported('load through %r' % (ptr,))
        return self.getp(st, self.cell(st, ptr.cell), ptr.path)

    def store(self, st, ptr, v):
        st.mem[ptr.cell] = self.setp(st, self.cell(st, ptr.cell) if ptr.path else None, ptr.path, v)

    def write(self, st, pl, v):
        c, p = self.resolve(st, pl)
        if not p: st.mem[c] = v
        else:
            base = st.mem.get(c)
            if base is None:
                if c[0] == 'L':
                    ty = self.subst(st, st.frames[-1].fn.locals.get(c[2], '?'))
                    vs = self.crate.variants(ty)
                    base = Enum(ty, None, None, {}) if vs and ty_head(ty) not in self.crate.structs else Rec(ty, None, {})
                else: base = self.cell(st, c)
            st.mem[c] = self.setp(st, base, p, v)

    def alloc(self, st, v, tag='A'):
        c = (tag, next(self.ctr))
        st.mem[c] = v
        return c

    # ------------------------------------------------------------ enum helpers
    def mk(self, ty, variant, *payload):
        for nm, d, fl in self.crate.variants(ty):
            if nm == variant: return Enum(ty, None, d, {(variant, i): p for i, p in enumerate(payload)})
        raise Unsupported('variant %s of %s' % (variant, ty))

    def some(self, v, ty='?'): return Enum('Option<%s>' % ty, None, 1, {('Some', 0): v})
    def none(self, ty='?'): return Enum('Option<%s>' % ty, None, 0, {})
    def ok(self, v=UNIT, ty='Result'): return Enum(ty, None, 0, {('Ok', 0): v})
    def err(self, v, ty='Result'): return Enum(ty, None, 1, {('Err', 0): v})

    def payload(self, st, e, variant, i=0, ty=None):
        if ty is None:
            ty = self.payload_ty(e.ty, variant)
        return self.get1(st, ('variant', e, variant), ('f', i, ty))

    def payload_ty(self, ty, variant):
        a = ty_args(ty)
        h = ty_head(ty)
        if h in ('Option', 'COption'): return a[0] if a else '?'
        if h == 'Result': return a[0 if variant == 'Ok' else 1] if a else '?'
        return '?'

    def split(self, st, e):
        """fork on the variant of an enum value -> [(state, variant)]"""
        if not isinstance(e, Enum): raise Unsupported('split of %r' % (e,))
        vs = self.crate.variants(e.ty)
        if isinstance(e.d, int):
            for nm, d, fl in vs:
                if d == e.d: return [(st, nm)]
            raise Unsupported('discriminant %r of %s' % (e.d, e.ty))
        out = []
        live = [(nm, d) for nm, d, fl in vs if self.feasible(st, e.d == d)]
        for k, (nm, d) in enumerate(live):
            s = st.fork() if k < len(live) - 1 else st
            self.assume(s, e.d == d)
            out.append((s, nm))
        return out

    def split_bool(self, st, b):
        """-> [(state, True/False)]"""
        if isinstance(b, bool): return [(st, b)]
        b = z3.simplify(b)
        if z3.is_true(b): return [(st, True)]
        if z3.is_false(b): return [(st, False)]
        t, f = self.feasible(st, b), self.feasible(st, z3.Not(b))
        if t and f:
            s2 = st.fork()
            self.assume(st, b); self.assume(s2, z3.Not(b))
            return [(st, True), (s2, False)]
        if t: self.assume(st, b); return [(st, True)]
        if f: self.assume(st, z3.Not(b)); return [(st, False)]
        return []

    # ------------------------------------------------------------ operands
    def operand(self, st, o):
        k = o[0]
        if k in ('copy', 'move'): return self.read(st, o[1])
        if k == 'const': return o[1]
        if k == 'unit': return UNIT
        if k == 'str': return Str(o[1])
        if k == 'bstr':
            b = o[1].encode().decode('unicode_escape').encode('latin1')
            return Ptr(self.alloc(st, Arr('u8', list(b))))
        if k == 'fnitem': return FnVal(o[1])
        if k == 'alloc': return self.alloc_const(st, o[1], o[2])
        if k == 'uneval': return self.uneval(st, o[1])
        if k == 'constpath': return self.constpath(st, o[1], o[2])
        if k == 'anon': return self.anon(st)
        raise Unsupported('operand %r' % (o,))

    EXTCONST = {'spl_token::state::Account::LEN': 165, 'spl_token::state::Mint::LEN': 82}

    def src_slice(self, loc):
        m = re.match(r'^(\S+?):(\d+):(\d+): (\d+):(\d+)', loc.strip())
        if not m or m.group(1) not in self.crate.src.lines: return None, None, None
        L = self.crate.src.lines[m.group(1)]
        a, b, c, d = (int(x) for x in m.groups()[1:])
        if a == c: t = L[a - 1][b - 1:d - 1]
        else: t = '\n'.join([L[a - 1][b - 1:]] + L[a:c - 1] + [L[c - 1][:d - 1]])
        return t, m.group(1), (c, d)

    def anon(self, st):
        """an integer constant the MIR printer elides: recovered from the source text at the statement's span"""
        fr = st.frames[-1]; fn = fr.fn
        t, f, end = self.src_slice(fn.blocks[fr.bb][fr.ip][2])
        vals = self.const_paths(st, t, fn) if t else []
        if not vals:
            for ip in range(fr.ip - 1, -1, -1):
                t2, f2, end = self.src_slice(fn.blocks[fr.bb][ip][2])
                if t2 is None or (f2 == f and t2 == t) or f2.endswith('error.rs'): continue
                L = self.crate.src.lines[f2]
                txt = L[end[0] - 1][end[1] - 1:] + '\n' + '\n'.join(L[end[0]:end[0] + 4])
                d = 0
                for i, ch in enumerate(txt):
                    if ch in '([{': d += 1
                    elif ch in ')]}':
                        d -= 1
                        if d < 0: txt = txt[:i]; break
                vals = self.const_paths(st, txt, fn)
                break
        if len(vals) != 1: raise Unsupported('elided constant at %s' % fn.blocks[fr.bb][fr.ip][2])
        return vals.pop()

    def const_paths(self, st, t, fn):
        t = re.sub(r'//[^\n]*', '', t)
        out = set()
        for m in re.finditer(r'(?:\w+(?:::<[^>]*>)?::)*\w+', t):
            p = m.group(0); segs = p.split('::')
            q = re.match(r'^(?:std::|core::)?(u\d+|i\d+|usize|isize)::(MAX|MIN|max_value|min_value)$', p)
            if q: out.add(INTS[q.group(1)][1 if q.group(2).lower().startswith('max') else 0]); continue
            if p in self.EXTCONST: out.add(self.EXTCONST[p]); continue
            if len(segs) >= 2:
                vs = self.crate.variants(segs[-2])
                if vs and re.match(r'^\s*as\b', t[m.end():]):
                    for x in vs:
                        if x[0] == segs[-1]: out.add(x[1])
            if re.match(r'^[A-Z][A-Z0-9_]*$', segs[-1]):
                cs = [(k, v) for k, v in self.crate.consts.items() if split_path(k)[-1] == segs[-1] and not k.startswith('promoted')]
                loc = [x for x in cs if x[0].startswith(fn.name)]
                if loc: cs = loc
                vals = set()
                for k, v in cs:
                    r = self.eval_const(st, v)
                    if isinstance(r, int): vals.add(r)
                if len(vals) == 1: out.add(vals.pop())
        return out

    def alloc_const(self, st, name, ty):
        a = self.crate.allocs.get(name)
        if a is None: raise Unsupported('alloc ' + name)
        t = re.sub(r'^(&mut |&|\*const |\*mut )', '', ty)
        cell = ('K', name)
        if cell not in st.mem:
            if not re.match(r'^([0-9a-f]{2} ?)*$', a[2]): raise Unsupported('alloc with pointers ' + name)
            b = bytes.fromhex(a[2].replace(' ', ''))
            if t == 'Pubkey': st.mem[cell] = self.pubkey(b)
            else: raise Unsupported('alloc type ' + t)
        return Ptr(cell)

    def pubkey(self, b):
        w = [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(4)]
        return Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', w)})})

    def uneval(self, st, lit):
        m = re.match(r'^Const \{ ty: (.*), val: Unevaluated\((.*)\) \}$', lit)
        ty = norm_ty(m.group(1))
        parts = split_top(m.group(2))
        path = parts[0]
        prom = parts[2] if len(parts) > 2 else 'None'
        mp = re.match(r'^Some\(promoted\[(\d+)\]\)$', prom)
        if mp:
            return self.promoted(st, path, int(mp.group(1)), ty)
        return self.named_const(st, path, ty)

    def promoted(self, st, path, n, ty):
        f = st.frames[-1].fn
        cf = f.promoted.get('promoted[%d]' % n) or self.crate.consts.get('promoted[%d] in %s' % (n, f.name))
        if cf is None: raise Unsupported('promoted %s %d' % (f.name, n))
        return self.eval_const(st, cf)

    def named_const(self, st, path, ty):
        nm = split_path(path)[-1]
        for key in (path, nm):
            if key in self.constmodels: return self.constmodels[key](self, st)
        cf = self.crate.consts.get(path)
        if cf is None:
            c = parse_callee(path)
            cand = []
            for k, v in self.crate.consts.items():
                if split_path(k)[-1] != nm: continue
                self.crate._classify(v)
                if c.selfty:
                    if v.selfty and ty_head(v.selfty) == ty_head(self.subst(st, c.selfty)): cand.append(v)
                elif v.selfty is None or c.selfty is None: cand.append(v)
            if len(cand) == 1: cf = cand[0]
        if cf is None: raise Unsupported('constant ' + path)
        return self.eval_const(st, cf)

    constmodels = {}

    def eval_const(self, st, cf):
        """run a constant's MIR (must be single path)"""
        s = st.fork()
        n = len(s.frames)
        self.push(s, cf, [], None, None)
        outs = self.run_until(s, n)
        outs = [o for o in outs if o.kind == 'ret']
        if len(outs) != 1: raise Unsupported('constant %s' % cf.name)
        # import memory cells created
        for c, v in outs[0].st.mem.items():
            if c not in st.mem: st.mem[c] = v
        return outs[0].val

    def constpath(self, st, c, lits):
        if c.startswith('ZeroSized: '):
            t = c[11:].strip()
            if t.startswith('[closure@'):
                return Rec(t, None, {'$sub': st.frames[-1].subst} if st.frames and st.frames[-1].subst else {})
            if t.startswith('fn(') or '{' in t: return FnVal(re.search(r'\{(.*)\}', t).group(1))
            return Rec(norm_ty(t), None, {})
        for key in (c, split_path(c)[-1]):
            if key in self.constmodels: return self.constmodels[key](self, st)
        # unit enum variant: Path::<..>::Variant
        segs = split_path(c)
        if len(segs) >= 2:
            v = segs[-1]
            pre = [x for x in segs[:-1] if not x.startswith('<')]
            if pre:
                ty = norm_ty(pre[-1])
                vs = self.crate.variants(ty)
                if vs and any(x[0] == v for x in vs): return self.mk(ty, v)
        if c.startswith('(') and c.endswith(')') and match_close(c, 0) == len(c) - 1:
            fs = [self.operand(st, const(x, [])) for x in split_top(c[1:-1]) if x]
            return Rec('(tuple)', None, dict(enumerate(fs)))
        m = re.match(r'^((?:Result|Option)(?:::<.*>)?)::(Ok|Err|Some)\((.*)\)$', re.sub(r'^(std|core)::(result|option)::', '', c))
        if m:
            gen = m.group(1).replace('::<', '<', 1)
            d = {'Ok': 0, 'Err': 1, 'Some': 1}[m.group(2)]
            return Enum(norm_ty(gen), None, d, {(m.group(2), 0): self.operand(st, const(m.group(3), []))})
        m = re.match(r'^(\w+)\((.*)\)$', norm_ty(c))
        lit = None
        if m:      # e.g. U64F64(123_u128), SlabTreeError::OutOfSpace
            fs = [const(x, []) for x in split_top(m.group(2))]
            if all(x[0] == 'const' for x in fs): return Rec(m.group(1), None, {i: x[1] for i, x in enumerate(fs)})
        m = re.match(r'^([\w:<>, ]+) \{ (.*) \}$', c)
        if m:
            fs = {}
            for i, a in enumerate(split_top(m.group(2))):
                x = const(a.split(': ', 1)[1], [])
                if x[0] != 'const': x = None; break
                fs[i] = x[1]
            else: return Rec(norm_ty(m.group(1)), None, fs)
        if re.match(r'^[A-Za-z_<]', c) and not re.search(r'[({]', c):
            ct = norm_ty(c)
            if re.match(r'^\w+$', ct) and ct[0].isupper():
                cf = [v for k, v in self.crate.consts.items() if split_path(k)[-1] == ct]
                if len(cf) == 1: return self.eval_const(st, cf[0])
                return Rec(ct, None, {})   # unit struct / ZST
            if '::' in c: return FnVal(c)
        for l in lits:
            if 'fn(' in l: return FnVal(c)
        raise Unsupported('const ' + c)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, ty):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'Eq': return a == b
            if op == 'Ne': return not (a == b)
            raise Unsupported('pointer op ' + op)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if is_bool(a) and is_bool(b):
                if op == 'Eq': return (a == b) if not (is_z3(a) or is_z3(b)) else self.b(a) == self.b(b)
                if op == 'Ne': return (a != b) if not (is_z3(a) or is_z3(b)) else self.b(a) != self.b(b)
                raise Unsupported('bool order')
            if not (is_int(a) and is_int(b)): raise Unsupported('%s on %r %r' % (op, a, b))
            r = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
                 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
            return r
        if is_bool(a):
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if not is_z3(a) and not is_z3(b):
                    return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op]
                A, B = self.b(a), self.b(b)
                return {'BitAnd': z3.And(A, B), 'BitOr': z3.Or(A, B), 'BitXor': A != B}[op]
            raise Unsupported('bool op ' + op)
        if not (is_int(a) and is_int(b)): raise Unsupported('%s on %r, %r' % (op, a, b))
        lo, hi = INTS[ty]
        m = hi - lo + 1
        if op in ('CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            k = op.replace('Checked', '').replace('WithOverflow', '')
            r = a + b if k == 'Add' else a - b if k == 'Sub' else a * b
            if is_z3(r):
                ov = z3.Or(r < lo, r > hi)
                return Rec('(%s, bool)' % ty, None, {0: ('ovf', r, ty), 1: ov})
            return Rec('(%s, bool)' % ty, None, {0: self.wrap(r, ty), 1: not (lo <= r <= hi)})
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = a + b if op.startswith('Add') else a - b if op.startswith('Sub') else a * b
            return self.wrap(r, ty)
        if op in ('Div', 'Rem'):
            return self.divrem(st, a, b, ty)[0 if op == 'Div' else 1]
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if isinstance(b, int):
                w = m.bit_length() - 1
                b %= w
                if op.startswith('Shl'):
                    r = a * (2 ** b)
                    if is_z3(r) and lo == 0 and self.must(st, r <= hi): return r
                    return self.wrap(r, ty)
                if lo < 0: raise Unsupported('signed shr')
                return a // (2 ** b) if isinstance(a, int) else self.divrem(st, a, 2 ** b, ty)[0]
            return self.shift(st, op, a, b, ty)
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, int): return x & y
                if isinstance(y, int):
                    if y == 0: return 0
                    if y == hi: return x
                    if ty == 'u128' and bitmask(y, hi)[0] is not None: return self.bitfn(st, 'and', x, y, ty)
                    return self.andmask(st, x, y, ty)
            return self.bitfn(st, 'and', a, b, ty)
        if op == 'BitOr':
            if isinstance(a, int) and isinstance(b, int): return a | b
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 0: return x
                if isinstance(y, int) and y & (y - 1) == 0 and y > 0:
                    if ty == 'u128': return self.bitfn(st, 'or', x, y, ty)
                    bit = self.andmask(st, x, y, ty)
                    return x + (y - bit)
            for x, y in ((a, b), (b, a)):       # disjoint halves
                for k in (64, 32, 16, 8, 1):
                    if is_z3(x) and self.must(st, x % (2 ** k) == 0) and self.must(st, self.z(y) < 2 ** k): return x + y
            return self.bitfn(st, 'or', a, b, ty)
        if op == 'BitXor':
            if isinstance(a, int) and isinstance(b, int): return a ^ b
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == hi: return hi - x
            return self.bitfn(st, 'xor', a, b, ty)
        if op == 'Offset':
            raise Unsupported('Offset')
        raise Unsupported('binop ' + op)

    def bitfn(self, st, k, a, b, ty):
        """and/or/xor with a symbolic single-bit mask (1 << s) or its complement"""
        hi = INTS[ty][1]
        for x, y in ((a, b), (b, a)):
            s, neg = bitmask(y, hi)
            if s is None: continue
            X = self.z(x)
            if k == 'and' and not neg: return z3.If(BIT(X, s), self.z(y) if isinstance(y, int) else POW2(s), 0)
            if k == 'and' and neg: return CLRB(X, s)
            if k == 'or' and not neg: return SETB(X, s)
            if k == 'xor' and not neg: return z3.If(BIT(X, s), CLRB(X, s), SETB(X, s))
        raise Unsupported('bit %s' % k)

    def shift(self, st, op, a, b, ty):
        if op.startswith('Shl') and isinstance(a, int) and a == 1:
            w = (INTS[ty][1] + 1).bit_length() - 1
            if self.must(st, z3.And(b >= 0, b < w)): return POW2(b)
        if op.startswith('Shr') and not (isinstance(a, int)):
            pass
        raise Unsupported('symbolic shift')

    def andmask(self, st, x, mask, ty):
        """x & mask for constant mask, as arithmetic over runs of set bits"""
        r = 0
        k = 0
        mm = mask
        while mm:
            while not mm & 1: mm >>= 1; k += 1
            n = 0
            while mm & 1: mm >>= 1; n += 1
            # bits [k, k+n)
            q = self.divrem(st, x, 2 ** k, ty)[0] if k else x
            part = self.divrem(st, q, 2 ** n, ty)[1]
            r = r + part * (2 ** k)
            k += n
        return r

    def z(self, x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
    def b(self, x): return z3.BoolVal(x) if isinstance(x, bool) else x

    def wrap(self, r, ty):
        lo, hi = INTS[ty]
        m = hi - lo + 1
        if isinstance(r, int): return (r - lo) % m + lo
        if lo == 0: return ('wrapint', r, m) and z3.If(z3.And(r >= 0, r <= hi), r, r % m)
        return z3.If(z3.And(r >= lo, r <= hi), r, (r - lo) % m + lo)

    def divrem(self, st, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0: raise Panic('division by zero')
            return a // b, a % b
        if INTS[ty][0] < 0: raise Unsupported('signed division')
        # name quotient and remainder: a == q*b + r, 0 <= r < b  (b > 0 already asserted by MIR)
        key = ('div', self.z(a).get_id(), self.z(b).get_id())
        ent = self.cache_div.get(key)
        if ent is None:
            q, r = z3.Int(self.gensym('q')), z3.Int(self.gensym('r'))
            self.cache_div[key] = ent = (q, r, self.z(a), self.z(b))
            self.axioms[q.decl().name()] = z3.And(self.z(a) == q * self.z(b) + r, r >= 0, r < self.z(b), q >= 0, q <= self.z(a))
            self.axioms[r.decl().name()] = z3.And(self.z(a) == q * self.z(b) + r, r >= 0, r < self.z(b), q >= 0, q <= self.z(a))
        q, r = ent[0], ent[1]
        return q, r


    def cast_int(self, v, to):
        lo, hi = INTS[to]
        if is_bool(v): return (1 if v else 0) if not is_z3(v) else z3.If(v, 1, 0)
        if isinstance(v, Enum):
            v = v.d
        if isinstance(v, int): return self.wrap(v, to)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, rv, destty):
        k = rv[0]
        if k == 'use': return self.operand(st, rv[1])
        if k == 'ref':
            c, p = self.resolve(st, rv[2])
            if p and p[-1][0] == 'v': raise Unsupported('ref of variant')
            if c[0] == 'S' or c[0] == 'L' or True: return Ptr(c, p)
        if k == 'bin':
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            ta = self.op_ty(st, rv[2])
            if ta not in INTS: ta = self.op_ty(st, rv[3])
            if isinstance(a, Enum): a = a.d
            if isinstance(b, Enum): b = b.d
            r = self.binop(st, rv[1], a, b, ta)
            if isinstance(r, Rec) and isinstance(r.f.get(0), tuple):
                _, x, ty = r.f[0]
                r = Rec(r.ty, None, {0: x, 1: r.f[1]})   # the overflow flag is asserted before .0 is used
            return r
        if k == 'un':
            a = self.operand(st, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, bool): return not a
                if is_bool(a): return z3.Not(a)
                ty = self.op_ty(st, rv[2])
                lo, hi = INTS[ty]
                return hi - a if lo == 0 else -1 - a
            return -a
        if k == 'discr':
            v = self.read(st, rv[1])
            if not isinstance(v, Enum): raise Unsupported('discriminant of %r' % (v,))
            return v.d
        if k == 'len':
            c, p = self.resolve(st, rv[1])
            return self.length(st, Ptr(c, p))
        if k == 'cast':
            v = self.operand(st, rv[1])
            kind, to = rv[3], self.subst(st, rv[2])
            if kind == 'IntToInt':
                fr = self.op_ty(st, rv[1])
                if isinstance(v, Enum): v = v.d
                if is_z3(v) and not is_bool(v) and fr in INTS and to in INTS:
                    lo, hi = INTS[to]; l2, h2 = INTS[fr]
                    if l2 >= lo and h2 <= hi: return v
                    if lo == 0 and l2 == 0: return self.divrem(st, v, hi + 1, fr)[1] if not self.must(st, v <= hi) else v
                    if self.must(st, z3.And(v >= lo, v <= hi)): return v
                    return self.wrap(v, to)
                return self.cast_int(v, to)
            if kind in ('PtrToPtr', 'PointerCoercion(Unsize)', 'PointerCoercion(MutToConstPointer)',
                        'PointerCoercion(ArrayToPointer)', 'Pointer(Unsize)', 'Misc'):
                if isinstance(v, (Ptr, Str)): return self.ptr_cast(st, v, self.op_ty(st, rv[1]), to, kind)
                return v
            if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'): return v
            if kind == 'Transmute':
                return self.transmute(st, v, self.op_ty(st, rv[1]), to)
            raise Unsupported('cast ' + kind)
        if k == 'tuple':
            return Rec(destty, None, {i: self.operand(st, o) for i, o in enumerate(rv[1])}) if rv[1] else UNIT
        if k == 'array':
            return Arr(self.elem_ty(destty), [self.operand(st, o) for o in rv[1]])
        if k == 'repeat':
            n = rv[2].replace('_usize', '').replace('const ', '')
            v = self.operand(st, rv[1])
            if not n.isdigit():
                m = re.match(r'^\[.*; (\d+)\]$', destty)
                if not m: raise Unsupported('repeat ' + rv[2])
                n = m.group(1)
            n = int(n)
            if n > 16 and is_int(v):
                return ZArr(self.elem_ty(destty), z3.K(z3.IntSort(), self.z(v)), n)
            return Arr(self.elem_ty(destty), [v] * n)
        if k == 'closure':
            f = {i: self.operand(st, o) for i, o in enumerate(rv[2])}
            if st.frames and st.frames[-1].subst: f['$sub'] = st.frames[-1].subst
            return Rec(rv[1], None, f)
        if k == 'adt': return self.adt(st, rv[1], rv[2], destty)
        if k == 'sizeof':
            try: return self.sizeof(rv[1])
            except Unsupported: return self.int_sym('sizeof.' + norm_ty(rv[1]), 'usize')
        if k == 'alignof': return self.int_sym(self.gensym('align'), 'usize')
        if k == 'shallowbox': return self.operand(st, rv[1])
        raise Unsupported('rvalue %s' % k)

    def elem_ty(self, ty):
        m = re.match(r'^\[(.*); .*\]$', ty)
        return m.group(1) if m else '?'

    SIZES = {'Pubkey': 32, 'bool': 1, 'NonZeroU64': 8, 'NonZeroU32': 4, 'NonZeroU16': 2}
    symidx = set()      # slice types whose elements are addressed by (distinct) symbolic indices

    def sizeof(self, ty):
        ty = norm_ty(ty)
        s = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8, 'i64': 8}.get(ty) or self.SIZES.get(ty)
        if s is None and ty.startswith('['):
            p = split_top(ty[1:-1], ';')
            if len(p) == 2 and p[1].strip().replace('_usize', '').isdigit(): return self.sizeof(p[0]) * int(p[1].strip().replace('_usize', ''))
        if s is None and ty in self.crate.src.stypes:
            s = 0
            for t in self.crate.src.stypes[ty]: s += self.sizeof(t)
        if s is None and ty in self.crate.enums and ty not in STD_ENUMS:
            mx = max(x[1] for x in self.crate.enums[ty])
            for tx in self.crate.src.text.values():
                m = re.search(r'#\[repr\((u\d+)\)\]\s*(?:pub(?:\([^)]*\))?\s+)?enum\s+%s\b' % ty, tx)
                if m: return self.sizeof(m.group(1))
        if s is None: raise Unsupported('sizeof ' + ty)
        return s

    def ptr_cast(self, st, v, fr, to, kind):
        return v

    def transmute(self, st, v, fr, to):
        if to in INTS and is_int(v): return v
        raise Unsupported('transmute %s -> %s' % (fr, to))

    def adt(self, st, path, fs, destty):
        vals = [self.operand(st, o) for _, o in fs]
        segs = [x for x in split_path(path)]
        base = [x for x in segs if not x.startswith('<')]
        last = norm_ty(base[-1])
        if len(base) >= 2:
            ty = norm_ty(base[-2])
            vs = self.crate.variants(ty)
            if vs and any(x[0] == last for x in vs):
                d = [x[1] for x in vs if x[0] == last][0]
                tt = destty if ty_head(destty) == ty_head(ty) else ty
                return Enum(tt, None, d, {(last, i): v for i, v in enumerate(vals)})
        vs = self.crate.variants(destty)
        if vs and ty_head(destty) not in self.crate.structs and any(x[0] == last for x in vs):
            d = [x[1] for x in vs if x[0] == last][0]
            return Enum(destty, None, d, {(last, i): v for i, v in enumerate(vals)})
        names = self.crate.structs.get(ty_head(last))
        f = {}
        for i, (nm, _) in enumerate(fs):
            if names and nm in names: f[names.index(nm)] = vals[i]
            else: f[i] = vals[i]
        return Rec(destty if ty_head(destty) == ty_head(last) else last, None, f)

    # ------------------------------------------------------------ control
    def push(self, st, fn, args, dest, ret, subst=None):
        fr = Frame(); fr.fn = fn; fr.id = next(self.fid); fr.bb = 0; fr.ip = 0; fr.dest = dest; fr.ret = ret
        fr.subst = subst; fr.visits = {}; fr.inloop = ()
        if len(fn.args) != len(args):
            raise Unsupported('arity of %s: %d args' % (fn.name, len(args)))
        for (n, t), a in zip(fn.args, args): st.mem[('L', fr.id, n)] = a
        st.frames.append(fr)

    def stmt(self, fn, bb, ip):
        k = (bb, ip)
        s = fn.parsed.get(k)
        if s is None:
            s = fn.parsed[k] = parse_stmt(fn.blocks[bb][ip])
        return s

    def run(self, fn, args, st):
        self.inlined[fn.name] = fn
        self.push(st, fn, args, None, None)
        return self.run_until(st, len(st.frames) - 1)

    def run_until(self, st0, depth):
        """run until the frame stack returns to `depth`; -> [Outcome]"""
        work = [st0]; outs = []
        while work:
            st = work.pop()
            try:
                while True:
                    r = self.step(st, depth)
                    if r is None: continue
                    if isinstance(r, Outcome):
                        outs.append(r); break
                    work.extend(r); break
            except Panic as p:
                outs.append(Outcome('panic', st, msg=p.msg))
                self.stats['panics'] += 1
            except Unsupported as e:
                if not hasattr(e, 'where'):
                    e.where = ' < '.join('%s bb%d' % (f.fn.name.split('::')[-1] if '{closure' not in f.fn.name else '::'.join(f.fn.name.split('::')[-2:]), f.bb) for f in st.frames[::-1][:6])
                    e.args = (str(e) + ' [in ' + e.where + ']',)
                raise
            if len(outs) + len(work) > self.max_paths: raise Unsupported('path budget exhausted')
        self.stats['paths'] += len(outs)
        return outs

    def goto(self, st, bb):
        fr = st.frames[-1]
        c = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = c
        if c > self.loop_bound + 1:
            raise LoopBound(fr.fn, bb)
        fr.bb = bb; fr.ip = 0

    def step(self, st, depth):
        fr = st.frames[-1]
        fn = fr.fn
        if fr.ip == 0 and (self.loop_specs or self.auto is not None):
            r = self.loop_entry(st, fr)
            if r is not None: return r
        try:
            s = self.stmt(fn, fr.bb, fr.ip)
        except (MirError, IndexError, KeyError) as e:
            raise Unsupported('%s bb%d[%d]: %s' % (fn.name, fr.bb, fr.ip, e))
        self.stats['stmts'] += 1
        k = s[0]
        if k == 'nop': fr.ip += 1; return None
        if k == 'assign':
            dty = self.place_ty(st, s[1])
            v = self.rvalue(st, s[2], dty)
            self.write(st, s[1], v)
            fr.ip += 1
            return None
        if k == 'goto': return self._lb(st, s[1])
        if k == 'goto_drop':
            return self._lb(st, s[2])
        if k == 'switch':
            v = self.operand(st, s[1])
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Enum): v = v.d
            if isinstance(v, int):
                for a, b in s[2]:
                    if a == v: return self._lb(st, b)
                return self._lb(st, s[3])
            isb = is_bool(v)
            ty = self.op_ty(st, s[1])
            tg, cond = [], []
            for a, b in s[2]:
                if isb: c = v if a else z3.Not(v)
                else:
                    if ty in INTS and INTS[ty][0] < 0 and a > INTS[ty][1]: a = a - 2 ** (INTS[ty][1].bit_length() + 1)
                    c = v == a
                cond.append(c)
                tg.append((c, b))
            if s[3] is not None: tg.append((z3.And([z3.Not(c) for c in cond]) if len(cond) > 1 else z3.Not(cond[0]), s[3]))
            live = []
            for i, (c, b) in enumerate(tg):
                if i == len(tg) - 1 and not live: live.append((c, b))   # states are feasible: one arm must be
                elif self.is_unreachable(fn, b): continue
                elif self.feasible(st, c): live.append((c, b))
            if len(live) == 1:
                self.assume(st, live[0][0])
                return self._lb(st, live[0][1])
            out = []
            for c, b in live:
                s2 = st.fork()
                self.assume(s2, c)
                try: self.goto(s2, b)
                except LoopBound as e:
                    self.cut(s2, e); continue
                out.append(s2)
            return out
        if k == 'assert':
            v = self.operand(st, s[1])
            want = s[2]
            if isinstance(v, bool):
                if v != want: raise Panic(s[3])
                return self._lb(st, s[4])
            c = v if want else z3.Not(v)
            r = self.on_assert(st, c, s[3], fn, fn.blocks[fr.bb][fr.ip][2])
            if r is False: raise Panic(s[3])
            self.assume(st, c)
            return self._lb(st, s[4])
        if k == 'call': return self.call(st, fr, s)
        if k == 'return':
            v = st.mem.get(('L', fr.id, 0), UNIT)
            st.frames.pop()
            for key in [c for c in st.mem if c[0] == 'L' and c[1] == fr.id]:
                pass
            if len(st.frames) == depth: return Outcome('ret', st, v)
            self.write(st, fr.dest, v)
            return self._lb(st, fr.ret)
        if k == 'unreachable': raise Panic('unreachable')
        if k == 'resume': raise Panic('unwind')
        if k == 'setdiscr':
            v = self.read(st, s[1])
            self.write(st, s[1], Enum(v.ty, v.name, s[2], v.f)); fr.ip += 1; return None
        if k == 'assume':
            v = self.operand(st, s[1])
            self.assume(st, v); fr.ip += 1; return None
        raise Unsupported('stmt ' + k)

    def is_unreachable(self, fn, bb):
        b = fn.blocks.get(bb)
        return b is not None and len(b) == 1 and b[0][0].startswith('unreachable')

    def cut(self, st, e):
        if self.auto is not None:
            hs = [(len(b), h) for h, b in self.cfg(e.fn)[1].items() if e.bb in b]
            if hs and (e.fn.name, min(hs)[1]) not in self.auto.heads:
                self.auto.heads.add((e.fn.name, min(hs)[1])); self.auto.changed = True
                return
        self.cutseen[(e.fn.name, e.bb)] = self.cutseen.get((e.fn.name, e.bb), 0) + 1

    def _lb(self, st, bb):
        try: self.goto(st, bb)
        except LoopBound as e:
            self.cut(st, e)
            return []
        return None

    def on_assert(self, st, c, msg, fn, loc):
        """an MIR assert (overflow, bounds, div by zero).  Default: the failing side is an abort
        (no state is returned); record it for callers that demand its absence."""
        hook = st.ghost.get('assert_hook')
        if hook: hook(self, st, c, msg, fn, loc)
        if not self.feasible(st, c): return False
        return True

    # ------------------------------------------------------------ loop contracts
    def cfg(self, fn):
        """successors, loop headers, blocks of each natural loop"""
        c = self._cfg.get(id(fn))
        if c is not None: return c
        succ = {}
        for bb in fn.blocks:
            try: s = self.stmt(fn, bb, len(fn.blocks[bb]) - 1)
            except Exception: succ[bb] = []; continue
            k = s[0]
            if k == 'goto': succ[bb] = [s[1]]
            elif k == 'goto_drop': succ[bb] = [s[2]]
            elif k == 'switch': succ[bb] = [b for _, b in s[2]] + ([s[3]] if s[3] is not None else [])
            elif k == 'assert': succ[bb] = [s[4]]
            elif k == 'call': succ[bb] = [s[4]] if s[4] is not None else []
            else: succ[bb] = []
        heads = {}
        color = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) == 1: heads.setdefault(n, set()).add(b)
                elif n not in color:
                    color[n] = 1; stack.append((n, iter(succ.get(n, [])))); break
            else:
                color[b] = 2; stack.pop()
        pred = {}
        for b, ns in succ.items():
            for n in ns: pred.setdefault(n, set()).add(b)
        body = {}
        for h, tails in heads.items():
            blk = {h}; todo = list(tails)
            while todo:
                x = todo.pop()
                if x in blk: continue
                blk.add(x); todo.extend(pred.get(x, ()))
            body[h] = blk
        mod = {}
        for h, blk in body.items():
            m = set()
            for b in blk:
                for ip in range(len(fn.blocks[b])):
                    s = self.stmt(fn, b, ip)
                    if s[0] == 'assign': m.add(s[1][0]) if not any(p[0] == '*' for p in s[1][1]) else None
                    elif s[0] == 'call' and s[1] is not None: m.add(s[1][0])
                    elif s[0] == 'setdiscr': m.add(s[1][0])
                    # locals borrowed mutably inside the loop may change through the reference
                    if s[0] == 'assign' and s[2][0] == 'ref' and 'mut' in str(s[2][1]) and not any(p[0] == '*' for p in s[2][2][1]):
                        m.add(s[2][2][0])
            mod[h] = m
        c = (succ, body, mod)
        self._cfg[id(fn)] = c
        return c

    _cfg = {}

    def auto_entry(self, st, fr):
        key = (fr.fn.name, fr.bb)
        if key not in self.auto.heads:
            if not self.auto.eager(fr.fn.name) or fr.bb not in self.cfg(fr.fn)[1]: return None
            self.auto.heads.add(key)
        import loops
        hdr = [x for x in fr.inloop if x[0] == 'auto' and x[1] == fr.bb]
        if not hdr:
            h = loops.head(self, st, key)
            fr.inloop = fr.inloop + (('auto', fr.bb, h),)
            fr.visits = {}
            return None
        loops.back(self, st, hdr[0][2])
        return []

    def loop_entry(self, st, fr):
        spec = self.loop_specs.get(fr.fn.name)
        if spec is None: return self.auto_entry(st, fr) if self.auto is not None else None
        succ, body, mod = self.cfg(fr.fn)
        if fr.bb not in body: return None
        inside = any(x[0] == 'in' and x[1] == fr.bb for x in fr.inloop)
        key = (fr.fn.name, fr.bb)
        if not inside:
            spec.start(self, st, fr)
            for nm, g in spec.inv(self, st, fr): spec.prove(self, st, 'loop invariant on entry: ' + nm, g)
            # candidate invariants over the loop-modified locals, filtered by Houdini iterations
            cands = spec.cands.get(key)
            ini = {}
            for l in mod[fr.bb]:
                v = st.mem.get(('L', fr.id, l))
                if v is not None: ini[l] = v
            gh = spec.ghosts(self, st)
            if cands is None:
                cands = set()
                for l, v in ini.items():
                    cands.add((l, 'init'))
                    for g in gh: cands.add((l, g))
                spec.cands[key] = cands
            for (l, g) in list(cands):
                if l not in ini: cands.discard((l, g)); continue
                if g != 'init' and not self.cand_holds(st, ini[l], gh[g]): cands.discard((l, g)); spec.changed = True
            # havoc
            for l in mod[fr.bb]:
                cell = ('L', fr.id, l)
                if cell not in st.mem: continue
                ty = self.subst(st, fr.fn.locals.get(l, '?'))
                if ty.startswith('&') or ty.startswith('*'):
                    # a reference re-assigned in the loop: keep it only if it never changes
                    if (l, 'init') in cands: continue
                    del st.mem[cell]; continue
                if isinstance(st.mem[cell], (Opq, FnVal)) or (isinstance(st.mem[cell], Rec) and st.mem[cell].name is None and ty not in INTS and not self.scalar_ty(ty)):
                    h = spec.havoc_local(self, st, fr, l, ty, st.mem[cell])
                    if h is None: del st.mem[cell]
                    else: st.mem[cell] = h
                    continue
                st.mem[cell] = self.fresh(ty, self.gensym('loop.%d' % l))
            spec.havoc(self, st, fr)
            gh = spec.ghosts(self, st)
            for (l, g) in sorted(cands, key=str):
                v = st.mem.get(('L', fr.id, l))
                if v is None: continue
                e = self.cand_eq(st, v, ini[l] if g == 'init' else gh[g])
                if e is not None: self.assume(st, self.b(e))
            for nm, g in spec.inv(self, st, fr): self.assume(st, self.b(g))
            fr.inloop = fr.inloop + (('in', fr.bb, ini),)
            fr.visits = {}
            return None
        # back edge
        ini = [x[2] for x in fr.inloop if x[0] == 'in' and x[1] == fr.bb][0]
        gh = spec.ghosts(self, st)
        cands = spec.cands[key]
        for (l, g) in list(cands):
            v = st.mem.get(('L', fr.id, l))
            if v is None: cands.discard((l, g)); spec.changed = True; continue
            if not self.cand_holds(st, v, ini[l] if g == 'init' else gh[g]): cands.discard((l, g)); spec.changed = True
        for nm, g in spec.inv(self, st, fr): spec.prove(self, st, 'loop invariant preserved: ' + nm, g)
        spec.iter_end(self, st, fr)
        return []

    def scalar_ty(self, ty): return ty in INTS or ty == 'bool' or self.crate.variants(ty) is not None

    def cand_eq(self, st, a, b):
        import models
        try: return models.veq(self, st, a, b)
        except Unsupported: return None
        except Exception: return None

    def cand_holds(self, st, a, b):
        if a is b: return True
        if isinstance(a, Ptr) != isinstance(b, Ptr): return False
        if isinstance(a, Ptr): return a == b
        e = self.cand_eq(st, a, b)
        if e is None: return False
        return self.must(st, e)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, s):
        _, dest, path, args, tgt, loc, lits = s
        if path.startswith('move ') or re.match(r'^_\d+$', path) or path.startswith('('):
            f = self.operand(st, operand(path, []))
            vals = [self.operand(st, a) for a in args]
            return self.invoke(st, f, vals, dest, tgt)
        c = parse_callee(path)
        vals = [self.operand(st, a) for a in args]
        return self.dispatch(st, c, vals, dest, tgt)

    def subst_callee(self, st, c):
        sub = st.frames[-1].subst if st.frames else None
        if not sub or not (c.selfty or c.gen): return c
        d = Callee(); d.raw = c.raw; d.trait = c.trait; d.method = c.method; d.mod = c.mod; d.traitgen = c.traitgen
        d.selfty = self.subst(st, c.selfty) if c.selfty else None
        d.gen = [self.subst(st, g) for g in c.gen]
        return d

    def dispatch(self, st, c, vals, dest, tgt):
        c = self.subst_callee(st, c)
        self.dest_ty = self.place_ty(st, dest) if dest is not None else None
        key = c.key()
        if key in self.watch: st.ghost['called'] = st.ghost.get('called', ()) + ((key, tuple(vals), len(st.pc)),)
        con = self.lookup(self.contracts, c)
        if con is not None:
            self.contracted[key] = self.contracted.get(key, 0) + 1
            return self.finish(st, con(self, st, vals, c), dest, tgt)
        f = self.resolve_fn(c, vals)
        if f is not None:
            self.inlined[f.name] = f
            self.push(st, f, vals, dest, tgt, self.infer_subst(st, f, c, vals))
            if len(st.frames) > 60: raise Unsupported('call depth')
            return None
        mod = self.lookup(self.models, c)
        if mod is not None:
            self.modelled[key] = self.modelled.get(key, 0) + 1
            return self.finish(st, mod(self, st, vals, c), dest, tgt)
        raise Unsupported('no contract, body or model for callee %s  [%s]' % (key, c.raw[:160]))

    def lookup(self, table, c):
        k = c.key()
        r = table.get(k)
        if r is not None: return r
        if c.trait:
            r = table.get('<* as %s>::%s' % (c.trait, c.method))
            if r is not None: return r
            r = table.get('%s::%s' % (ty_head(c.selfty), c.method)) if table is self.contracts else None
            if r is not None: return r
        if c.mod and table.get(c.method) is not None: return table.get(c.method)
        if c.selfty and c.selfty.startswith('['): return table.get('[]::' + c.method)
        if c.selfty and c.selfty in INTS: return table.get('int::' + c.method)
        return None

    def resolve_fn(self, c, vals):
        if not self.allow_inline: return None
        m = c.method
        cands = self.crate.by_method.get(m)
        if not cands: return None
        if re.match(r'^<(std|core|alloc)::', c.raw): return None
        if c.selfty is not None:
            h = ty_head(c.selfty)
            fs = [f for f in cands if f.selfty is not None and ty_head(f.selfty) == h]
            if c.trait: fs = [f for f in fs if f.trait in (c.trait, '?')]
            else: fs = [f for f in fs if f.trait is None] or fs
            if len(fs) > 1 and c.traitgen:
                g = [f for f in fs if any(a[1] == c.traitgen[0] for a in f.args)]
                if g: fs = g
            if len(fs) == 1: return fs[0]
            if len(fs) > 1:
                # macro/derive generated twins: same name, pick by arity and self type of first arg
                g = [f for f in fs if len(f.args) == len(vals)]
                if len(g) >= 1 and len(set(x.name for x in g)) == 1: return g[-1]
                h2 = [f for f in g if split_path(f.name)[0] + '::' in c.raw]
                if len(h2) == 1: return h2[0]
                raise Unsupported('ambiguous callee %s' % c.raw)
            # macro generated impls: `$T`
            fs = [f for f in cands if f.selfty is not None and '$' in f.selfty and not c.trait]
            if fs:
                rx = r'\b%s\b' % re.escape(h)
                g = [f for f in fs if f.args and ty_head(f.args[0][1].replace('&mut ', '').lstrip('&')) == h]
                r = [f for f in fs if re.search(rx, f.ret)]
                if len(r) == 1 and len(g) != 1: g = r
                elif len(g) != 1: g = g + [x for x in r if x not in g]
                elif len(r) == 1 and r[0] is not g[0] and m == 'new': g = r
                if len(g) == 1: return g[0]
                if len(g) > 1: raise Unsupported('ambiguous macro callee %s' % c.raw)
            # enum/struct constructor fns appear as fns too
            fs = [f for f in cands if f.selfty is None and split_path(f.name)[-2:-1] == [h] and len(f.args) == len(vals)]
            if len(fs) >= 1: return fs[0]
            return None
        fs = [f for f in cands if f.selfty is None]
        if c.mod and len(fs) > 0:
            segs = split_path(c.raw)
            segs = [x for x in segs if not x.startswith('<') or x.startswith('<impl')]
            best = [f for f in fs if split_path(f.name)[-2:] == segs[-2:]]
            if best: return best[0] if len(best) == 1 or len(set(x.name for x in best)) == 1 else self.amb(c)
            # nested fn inside a method: state::Type::method::nested
            nested = [f for f in fs if len(split_path(f.name)) > 2 and split_path(f.name)[-2] == c.mod]
            if len(nested) == 1: return nested[0]
            if len(fs) == 1 and len(split_path(fs[0].name)) == 1 and segs[0] in ('crate', 'self'): return fs[0]
            return None
        if not c.mod:
            cur = None
            if len(fs) == 1: return fs[0]
            if fs and len(set(x.name for x in fs)) == 1: return fs[-1]
        return None

    def amb(self, c): raise Unsupported('ambiguous callee ' + c.raw)

    def infer_subst(self, st, f, c, vals):
        """bind the impl's / function's generic type parameters from the call's self type"""
        sub = {}
        if f.implgen and c.selfty and f.selfty:
            a, b = ty_args(f.selfty), ty_args(c.selfty)
            a = [x for x in a if not x.startswith("'")]
            for x, y in zip(a, b):
                if x in f.implgen: sub[x] = y
            if f.selfty in f.implgen: sub[f.selfty] = c.selfty
        if c.gen:
            for x, y in zip(self.crate.src.fn_generics(f.short), [g for g in c.gen if not g.startswith("'")]):
                if x != y: sub[x] = y
        return sub or None

    def finish(self, st, r, dest, tgt):
        """contract/model result: value | list of (state, value) | ('invoke', ...)"""
        if isinstance(r, list):
            out = []
            for s, v in r:
                if isinstance(v, Panic):
                    s.ghost['panic'] = v.msg
                    self.stats['panics'] += 1
                    self.note_panic(s, v)
                    continue
                if isinstance(v, tuple) and v and v[0] == 'invoke':
                    q = self.invoke(s, v[1], v[2], dest, tgt, post=v[3] if len(v) > 3 else None)
                    if q is None: out.append(s)
                    else: out.extend(q)
                    continue
                if tgt is None: continue
                self.write(s, dest, v)
                try: self.goto(s, tgt)
                except LoopBound as e: self.cut(s, e); continue
                out.append(s)
            return out
        if isinstance(r, tuple) and r and r[0] == 'invoke':
            return self.invoke(st, r[1], r[2], dest, tgt, post=r[3] if len(r) > 3 else None)
        if tgt is None: raise Panic('diverging call')
        self.write(st, dest, r)
        return self._lb(st, tgt)

    def note_panic(self, st, p): pass

    def invoke(self, st, f, args, dest, tgt, post=None):
        """call a closure or fn value synchronously in-place; `post` maps its result"""
        if post is not None:
            outs = self.call_value(st, f, args)
            res = []
            for o in outs:
                res.append((o.st, post(o.st, o.val)))
            return self.finish(st, res, dest, tgt)
        if isinstance(f, Ptr): f = self.load(st, f)
        if isinstance(f, Rec) and f.ty.startswith('[closure'):
            fn = self.crate.closures.get(f.ty)
            if fn is None: raise Unsupported('closure ' + f.ty)
            a0 = f
            if fn.args[0][1].startswith('&'): a0 = Ptr(self.alloc(st, f))
            self.inlined[fn.name] = fn
            self.push(st, fn, [a0] + list(args), dest, tgt, f.f.get('$sub'))
            return None
        if isinstance(f, FnVal):
            return self.dispatch(st, parse_callee(f.path), list(args), dest, tgt)
        raise Unsupported('invoke %r' % (f,))

    def call_value(self, st, f, args, env_ptr=None):
        """run closure/fn to completion -> [Outcome] (panics dropped)"""
        if isinstance(f, Ptr): env_ptr = f; f = self.load(st, f)
        d = len(st.frames)
        if isinstance(f, Rec) and f.ty.startswith('[closure'):
            fn = self.crate.closures.get(f.ty)
            if fn is None: raise Unsupported('closure ' + f.ty)
            a0 = f
            if fn.args[0][1].startswith('&'): a0 = env_ptr or Ptr(self.alloc(st, f))
            self.inlined[fn.name] = fn
            # closure called with a tuple of args is flattened in MIR of the closure body
            self.push(st, fn, [a0] + list(args), None, None, f.f.get('$sub'))
            return [o for o in self.run_until(st, d) if o.kind == 'ret']
        if isinstance(f, FnVal):
            return self.call_path(st, f.path, args)
        raise Unsupported('call of %r' % (f,))

    def call_path(self, st, path, args):
        c = parse_callee(path)
        c = self.subst_callee(st, c)
        self.dest_ty = None
        d = len(st.frames)
        con = self.lookup(self.contracts, c)
        if con is None:
            f = self.resolve_fn(c, args)
            if f is not None:
                self.inlined[f.name] = f
                self.push(st, f, args, None, None, self.infer_subst(st, f, c, args))
                return [o for o in self.run_until(st, d) if o.kind == 'ret']
            con = self.lookup(self.models, c)
        else: self.contracted[c.key()] = self.contracted.get(c.key(), 0) + 1
        if con is None:
            # tuple-struct / variant constructor
            segs = [x for x in split_path(path) if not x.startswith('<')]
            if len(segs) >= 2:
                ty = norm_ty(segs[-2])
                vs = self.crate.variants(ty)
                if vs and any(x[0] == segs[-1] for x in vs):
                    return [Outcome('ret', st, self.mk(ty, segs[-1], *args))]
            if segs[-1] in self.crate.structs:
                return [Outcome('ret', st, Rec(segs[-1], None, dict(enumerate(args))))]
            raise Unsupported('no body or model for ' + path)
        r = con(self, st, list(args), c)
        if isinstance(r, list):
            outs = []
            for s, v in r:
                if isinstance(v, Panic): continue
                if isinstance(v, tuple) and v and v[0] == 'invoke':
                    for o in self.call_value(s, v[1], v[2]):
                        outs.append(Outcome('ret', o.st, v[3](o.st, o.val) if len(v) > 3 and v[3] else o.val))
                else: outs.append(Outcome('ret', s, v))
            return outs
        if isinstance(r, tuple) and r and r[0] == 'invoke':
            return [Outcome('ret', o.st, r[3](o.st, o.val) if len(r) > 3 and r[3] else o.val) for o in self.call_value(st, r[1], r[2])]
        return [Outcome('ret', st, r)]


_I = z3.IntSort()
BIT = z3.Function('BIT', _I, _I, z3.BoolSort())      # bit s of x
POW2 = z3.Function('POW2', _I, _I)
SETB = z3.Function('SETB', _I, _I, _I)               # x | 1 << s
CLRB = z3.Function('CLRB', _I, _I, _I)               # x & !(1 << s)
TZ = z3.Function('TZ', _I, _I, _I)                   # trailing zeros of a w-bit x


def bitmask(y, hi):
    """(s, complemented) if y is 1 << s or !(1 << s)"""
    if isinstance(y, int) and not isinstance(y, bool):
        for v, neg in ((y, False), (hi - y, True)):
            if v > 0 and v & (v - 1) == 0: return z3.IntVal(v.bit_length() - 1), neg
    if not is_z3(y): return None, False
    y = z3.simplify(y)
    if z3.is_app(y) and y.decl().name() == 'POW2': return y.arg(0), False
    d = z3.simplify(hi - y)
    if z3.is_app(d) and d.decl().name() == 'POW2': return d.arg(0), True
    return None, False


def bit_axioms(x):
    n = x.decl().name()
    if n == 'BIT':
        v, k = x.children()
        vn = v.decl().name() if z3.is_app(v) else ''
        if vn == 'SETB': yield x == z3.Or(k == v.arg(1), BIT(v.arg(0), k))
        elif vn == 'CLRB': yield x == z3.And(k != v.arg(1), BIT(v.arg(0), k))
        elif vn == 'POW2': yield x == (k == v.arg(0))
        elif vn == 'if':
            yield x == z3.If(v.arg(0), BIT(v.arg(1), k), BIT(v.arg(2), k))
        else:
            if z3.is_int_value(v):
                n = v.as_long()
                if n == 0: yield z3.Not(x)
                elif bin(n).count('1') <= 64: yield x == z3.Or([k == i for i in range(n.bit_length()) if n >> i & 1])
                elif n < 2 ** 128: yield x == z3.And([k >= 0, k < 128] + [k != i for i in range(128) if not n >> i & 1])
            else:
                yield z3.Implies(v == 0, z3.Not(x)); yield z3.Implies(v == 2 ** 128 - 1, z3.Implies(z3.And(k >= 0, k < 128), x))
                c = z3.simplify(2 ** 128 - 1 - v)
                if len(str(c)) < len(str(v)) and z3.is_app(c) and c.num_args() <= 2 and not z3.is_int_value(c): yield z3.Implies(z3.And(k >= 0, k < 128), x == z3.Not(BIT(c, k)))
    elif n == 'POW2': yield x >= 1
    elif n == 'SETB': yield z3.And(x >= x.arg(0), x > 0)
    elif n == 'CLRB': yield z3.And(x >= 0, x <= x.arg(0))
    elif n == 'TZ':
        v, w = x.children()
        yield z3.And(x >= 0, x <= w, (v == 0) == (x == w), z3.Implies(v != 0, BIT(v, x)))


class LoopSpec:
    """contract of the loops of one function"""

    def __init__(self): self.cands = {}; self.changed = False; self.led = None; self.name = ''
    def start(self, ex, st, fr): pass
    def inv(self, ex, st, fr): return []
    def ghosts(self, ex, st): return {}
    def havoc(self, ex, st, fr): pass
    def havoc_local(self, ex, st, fr, l, ty, v): return None
    def iter_end(self, ex, st, fr): pass

    def prove(self, ex, st, name, g):
        if self.led is not None: self.led.prove(ex, st, '%s: %s' % (self.name, name), g)


def houdini(mk, spec, rounds=12):
    """run mk() (a full exploration) until the candidate loop invariants are stable; returns the last result"""
    led = spec.led; spec.led = None
    for _ in range(rounds):
        spec.changed = False
        mk(False)
        if not spec.changed: break
    else: raise Unsupported('loop invariants did not stabilise')
    spec.led = led
    return mk(True)


class LoopBound(Exception):
    def __init__(self, fn, bb): self.fn = fn; self.bb = bb
