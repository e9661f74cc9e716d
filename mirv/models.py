"""Models (assumed contracts) of the Rust standard library and tiny external helpers used by the verified code.
Every model that a run relies on is listed in the evidence as an assumed contract."""
import z3
from core import *

M = {}


def model(*keys):
    def d(f):
        for k in keys: M[k] = f
        return f
    return d


# ---------------------------------------------------------------- helpers
def words(ex, st, v):
    """the four 64-bit words of a Pubkey / [u8;32] / [u64;4] value"""
    if isinstance(v, (Ptr,)): v = ex.load(st, v)
    if isinstance(v, Opq) and hasattr(v.v, 'words'): return v.v.words(ex, st)
    if isinstance(v, Arr) and len(v.items) == 4: return list(v.items)
    if isinstance(v, Rec):
        if ty_head(v.ty) == 'Pubkey': return words(ex, st, ex.get1(st, v, ('f', 0, '[u8; 32]')))
        if 'w' not in v.f:
            if v.name is None: raise Unsupported('words of %r' % (v,))
            v.f['w'] = Arr('u64', [ex.int_sym('%s.w%d' % (v.name, i), 'u64') for i in range(4)])
        return list(v.f['w'].items)
    raise Unsupported('words of %r' % (v,))


def veq(ex, st, a, b):
    """structural equality -> bool | z3 Bool"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b: return True
        return veq(ex, st, ex.load(st, a), ex.load(st, b))
    if isinstance(a, (Ptr,)): return veq(ex, st, ex.load(st, a), b)
    if isinstance(b, (Ptr,)): return veq(ex, st, a, ex.load(st, b))
    if is_bool(a) and is_bool(b):
        return a == b if not (is_z3(a) or is_z3(b)) else ex.b(a) == ex.b(b)
    if is_int(a) and is_int(b): return a == b
    if isinstance(a, Str) and isinstance(b, Str): return a.s == b.s
    if isinstance(a, Opq) and hasattr(a.v, 'eq'): return a.v.eq(ex, st, b)
    if isinstance(b, Opq) and hasattr(b.v, 'eq'): return b.v.eq(ex, st, a)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.items) != len(b.items): return False
        return conj([veq(ex, st, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, ZArr) and isinstance(b, ZArr):
        return conj([a.n == b.n, a.a == b.a]) if a.a is not b.a else (a.n == b.n)
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a is b: return True
        if ty_head(a.ty) == 'Pubkey' or a.ty in ('[u8; 32]',) or 'w' in a.f or 'w' in b.f:
            return conj([x == y for x, y in zip(words(ex, st, a), words(ex, st, b))])
        if a.name is not None and a.name == b.name:
            ks = [k for k in set(a.f) | set(b.f)]
        else:
            n = ex.crate.structs.get(ty_head(a.ty))
            ks = list(range(len(n))) if n is not None else sorted(set(a.f) | set(b.f), key=str)
        out = []
        for k in ks:
            x, y = a.f.get(k), b.f.get(k)
            if x is None or y is None:
                if x is None and y is None and a.name is None: continue
                ref = x if x is not None else y
                if x is None and a.name is not None and is_int(ref): x = ex.fresh('u64', '%s.%s' % (a.name, ex.fname(a.ty, k)))
                if y is None and b.name is not None and is_int(ref): y = ex.fresh('u64', '%s.%s' % (b.name, ex.fname(b.ty, k)))
                if x is None or y is None: raise Unsupported('equality of %r and %r' % (a, b))
            out.append(veq(ex, st, x, y))
        return conj(out)
    if isinstance(a, Enum) and isinstance(b, Enum):
        if a is b: return True
        cs = [a.d == b.d]
        vs = ex.crate.variants(a.ty)
        for nm, d, fl in vs:
            if isinstance(a.d, int) and a.d != d: continue
            if isinstance(b.d, int) and b.d != d: continue
            inner = []
            for i in range(len(fl)):
                x, y = a.f.get((nm, i)), b.f.get((nm, i))
                if x is None and a.name is not None: x = ex.payload(st, a, nm, i, _pty(ex, a, nm, i, y))
                if y is None and b.name is not None: y = ex.payload(st, b, nm, i, _pty(ex, b, nm, i, x))
                if x is None or y is None: raise Unsupported('equality payload %r %r' % (a, b))
                inner.append(veq(ex, st, x, y))
            c = conj(inner)
            if c is not True: cs.append(z3.Implies(ex.b(a.d == d) if is_z3(a.d) else z3.BoolVal(a.d == d), ex.b(c)))
        return conj(cs)
    raise Unsupported('equality of %r and %r' % (a, b))


def _pty(ex, e, nm, i, other):
    t = ex.payload_ty(e.ty, nm)
    return t


def conj(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
            continue
        out.append(c)
    if not out: return True
    return z3.And(out) if len(out) > 1 else out[0]


def neg(b): return (not b) if isinstance(b, bool) else z3.Not(b)


def deref(ex, st, v): return ex.load(st, v) if isinstance(v, Ptr) else v


# ---------------------------------------------------------------- comparison
@model('<* as PartialEq>::eq')
def _eq(ex, st, a, c): return veq(ex, st, a[0], a[1])


@model('<* as PartialEq>::ne')
def _ne(ex, st, a, c): return neg(veq(ex, st, a[0], a[1]))


def num(ex, st, v):
    while isinstance(v, Ptr): v = ex.load(st, v)
    if isinstance(v, Enum): v = v.d
    if not is_int(v): raise Unsupported('ordering of %r' % (v,))
    return v


@model('<* as PartialOrd>::lt')
def _lt(ex, st, a, c): return num(ex, st, a[0]) < num(ex, st, a[1])
@model('<* as PartialOrd>::le')
def _le(ex, st, a, c): return num(ex, st, a[0]) <= num(ex, st, a[1])
@model('<* as PartialOrd>::gt')
def _gt(ex, st, a, c): return num(ex, st, a[0]) > num(ex, st, a[1])
@model('<* as PartialOrd>::ge')
def _ge(ex, st, a, c): return num(ex, st, a[0]) >= num(ex, st, a[1])


@model('<* as Ord>::cmp')
def _cmp(ex, st, a, c):
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    if not is_z3(x) and not is_z3(y): return Enum('Ordering', None, (x > y) - (x < y), {})
    return Enum('Ordering', None, z3.If(x < y, -1, z3.If(x == y, 0, 1)), {})


@model('<* as PartialOrd>::partial_cmp')
def _pcmp(ex, st, a, c): return ex.some(_cmp(ex, st, a, c), 'Ordering')


def _min(ex, st, a, c):
    x, y = a
    if not (is_int(x) and is_int(y)): raise Unsupported('min')
    return [(s, x if t else y) for s, t in ex.split_bool(st, x <= y)]


def _max(ex, st, a, c):
    x, y = a
    if not (is_int(x) and is_int(y)): raise Unsupported('max')
    return [(s, x if t else y) for s, t in ex.split_bool(st, x >= y)]


for k in ('<* as Ord>::min', 'cmp::min', 'min'): M[k] = _min
for k in ('<* as Ord>::max', 'cmp::max', 'max'): M[k] = _max


# ---------------------------------------------------------------- conversions
@model('<* as Into>::into', '<* as From>::from')
def _into(ex, st, a, c):
    if c.method == 'into':
        to, fr = c.traitgen[0], c.selfty
    else:
        to, fr = c.selfty, c.traitgen[0]
    to, fr = ex.subst(st, to), ex.subst(st, fr)
    if to == fr: return a[0]
    if to in INTS and fr in INTS or (to in INTS and fr == 'bool'): return ex.cast_int(a[0], to)
    if c.method == 'into':
        # crate impl of From
        for f in ex.crate.by_method.get('from', []):
            if f.selfty and ty_head(f.selfty) == ty_head(to) and f.args and f.args[0][1] == fr:
                ex.inlined[f.name] = f
                n = len(st.frames)
                ex.push(st, f, a, None, None)
                return [(o.st, o.val) for o in ex.run_until(st, n) if o.kind == 'ret']
        # derive(IntoPrimitive): `impl From<Enum> for int`
        if to in INTS and isinstance(a[0], Enum): return a[0].d
        if ty_head(to) == 'BitFlags' and isinstance(a[0], Enum): return Rec(to, None, {0: a[0].d})
        if to == 'ProgramError': return Rec('ProgramError', None, {0: a[0]})
    else:
        if to in INTS and isinstance(a[0], Enum): return a[0].d
        if ty_head(to) == 'BitFlags' and isinstance(a[0], Enum): return Rec(to, None, {0: a[0].d})
    raise Unsupported('conversion %s -> %s' % (fr, to))


@model('<* as TryInto>::try_into', '<* as TryFrom>::try_from')
def _tryinto(ex, st, a, c):
    to = c.traitgen[0] if c.method == 'try_into' else c.selfty
    v = a[0]
    if to in INTS and is_int(v):
        lo, hi = INTS[to]
        return [(s, ex.ok(v, 'Result<%s, TryFromIntError>' % to) if t else ex.err(Rec('TryFromIntError', None, {}), 'Result<%s, TryFromIntError>' % to))
                for s, t in ex.split_bool(st, conj([v >= lo, v <= hi]))]
    f = [f for f in ex.crate.by_method.get('try_from_primitive', []) if f.selfty and ty_head(f.selfty) == ty_head(to)]
    if f:
        n = len(st.frames)
        ex.push(st, f[-1], a, None, None)
        return [(o.st, o.val) for o in ex.run_until(st, n) if o.kind == 'ret']
    raise Unsupported('try_into ' + to)


@model('<* as TryFromPrimitive>::try_from_primitive')
def _tfp(ex, st, a, c):
    """num_enum derive: Ok(variant) iff the number is a discriminant"""
    vs = ex.crate.variants(c.selfty)
    v = a[0]
    ok = z3.Or([ex.z(v) == d for _, d, _ in vs]) if is_z3(v) else any(v == d for _, d, _ in vs)
    ty = 'Result<%s, TryFromPrimitiveError>' % c.selfty
    return [(s, ex.ok(Enum(c.selfty, None, v, {}), ty) if t else ex.err(Rec('TryFromPrimitiveError', None, {}), ty)) for s, t in ex.split_bool(st, ok)]


@model('<* as Clone>::clone', '<* as ToOwned>::to_owned', '<* as CloneFrom>::clone')
def _clone(ex, st, a, c): return deref(ex, st, a[0])


@model('<* as Default>::default')
def _default(ex, st, a, c):
    t = c.selfty
    if t in INTS: return 0
    if t == 'bool': return False
    if t == 'Pubkey': return ex.pubkey(bytes(32))
    if ty_head(t) == 'Option': return ex.none(ty_args(t)[0])
    raise Unsupported('default of ' + t)


M['Pubkey::default'] = lambda ex, st, a, c: ex.pubkey(bytes(32))


# ---------------------------------------------------------------- Try
@model('<* as Try>::branch')
def _branch(ex, st, a, c):
    h = ty_head(c.selfty)
    out = []
    for s, v in ex.split(st, a[0]):
        if v in ('Ok', 'Some'):
            out.append((s, ex.mk('ControlFlow', 'Continue', ex.payload(s, a[0], v, 0, ty_args(c.selfty)[0]))))
        elif v == 'Err':
            out.append((s, ex.mk('ControlFlow', 'Break', Enum('Result<Infallible, %s>' % ty_args(c.selfty)[1], None, 1,
                       {('Err', 0): ex.payload(s, a[0], 'Err', 0, ty_args(c.selfty)[1])}))))
        else: out.append((s, ex.mk('ControlFlow', 'Break', ex.none())))
    return out


@model('<* as FromResidual>::from_residual')
def _fromres(ex, st, a, c):
    if ty_head(c.selfty) == 'Option': return Enum(c.selfty, None, 0, {})
    e2 = ty_args(c.selfty)[1]
    r = a[0]
    e = r.f.get(('Err', 0))
    e1 = ty_args(c.traitgen[0])[1]
    if e1 == e2: return Enum(c.selfty, None, 1, {('Err', 0): e})
    k = Callee(); k.raw = 'From'; k.selfty = e1; k.trait = 'Into'; k.method = 'into'; k.traitgen = [e2]; k.gen = []; k.mod = None
    v = ex.err_convert(st, e, e1, e2)
    return Enum(c.selfty, None, 1, {('Err', 0): v})


def _err_convert(self, st, e, e1, e2):
    for f in self.crate.by_method.get('from', []):
        if f.selfty and ty_head(f.selfty) == ty_head(e2) and f.args and f.args[0][1] == e1:
            s = st.fork()
            n = len(s.frames)
            self.push(s, f, [e], None, None)
            o = [o for o in self.run_until(s, n) if o.kind == 'ret']
            if len(o) == 1: return o[0].val
    return Rec(e2, None, {'from': e})


Engine.err_convert = _err_convert


# ---------------------------------------------------------------- Option / Result
def _opt(variant_ok, panic):
    def f(ex, st, a, c):
        v = deref(ex, st, a[0])
        out = []
        for s, n in ex.split(st, v):
            if n == variant_ok: out.append((s, ex.payload(s, v, n)))
            else: out.append((s, Panic(panic)))
        if len(out) == 1 and isinstance(out[0][1], Panic): raise out[0][1]
        return out
    return f


M['Option::unwrap'] = _opt('Some', 'unwrap on None'); M['Option::expect'] = M['Option::unwrap']
M['Result::unwrap'] = _opt('Ok', 'unwrap on Err'); M['Result::expect'] = M['Result::unwrap']
M['Result::unwrap_err'] = _opt('Err', 'unwrap_err on Ok')
M['Result::expect_err'] = M['Result::unwrap_err']
M['Option::unwrap_unchecked'] = M['Option::unwrap']


def _test(variant):
    def f(ex, st, a, c):
        v = deref(ex, st, a[0])
        d = ex.crate.vdisc(ty_head(v.ty), variant)
        return v.d == d
    return f


M['Option::is_some'] = _test('Some'); M['Option::is_none'] = _test('None')
M['Result::is_ok'] = _test('Ok'); M['Result::is_err'] = _test('Err')


@model('Option::map', 'Result::map')
def _map(ex, st, a, c):
    v, f = a[0], a[1]
    out = []
    for s, n in ex.split(st, v):
        if n in ('Some', 'Ok'):
            w = (lambda t, r: ex.some(r, c.gen[0] if c.gen else '?')) if n == 'Some' else (lambda t, r: ex.ok(r, 'Result<%s, %s>' % (c.gen[0] if c.gen else '?', ex.payload_ty(v.ty, 'Err'))))
            out.append((s, ('invoke', f, [ex.payload(s, v, n)], w)))
        elif n == 'None': out.append((s, ex.none(c.gen[0] if c.gen else '?')))
        else: out.append((s, Enum('Result<%s, %s>' % (c.gen[0] if c.gen else '?', ex.payload_ty(v.ty, 'Err')), None, 1, {('Err', 0): ex.payload(s, v, 'Err')})))
    return out


@model('Result::map_err')
def _maperr(ex, st, a, c):
    v, f = a[0], a[1]
    out = []
    ty = 'Result<%s, %s>' % (ex.payload_ty(v.ty, 'Ok'), c.gen[0] if c.gen else '?')
    for s, n in ex.split(st, v):
        if n == 'Ok': out.append((s, ex.ok(ex.payload(s, v, 'Ok'), ty)))
        else: out.append((s, ('invoke', f, [ex.payload(s, v, 'Err')], lambda t, r: ex.err(r, ty))))
    return out


@model('Option::and_then', 'Result::and_then')
def _andthen(ex, st, a, c):
    v, f = a[0], a[1]
    out = []
    for s, n in ex.split(st, v):
        if n in ('Some', 'Ok'): out.append((s, ('invoke', f, [ex.payload(s, v, n)])))
        elif n == 'None': out.append((s, ex.none(c.gen[0] if c.gen else '?')))
        else: out.append((s, ex.err(ex.payload(s, v, 'Err'), 'Result<%s, %s>' % (c.gen[0] if c.gen else '?', ex.payload_ty(v.ty, 'Err')))))
    return out


@model('Option::map_or', 'Result::map_or')
def _mapor(ex, st, a, c):
    v, dflt, f = a
    out = []
    for s, n in ex.split(st, v):
        if n in ('Some', 'Ok'): out.append((s, ('invoke', f, [ex.payload(s, v, n)])))
        else: out.append((s, dflt))
    return out


@model('Option::map_or_else')
def _mapore(ex, st, a, c):
    v, g, f = a
    return [(s, ('invoke', f, [ex.payload(s, v, n)]) if n == 'Some' else ('invoke', g, [])) for s, n in ex.split(st, v)]


@model('Option::unwrap_or', 'Result::unwrap_or')
def _unwrapor(ex, st, a, c):
    v = a[0]
    return [(s, ex.payload(s, v, n) if n in ('Some', 'Ok') else a[1]) for s, n in ex.split(st, v)]


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwraporelse(ex, st, a, c):
    v = a[0]
    return [(s, ex.payload(s, v, n) if n in ('Some', 'Ok') else ('invoke', a[1], [] if n == 'None' else [ex.payload(s, v, 'Err')])) for s, n in ex.split(st, v)]


@model('Option::unwrap_or_default')
def _unwrapord(ex, st, a, c):
    v = a[0]
    t = ex.payload_ty(v.ty, 'Some')
    k = Callee(); k.selfty = t; k.method = 'default'
    return [(s, ex.payload(s, v, n) if n == 'Some' else _default(ex, s, [], k)) for s, n in ex.split(st, v)]


@model('Option::ok_or')
def _okor(ex, st, a, c):
    v = a[0]
    ty = 'Result<%s, %s>' % (ex.payload_ty(v.ty, 'Some'), c.gen[0] if c.gen else '?')
    return [(s, ex.ok(ex.payload(s, v, 'Some'), ty) if n == 'Some' else ex.err(a[1], ty)) for s, n in ex.split(st, v)]


@model('Option::ok_or_else')
def _okorelse(ex, st, a, c):
    v = a[0]
    ty = 'Result<%s, %s>' % (ex.payload_ty(v.ty, 'Some'), c.gen[0] if c.gen else '?')
    return [(s, ex.ok(ex.payload(s, v, 'Some'), ty) if n == 'Some' else ('invoke', a[1], [], lambda t, r: ex.err(r, ty))) for s, n in ex.split(st, v)]


@model('Result::ok')
def _ok(ex, st, a, c):
    v = a[0]
    return [(s, ex.some(ex.payload(s, v, 'Ok'), ex.payload_ty(v.ty, 'Ok')) if n == 'Ok' else ex.none(ex.payload_ty(v.ty, 'Ok'))) for s, n in ex.split(st, v)]


@model('Result::or')
def _or(ex, st, a, c):
    v = a[0]
    ty = 'Result<%s, %s>' % (ex.payload_ty(v.ty, 'Ok'), c.gen[0] if c.gen else '?')
    return [(s, ex.ok(ex.payload(s, v, 'Ok'), ty) if n == 'Ok' else a[1]) for s, n in ex.split(st, v)]


@model('Option::or')
def _oor(ex, st, a, c):
    return [(s, a[0] if n == 'Some' else a[1]) for s, n in ex.split(st, a[0])]


@model('Result::or_else')
def _orelse(ex, st, a, c):
    v = a[0]
    return [(s, v if n == 'Ok' else ('invoke', a[1], [ex.payload(s, v, 'Err')])) for s, n in ex.split(st, v)]


@model('Option::filter')
def _filter(ex, st, a, c):
    v = a[0]
    out = []
    for s, n in ex.split(st, v):
        if n == 'None': out.append((s, v)); continue
        p = ex.payload(s, v, 'Some')
        for o in ex.call_value(s, a[1], [Ptr(ex.alloc(s, p))]):
            for s2, t in ex.split_bool(o.st, o.val):
                out.append((s2, v if t else ex.none(ex.payload_ty(v.ty, 'Some'))))
    return out


@model('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut', 'Option::as_deref', 'Option::as_deref_mut')
def _asref(ex, st, a, c):
    p = a[0]
    v = ex.load(st, p)
    out = []
    for s, n in ex.split(st, v):
        if n in ('Some', 'Ok', 'Err'):
            t = ex.payload_ty(v.ty, n)
            q = Ptr(p.cell, p.path + (('v', n), ('f', 0, t)))
            if c.method.startswith('as_deref'):
                q = ex.load(s, q)
            out.append((s, Enum('%s<&%s>' % (ty_head(v.ty), t), None, v.d if isinstance(v.d, int) else ex.crate.vdisc(ty_head(v.ty), n), {(n, 0): q})))
        else: out.append((s, ex.none('&' + ex.payload_ty(v.ty, 'Some'))))
    return out


@model('Option::copied', 'Option::cloned')
def _copied(ex, st, a, c):
    v = a[0]
    return [(s, ex.some(deref(ex, s, ex.payload(s, v, 'Some')), ex.payload_ty(v.ty, 'Some').lstrip('&')) if n == 'Some' else ex.none()) for s, n in ex.split(st, v)]


@model('Option::take')
def _take(ex, st, a, c):
    v = ex.load(st, a[0])
    ex.store(st, a[0], Enum(v.ty, None, 0, {}))
    return v


@model('Option::transpose')
def _transpose(ex, st, a, c):
    v = a[0]
    out = []
    for s, n in ex.split(st, v):
        if n == 'None': out.append((s, ex.ok(ex.none()))); continue
        r = ex.payload(s, v, 'Some')
        for s2, m in ex.split(s, r):
            out.append((s2, ex.ok(ex.some(ex.payload(s2, r, 'Ok'))) if m == 'Ok' else ex.err(ex.payload(s2, r, 'Err'))))
    return out


@model('mem::swap')
def _swap(ex, st, a, c):
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    ex.store(st, a[0], y); ex.store(st, a[1], x)
    return UNIT


@model('mem::replace')
def _replace(ex, st, a, c):
    x = ex.load(st, a[0]); ex.store(st, a[0], a[1]); return x


@model('mem::drop', 'drop')
def _drop(ex, st, a, c): return UNIT


@model('mem::size_of')
def _sizeof(ex, st, a, c): return ex.sizeof(c.gen[0])


# ---------------------------------------------------------------- integers
def _checked(op):
    def f(ex, st, a, c):
        x, y = deref(ex, st, a[0]), deref(ex, st, a[1])
        ty = c.selfty if c.selfty in INTS else 'u64'
        lo, hi = INTS[ty]
        if op in ('div', 'rem'):
            out = []
            for s, t in ex.split_bool(st, y != 0):
                if t: out.append((s, ex.some(ex.divrem(s, x, y, ty)[0 if op == 'div' else 1], ty)))
                else: out.append((s, ex.none(ty)))
            return out
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return [(s, ex.some(r, ty) if t else ex.none(ty)) for s, t in ex.split_bool(st, conj([r >= lo, r <= hi]))]
    return f


for _o in ('add', 'sub', 'mul', 'div', 'rem'): M['int::checked_' + _o] = _checked(_o)


def _wrapping(op):
    def f(ex, st, a, c):
        x, y = a
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return ex.wrap(r, c.selfty)
    return f


for _o in ('add', 'sub', 'mul'): M['int::wrapping_' + _o] = _wrapping(_o)


def _saturating(op):
    def f(ex, st, a, c):
        x, y = a
        lo, hi = INTS[c.selfty]
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        if isinstance(r, int): return max(lo, min(hi, r))
        out = []
        for s, t in ex.split_bool(st, r > hi):
            if t: out.append((s, hi)); continue
            for s2, t2 in ex.split_bool(s, r < lo): out.append((s2, lo if t2 else r))
        return out
    return f


for _o in ('add', 'sub', 'mul'): M['int::saturating_' + _o] = _saturating(_o)


def _overflowing(op):
    def f(ex, st, a, c):
        x, y = a
        lo, hi = INTS[c.selfty]
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return Rec('(%s, bool)' % c.selfty, None, {0: ex.wrap(r, c.selfty), 1: (not (lo <= r <= hi)) if isinstance(r, int) else z3.Or(r < lo, r > hi)})
    return f


for _o in ('add', 'sub', 'mul'): M['int::overflowing_' + _o] = _overflowing(_o)


@model('int::trailing_zeros')
def _tz(ex, st, a, c):
    from core import TZ
    w = (INTS[c.selfty][1] + 1).bit_length() - 1 if c.selfty in INTS else None
    if w is None: raise Unsupported('trailing_zeros of ' + str(c.selfty))
    if isinstance(a[0], int): return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    return TZ(a[0], z3.IntVal(w))


@model('int::pow')
def _pow(ex, st, a, c):
    if isinstance(a[1], int):
        if isinstance(a[0], int):
            r = a[0] ** a[1]
        else:
            r = 1
            for _ in range(a[1]): r = r * a[0]
        lo, hi = INTS[c.selfty]
        ok = conj([r >= lo, r <= hi])
        return [(s, r if t else Panic('pow overflow')) for s, t in ex.split_bool(st, ok)]
    raise Unsupported('pow')


def trait_arith(op):
    def f(ex, st, a, c):
        ty = c.selfty.lstrip('&')
        x, y = num(ex, st, a[0]), num(ex, st, a[1])
        if ty not in INTS: raise Unsupported('arith on ' + ty)
        lo, hi = INTS[ty]
        if op in ('div', 'rem'):
            return [(s, ex.divrem(s, x, y, ty)[0 if op == 'div' else 1] if t else Panic('div by zero')) for s, t in ex.split_bool(st, y != 0)]
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return [(s, r if t else Panic('overflow')) for s, t in ex.split_bool(st, conj([r >= lo, r <= hi]))]
    return f


for _t, _o in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')): M['<* as %s>::%s' % (_t, _o)] = trait_arith(_o)


@model('NonZeroU64::new', 'NonZeroU128::new', 'NonZeroU32::new')
def _nznew(ex, st, a, c):
    v = a[0]
    ty = 'Option<%s>' % ty_head(c.selfty)
    if isinstance(v, int): return Enum(ty, None, 1 if v else 0, {('Some', 0): v} if v else {})
    return Enum(ty, None, z3.If(v != 0, z3.IntVal(1), z3.IntVal(0)), {('Some', 0): v})


@model('NonZeroU64::get', 'NonZeroU128::get', 'NonZeroU64::new_unchecked')
def _nzget(ex, st, a, c): return a[0]


# ---------------------------------------------------------------- smart pointers
@model('<* as Deref>::deref', '<* as DerefMut>::deref_mut', '<* as Borrow>::borrow', '<* as BorrowMut>::borrow_mut')
def _deref(ex, st, a, c):
    h = ty_head(c.selfty)
    if h in ('Ref', 'RefMut', 'Rc', 'Box', 'Arc'):
        v = ex.load(st, a[0])
        if isinstance(v, Ptr): return v
        if isinstance(v, Rec):
            p = v.f.get('ptr')
            if p is None and v.name is not None:
                cell = ('S', v.name); ex.celltypes.setdefault(cell, ty_args(c.selfty)[0])
                p = Ptr(cell); v.f['ptr'] = p
            return p
    if h == 'Vec':
        return a[0]
    raise Unsupported('deref of ' + c.selfty)


@model('RefCell::borrow_mut', 'RefCell::borrow')
def _borrow(ex, st, a, c):
    return a[0]      # a RefMut/Ref is its target pointer; double-borrow aborts are not modelled (fail-stop)


@model('RefCell::try_borrow_mut', 'RefCell::try_borrow')
def _tryborrow(ex, st, a, c):
    return ex.ok(a[0], 'Result<RefMut, BorrowMutError>')


@model('Box::new', 'Rc::new')
def _boxnew(ex, st, a, c): return Ptr(ex.alloc(st, a[0]))


@model('identity')
def _identity(ex, st, a, c): return a[0]


@model('Pubkey::to_bytes', 'Pubkey::as_ref', 'Pubkey::new_from_array')
def _tobytes(ex, st, a, c):
    w = words(ex, st, a[0])
    if c.method == 'new_from_array': return Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', w)})})
    return Rec('[u8; 32]', None, {'w': Arr('u64', w)})


@model('bytemuck::cast', 'cast')
def _bmcast(ex, st, a, c):
    fr, to = c.gen
    if to == '[u64; 4]': return Arr('u64', words(ex, st, a[0]))
    if to == '[u8; 32]': return Rec('[u8; 32]', None, {'w': Arr('u64', words(ex, st, a[0]))})
    if to == fr: return a[0]
    raise Unsupported('bytemuck cast %s -> %s' % (fr, to))


# ---------------------------------------------------------------- logging, formatting, panics
def _unit(ex, st, a, c): return UNIT
def _panic(ex, st, a, c): raise Panic('panic: %s' % (c.method,))


for k in ('log::sol_log', 'sol_log', 'log::sol_log_compute_units', 'sol_log_compute_units', 'log::sol_log_64', 'log::sol_log_slice',
          'log::sol_log_params'): M[k] = _unit
for k in ('panic', 'panicking::panic', 'panic_fmt', 'panicking::panic_fmt', 'rt::begin_panic', 'begin_panic', 'unwrap_failed',
          'option::expect_failed', 'panic_display', 'panicking::panic_display', 'unreachable_display', 'panicking::unreachable_display', 'assert_failed', 'panicking::assert_failed',
          'process::abort', 'panic_bounds_check', 'panic_str', 'panicking::panic_explicit', 'panic_explicit', 'rt::panic_fmt'): M[k] = _panic


def _opaque(ex, st, a, c): return Rec('fmt', ex.gensym('fmt'), {})
for k in ('Argument::new_display', 'Argument::new_debug', 'Arguments::new_v1', 'Arguments::new_const', 'fmt::format', 'format',
          'String::as_str', 'Argument::new_lower_hex', '<String as Deref>::deref', 'from_utf8_lossy', 'String::from_utf8_lossy', '<Cow as Deref>::deref', '<* as ToString>::to_string'):
    M[k] = _opaque


@model('<* as Fn>::call', '<* as FnMut>::call_mut', '<* as FnOnce>::call_once')
def _fncall(ex, st, a, c):
    t = a[1]
    args = [t.f[i] for i in sorted(t.f)] if isinstance(t, Rec) else []
    return ('invoke', a[0], args)
