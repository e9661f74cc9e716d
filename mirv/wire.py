"""MarketInstruction::unpack against the published wire format, for every byte string.

The instruction bytes are symbolic, one run per length 0..MAXLEN plus one run for every longer length; unpack must return
the instruction the bytes encode when they encode one, None otherwise, and never panic."""
from acct import *
from verify import *
from codec import veq

MAXLEN = 5 + 8 + 54 * 8

# ------------------------------------------------------------------ models over byte arrays of known length
W = {}


def w(*ks):
    def d(f):
        for k in ks: W[k] = f
        return f
    return d


def conc(x):
    if isinstance(x, int): return x
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    raise Unsupported('length not known')


def le(items, signed=False):
    if all(isinstance(x, int) for x in items): r = sum(x << (8 * i) for i, x in enumerate(items)); return r - 2 ** (8 * len(items)) if signed and r >= 2 ** (8 * len(items) - 1) else r
    r = z3.Sum([x * 256 ** i for i, x in enumerate(items)]) if len(items) > 1 else items[0]
    return z3.If(items[-1] >= 128, r - 2 ** (8 * len(items)), r) if signed else r


def arr(ex, st, v):
    if isinstance(v, Ptr): v = ex.load(st, v)
    if isinstance(v, Ptr): v = ex.load(st, v)
    if not isinstance(v, Arr): raise Unsupported('bytes %r' % (v,))
    return v


@w('int::from_le_bytes', 'u16::from_le_bytes', 'u32::from_le_bytes', 'u64::from_le_bytes', 'u128::from_le_bytes', 'i64::from_le_bytes', 'u8::from_le_bytes')
def _fle(ex, st, a, c):
    v = arr(ex, st, a[0])
    return le(v.items, signed='i64' in c.raw or 'i32' in c.raw or 'i16' in c.raw)


@w('int::to_le_bytes')
def _tle(ex, st, a, c):
    m = re.search(r'[iu](\d+)', c.raw); n = int(m.group(1)) // 8
    if not isinstance(a[0], int): raise Unsupported('to_le_bytes of a symbol')
    return Arr('u8', list((a[0] % 2 ** (8 * n)).to_bytes(n, 'little')))


@w('[]::to_vec', '<[u8] as ToOwned>::to_owned')
def _tovec(ex, st, a, c): return arr(ex, st, a[0])


@w('[]::copy_from_slice', '[]::clone_from_slice')
def _cfs(ex, st, a, c):
    src = arr(ex, st, a[1]); n = conc(ex.length(st, a[0]))
    if len(src.items) != n: raise Panic('copy_from_slice length')
    for i in range(n): ex.store(st, at(a[0], i), src.items[i])
    return UNIT


@w('[]::concat')
def _concat(ex, st, a, c):
    its = []
    for p in arr(ex, st, a[0]).items: its += list(arr(ex, st, p).items)
    return Arr('u8', its)


@w('<* as Index>::index')
def _wi(ex, st, a, c):
    p = a[0]
    if p.path == () and isinstance(ex.load(st, p), Arr) and ty_head(c.selfty) == 'Vec':
        it = c.traitgen[0]; n = ex.length(st, p)
        if it == 'usize': return Ptr(p.cell, (('i', a[1]),)) if a[1] < n else Panic('index')
        s0, e0 = bounds(ex, st, p, a[1], ty_head(it))
        if not (0 <= s0 <= e0 <= n): raise Panic('slice index')
        return sub(ex, p, s0, e0 - s0)
    return X['<* as Index>::index'](ex, st, a, c)


@w('<* as TryInto>::try_into', '<* as TryFrom>::try_from')
def _ti(ex, st, a, c):
    to = c.traitgen[0] if c.method == 'try_into' else c.selfty
    m = re.match(r'^&?\[(\w+); (\d+)\]$', to)
    if m and isinstance(a[0], Ptr):
        v = arr(ex, st, a[0])
        if len(v.items) != int(m.group(2)): return ex.err(Rec('TryFromSliceError', None, {}), 'Result<%s, TryFromSliceError>' % to)
        return ex.ok(a[0] if to[0] == '&' else v, 'Result<%s, TryFromSliceError>' % to)
    return models.M['<* as TryInto>::try_into'](ex, st, a, c)


@w('bytemuck::cast', 'cast')
def _cast(ex, st, a, c):
    fr, to = c.gen
    if fr == '[u8; 32]' and to == '[u64; 4]':
        v = arr(ex, st, a[0]) if not isinstance(a[0], Arr) else a[0]
        return Arr('u64', [le(v.items[8 * i:8 * i + 8]) for i in range(4)])
    raise Unsupported('cast %s -> %s' % (fr, to))


def items(ex, st, v):
    """the elements of an iterator over known elements"""
    if isinstance(v, Rec) and v.ty == 'CIter': return v.f['l']
    if isinstance(v, Arr): return list(v.items)
    if isinstance(v, Ptr):
        n = conc(ex.length(st, v))
        return [at(v, i) for i in range(n)]
    if isinstance(v, Rec) and ty_head(v.ty) == 'Range': return list(range(conc(v.f[0]), conc(v.f[1])))
    raise Unsupported('iterator %r' % (v,))


def at(p, i):
    return Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),)) if p.path and p.path[-1][0] == 's' else Ptr(p.cell, p.path + (('i', i),))


def cit(l, f=()): return Rec('CIter', None, {'l': tuple(l), 'f': f})


@w('[]::chunks_exact', '[]::chunks')
def _chunks(ex, st, a, c):
    n, k = conc(ex.length(st, a[0])), conc(a[1])
    if k == 0: raise Panic('chunk size')
    l = [sub(ex, a[0], i * k, k) for i in range(n // k)]
    if c.method == 'chunks' and n % k: l.append(sub(ex, a[0], n // k * k, n % k))
    return cit(l)


@w('[]::iter', '[]::iter_mut', '<* as IntoIterator>::into_iter')
def _iter(ex, st, a, c):
    if isinstance(a[0], Rec) and a[0].ty == 'CIter': return a[0]
    return cit(items(ex, st, a[0]))


@w('<* as Iterator>::zip')
def _zip(ex, st, a, c):
    if a[0].f.get('f'): raise Unsupported('zip of a mapped iterator')
    b = items(ex, st, a[1])
    return cit([Rec('(A, B)', None, {0: x, 1: y}) for x, y in zip(items(ex, st, a[0]), b)])


@w('<* as Iterator>::enumerate')
def _en(ex, st, a, c):
    if a[0].f.get('f'): raise Unsupported('enumerate of a mapped iterator')
    return cit([Rec('(A, B)', None, {0: i, 1: x}) for i, x in enumerate(items(ex, st, a[0]))])


@w('<* as Iterator>::take')
def _tk(ex, st, a, c): return Rec('CIter', None, {'l': tuple(items(ex, st, a[0])[:conc(a[1])]), 'f': a[0].f.get('f', ())})


@w('<* as Iterator>::map')
def _map(ex, st, a, c):
    v = a[0] if isinstance(a[0], Rec) and a[0].ty == 'CIter' else cit(items(ex, st, a[0]))
    return Rec('CIter', None, {'l': v.f['l'], 'f': v.f['f'] + (a[1],)})


def apply(ex, st, fs, x):
    sts = [(st, x)]
    for f in fs:
        nx = []
        for s, y in sts:
            for o in ([Outcome('panic', s, msg=y.msg)] if isinstance(y, Panic) else ex.call_value(s, f, [y])): nx.append((o.st, o.val if o.kind == 'ret' else Panic(o.msg)))
        sts = nx
    return sts


@w('<* as Iterator>::next')
def _next(ex, st, a, c):
    v = ex.load(st, a[0])
    if not (isinstance(v, Rec) and v.ty == 'CIter'): return X['<* as Iterator>::next'](ex, st, a, c)
    if not v.f['l']: return ex.none()
    ex.store(st, a[0], Rec('CIter', None, {'l': v.f['l'][1:], 'f': v.f['f']}))
    return [(s, y if isinstance(y, Panic) else ex.some(y)) for s, y in apply(ex, st, v.f['f'], v.f['l'][0])]


@w('<* as Iterator>::collect')
def _collect(ex, st, a, c):
    v = a[0]; to = c.gen[0]
    l = items(ex, st, v); fs = v.f['f'] if isinstance(v, Rec) and v.ty == 'CIter' else ()
    wrap = ty_head(to) if ty_head(to) in ('Option', 'Result') else None
    sts = [(st, [])]; done = []
    for x in l:
        nx = []
        for s, acc in sts:
            for s2, y in apply(ex, s, fs, x):
                if isinstance(y, Panic): done.append((s2, y)); continue
                if not wrap: nx.append((s2, acc + [y])); continue
                for s3, var in ex.split(s2, y):
                    if var in ('Some', 'Ok'): nx.append((s3, acc + [ex.payload(s3, y, var)]))
                    else: done.append((s3, y if wrap == 'Result' else ex.none()))
        sts = nx
    return done + [(s, ex.some(Arr('?', acc)) if wrap == 'Option' else ex.ok(Arr('?', acc)) if wrap else Arr('?', acc)) for s, acc in sts]


# ------------------------------------------------------------------ the published format
ORDER3 = [('side', 'Side'), ('limit_price', 'NonZeroU64'), ('max_coin_qty', 'NonZeroU64'), ('max_native_pc_qty_including_fees', 'NonZeroU64'), ('self_trade_behavior', 'SelfTradeBehavior'),
          ('order_type', 'OrderType'), ('client_order_id', 'u64'), ('limit', 'u16'), ('max_ts', 'i64')]
ORDER1 = [('side', 'Side'), ('limit_price', 'NonZeroU64'), ('max_qty', 'NonZeroU64'), ('order_type', 'OrderType'), ('client_id', 'u64')]
FORMAT = [   # index = discriminant
    ('InitializeMarket', [('coin_lot_size', 'u64'), ('pc_lot_size', 'u64'), ('fee_rate_bps', 'u16'), ('vault_signer_nonce', 'u64'), ('pc_dust_threshold', 'u64')]),
    ('NewOrder', ORDER1), ('MatchOrders', 'u16'), ('ConsumeEvents', 'u16'),
    ('CancelOrder', [('side', 'Side'), ('order_id', 'u128'), ('owner', '[u64; 4]'), ('owner_slot', 'u8')]),
    ('SettleFunds', None), ('CancelOrderByClientId', 'u64'), ('DisableMarket', None), ('SweepFees', None),
    ('NewOrderV2', ORDER1 + [('self_trade_behavior', 'SelfTradeBehavior')]), ('NewOrderV3', ORDER3),
    ('CancelOrderV2', [('side', 'Side'), ('order_id', 'u128')]), ('CancelOrderByClientIdV2', 'u64'),
    ('SendTake', [('side', 'Side'), ('limit_price', 'NonZeroU64'), ('max_coin_qty', 'NonZeroU64'), ('max_native_pc_qty_including_fees', 'NonZeroU64'), ('min_coin_qty', 'u64'), ('min_native_pc_qty', 'u64'), ('limit', 'u16')]),
    ('CloseOpenOrders', None), ('InitOpenOrders', None), ('Prune', 'u16'), ('ConsumeEventsPermissioned', 'u16'),
    ('CancelOrdersByClientIds', '[u64; 8]'), ('ReplaceOrderByClientId', ORDER3), ('ReplaceOrdersByClientIds', 'Vec')]
STRUCT = {'InitializeMarket': 'InitializeMarketInstruction', 'NewOrder': 'NewOrderInstructionV1', 'CancelOrder': 'CancelOrderInstruction', 'NewOrderV2': 'NewOrderInstructionV2', 'NewOrderV3': 'NewOrderInstructionV3',
          'CancelOrderV2': 'CancelOrderInstructionV2', 'SendTake': 'SendTakeInstruction', 'ReplaceOrderByClientId': 'NewOrderInstructionV3'}
TAGS = {'Side': ['Bid', 'Ask'], 'OrderType': ['Limit', 'ImmediateOrCancel', 'PostOnly'], 'SelfTradeBehavior': ['DecrementTake', 'CancelProvide', 'AbortTransaction']}
SIZE = {'u8': 1, 'u16': 2, 'u64': 8, 'i64': 8, 'u128': 16, 'NonZeroU64': 8, '[u64; 4]': 32, '[u64; 8]': 64}


def size(t):
    if t is None: return 0
    if isinstance(t, list): return sum(size(x) for _, x in t)
    return 4 if t in TAGS else SIZE[t]


def read(b, o, t):
    """(value, constraint) of a field of type t at offset o"""
    if t in TAGS:
        x = le(b[o:o + 4]); return x, z3.And(x >= 0, x < len(TAGS[t]))
    if t[0] == '[':
        n = SIZE[t] // 8; return [le(b[o + 8 * i:o + 8 * i + 8]) for i in range(n)], z3.BoolVal(True)
    x = le(b[o:o + SIZE[t]], signed=t == 'i64')
    return x, (x != 0 if t == 'NonZeroU64' else z3.BoolVal(True))


def fields(b, o, fs):
    vals, cs = [], []
    for _, t in fs:
        v, c = read(b, o, t); o += size(t); vals.append(v); cs.append(c)
    return vals, z3.And(cs)


def decode(disc, b):
    """payload b (list of byte terms) of instruction disc -> (value, constraint), or None when the length is wrong"""
    nm, t = FORMAT[disc]; n = len(b)
    if nm == 'NewOrderV3' and n == 46: b = b + list(INT64MAX); n = 54      # older clients: no expiry
    if nm == 'CancelOrdersByClientIds':
        if n % 8 or n > 64: return None
        return [le(b[8 * i:8 * i + 8]) for i in range(n // 8)] + [0] * (8 - n // 8), z3.BoolVal(True)
    if nm == 'ReplaceOrdersByClientIds':
        if n < 8 or (n - 8) % 54 or n > 8 + 8 * 54: return None
        k = (n - 8) // 54
        rs = [fields(b, 8 + 54 * i, ORDER3) for i in range(k)]
        return [v for v, _ in rs], z3.And([le(b[0:8]) == k] + [c for _, c in rs])
    if n != size(t): return None
    if t is None: return None if n else ([], z3.BoolVal(True))
    if isinstance(t, list): return fields(b, 0, t)
    v, c = read(b, 0, t); return v, c


INT64MAX = (2 ** 63 - 1).to_bytes(8, 'little')


def same(ex, st, val, exp, S, fs):
    """struct value against expected field values"""
    names = ex.crate.structs[S]
    if sorted(names) != sorted(n for n, _ in fs): raise Unsupported('fields of ' + S)
    cs = []
    for (n, t), e in zip(fs, exp):
        x = ex.get1(st, val, ('f', names.index(n), t))
        cs.append((n, scalar(x, e, t)))
    return cs


def scalar(x, e, t):
    if t[0] == '[':
        if not isinstance(x, Arr): raise Unsupported('array value %r' % (x,))
        return z3.And([zz(p == q) for p, q in zip(x.items, e)]) if len(x.items) == len(e) else z3.BoolVal(False)
    if isinstance(x, Enum): x = x.d
    if isinstance(x, Rec) and len(x.f) == 1: x = list(x.f.values())[0]
    return zz(x == e)


def zz(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def check_types(led, crate):
    """bincode writes version byte, u32 variant index, then the fields in declaration order: that is the same format"""
    ob = lambda nm, g: led.lemma('pack: ' + nm, [], z3.BoolVal(bool(g)))
    en = crate.enums['MarketInstruction']
    ob('variants in wire order', [x[0] for x in en] == [x[0] for x in FORMAT])
    for t, vs in TAGS.items(): ob('%s values in wire order' % t, [(x[0], x[1]) for x in crate.enums[t]] == [(v, i) for i, v in enumerate(vs)])
    for nm, S in STRUCT.items():
        fs = dict(FORMAT)[nm]
        ob('%s fields in wire order' % S, crate.structs[S] == [n for n, _ in fs] and [norm_ty(x) for x in crate.src.stypes[S]] == [t for _, t in fs])


def check_tags(led, crate):
    """contract of the derived try_from_primitive: Ok(variant) iff the number is its discriminant"""
    for t in TAGS:
        ex = Engine(crate); install_acct(ex); st = State()
        fs = [f for f in crate.by_method.get('try_from_primitive', []) if f.selfty and ty_head(f.selfty) == t]
        if not fs: continue
        v = ex.int_sym('v', 'u8')
        for o in ex.run(fs[-1], [v], st):
            P = lambda nm, g: led.prove(ex, o.st, '%s::try_from_primitive %s' % (t, nm), g)
            if o.kind != 'ret': P('never panics', z3.BoolVal(False))
            elif o.val.d == 0: P('yields the value of that number', zz(ex.payload(o.st, o.val, 'Ok', 0).d == v))
            else: P('rejects only unknown numbers', z3.And([v != i for i in range(len(TAGS[t]))]))
        led.note_engine(ex); led.add_stats(ex)


def run_len(led, crate, n):
    ex = Engine(crate); install_acct(ex); ex.models = dict(ex.models); ex.models.update(W)
    ex.loop_bound = 20
    ex.contracts['<* as TryFromPrimitive>::try_from_primitive'] = models.M['<* as TryFromPrimitive>::try_from_primitive']
    st = State()
    sym = not isinstance(n, int)
    if sym:
        L = ex.int_sym('len', 'usize'); ex.assume(st, L > MAXLEN)
        st.mem[('D',)] = ex.zarr('u8', 'data', L); b = None
    else:
        b = [ex.int_sym('b%d' % i, 'u8') for i in range(n)]
        st.mem[('D',)] = Arr('u8', b)
    f = crate.find('MarketInstruction', 'unpack')
    if len(f) != 1: raise Unsupported('MarketInstruction::unpack')
    outs = ex.run(f[0], [Ptr(('D',))], st)
    valid = []
    if not sym and n >= 5:
        dw = le(b[1:5])
        for d in range(len(FORMAT)):
            r = decode(d, b[5:])
            if r is not None: valid.append((d, r[0], z3.And(b[0] == 0, dw == d, r[1])))
    for o in outs:
        P = lambda nm, g: led.prove(ex, o.st, 'unpack: ' + nm, g)
        if o.kind != 'ret': P('never panics', z3.BoolVal(False)); continue
        v = o.val
        if v.d == 0:
            for d, _, c in valid: P('accepts every well-formed %s' % FORMAT[d][0], z3.Not(c))
            if not valid: P('rejects everything else', True)
            continue
        ins = ex.payload(o.st, v, 'Some', 0)
        if not isinstance(ins.d, int): raise Unsupported('symbolic variant')
        nm, t = FORMAT[ins.d]
        m = [x for x in valid if x[0] == ins.d]
        P('yields %s only for its encoding' % nm, m[0][2] if m else z3.BoolVal(False))
        if not m or t is None: continue
        exp = m[0][1]
        pv = ex.get1(o.st, ('variant', ins, nm), ('f', 0, '?'))
        if nm == 'ReplaceOrdersByClientIds':
            if not isinstance(pv, Arr): raise Unsupported('vector of orders')
            P('reads every order of ReplaceOrdersByClientIds', z3.BoolVal(len(pv.items) == len(exp)))
            for x, e in zip(pv.items, exp):
                for fn, c in same(ex, o.st, x, e, 'NewOrderInstructionV3', ORDER3): P('%s %s as encoded' % (nm, fn), c)
        elif isinstance(t, list):
            for fn, c in same(ex, o.st, pv, exp, STRUCT[nm], t): P('%s %s as encoded' % (nm, fn), c)
        else: P('%s value as encoded' % nm, scalar(pv, exp, t))
        led.cover(ex, o.st, 'decodes ' + nm, True)
    led.note_engine(ex); led.add_stats(ex)


def units(crate):
    lens = list(range(0, MAXLEN + 2))
    heavy = [n for n in lens if n >= 13 and (n - 13) % 54 == 0]
    rest = [n for n in lens if n not in heavy]
    out = [('format', lambda led: (check_types(led, crate()), check_tags(led, crate())))]
    for k in range(4): out.append(('unpack short %d' % k, lambda led, k=k: [run_len(led, crate(), n) for n in rest[k::4]]))
    out.append(('unpack orders', lambda led: [run_len(led, crate(), n) for n in heavy]))
    out.append(('unpack long', lambda led: run_len(led, crate(), None)))
    return out
