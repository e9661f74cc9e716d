"""Event and Request: the stored form and the view carry the same information."""
from acct import *
from verify import *

TY = {'side': 'Side', 'maker': 'bool', 'release_funds': 'bool', 'order_id': 'u128', 'owner': '[u64; 4]', 'expected_owner': '[u64; 4]', 'owner_slot': 'u8', 'expected_owner_slot': 'u8', 'fee_tier': 'FeeTier',
      'client_order_id': 'Option<NonZeroU64>', 'order_type': 'OrderType', 'max_coin_qty': 'NonZeroU64', 'native_pc_qty_locked': 'Option<NonZeroU64>', 'self_trade_behavior': 'SelfTradeBehavior'}


def veq(ex, st, a, b, ty):
    """structural equality of two values of type ty"""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.items) != len(b.items): return z3.BoolVal(False)
        return z3.And([veq(ex, st, x, y, a.ty) for x, y in zip(a.items, b.items)])
    vs = ex.crate.variants(ty)
    if vs is not None:
        out = [ex.b(a.d == b.d)]
        for nm, d, fl in vs:
            for i, f in enumerate(fl or ()):
                t = ex.payload_ty(ty, nm)
                if t == '?': raise Unsupported('payload type of %s::%s' % (ty, nm))
                if isinstance(a.d, int) and a.d != d or isinstance(b.d, int) and b.d != d: continue
                x = ex.payload(st, a, nm, i, t); y = ex.payload(st, b, nm, i, t)
                out.append(z3.Implies(ex.b(a.d == d), veq(ex, st, x, y, t)))
        return z3.And(out)
    if isinstance(a, Rec) and isinstance(b, Rec):
        T = ex.crate.src.stypes.get(ty_head(ty))
        if T is None: raise Unsupported('equality at ' + ty)
        return z3.And([veq(ex, st, ex.get1(st, a, ('f', i, t)), ex.get1(st, b, ('f', i, t)), t) for i, t in enumerate(T)])
    if is_int(a) and is_int(b) or is_bool(a) and is_bool(b): return ex.b(a == b)
    raise Unsupported('equality of %r and %r' % (a, b))


def layout(led, ex, st, T, nm, rec, v):
    """the bytes other programs and clients read: fields at their published offsets, flag bits as published"""
    off, o = {}, 0
    for i, t in enumerate(ex.crate.src.stypes[T]):
        off[o] = (i, t); o += ex.sizeof(t)
    led.prove(ex, st, '%s record has its published size' % T, o == {'Event': 88, 'Request': 80}[T])
    bit = lambda e, ty, var: z3.If(ex.b(e.d == ex.crate.vdisc(ty, var)), 1, 0)
    opt = lambda e: z3.If(ex.b(e.d == 1), ex.payload(st, e, 'Some', 0, 'NonZeroU64'), 0)
    flag = lambda b, k: z3.If(ex.b(b), k, 0)
    side = 4 * bit(v['side'], 'Side', 'Bid')
    if T == 'Event':
        if nm == 'Fill': exp = {0: 1 + side + flag(v['maker'], 8), 1: v['owner_slot'], 2: v['fee_tier'].d, 8: v['native_qty_received'], 16: v['native_qty_paid'], 24: v['native_fee_or_rebate']}
        else: exp = {0: 2 + side + flag(v['release_funds'], 16), 1: v['owner_slot'], 2: z3.IntVal(0), 8: v['native_qty_unlocked'], 16: v['native_qty_still_locked'], 24: z3.IntVal(0)}
        exp.update({32: v['order_id'], 48: v['owner'], 80: opt(v['client_order_id'])}); pad = 3
    else:
        if nm == 'NewOrder': exp = {0: 1 + side + 8 * bit(v['order_type'], 'OrderType', 'PostOnly') + 16 * bit(v['order_type'], 'OrderType', 'ImmediateOrCancel'), 1: v['owner_slot'], 2: v['fee_tier'].d, 3: v['self_trade_behavior'].d, 8: v['max_coin_qty'],
                                    16: opt(v['native_pc_qty_locked']), 40: v['owner']}
        else: exp = {0: 2 + side, 1: v['expected_owner_slot'], 2: z3.IntVal(0), 3: z3.IntVal(0), 8: v['cancel_id'], 16: z3.IntVal(0), 40: v['expected_owner']}
        exp.update({24: v['order_id'], 72: opt(v['client_order_id'])}); pad = 4
    for k, e in exp.items():
        if k not in off: led.prove(ex, st, '%s %s record: a field at offset %d' % (T, nm, k), False); continue
        i, t = off[k]
        x = ex.get1(st, rec, ('f', i, t))
        g = z3.And([ex.b(p == q) for p, q in zip(x.items, e.items)]) if isinstance(x, Arr) else ex.b((x.d if isinstance(x, Enum) else x) == e)
        led.prove(ex, st, '%s %s record: value at offset %d' % (T, nm, k), g)


def round_trip(led, crate, T, view):
    """T::new(v).as_view() == Ok(v) for every v"""
    for nm, disc, fields in crate.enums[view]:
        ex = Engine(crate); install_acct(ex)
        for k in (T + '::new', T + '::as_view'): ex.contracts.pop(k, None)
        st = State()
        for n in fields:
            if n not in TY and not n.startswith('native_') and n != 'cancel_id': raise Unsupported('field %s of %s' % (n, view))
        v0 = Enum(view, None, disc, {(nm, i): ex.fresh(TY.get(n, 'u64'), 'v.' + n) for i, n in enumerate(fields)})
        f, g = crate.find(T, 'new'), crate.find(T, 'as_view')
        if len(f) != 1 or len(g) != 1: raise Unsupported('%s::new/as_view' % T)
        n = 0
        for o in ex.run(f[0], [v0], st):
            if o.kind != 'ret':
                led.prove(ex, o.st, '%s::new accepts every %s' % (T, nm), z3.BoolVal(False)); continue
            s = o.st
            s.mem[('e',)] = o.val
            layout(led, ex, s, T, nm, o.val, dict(zip(fields, (v0.f[(nm, i)] for i in range(len(fields))))))
            for p in ex.run(g[0], [Ptr(('e',))], s):
                if p.kind != 'ret' or p.val.d != 0:
                    led.prove(ex, p.st, '%s::as_view accepts what %s::new wrote for %s' % (T, T, nm), z3.BoolVal(False)); continue
                n += 1
                w = ex.payload(p.st, p.val, 'Ok', 0)
                led.prove(ex, p.st, '%s %s reads back as %s' % (T, nm, nm), ex.b(w.d == disc))
                if w.d != disc: continue
                for i, fn in enumerate(fields):
                    ty = TY.get(fn, 'u64')
                    led.prove(ex, p.st, '%s %s keeps its %s' % (T, nm, fn), veq(ex, p.st, v0.f[(nm, i)], ex.get1(p.st, ('variant', w, nm), ('f', i, ty)), ty))
                led.cover(ex, p.st, '%s %s round trip' % (T, nm), True)
        if n == 0: raise Unsupported('%s::new: no path' % T)
        led.note_engine(ex); led.add_stats(ex)
