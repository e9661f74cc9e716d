"""Contracts of OrderBookState::new_bid / new_ask: one matching step of an incoming order against the opposite best leaf.

Postconditions (on every path that returns Ok) are tagged with the property they carry:
  MATCH  price/time priority, limits, order-type semantics        FUNDS  conservation of funds
  FEES   amounts of fees and rebates                              SELF   self-trade behaviour
  EVENTS events report exactly what happened
"""
from mset import *
from verify import *

SYSTEM = 0


def setup_step(ex, side):
    """symbolic entry state satisfying the requires clause of new_bid/new_ask"""
    cr = ex.crate
    st = State()
    v = V(); v.side = side
    setup_ob(ex, st, v)
    bid = side == 'bid'
    fn = cr.find('OrderBookState', 'new_' + side)
    if len(fn) != 1: raise Unsupported('new_%s not found' % side)
    v.fn = fn[0]
    p = params(ex, st, 'NewBidParams' if bid else 'NewAskParams', 'p')
    v.p = p
    v.C = p.max_coin_qty if bid else p.max_qty
    v.P = p.native_pc_qty_locked if bid else None
    if bid:
        v.lim_some = p.limit_price.d == 1
        v.lim = ex.payload(st, p.limit_price, 'Some', 0, 'NonZeroU64')
    else:
        v.lim_some = z3.BoolVal(True); v.lim = p.limit_price
    seq = ex.int_sym('p.seq', 'u64')
    # requires: the limit price is the high half of the order id (obligation at the call site in new_order)
    ex.assume(st, p.order_id == z3.If(v.lim_some, v.lim, 0) * 2 ** 64 + seq)
    ex.assume(st, p.owner_slot < 128)
    v.send_take = z3.And([w == SYSTEM for w in p.owner.items])
    v.st = st
    return v


def run_step(ex, v):
    return ex.run(v.fn, [v.self, v.p.rec, v.q, v.rel], v.st)


class Step:
    """named view of one Ok outcome"""

    def __init__(s, ex, o, v):
        st = o.st
        s.ex, s.st, s.v, s.o = ex, st, v, o
        bid = v.side == 'bid'
        s.m1 = market_after(ex, st, v); s.r1 = proceeds_after(ex, st, v); s.ev = events_after(ex, st, v)
        s.dm = {k: s.m1[k] - v.m0[k] for k in s.m1}
        s.dr = {k: s.r1[k] - v.r0[k] for k in s.r1}
        opp = ex.cell(st, (v.asks if bid else v.bids).cell).v
        own = ex.cell(st, (v.bids if bid else v.asks).cell).v
        s.opp, s.own = opp, own
        # ---- opposite book: the best leaf before, and what became of it
        s.seen = opp.best is not None or any(op == 'remove' for op, _, _ in opp.log)
        s.L = s.L1 = None; s.removed = False
        bests = set()
        for op, l, k in opp.log: bests.add(id(l))
        if opp.best not in (None, 'empty'): bests.add(id(opp.best[2]))
        s.bad_opp = []
        rem = [l for op, l, k in opp.log if op == 'remove']
        if len(rem) > 1 or any(op == 'insert' for op, l, k in opp.log): s.bad_opp.append('opposite book changed more than once')
        if rem:
            s.L = leaf(ex, rem[0]); s.removed = True
            s.first = rem[0]
            cells = [c for c in st.mem if c[0] == 'N' and c[1] == opp.name]
            init = [c for c in cells if c[2] == 0]
            s.L1 = leaf(ex, st.mem[init[0]]) if init else None
            if opp.best not in (None, 'empty'): raise Unsupported('matching step looked at a second resting order')
        elif opp.best not in (None, 'empty'):
            h, cell, l0 = opp.best
            s.L = leaf(ex, l0); s.L1 = leaf(ex, st.mem[cell])
        s.empty = (not rem) and opp.best == 'empty'
        if opp.worst not in (None, 'empty'): raise Unsupported('matching step uses the worst opposite order')
        # ---- own book
        ins = [leaf(ex, l) for op, l, k in own.log if op == 'insert']
        s.ins = ins
        s.evicted = [leaf(ex, l) for op, l, k in own.log if op == 'remove']
        # ---- result
        res = o.val.f[('Ok', 0)]
        d = res.d
        if is_z3(d): raise Unsupported('symbolic result')
        s.rem = None
        if d == 1:
            R = res.f[('Some', 0)]
            s.rem = V()
            s.rem.coin = fld(ex, st, R, 'OrderRemaining', 'coin_qty_remaining', 'NonZeroU64')
            pc = fld(ex, st, R, 'OrderRemaining', 'native_pc_qty_remaining', 'Option<NonZeroU64>')
            s.rem.pc_some = pc.d == 1
            s.rem.pc = pc.f.get(('Some', 0))


def words_eq(a, b): return z3.And([x == y for x, y in zip(a.items, b.items)])


def optid(ex, e, cid):
    """Option<NonZeroU64> client id of an event equals NonZeroU64::new(cid)"""
    o = e.client_order_id
    some = (o.d == 1)
    some = some if is_z3(some) else z3.BoolVal(some)
    pv = o.f.get(('Some', 0))
    return z3.And(some == (cid != 0), z3.Implies(some, pv == cid) if pv is not None else z3.Not(some))


def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def imin(*xs):
    r = xs[0]
    for x in xs[1:]: r = z3.If(x <= r, x, r)
    return r


def step_relation(bid, send_take, abort, post_only, post_allowed, P, C, d, pcd, price, pc_lot, coin_lot, rem=None, posted=None):
    """what callers of new_bid/new_ask rely on (proved by spec_step, assumed by order.py)"""
    out = [z3.And([d[k] >= 0 for k in d])]
    out.append(z3.And([d[k] == 0 for k in (['cd', 'cu', 'pcr'] if bid else ['c', 'a', 'u'])]))
    if bid: out += [d['a'] == d['mp'] + d['fees'] + d['ref'], pcd == d['mp'] - d['a'], d['mc'] == d['c'] * coin_lot]
    else: out += [d['mp'] == d['pcr'] + d['fees'] + d['ref'], pcd == d['pcr'] - d['mp'], d['mc'] == d['cd'] * coin_lot]
    if rem is None:
        ns = z3.Not(send_take)
        if bid: out += [z3.Implies(ns, P == d['a'] + d['u'] + posted * price * pc_lot), d['a'] <= P, z3.Implies(z3.And(send_take, abort), d['u'] == 0)]
        else: out += [z3.Implies(ns, C == d['cd'] + d['cu'] + posted), d['cd'] <= C, z3.Implies(z3.And(send_take, abort), d['cu'] == 0)]
        out += [z3.Implies(z3.Not(post_allowed), posted == 0), posted >= 0]
    else:
        rc, rp = rem
        out += [z3.Not(post_only), rc <= C, rc >= 1]
        if bid: out += [P == d['a'] + d['u'] + rp, rp >= 1]
        else: out += [C == d['cd'] + d['cu'] + rc]
    return out


def spec_step(led, ex, o, v, tags):
    s = Step(ex, o, v)
    st, p = s.st, v.p
    bid = v.side == 'bid'
    B = v.side
    def want(tag): return tags is None or tag in tags

    def ob(tag, name, goal):
        if want(tag): led.prove(ex, st, '%s: new_%s %s' % (tag, B, name), goal, ctx=(o, v))

    SB = ex.crate.vdisc('Side', 'Bid' if bid else 'Ask')
    SO = ex.crate.vdisc('Side', 'Ask' if bid else 'Bid')
    pl, cl = v.pc_lot, v.coin_lot
    tier = p.fee_tier.d
    C, P, lim, L = v.C, v.P, v.lim, s.L
    nb = lambda b: z3.Not(zb(b))
    # ---------------------------------------------------------------- events by role
    mfill = [e for e in s.ev if e.kind == 'Fill' and e.maker is True]
    tfill = [e for e in s.ev if e.kind == 'Fill' and e.maker is False]
    if any(e.kind == 'Fill' and e.maker not in (True, False) for e in s.ev): raise Unsupported('symbolic maker flag')
    outs = [e for e in s.ev if e.kind == 'Out']
    if any(is_z3(e.release_funds) or is_z3(e.side) for e in outs): raise Unsupported('symbolic out event')
    mout = [e for e in outs if e.release_funds and e.side == SO]
    eout = [e for e in outs if e.release_funds and e.side == SB]
    tout = [e for e in outs if not e.release_funds]
    ob('MATCH', 'changes the opposite book at its best order only', not s.bad_opp)
    # ---------------------------------------------------------------- what should have happened
    F = z3.BoolVal(False)
    if L is not None:
        L.price = ex.divrem(st, L.key, 2 ** 64, 'u128')[0]
        crossed = z3.Or(nb(v.lim_some), lim >= L.price) if bid else lim <= L.price
        maxpc = ex.divrem(st, UNFEE(tier, P), pl, 'u64')[0] if bid else None
        tstar = imin(L.quantity, C, ex.divrem(st, maxpc, L.price, 'u64')[0]) if bid else imin(L.quantity, C)
        mayt = z3.And(crossed, nb(p.post_only), tstar > 0)
        own = words_eq(p.owner, L.owner)
        after = 0 if s.removed else s.L1.quantity
        dq = L.quantity - after           # lots taken off the resting order
        ob('MATCH', 'never leaves an empty order on the book', True if s.removed else s.L1.quantity >= 1)
        same = ['tag', 'owner_slot', 'fee_tier', 'key', 'owner', 'client_order_id']
        if not s.removed:
            ob('MATCH', 'changes only the quantity of the resting order',
               ex.b(conj([veq(ex, st, getattr(L, n), getattr(s.L1, n)) for n in same])))
    else:
        crossed = mayt = own = F; tstar = z3.IntVal(0); dq = z3.IntVal(0)
        if not s.seen:
            ob('MATCH', 'consults the opposite book before acting', bool(False))
            return
    isself = z3.And(mayt, own)
    isfill = z3.And(mayt, z3.Not(own))
    # ---------------------------------------------------------------- fills
    nm = len(mfill)
    ob('MATCH', 'fills exactly when the best opposite order is within the limit and size permits', isfill == (nm == 1) if nm <= 1 else False)
    ob('EVENTS', 'reports one maker fill per trade', nm <= 1)
    FEEn = REFn = REBn = n = z3.IntVal(0); t = z3.IntVal(0)
    if nm == 1 and L is not None:
        e = mfill[0]
        t = dq
        n = t * L.price * pl
        REBn = REB(L.fee_tier, n)
        FEEn = FEE(tier, n); REFn = REF(FEEn)
        ob('MATCH', 'trades the largest size allowed by both orders, never more', t == tstar)
        ob('MATCH', 'trades at the price of the resting order and within the limit',
           z3.And(e.native_qty_received == n + REBn if bid else e.native_qty_paid == n - REBn, crossed))
        ob('EVENTS', 'maker fill identifies the resting order', z3.And(e.side == SO, e.order_id == L.key, words_eq(e.owner, L.owner),
           e.owner_slot == L.owner_slot, e.fee_tier.d == L.fee_tier, optid(ex, e, L.client_order_id)))
        ob('EVENTS', 'maker fill reports the traded amounts', z3.And(
            e.native_fee_or_rebate == REBn,
            e.native_qty_paid == t * cl if bid else e.native_qty_paid == n - REBn,
            e.native_qty_received == n + REBn if bid else e.native_qty_received == t * cl))
        ob('EVENTS', 'emits an out event for the maker exactly when its order is used up',
           (len(mout) == 1) == s.removed and len(mout) <= 1)
        for e2 in mout:
            ob('EVENTS', 'maker out event identifies the finished order', z3.And(e2.order_id == L.key, words_eq(e2.owner, L.owner),
               e2.owner_slot == L.owner_slot, optid(ex, e2, L.client_order_id), e2.native_qty_still_locked == 0))
            ob('FUNDS', 'a fully filled maker order unlocks nothing', e2.native_qty_unlocked == 0)
        # taker
        ob('EVENTS', 'reports one taker fill unless this is a send-take', z3.Implies(nb(v.send_take), zb(len(tfill) == 1)))
        ob('EVENTS', 'a send-take never credits an open-orders account', z3.Implies(v.send_take, zb(len(tfill) == 0 and len(tout) == 0)))
        for e3 in tfill:
            ob('EVENTS', 'taker fill identifies the incoming order', z3.And(e3.side == SB, e3.order_id == p.order_id, words_eq(e3.owner, p.owner),
               e3.owner_slot == p.owner_slot, e3.fee_tier.d == tier, optid(ex, e3, p.client_order_id)))
            ob('FEES', 'taker fill reports the taker fee of its tier', e3.native_fee_or_rebate == FEEn)
            ob('EVENTS', 'taker fill reports the amounts debited and credited',
               z3.And(e3.native_qty_paid == s.dr['native_pc_debit'], e3.native_qty_received == s.dr['coin_credit'] * cl) if bid else
               z3.And(e3.native_qty_paid == s.dr['coin_debit'] * cl, e3.native_qty_received == s.dr['native_pc_credit']))
        if bid:
            ob('FUNDS', 'taker receives exactly the coins the maker paid', z3.And(s.dr['coin_credit'] == t, e.native_qty_paid == s.dr['coin_credit'] * cl))
            ob('FUNDS', 'pc paid by the taker equals pc to maker plus fees plus referrer share',
               s.dr['native_pc_debit'] == e.native_qty_received + s.dm['pc_fees_accrued'] + s.dm['referrer_rebates_accrued'])
            ob('FUNDS', 'user deposits fall by exactly what left the users',
               s.dm['pc_deposits_total'] == e.native_qty_received - s.dr['native_pc_debit'])
            ob('FEES', 'taker pays the tier fee on the notional', s.dr['native_pc_debit'] == n + FEEn)
            ob('MATCH', 'spends no more than was locked', s.dr['native_pc_debit'] <= P)
        else:
            ob('FUNDS', 'taker gives exactly the coins the maker receives', z3.And(s.dr['coin_debit'] == t, e.native_qty_received == s.dr['coin_debit'] * cl))
            ob('FUNDS', 'pc paid by the maker equals pc to taker plus fees plus referrer share',
               e.native_qty_paid == s.dr['native_pc_credit'] + s.dm['pc_fees_accrued'] + s.dm['referrer_rebates_accrued'])
            ob('FUNDS', 'user deposits fall by exactly what left the users',
               s.dm['pc_deposits_total'] == s.dr['native_pc_credit'] - e.native_qty_paid)
            ob('FEES', 'taker pays the tier fee on the notional', s.dr['native_pc_credit'] == n - FEEn)
        ob('FEES', 'referrer share is one fifth of the fee', s.dm['referrer_rebates_accrued'] == REFn)
        ob('FEES', 'protocol fee is the taker fee minus rebate minus referrer share', s.dm['pc_fees_accrued'] == FEEn - REBn - REFn)
        led.cover(ex, st, 'new_%s fill%s' % (B, ' to completion' if s.removed else ''))
    else:
        ob('FEES', 'charges no fee without a fill', z3.And(s.dm['pc_fees_accrued'] == 0, s.dm['referrer_rebates_accrued'] == 0))
        ob('FUNDS', 'moves no funds without a fill', z3.And(s.dr['coin_credit'] == 0, s.dr['native_pc_credit'] == 0, s.dr['coin_debit'] == 0,
           s.dr['native_pc_debit'] == 0, s.dm['pc_deposits_total'] == 0))
        ob('EVENTS', 'reports no taker fill without a trade', len(tfill) == 0)
    if not bid or nm != 1:
        pass
    # the other-direction proceeds never move
    ob('FUNDS', 'touches only its own side of the proceeds', z3.And(s.dr['coin_debit'] == 0, s.dr['native_pc_credit'] == 0, s.dr['coin_unlocked'] == 0) if bid else
       z3.And(s.dr['coin_credit'] == 0, s.dr['native_pc_debit'] == 0, s.dr['native_pc_unlocked'] == 0))
    ob('FUNDS', 'leaves every other market total unchanged', z3.And([s.dm[k] == 0 for k in s.dm if k not in ('pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')]))
    # ---------------------------------------------------------------- self trade
    selfd = None
    if nm == 0 and L is not None and (len(mout) > 0 or s.removed):
        ob('SELF', 'cancels a resting order only to avoid a self-trade', isself)
        B_ = ex.crate.vdisc
        dec = p.self_trade_behavior.d == B_('SelfTradeBehavior', 'DecrementTake')
        can = p.self_trade_behavior.d == B_('SelfTradeBehavior', 'CancelProvide')
        ab = p.self_trade_behavior.d == B_('SelfTradeBehavior', 'AbortTransaction')
        ob('SELF', 'abort-transaction never succeeds on a self-trade', z3.Not(ab))
        ob('SELF', 'decrement-take reduces the resting order by the overlap', z3.Implies(dec, dq == tstar))
        ob('SELF', 'cancel-provide cancels the whole resting order', z3.Implies(can, zb(s.removed)))
        unit = L.price * pl if not bid else cl
        ob('EVENTS', 'reports one out event for the cancelled resting quantity', len(mout) == 1)
        for e in mout:
            ob('EVENTS', 'self-trade out event identifies the resting order', z3.And(e.order_id == L.key, words_eq(e.owner, L.owner),
               e.owner_slot == L.owner_slot, optid(ex, e, L.client_order_id)))
            ob('FUNDS', 'a cancelled resting quantity is unlocked exactly', e.native_qty_unlocked == dq * unit)
            ob('EVENTS', 'self-trade out event frees the slot only when the resting order is gone',
               (e.native_qty_still_locked == 0) == zb(s.removed))
            ob('EVENTS', 'self-trade out event reports exactly what stays locked behind the resting order', e.native_qty_still_locked == (L.quantity - dq) * unit)
        tk = z3.If(dec, dq, 0)
        selfd = tk
        led.cover(ex, st, 'new_%s self-trade%s' % (B, ' removing' if s.removed else ' partial'))
    else:
        ob('SELF', 'never lets an order trade with or pass over its own resting order', z3.Not(isself))
        if nm == 0:
            if L is not None and not s.removed:
                ob('MATCH', 'leaves the resting order alone when it does not trade', s.L1.quantity == L.quantity)
            ob('EVENTS', 'reports no maker out event when nothing happened to the maker', len(mout) == 0)
    if nm >= 1 and L is not None:
        ob('SELF', 'no fill between two orders of one owner', z3.Not(own))
    # ---------------------------------------------------------------- remainder / posting
    cq = selfd if selfd is not None else t
    crem = C - cq
    if s.rem is not None:
        ob('MATCH', 'continues with exactly the unfilled quantity', s.rem.coin == crem)
        ob('MATCH', 'continues only after matching something', z3.BoolVal(nm == 1 or selfd is not None))
        ob('MATCH', 'does not post while it continues', len(s.ins) == 0)
        if bid:
            if s.rem.pc is None: ob('FUNDS', 'funds stay attached to the continuing order', False)
            else:
                if selfd is not None:
                    ob('FUNDS', 'locked pc is conserved across a self-trade', P == s.dr['native_pc_unlocked'] + s.rem.pc)
                    ob('SELF', 'unlocks exactly the pc behind the cancelled take quantity', s.dr['native_pc_unlocked'] == selfd * L.price * pl)
                else:
                    ob('FUNDS', 'locked pc is conserved across a fill', z3.And(P == s.dr['native_pc_debit'] + s.rem.pc, s.dr['native_pc_unlocked'] == 0))
        else:
            ob('FUNDS', 'locked coins are conserved across the step', C == s.dr['coin_debit'] + s.dr['coin_unlocked'] + s.rem.coin)
            if selfd is not None: ob('SELF', 'unlocks exactly the cancelled take quantity', s.dr['coin_unlocked'] == selfd)
        for e in tout:
            ob('EVENTS', 'a continuing order keeps its slot', e.native_qty_still_locked != 0)
            ob('EVENTS', 'the out event of a continuing order reports exactly what stays locked', e.native_qty_still_locked == (s.rem.pc if bid and s.rem.pc is not None else s.rem.coin * cl))
        led.cover(ex, st, 'new_%s continues' % B)
    else:
        # finished: posted or released
        posted = s.ins[0].quantity if s.ins else z3.IntVal(0)
        ob('MATCH', 'posts at most one order', len(s.ins) <= 1)
        if selfd is not None:
            ob('MATCH', 'does not post after a self-trade', len(s.ins) == 0)
            ob('MATCH', 'finishes after a self-trade only when nothing is left', crem == 0 if not bid else
               z3.Or(crem == 0, P - selfd * L.price * pl == 0))
        if bid:
            prem = P - s.dr['native_pc_debit']
            ob('FUNDS', 'all locked pc is spent, unlocked or behind the posted order',
               z3.Implies(nb(v.send_take), P == s.dr['native_pc_debit'] + s.dr['native_pc_unlocked'] + posted * lim * pl))
            ob('FUNDS', 'a send-take unlocks nothing', z3.Implies(z3.And(v.send_take, z3.BoolVal(selfd is None)), s.dr['native_pc_unlocked'] == 0))
            if selfd is None:
                crd = z3.Or(crossed, nb(v.lim_some))
                if L is None: crd = nb(v.lim_some)
                canpost = z3.And(p.post_allowed, z3.Not(crd)) if True else F
                q = imin(crem, ex.divrem(st, ex.divrem(st, prem, pl, 'u64')[0], lim, 'u64')[0])
                ob('MATCH', 'posts exactly the affordable remainder, only when allowed and not crossing', posted == z3.If(canpost, q, 0))
        else:
            ob('FUNDS', 'all coins are sold, unlocked or behind the posted order',
               z3.Implies(nb(v.send_take), C == s.dr['coin_debit'] + s.dr['coin_unlocked'] + posted))
            ob('FUNDS', 'a send-take unlocks nothing', z3.Implies(z3.And(v.send_take, z3.BoolVal(selfd is None)), s.dr['coin_unlocked'] == 0))
            if selfd is None:
                canpost = z3.And(p.post_allowed, z3.Not(crossed))
                ob('MATCH', 'posts exactly the remainder, only when allowed and not crossing', posted == z3.If(canpost, crem, 0))
        for l in s.ins:
            ob('MATCH', 'a posted order does not cross the opposite best', z3.BoolVal(True) if L is None else (L.price > lim if bid else L.price < lim))
            ob('MATCH', 'an order that may not rest is never posted', p.post_allowed)
            ob('MATCH', 'the posted order carries the identity and terms of the request', z3.And(l.key == p.order_id, words_eq(l.owner, p.owner),
               l.owner_slot == p.owner_slot, l.fee_tier == tier, l.client_order_id == p.client_order_id, l.quantity >= 1, l.quantity <= crem,
               l.tag == ex.crate.vdisc('NodeTag', 'LeafNode')))
            ob('MATCH', 'a send-take order never rests on the book', nb(v.send_take) if not bid else z3.Implies(v.send_take, F) if not bid else z3.BoolVal(True))
            led.cover(ex, st, 'new_%s posts%s' % (B, ' after eviction' if s.evicted else ''))
        # slot release
        fin = [e for e in tout]
        for e in fin:
            ob('EVENTS', 'the final out event frees the slot exactly when the order does not rest',
               (e.native_qty_still_locked == 0) == z3.BoolVal(not s.ins))
            ob('EVENTS', 'the final out event reports exactly what stays locked', e.native_qty_still_locked == (posted * lim * pl if bid else posted * cl))
        need = z3.And(nb(v.send_take), z3.BoolVal(not s.ins))
        ob('EVENTS', 'an order that ends is reported by exactly one out event', z3.Implies(need, z3.BoolVal(len(tout) == 1)))
    for e in tout:
        ob('EVENTS', 'taker out event identifies the incoming order', z3.And(e.side == SB, e.order_id == p.order_id, words_eq(e.owner, p.owner),
           e.owner_slot == p.owner_slot, optid(ex, e, p.client_order_id)))
        ob('EVENTS', 'taker out event reports what was unlocked', e.native_qty_unlocked == (s.dr['native_pc_unlocked'] if bid else s.dr['coin_unlocked'] * cl))
    ob('EVENTS', 'at most one out event for the incoming order', len(tout) <= 1)
    # ---------------------------------------------------------------- eviction
    ob('MATCH', 'evicts an order only to make room for the posted one', len(s.evicted) == 0 or len(s.ins) == 1)
    ob('MATCH', 'evicts at most one order, the least aggressive one', len(s.evicted) == 0 or (len(s.evicted) == 1 and s.own.best in (None, 'empty')))
    ob('EVENTS', 'every evicted order is reported', len(eout) == len(s.evicted))
    for e, l in zip(eout, s.evicted):
        lp = ex.divrem(st, l.key, 2 ** 64, 'u128')[0]
        ob('EVENTS', 'eviction event identifies the evicted order and frees its slot', z3.And(e.order_id == l.key, words_eq(e.owner, l.owner),
           e.owner_slot == l.owner_slot, optid(ex, e, l.client_order_id), e.native_qty_still_locked == 0))
        ob('FUNDS', 'eviction unlocks exactly the funds behind the order', e.native_qty_unlocked == (l.quantity * lp * pl if bid else l.quantity * cl))
    if want('FUNDS'):
        z = lambda x: z3.IntVal(x) if isinstance(x, int) else x
        d = dict(a=s.dr['native_pc_debit'], u=s.dr['native_pc_unlocked'], c=s.dr['coin_credit'], cd=s.dr['coin_debit'], cu=s.dr['coin_unlocked'],
                 pcr=s.dr['native_pc_credit'], fees=s.dm['pc_fees_accrued'], ref=s.dm['referrer_rebates_accrued'],
                 mp=sum([e.native_qty_received if bid else e.native_qty_paid for e in mfill], z3.IntVal(0)),
                 mc=sum([e.native_qty_paid if bid else e.native_qty_received for e in mfill], z3.IntVal(0)))
        abort = p.self_trade_behavior.d == ex.crate.vdisc('SelfTradeBehavior', 'AbortTransaction')
        rem = (s.rem.coin, s.rem.pc) if s.rem is not None else None
        if rem is None or not bid or s.rem.pc is not None:
            posted = s.ins[0].quantity if s.ins else z3.IntVal(0)
            price = z3.If(v.lim_some, lim, 0)
            ob('FUNDS', 'step summary relied on by the matching loop', z3.And(step_relation(bid, v.send_take, abort, zb(p.post_only), zb(p.post_allowed), P, C, d,
               s.dm['pc_deposits_total'], price, pl, cl, rem, posted)))
    return s
