"""Contract of OrderBookState::new_order / process_orderbook_request over the contracts of new_bid/new_ask
(proved in step.py): the whole matching loop of one request, by loop invariant, for any number of iterations."""
from step import *

GH = ['a', 'u', 'c', 'cd', 'cu', 'pcr', 'mp', 'mc', 'fees', 'ref', 'calls']
# a: pc debited from the taker      u: pc unlocked          c: coin lots credited     cd: coin lots debited
# cu: coin lots unlocked            pcr: pc credited        mp: pc users other than the taker gained (bid) / paid (ask)
# mc: native coins makers paid (bid) / received (ask)


def step_contract(spec, side):
    bid = side == 'bid'

    def con(ex, st, a, c):
        v = spec.v
        G = dict(st.ghost['G'])
        prm = a[1]; S = 'NewBidParams' if bid else 'NewAskParams'
        names = ex.crate.structs[S]
        p = V()
        for i, n in enumerate(names): setattr(p, n, prm.f[i])
        C = p.max_coin_qty if bid else p.max_qty
        P = p.native_pc_qty_locked if bid else None
        req = spec.req
        pr = lambda n, g: spec.prove(ex, st, n, g)
        # ---- call-site obligations
        price = ex.divrem(st, req.order_id, 2 ** 64, 'u128')[0]
        if bid:
            some = zb(p.limit_price.d == 1)
            lv = p.limit_price.f.get(('Some', 0))
            pr('the limit price used is the one encoded in the order id',
               z3.And(some == (price != 0), z3.Implies(some, lv == price) if lv is not None else z3.BoolVal(True)))
        else: pr('the limit price used is the one encoded in the order id', p.limit_price == price)
        pr('a bid request is matched as a bid and an ask as an ask', req.side == ex.crate.vdisc('Side', 'Bid' if bid else 'Ask'))
        pr('the order is matched under its own identity', z3.And(p.order_id == req.order_id, words_eq(p.owner, req.owner), p.owner_slot == req.owner_slot,
           p.fee_tier.d == req.fee_tier.d, p.client_order_id == req.client, p.self_trade_behavior.d == req.stb.d))
        OT = lambda n: req.order_type.d == ex.crate.vdisc('OrderType', n)
        lim = ex.cell(st, spec.limit.cell)
        pr('post-only orders, and only those or exhausted ones, skip matching', zb(p.post_only) == z3.Or(OT('PostOnly'), lim == 0))
        pr('immediate-or-cancel orders, and only those, may not rest', zb(p.post_allowed) == z3.Not(OT('ImmediateOrCancel')))
        pr('each step works on exactly what earlier steps left over', z3.And(C == G['C'], (P == G['P']) if bid else z3.BoolVal(True)))
        # ---- effects
        out = []
        n = next(ex.ctr)
        d = {k: ex.int_sym('%s%d' % (k, n), 'u64') for k in ('a', 'u', 'c', 'cd', 'cu', 'pcr', 'mp', 'mc', 'fees', 'ref')}
        err = st.fork()
        R = ex.cell(st, a[3].cell); f = dict(R.f)
        def bump(nm, k):
            i = ex.crate.fidx('RequestProceeds', nm)
            f[i] = f[i] + d[k]; ex.assume(st, f[i] <= 2 ** 64 - 1)
        for nm, k in (('coin_unlocked', 'cu'), ('native_pc_unlocked', 'u'), ('coin_credit', 'c'), ('native_pc_credit', 'pcr'), ('coin_debit', 'cd'), ('native_pc_debit', 'a')): bump(nm, k)
        st.mem[a[3].cell] = Rec(R.ty, R.name, f)
        M = ex.cell(st, v.mkt.cell)
        pcd = z3.Int('pcd%d' % n)
        for nm, dv in (('pc_deposits_total', pcd), ('pc_fees_accrued', d['fees']), ('referrer_rebates_accrued', d['ref'])):
            i = ex.crate.fidx('MarketState', nm)
            x = ex.get1(st, M, ('f', i, 'u64')) + dv
            ex.assume(st, z3.And(x >= 0, x <= 2 ** 64 - 1))
            M = M.set(i, x)
        st.mem[v.mkt.cell] = M
        for k in d: G[k] = G[k] + d[k]
        G['calls'] = G['calls'] + 1
        ty = 'Result<Option<OrderRemaining>, DexError>'
        cont = st.fork()
        # finished
        post = ex.int_sym('posted%d' % n, 'u64')
        G1 = dict(G); G1['posted'] = post; G1['C'] = z3.IntVal(0); G1['P'] = z3.IntVal(0)
        abort = req.stb.d == ex.crate.vdisc('SelfTradeBehavior', 'AbortTransaction')
        rel = lambda **k: step_relation(bid, req.send_take, abort, zb(p.post_only), zb(p.post_allowed), P, C, d, pcd, price, v.pc_lot, v.coin_lot, **k)
        for g in rel(posted=post): ex.assume(st, g)
        G1['end'] = 'done'
        st.ghost['G'] = G1
        out.append((st, ex.ok(ex.none('OrderRemaining'), ty)))
        # continues
        rc = ex.int_sym('rem.coin%d' % n, 'NonZeroU64'); rp = ex.int_sym('rem.pc%d' % n, 'NonZeroU64')
        G2 = dict(G); G2['C'] = rc; G2['P'] = rp; G2['end'] = 'more'
        for g in rel(rem=(rc, rp)): ex.assume(cont, g)
        pc = ex.some(rp, 'NonZeroU64') if bid else ex.none('NonZeroU64')
        rem = Rec('OrderRemaining', None, {ex.crate.fidx('OrderRemaining', 'coin_qty_remaining'): rc, ex.crate.fidx('OrderRemaining', 'native_pc_qty_remaining'): pc})
        cont.ghost['G'] = G2
        out.append((cont, ex.ok(ex.some(rem, 'OrderRemaining'), ty)))
        out.append((err, ex.err(ex.fresh('DexError', 'err%d' % n), ty)))
        return out
    return con


class OrderLoop(LoopSpec):
    def __init__(s):
        LoopSpec.__init__(s); s.name = 'ORDER: new_order'

    def ghosts(s, ex, st):
        G = st.ghost['G']
        bid = s.req.side == ex.crate.vdisc('Side', 'Bid')
        return {'C': G['C'], 'P': Enum('Option<NonZeroU64>', None, z3.If(bid, 1, 0), {('Some', 0): G['P']})}

    def inv(s, ex, st, fr):
        G = st.ghost['G']; v = s.v; req = s.req
        R = ex.cell(st, s.rel.cell); M = ex.cell(st, v.mkt.cell)
        r = lambda n: fld(ex, st, R, 'RequestProceeds', n, 'u64') - v.r0[n]
        m = lambda n: fld(ex, st, M, 'MarketState', n, 'u64') - v.m0[n]
        bid = req.side == ex.crate.vdisc('Side', 'Bid')
        lim = ex.cell(st, s.limit.cell)
        return [
            ('proceeds are the sums over the steps', z3.And(r('native_pc_debit') == G['a'], r('native_pc_unlocked') == G['u'], r('coin_credit') == G['c'],
                r('coin_debit') == G['cd'], r('coin_unlocked') == G['cu'], r('native_pc_credit') == G['pcr'])),
            ('market totals are the sums over the steps', z3.And(m('pc_fees_accrued') == G['fees'], m('referrer_rebates_accrued') == G['ref'],
                m('pc_deposits_total') == z3.If(bid, G['mp'] - G['a'], G['pcr'] - G['mp']))),
            ('locked pc is spent, unlocked or carried on', z3.Implies(bid, z3.And(req.P == G['a'] + G['u'] + G['P'], G['P'] >= 1))),
            ('coins are sold, unlocked or carried on', z3.Implies(z3.Not(bid), req.C == G['cd'] + G['cu'] + G['C'])),
            ('pc paid equals pc received plus fees', z3.If(bid, G['a'] == G['mp'] + G['fees'] + G['ref'], G['mp'] == G['pcr'] + G['fees'] + G['ref'])),
            ('coins paid equal coins received', G['mc'] == z3.If(bid, G['c'], G['cd']) * v.coin_lot),
            ('only the own side moves', z3.If(bid, z3.And(G['cd'] == 0, G['cu'] == 0, G['pcr'] == 0), z3.And(G['a'] == 0, G['u'] == 0, G['c'] == 0))),
            ('every step spends one unit of the match budget', z3.And(G['calls'] + lim == req.limit, G['calls'] >= 0, G['C'] >= 1, G['C'] <= req.C)),
            ('other market fields untouched', z3.And([m(k) == 0 for k in MARKET_U64 if k not in ('pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')])),
        ] + [('amounts are non-negative', z3.And([G[k] >= 0 for k in GH]))]

    def havoc(s, ex, st, fr):
        n = next(ex.ctr)
        G = {k: z3.Int('G.%s.%d' % (k, n)) for k in GH}
        G['C'] = ex.int_sym('G.C.%d' % n, 'NonZeroU64'); G['P'] = ex.int_sym('G.P.%d' % n, 'u64'); G['posted'] = z3.IntVal(0); G['end'] = 'start'
        st.ghost['G'] = G
        R = ex.cell(st, s.rel.cell)
        st.mem[s.rel.cell] = Rec(R.ty, None, {i: ex.int_sym('rel%d.%d' % (n, i), 'u64') for i in R.f})
        M = ex.cell(st, s.v.mkt.cell)
        for k in ('pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued'):
            M = M.set(ex.crate.fidx('MarketState', k), ex.int_sym('m%d.%s' % (n, k), 'u64'))
        st.mem[s.v.mkt.cell] = M
        st.mem[s.limit.cell] = ex.int_sym('limit%d' % n, 'u16')


def verify_order(led, crate, tags=None):
    """new_order, entered through process_orderbook_request with an arbitrary NewOrder request"""
    spec = OrderLoop()
    spec.led = led
    fn = crate.find('OrderBookState', 'process_orderbook_request')
    no = crate.find('OrderBookState', 'new_order')
    if len(fn) != 1 or len(no) != 1: raise Unsupported('new_order not found')
    last = {}

    def mk(final):
        ex = Engine(crate); ex.models = models.M; install(ex)
        ex.loop_specs = {no[0].name: spec}
        ex.contracts['OrderBookState::new_bid'] = step_contract(spec, 'bid')
        ex.contracts['OrderBookState::new_ask'] = step_contract(spec, 'ask')
        st = State(); v = V(); spec.v = v
        setup_ob(ex, st, v)
        spec.rel = v.rel
        req = V(); spec.req = req
        rv = ex.fresh('RequestView', 'req')
        d = crate.vdisc('RequestView', 'NewOrder')
        ex.assume(st, rv.d == d)
        TY = {'side': 'Side', 'order_type': 'OrderType', 'order_id': 'u128', 'owner_slot': 'u8', 'fee_tier': 'FeeTier', 'owner': '[u64; 4]',
              'max_coin_qty': 'NonZeroU64', 'native_pc_qty_locked': 'Option<NonZeroU64>', 'client_order_id': 'Option<NonZeroU64>', 'self_trade_behavior': 'SelfTradeBehavior'}
        g = {}
        for nm in TY:
            i = crate.vidx('RequestView', 'NewOrder', nm)
            g[nm] = ex.get1(st, ('variant', rv, 'NewOrder'), ('f', i, TY[nm]))
        req.side = g['side'].d; req.order_id = g['order_id']; req.owner = g['owner']; req.owner_slot = g['owner_slot']; req.fee_tier = g['fee_tier']
        req.order_type = g['order_type']; req.stb = g['self_trade_behavior']; req.C = g['max_coin_qty']
        pq = g['native_pc_qty_locked']; req.P = ex.payload(st, pq, 'Some', 0, 'NonZeroU64')
        bid = req.side == crate.vdisc('Side', 'Bid')
        # requires (established by every caller): a bid locks pc, an ask does not
        ex.assume(st, (pq.d == 1) == bid)
        ci = g['client_order_id']
        req.client = z3.If(ci.d == 1, ex.payload(st, ci, 'Some', 0, 'NonZeroU64'), 0)
        req.send_take = z3.And([w == SYSTEM for w in req.owner.items])
        spec.limit = Ptr(('LIM', 0)); req.limit = ex.int_sym('limit', 'u16'); st.mem[spec.limit.cell] = req.limit
        rp = Ptr(('RV', 0)); st.mem[rp.cell] = rv
        st.ghost['G'] = dict({k: z3.IntVal(0) for k in GH}, C=req.C, P=z3.If(bid, req.P, 0), posted=z3.IntVal(0), end='start')
        outs = ex.run(fn[0], [v.self, rp, v.q, v.rel, spec.limit], st)
        last['ex'] = ex
        return outs, ex, v

    outs, ex, v = houdini(mk, spec)
    req = spec.req
    bid = req.side == crate.vdisc('Side', 'Bid')
    n = 0
    for o in outs:
        if o.kind != 'ret' or o.val.d != 0: continue
        st = o.st; G = st.ghost['G']; n += 1
        pr = lambda nm, g: led.prove(ex, st, 'ORDER: request ' + nm, g)
        res = o.val.f[('Ok', 0)]
        pr('ends only when the last step finished the order', z3.And(zb(res.d == 0), z3.BoolVal(G['end'] == 'done')))
        r1 = proceeds_after(ex, st, v); m1 = market_after(ex, st, v)
        dr = {k: r1[k] - v.r0[k] for k in r1}; dm = {k: m1[k] - v.m0[k] for k in m1}
        price = ex.divrem(st, req.order_id, 2 ** 64, 'u128')[0]
        ns = z3.Not(req.send_take)
        pr('spends, unlocks or leaves behind the posted order all the pc it locked', z3.Implies(z3.And(bid, ns),
           req.P == dr['native_pc_debit'] + dr['native_pc_unlocked'] + G['posted'] * price * v.pc_lot))
        pr('sells, unlocks or leaves on the book all the coins it locked', z3.Implies(z3.And(z3.Not(bid), ns),
           req.C == dr['coin_debit'] + dr['coin_unlocked'] + G['posted']))
        pr('never spends more than it locked', z3.And(z3.Implies(bid, dr['native_pc_debit'] <= req.P), z3.Implies(z3.Not(bid), dr['coin_debit'] <= req.C)))
        pr('pays makers and the fee accounts exactly what the taker pays', z3.If(bid,
           z3.And(dr['native_pc_debit'] == G['mp'] + dm['pc_fees_accrued'] + dm['referrer_rebates_accrued'], dm['pc_deposits_total'] == G['mp'] - dr['native_pc_debit'], dr['coin_credit'] * v.coin_lot == G['mc']),
           z3.And(G['mp'] == dr['native_pc_credit'] + dm['pc_fees_accrued'] + dm['referrer_rebates_accrued'], dm['pc_deposits_total'] == dr['native_pc_credit'] - G['mp'], dr['coin_debit'] * v.coin_lot == G['mc'])))
        lim = ex.cell(st, spec.limit.cell)
        pr('takes at most one matching step more than its budget', z3.And(G['calls'] <= req.limit + 1, G['calls'] >= 1, lim <= req.limit, lim >= 0))
        pr('immediate-or-cancel leaves nothing on the book', z3.Implies(req.order_type.d == crate.vdisc('OrderType', 'ImmediateOrCancel'), G['posted'] == 0))
        led.cover(ex, st, 'order request completes')
    if n == 0: raise Unsupported('no completing path of process_orderbook_request')
    led.note_engine(ex)
    return spec
