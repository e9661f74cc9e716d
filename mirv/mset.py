"""Entry set-up for matching-engine functions: symbolic arguments, preconditions, named views of the result."""
from book import *


class V:
    pass


def fld(ex, st, rec, struct, name, ty):
    return ex.get1(st, rec, ('f', ex.crate.fidx(struct, name), ty))


PROCEEDS = ['coin_unlocked', 'native_pc_unlocked', 'coin_credit', 'native_pc_credit', 'coin_debit', 'native_pc_debit']
MARKET_U64 = ['account_flags', 'vault_signer_nonce', 'coin_deposits_total', 'coin_fees_accrued', 'pc_deposits_total',
              'pc_fees_accrued', 'pc_dust_threshold', 'coin_lot_size', 'pc_lot_size', 'fee_rate_bps', 'referrer_rebates_accrued']


def setup_ob(ex, st, v):
    cr = ex.crate
    v.self = ex.fresh('&mut OrderBookState', 'ob')
    S = ex.cell(st, v.self.cell)
    v.bids = fld(ex, st, S, 'OrderBookState', 'bids', '&mut Slab')
    v.asks = fld(ex, st, S, 'OrderBookState', 'asks', '&mut Slab')
    v.mkt = fld(ex, st, S, 'OrderBookState', 'market_state', '&mut MarketState')
    st.mem[v.bids.cell] = Opq('Slab', Book('bid', 'bids'))
    st.mem[v.asks.cell] = Opq('Slab', Book('ask', 'asks'))
    M = ex.cell(st, v.mkt.cell)
    v.m0 = {n: fld(ex, st, M, 'MarketState', n, 'u64') for n in MARKET_U64}
    v.pc_lot, v.coin_lot = v.m0['pc_lot_size'], v.m0['coin_lot_size']
    ex.assume(st, z3.And(v.pc_lot >= 1, v.coin_lot >= 1))
    v.q = Ptr(('Q', 0)); st.mem[v.q.cell] = Opq('EventQueue', ())
    v.rel = Ptr(('REL', 0))
    st.mem[v.rel.cell] = Rec('RequestProceeds', None, {cr.fidx('RequestProceeds', n): ex.int_sym('rel.' + n, 'u64') for n in PROCEEDS})
    v.r0 = {n: ex.int_sym('rel.' + n, 'u64') for n in PROCEEDS}


def market_after(ex, st, v):
    M = ex.cell(st, v.mkt.cell)
    return {n: fld(ex, st, M, 'MarketState', n, 'u64') for n in MARKET_U64}


def proceeds_after(ex, st, v):
    R = ex.cell(st, v.rel.cell)
    return {n: fld(ex, st, R, 'RequestProceeds', n, 'u64') for n in PROCEEDS}


def events_after(ex, st, v):
    out = []
    for e in ex.cell(st, v.q.cell).v:
        w = e.f['view']
        x = V()
        vs = {d: (nm, fl) for nm, d, fl in ex.crate.enums['EventView']}
        x.kind, fl = vs[w.d]
        for i, n in enumerate(fl): setattr(x, n, w.f[(x.kind, i)])
        x.side = x.side.d
        out.append(x)
    return out


def leaf(ex, l):
    x = V()
    for i, n in enumerate(leaf_fields(ex)): setattr(x, n, l.f[i])
    return x


def params(ex, st, struct, name):
    """fresh parameter struct with named access"""
    TY = {'max_coin_qty': 'NonZeroU64', 'max_qty': 'NonZeroU64', 'native_pc_qty_locked': 'NonZeroU64', 'order_id': 'u128',
          'owner': '[u64; 4]', 'owner_slot': 'u8', 'fee_tier': 'FeeTier', 'post_only': 'bool', 'post_allowed': 'bool',
          'client_order_id': 'u64', 'self_trade_behavior': 'SelfTradeBehavior'}
    p = V(); f = {}
    for i, n in enumerate(ex.crate.structs[struct]):
        if n == 'limit_price': ty = 'NonZeroU64' if struct == 'NewAskParams' else 'Option<NonZeroU64>'
        else: ty = TY[n]
        x = ex.fresh(ty, name + '.' + n)
        f[i] = x; setattr(p, n, x)
    p.rec = Rec(struct, None, f)
    return p


def opt_nz(ex, st, o):
    """Option<NonZeroU64> -> (is_some, value)"""
    return (o.d == 1 if is_z3(o.d) else o.d == 1), ex.payload(st, o, 'Some', 0, 'NonZeroU64') if (o.f.get(('Some', 0)) is not None or o.name) else 0
