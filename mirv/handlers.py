"""Contracts of the instruction handlers: State::process for one instruction kind at a time, over arbitrary accounts,
arbitrary market / open-orders / queue contents and arbitrary instruction arguments."""
from acct import *
from verify import *
from loops import *

DISC = ('InitializeMarket', 'NewOrderV3', 'SettleFunds')



# ---------------------------------------------------------------- event and request queues of the market's accounts
def qrec(ex, st, p):
    q = ex.load(st, p)
    if isinstance(q, Rec) and isinstance(q.f.get(0), Ptr) and q.f[0].cell[0] == 'OV': return q
    return None


def hfield(ex, st, hp, f):
    T = hp.cell[2]
    return ex.load(st, Ptr(hp.cell, hp.path + (('f', ex.crate.fidx(T, f), 'u64'),)))


def hset(ex, st, hp, f, v):
    T = hp.cell[2]
    ex.store(st, Ptr(hp.cell, hp.path + (('f', ex.crate.fidx(T, f), 'u64'),)), v)


def qlog(st, acc): return st.ghost.get(('push', acc), ())


def q_push(ex, st, a, c):
    """ring contract (C09): Err(value) iff full; else appended behind the last, sequence number advanced"""
    q = qrec(ex, st, a[0])
    if q is None: return queue_push(ex, st, a, c)
    h = q.f[0]; acc, T = h.cell[1], h.cell[2]
    if T != 'EventQueueHeader': raise Unsupported('push onto the request queue')
    n = hfield(ex, st, h, 'count'); cap = ex.length(st, q.f[1])
    out = []
    for s, full in ex.split_bool(st, n == cap):
        if full: out.append((s, ex.err(a[1], 'Result<(), Event>'))); continue
        hset(ex, s, h, 'count', n + 1)
        hset(ex, s, h, 'seq_num', hfield(ex, s, h, 'seq_num') + 1)
        s.ghost[('push', acc)] = qlog(s, acc) + (a[1],)
        out.append((s, ex.ok(UNIT, 'Result<(), Event>')))
    return out


def q_peek(ex, st, a, c):
    q = qrec(ex, st, a[0])
    if q is None: raise Unsupported('peek_front')
    h = q.f[0]; acc = h.cell[1]
    n = hfield(ex, st, h, 'count')
    out = []
    for s, empty in ex.split_bool(st, n == 0):
        if empty: out.append((s, ex.none('&Event'))); continue
        out.append((s, ex.some(front(ex, s, acc), '&Event')))
    return out


def front(ex, st, acc):
    k = st.ghost.get(('pop', acc), 0)
    g = st.ghost.get('qgen', 0)
    cell = ('QE', acc, g, k)
    if cell not in st.mem: st.mem[cell] = Rec('Event', '%s.ev%s.%d' % (acc, '!%d' % g if g else '', k), {})
    return Ptr(cell)


def q_pop(ex, st, a, c):
    q = qrec(ex, st, a[0])
    if q is None: raise Unsupported('pop_front')
    h = q.f[0]; acc = h.cell[1]
    n = hfield(ex, st, h, 'count')
    out = []
    for s, empty in ex.split_bool(st, n == 0):
        if empty: out.append((s, ex.err(UNIT, 'Result<Event, ()>'))); continue
        v = ex.load(s, front(ex, s, acc))
        s.ghost[('pop', acc)] = s.ghost.get(('pop', acc), 0) + 1
        hset(ex, s, h, 'count', n - 1)
        hset(ex, s, h, 'head', ex.int_sym(ex.gensym('head'), 'u64'))
        out.append((s, ex.ok(v, 'Result<Event, ()>')))
    return out


# ---------------------------------------------------------------- fee tier and matching, by contract
TIER = z3.Function('fee_tier', *([z3.IntSort()] * 7))


def tier_contract(ex, st, a, c):
    """FeeTier::from_srm_and_msrm_balances (C03)"""
    return Enum('FeeTier', None, TIER(*[ex.z(x) for x in words(ex, st, a[0]) + [a[1], a[2]]]), {})


def tier_ax(x):
    if x.decl().name() == 'fee_tier': yield z3.And(x >= 0, x <= 7)


def request_contract(ex, st, a, c):
    """OrderBookState::process_orderbook_request, as proved in order.py (C02, C06); its requires are checked on the recorded request"""
    ob = ex.load(st, a[0]); q = qrec(ex, st, a[2])
    S = 'OrderBookState'
    bp, kp, mp = [ex.get1(st, ob, ('f', ex.crate.fidx(S, n), '&mut')) for n in ('bids', 'asks', 'market_state')]
    rv = ex.load(st, a[1])
    n = next(ex.ctr)
    R = {}
    if rv.d != ex.crate.vdisc('RequestView', 'NewOrder'): raise Unsupported('request kind')
    TY = {'side': 'Side', 'order_type': 'OrderType', 'order_id': 'u128', 'owner_slot': 'u8', 'fee_tier': 'FeeTier', 'owner': '[u64; 4]',
          'max_coin_qty': 'NonZeroU64', 'native_pc_qty_locked': 'Option<NonZeroU64>', 'client_order_id': 'Option<NonZeroU64>', 'self_trade_behavior': 'SelfTradeBehavior'}
    for f in TY: R[f] = ex.get1(st, ('variant', rv, 'NewOrder'), ('f', ex.crate.vidx('RequestView', 'NewOrder', f), TY[f]))
    R['bids'], R['asks'] = book_side(ex, st, bp), book_side(ex, st, kp)
    if R['bids'] is None or R['asks'] is None: raise Unsupported('books of the request')
    M = ex.load(st, mp); mk, mrec, mptr = market_of(ex, st)
    R['market'] = mp == mptr
    R['event_q'] = q.f[0].cell[1] if q is not None else None
    R['limit'] = ex.load(st, a[4])
    side = R['side'].d; bid = ex.b(side == ex.crate.vdisc('Side', 'Bid'))
    pq = R['native_pc_qty_locked']
    R['locked_some'] = ex.b(pq.d == 1)
    P = R['P'] = ex.payload(st, pq, 'Some', 0, 'NonZeroU64') if (('Some', 0) in pq.f or pq.name) else z3.IntVal(0)
    C = R['max_coin_qty']
    d = {k: ex.int_sym('mt.%s%d' % (k, n), 'u64') for k in ('a', 'u', 'c', 'cd', 'cu', 'pcr', 'mp', 'mc', 'fees', 'ref')}
    posted = ex.int_sym('mt.posted%d' % n, 'u64'); pcd = z3.Int('mt.pcd%d' % n)
    R.update(d); R['posted'] = posted
    err = st.fork()
    g = lambda f: ex.get1(st, M, ('f', ex.crate.fidx('MarketState', f), 'u64'))
    pc_lot, coin_lot = g('pc_lot_size'), g('coin_lot_size')
    price = ex.divrem(st, R['order_id'], 2 ** 64, 'u128')[0]
    R['price'] = price
    send_take = conj([w == 0 for w in R['owner'].items])
    send_take = ex.b(send_take)
    abort = ex.b(R['self_trade_behavior'].d == ex.crate.vdisc('SelfTradeBehavior', 'AbortTransaction'))
    ioc = ex.b(R['order_type'].d == ex.crate.vdisc('OrderType', 'ImmediateOrCancel'))
    ns = z3.Not(send_take)
    ex.assume(st, z3.If(bid, z3.And([d[k] == 0 for k in ('cd', 'cu', 'pcr')]), z3.And([d[k] == 0 for k in ('c', 'a', 'u')])))
    ex.assume(st, z3.If(bid, z3.And(d['a'] == d['mp'] + d['fees'] + d['ref'], pcd == d['mp'] - d['a'], d['mc'] == d['c'] * coin_lot, d['a'] <= P,
                                    z3.Implies(ns, P == d['a'] + d['u'] + posted * price * pc_lot)),
                             z3.And(d['mp'] == d['pcr'] + d['fees'] + d['ref'], pcd == d['pcr'] - d['mp'], d['mc'] == d['cd'] * coin_lot, d['cd'] <= C,
                                    z3.Implies(ns, C == d['cd'] + d['cu'] + posted))))
    ex.assume(st, z3.Implies(ioc, posted == 0))
    # effects: proceeds, market totals, event queue, books, budget
    Rp = ex.load(st, a[3]); f = dict(Rp.f)
    for nm, k in (('coin_unlocked', 'cu'), ('native_pc_unlocked', 'u'), ('coin_credit', 'c'), ('native_pc_credit', 'pcr'), ('coin_debit', 'cd'), ('native_pc_debit', 'a')):
        i = ex.crate.fidx('RequestProceeds', nm)
        f[i] = ex.get1(st, Rp, ('f', i, 'u64')) + d[k]; ex.assume(st, f[i] <= 2 ** 64 - 1)
    ex.store(st, a[3], Rec(Rp.ty, Rp.name, f))
    for nm, dv in (('pc_deposits_total', pcd), ('pc_fees_accrued', d['fees']), ('referrer_rebates_accrued', d['ref'])):
        x = g(nm) + dv
        ex.assume(st, z3.And(x >= 0, x <= 2 ** 64 - 1))
        ex.store(st, Ptr(mp.cell, mp.path + (('f', ex.crate.fidx('MarketState', nm), 'u64'),)), x)
    if q is not None:
        k = ex.int_sym('mt.events%d' % n, 'u64')
        h = q.f[0]
        hset(ex, st, h, 'count', hfield(ex, st, h, 'count') + k); hset(ex, st, h, 'seq_num', hfield(ex, st, h, 'seq_num') + k)
    lim = ex.int_sym('mt.limit%d' % n, 'u16'); ex.assume(st, lim <= R['limit'])
    ex.store(st, a[4], lim)
    st.ghost['req'] = st.ghost.get('req', ()) + (R,)
    ty = 'Result<Option<OrderRemaining>, DexError>'
    return [(st, ex.ok(ex.none('OrderRemaining'), ty)), (err, ex.err(ex.fresh('DexError', 'mt.err%d' % n), ty))]


def install_ins(ex):
    install_acct(ex)
    C = ex.contracts
    C['Queue::push_back'] = q_push; C['Queue::peek_front'] = q_peek; C['Queue::pop_front'] = q_pop
    C['FeeTier::from_srm_and_msrm_balances'] = tier_contract
    C['OrderBookState::process_orderbook_request'] = request_contract
    ex.axfn.append(tier_ax)


def accs(ex, st):
    n = ex.int_sym('naccs', 'usize')
    st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
    return Ptr(('ACCS',)), n


def start(ex, variant, payload):
    """State::process(program_id, accounts, input) where unpack yields `variant`"""
    st = State()
    ex.celltypes[('S', 'prog')] = 'Pubkey'
    ap, n = accs(ex, st)
    inp = Ptr(('INPUT',)); st.mem[('INPUT',)] = Opq('input', None)

    def unpack(ex, st, a, c):
        d = ex.crate.vdisc('MarketInstruction', variant)
        return ex.some(Enum('MarketInstruction', None, d, {(variant, i): p for i, p in enumerate(payload)}), 'MarketInstruction')
    ex.contracts['MarketInstruction::unpack'] = unpack
    fn = ex.crate.find('State', 'process')
    if len(fn) != 1: raise Unsupported('State::process')
    return fn[0], [Ptr(('S', 'prog')), ap, inp], st, n


def run_loops(crate, variant, payload, prep, pre, hook):
    """run_case with unbounded loops: explore until the loop invariants are stable, then once more with the specification attached"""
    auto = Auto(); stable = 0
    for r in range(14):
        auto.round(); run_case(crate, variant, payload, prep, pre, auto); auto.end_round()
        stable = 0 if auto.changed else stable + 1
        if stable == 2: break
    else: raise Unsupported('loop invariants did not stabilise')
    auto.final = True; auto.hook = hook
    auto.round(); r = run_case(crate, variant, payload, prep, pre, auto); auto.end_round()
    if auto.changed: raise Unsupported('loop invariants did not stabilise')
    return r


def run_case(crate, variant, payload=(), prep=None, pre=None, auto=None):
    ex = Engine(crate); install_ins(ex)
    if auto is not None: install_loops(ex, auto)
    if prep: prep(ex)
    p = payload(ex) if callable(payload) else list(payload)
    fn, args, st, n = start(ex, variant, p)
    if pre: pre(ex, st)
    st.ghost['pc0'] = len(st.pc)
    outs = ex.run(fn, args, st)
    return ex, [o for o in outs if o.kind == 'ret' and o.val.d == 0], outs
