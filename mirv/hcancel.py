"""Cancellation, pruning."""
from hspec import *

CANCEL = ['market', 'bids', 'asks', 'oo', 'owner', 'event_q']


def outview(ex, st, ev):
    v = ev.f.get('view')
    if v is None: raise Unsupported('event without view')
    return v


EV = {'side': 'Side', 'release_funds': 'bool', 'native_qty_unlocked': 'u64', 'native_qty_still_locked': 'u64', 'order_id': 'u128', 'owner': '[u64; 4]', 'owner_slot': 'u8', 'client_order_id': 'Option<NonZeroU64>'}


def cancelled(h, bid, oid, ev, leaf, named=True):
    """obligations of one cancelled order: `leaf` taken off the book, `ev` reported; returns (pc unlocked, coin unlocked)"""
    ex = h.ex
    l = lambda n: lf(ex, leaf, n)
    price = ex.divrem(h.st, l('key'), 2 ** 64, 'u128')[0]
    slot = l('owner_slot')
    h.ob('FUNC|AUTH', 'cancels only orders of this account', weq(words(ex, h.st, l('owner')), h.key('oo')))
    if named: h.ob('FUNC', 'cancels exactly the order named', l('key') == oid)
    h.ob('FUNC|SLOT', 'cancels only an order recorded in its slot of the account, on its side', z3.And(z3.Select(h.o0('orders').a, slot) == oid, z3.Not(BIT(h.o0('free_slot_bits'), slot)), BIT(h.o0('is_bid_bits'), slot) == bid))
    q = z3.If(bid, l('quantity') * price * h.m0('pc_lot_size'), l('quantity') * h.m0('coin_lot_size'))
    v = outview(ex, h.st, ev)
    isout = v.d == ex.crate.vdisc('EventView', 'Out')
    h.ob('FUNC', 'reports an out event', isout)
    if isout is not True: return z3.IntVal(0), z3.IntVal(0)
    g = lambda n: ex.get1(h.st, ('variant', v, 'Out'), ('f', ex.crate.vidx('EventView', 'Out', n), EV[n]))
    h.ob('FUNC', 'reports the cancelled order, its account, slot, side and client id', z3.And(weq(words(ex, h.st, g('owner')), h.key('oo')), g('order_id') == oid, g('owner_slot') == slot,
         ex.b(g('side').d == ex.crate.vdisc('Side', 'Bid')) == bid, isopt(ex, g('client_order_id'), l('client_order_id'))))
    h.ob('FUNC', 'reports the amount unlocked, nothing locked and nothing left to release', z3.And(g('native_qty_unlocked') == q, g('native_qty_still_locked') == 0, z3.Not(ex.b(g('release_funds')))))
    return z3.If(bid, q, 0), z3.If(bid, 0, q)


def cancel_common(h):
    h.loaded_market(disabled_ok=True)
    h.signed('owner', 'the owner of the open-orders account')
    h.oo_of('owner')
    h.book_accounts()


def cancel_books(h):
    """(side, removed leaves) of the two books"""
    inv = {a: r for r, a in h.roles.items()}
    out = []
    for c, v in h.st.mem.items():
        if c[0] != 'BOOK': continue
        b = v.v
        for op, leaf, key in b.log: out.append((inv.get(c[1]), b.side, op, leaf))
    return out


def cancel_effect(h, pu, cu, nev):
    h.ob('FUNC|SOLV', 'frees exactly what was locked for the rest of the order', z3.And(h.o1('native_pc_free') == h.o0('native_pc_free') + pu, h.o1('native_coin_free') == h.o0('native_coin_free') + cu))
    h.ob('FUNC|SOLV', 'never leaves more free than the account holds', z3.And(z3.Implies(z3.Or(pu != 0, h.o0('native_pc_free') <= h.o0('native_pc_total')), h.o1('native_pc_free') <= h.o1('native_pc_total')),
         z3.Implies(z3.Or(cu != 0, h.o0('native_coin_free') <= h.o0('native_coin_total')), h.o1('native_coin_free') <= h.o1('native_coin_total'))))
    h.totals_unchanged()
    h.frame(('oo', 'OpenOrders', 'native_pc_free'), ('oo', 'OpenOrders', 'native_coin_free'), ('event_q', 'EventQueueHeader', 'count'), ('event_q', 'EventQueueHeader', 'seq_num'), ('bids', 'book'), ('asks', 'book'))


def one_cancel(h, bid, oid):
    log = cancel_books(h); evs = h.st.ghost.get(('push', h.acc('event_q')), ())
    h.ob('FUNC', 'removes exactly one order from the books', len(log) == 1 and log[0][2] == 'remove')
    h.ob('FUNC', 'reports exactly one event', len(evs) == 1)
    if len(log) != 1 or len(evs) != 1: return
    role, side, op, leaf = log[0]
    h.ob('FUNC', 'removes it from the book of its side', bid == (side == 'bid'))
    pu, cu = cancelled(h, bid, oid, evs[0], leaf)
    cancel_effect(h, pu, cu, 1)


def cancel_v2(h):
    T = 'CancelOrderInstructionV2'
    h.ob('ACCT', 'takes at least six accounts', h.n() >= 6)
    cancel_common(h)
    bid = h.ex.b(h.is_bid(T))
    one_cancel(h, bid, h.insf(T, 'order_id'))
    h.led.cover(h.ex, h.st, 'CancelOrderV2 of a bid', bid)
    h.led.cover(h.ex, h.st, 'CancelOrderV2 of an ask', z3.Not(bid))


INSTR['CancelOrderV2'] = instr('CancelOrderV2', CANCEL, cancel_v2, payload=lambda ex: [ex.fresh('CancelOrderInstructionV2', 'ins')])


def indices(st, arr):
    """index terms under which the path has read the array"""
    out = {}; todo = list(st.pc); seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(0).eq(arr): out[x.arg(1).get_id()] = x.arg(1)
        todo.extend(x.children())
    return list(out.values())


def has_cid(h, oid, ids):
    """some occupied slot records the order under one of the (non-zero) client ids; the slots the path looked at are the candidate witnesses"""
    C, O = h.o0('client_order_ids').a, h.o0('orders').a
    return z3.Or([z3.And(k >= 0, k < 128, z3.Not(BIT(h.o0('free_slot_bits'), k)), z3.Select(O, k) == oid, z3.Select(C, k) != 0, z3.Or([z3.Select(C, k) == x for x in ids]))
                  for k in indices(h.st, C)] or [z3.BoolVal(False)])


def by_client_id(h):
    ex = h.ex
    if h.kind != 'end': return segment0(h)
    h.ob('ACCT', 'takes at least six accounts', h.n() >= 6)
    cancel_common(h)
    log = cancel_books(h)
    bid = z3.BoolVal(log[0][1] == 'bid') if len(log) == 1 else z3.BoolVal(False)
    oid = lf(ex, log[0][3], 'key') if len(log) == 1 else z3.IntVal(0)
    one_cancel(h, bid, oid)
    if len(log) == 1:
        h.ob('FUNC', 'cancels an order with the client id given', has_cid(h, oid, [z3.Int('ins')]))
    h.led.cover(ex, h.st, 'CancelOrderByClientIdV2 of a bid', bid)
    h.led.cover(ex, h.st, 'CancelOrderByClientIdV2 of an ask', z3.Not(bid))


def segment0(h):
    """a loop segment in which nothing may happen"""
    h.ob('FUNC', 'does nothing while it searches', not cancel_books(h) and not h.st.ghost.get(('push', h.acc('event_q')), ()))
    h.totals_unchanged()
    h.allow.add(('oo', 'padding'))
    h.frame()


INSTR['CancelOrderByClientIdV2'] = instr('CancelOrderByClientIdV2', CANCEL, by_client_id, loop=True, payload=lambda ex: [ex.int_sym('ins', 'u64')])


def by_client_ids(h, given=None):
    """any number of cancellations, one per step"""
    ex = h.ex
    if h.kind == 'end':
        h.dispatched('CancelOrdersByClientIdsArgs::with_parsed_args', 'process_cancel_orders_by_client_ids', lambda a: isinstance(a[2], Arr) and [str(x) for x in a[2].items] == [str(x) for x in given(ex)], 1)
        h.ob('ACCT', 'takes at least six accounts', h.n() >= 6)
        cancel_common(h)
    log = cancel_books(h); evs = h.st.ghost.get(('push', h.acc('event_q')), ())
    h.ob('FUNC', 'cancels at most one order per step and reports it', len(log) <= 1 and len(evs) == len(log) and all(x[2] == 'remove' for x in log))
    if len(log) > 1 or len(evs) != len(log): return
    pu = cu = z3.IntVal(0)
    for (role, side, op, leaf), ev in zip(log, evs):
        bid = z3.BoolVal(side == 'bid'); oid = lf(ex, leaf, 'key')
        pu, cu = cancelled(h, bid, oid, ev, leaf)
        h.ob('FUNC', 'cancels only orders with one of the client ids given', has_cid(h, oid, given(ex)))
        h.led.cover(ex, h.st, h.ins + ' cancels a bid', bid)
        h.led.cover(ex, h.st, h.ins + ' cancels an ask', z3.Not(bid))
    h.allow.add(('oo', 'padding'))
    cancel_effect(h, pu, cu, 1)


IDS = lambda ex: [ex.int_sym('ins%d' % i, 'u64') for i in range(8)]
INSTR['CancelOrdersByClientIds'] = instr('CancelOrdersByClientIds', CANCEL, lambda h: by_client_ids(h, IDS), loop=True, prep=lambda ex: ex.watch.add('CancelOrdersByClientIdsArgs::with_parsed_args'), payload=lambda ex: [Arr('u64', IDS(ex))])


def prune(h):
    ex = h.ex
    h.allow.add(('oo', 'padding'))
    if h.kind == 'end':
        h.ob('ACCT', 'takes seven accounts', h.n() == 7)
        h.loaded_market(v1=False)
        h.signed('authority', 'the prune authority')
        auth = words(ex, h.s0, ex.get1(h.s0, h.rec0(h.acc('market'), 'MarketStateV2'), ('f', ex.crate.fidx('MarketStateV2', 'prune_authority'), 'Pubkey')))
        h.ob('AUTH', 'requires the prune authority recorded in the market', weq(h.key('authority'), auth))
        h.oo_of('owner'); h.book_accounts()
    log = cancel_books(h); evs = h.st.ghost.get(('push', h.acc('event_q')), ())
    h.ob('FUNC|AUTH', 'removes only orders of the pruned account', z3.And([z3.And(op == 'remove', ex.b(weq(words(ex, h.st, lf(ex, leaf, 'owner')), h.key('oo')))) for role, side, op, leaf in log] or [z3.BoolVal(True)]))
    h.ob('FUNC', 'cancels at most one order per step', len(evs) <= 1 and not (evs and log))
    pu = cu = z3.IntVal(0)
    leaf = [x for x in h.st.ghost.get('elems', ()) if isinstance(x, Rec) and x.ty == 'LeafNode']
    h.ob('FUNC', 'cancels every order taken off the book, once', len(leaf) == len(evs))
    if h.kind == 'end':
        T = ex.auto.tmpl
        h.ob('FUNC', 'cancels all the orders taken off the book', all(v in h.st.ghost.get('exh', ()) for v in h.st.ghost.get('made', ()) if any(isinstance(t.val, Rec) and t.val.ty == 'LeafNode' for t in T.get(v, ()))))
    if len(evs) == 1 and not log:
        if len(leaf) != 1: return
        leaf = leaf[0]
        bid = z3.BoolVal(leaf.f['$side'] == 0)
        pu, cu = cancelled(h, bid, z3.Select(h.o0('orders').a, lf(ex, leaf, 'owner_slot')), evs[0], leaf, named=False)
        h.led.cover(ex, h.st, 'Prune cancels a bid', bid)
        h.led.cover(ex, h.st, 'Prune cancels an ask', z3.Not(bid))
    cancel_effect(h, pu, cu, 1)


INSTR['Prune'] = instr('Prune', ['market', 'bids', 'asks', 'authority', 'oo', 'owner', 'event_q'], prune, loop=True, payload=lambda ex: [ex.int_sym('ins', 'u16')])
