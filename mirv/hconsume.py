"""Event consumption: one event per loop iteration, from any state at the loop head."""
from hcancel import *


def back_from_end(k): return 'accs[%s]' % z3.simplify(z3.Int('naccs') - k)


def bit_(x, n): return (x / (2 ** n)) % 2 == 1


def consume(pos, auth):
    def spec(h):
        ex = h.ex
        oo = [c[1] for c in h.st.mem if c[0] == 'OV' and c[2] == 'OpenOrders' and not (h.base and c in h.base)]
        if len(oo) == 1: h.roles['oo'] = oo[0]
        evq = h.acc('event_q')
        if h.kind == 'end':
            h.ob('ACCT', 'takes at least %d accounts' % len(pos), h.n() >= pos['market'])
            h.loaded_market(disabled_ok=True, v1=not auth)
            h.book_accounts()
            f = h.flags0('market')
            crank = z3.Or([f == INIT | MARKET | PERM | CRANK | d for d in (0, DISABLED)])
            if auth:
                a = words(ex, h.s0, ex.get1(h.s0, h.rec0(h.acc('market'), 'MarketStateV2'), ('f', ex.crate.fidx('MarketStateV2', 'consume_events_authority'), 'Pubkey')))
                h.ob('AUTH', 'requires the signature of the consume-events authority recorded in the market', z3.And(crank, h.signer('authority'), weq(h.key('authority'), a)))
            else: h.ob('AUTH', 'is refused on markets that name a consume-events authority', z3.Not(crank))
        n = h.st.ghost.get(('pop', evq), 0)
        h.ob('FUNC', 'takes events off the queue one at a time', isinstance(n, int) and n <= 1 and not h.st.ghost.get(('push', evq), ()))
        h.totals_unchanged()
        al = [('event_q', 'EventQueueHeader', 'count'), ('event_q', 'EventQueueHeader', 'head')]
        if h.kind == 'iter':
            h.ob('FUNC', 'takes one event per step', n == 1)
            h.ob('FUNC', 'touches one open-orders account per event', len(oo) == 1)
        if n == 0: return h.frame()
        if len(oo) != 1: return h.frame()
        g = h.st.ghost.get('qgen', 0)
        E = h.st.mem[('QE', evq, g, 0)]
        T = ex.crate.src.stypes['Event']
        e = lambda f: ex.get1(h.s0, E, ('f', ex.crate.fidx('Event', f), T[ex.crate.fidx('Event', f)]))
        h.allow.add(('oo', 'padding'))
        h.ob('ACCT', 'credits only open-orders accounts owned by the program', weq(h.owner('oo'), h.prog()))
        h.ob('ACCT', 'credits only initialized open-orders accounts of this market', z3.And(h.flags0('oo') == INIT | OO, weq(words(ex, h.s0, h.o0('market')), h.mw('own_address'))))
        h.ob('FUNC|AUTH', 'applies the event to the account it names', weq(words(ex, h.s0, e('owner')), h.key('oo')))
        fl, slot = e('event_flags'), e('owner_slot')
        ex._axs(h.st, fl)
        fill, bid, maker, rel = [bit_(fl, k) for k in (0, 2, 3, 4)]
        paid, recv, fee = e('native_qty_paid'), e('native_qty_released'), e('native_fee_or_rebate')
        h.ob('FUNC|SLOT', 'applies only an event that matches the order in its slot', z3.And(slot < 128, z3.Select(h.o0('orders').a, slot) == e('order_id'), z3.Not(BIT(h.o0('free_slot_bits'), slot)), BIT(h.o0('is_bid_bits'), slot) == bid))
        mb, ma = z3.And(fill, maker, bid), z3.And(fill, maker, z3.Not(bid))
        d = lambda f: h.o1(f) - h.o0(f)
        ob_, oa = z3.And(z3.Not(fill), rel, bid), z3.And(z3.Not(fill), rel, z3.Not(bid))
        h.ob('FUNC|SOLV', 'a maker bid pays pc and receives coins and its rebate, a maker ask the reverse; nothing else changes the totals', z3.And(
            d('native_pc_total') == z3.If(mb, -paid, z3.If(ma, recv, 0)), d('native_coin_total') == z3.If(mb, recv, z3.If(ma, -paid, 0))))
        h.ob('FUNC|SOLV', 'frees exactly what was received or released', z3.And(
            d('native_pc_free') == z3.If(mb, fee, z3.If(ma, recv, z3.If(ob_, recv, 0))), d('native_coin_free') == z3.If(mb, recv, z3.If(oa, recv, 0))))
        h.ob('FUNC|SOLV', 'a taker fill accrues one fifth of its fee as referrer rebate, nothing else does', d('referrer_rebates_accrued') == z3.If(z3.And(fill, z3.Not(maker)), REF(fee), 0))
        gone = z3.And(z3.Not(fill), paid == 0)
        k = z3.Int('any_slot'); K = z3.And(k >= 0, k < 128)
        h.ob('SLOT', 'frees the slot of an order that is out, exactly then, and no other slot', z3.Implies(K, z3.And(
            BIT(h.o1('free_slot_bits'), k) == z3.Or(z3.And(gone, k == slot), BIT(h.o0('free_slot_bits'), k)),
            BIT(h.o1('is_bid_bits'), k) == z3.And(z3.Not(z3.And(gone, k == slot)), BIT(h.o0('is_bid_bits'), k)))))
        for f in ('orders', 'client_order_ids'):
            h.ob('SLOT', 'clears the slot of an order that is out, exactly then, and no other slot', z3.Implies(K, z3.Select(h.o1(f).a, k) == z3.If(z3.And(gone, k == slot), 0, z3.Select(h.o0(f).a, k))))
        h.ob('FUNC', 'takes the event off the queue', h.new('event_q', 'EventQueueHeader', 'count') == h.old('event_q', 'EventQueueHeader', 'count') - 1)
        h.frame(*[('oo', 'OpenOrders', f) for f in BAL + ('referrer_rebates_accrued', 'free_slot_bits', 'is_bid_bits', 'orders', 'client_order_ids')], *al)
        for nm, c in (('maker bid fill', mb), ('maker ask fill', ma), ('taker fill', z3.And(fill, z3.Not(maker))), ('out', z3.And(gone, ob_)), ('partial out', z3.And(z3.Not(gone), oa))):
            h.led.cover(ex, h.st, '%s of a %s event' % (h.ins, nm), c)
    return spec


def no_view(ex): del ex.contracts['Event::as_view']


U16 = lambda ex: [ex.int_sym('ins', 'u16')]
for nm, pos, auth in (('ConsumeEvents', {'market': 4, 'event_q': 3}, False), ('ConsumeEventsPermissioned', {'market': 3, 'event_q': 2, 'authority': 1}, True)):
    INSTR[nm] = instr(nm, (lambda pos: lambda ex: {r: back_from_end(k) for r, k in pos.items()})(pos), consume(pos, auth), loop=True, payload=U16, prep=no_view)
