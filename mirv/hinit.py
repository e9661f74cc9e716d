"""Market initialization."""
from hcancel import *

INITM = ['market', 'req_q', 'event_q', 'bids', 'asks', 'coin_vault', 'pc_vault', 'coin_mint', 'pc_mint', 'rent', 'oo_authority', 'prune_authority', 'crank_authority']


def new_slab(ex, st, a, c):
    r = region(ex, st, a[0])
    if r is None: raise Unsupported('slab bytes')
    cell = ('NEWSLAB', r.acc); st.mem[cell] = Opq('slab', r)
    return Ptr(cell)


def min_cap(ex, st, a, c):
    """Err exactly when the slab has room for at most 2 * capacity nodes (its bytes without the 32-byte header, in 72-byte nodes)"""
    r = ex.load(st, a[0]).v
    n = ex.divrem(st, ex.z(r.bytes_n()) - 32, 72, 'usize')[0]
    out = []
    for s, small in ex.split_bool(st, n <= 2 * a[1]):
        if small: out.append((s, ex.err(ex.fresh('DexError', ex.gensym('e')), 'Result<(), DexError>')))
        else:
            s.ghost['cap'] = s.ghost.get('cap', ()) + ((r.acc, n),)
            out.append((s, ex.ok(UNIT, 'Result<(), DexError>')))
    return out


def prep(ex):
    ex.contracts['Slab::new'] = new_slab
    ex.contracts['Slab::assert_minimum_capacity'] = min_cap


def init_market(h):
    ex = h.ex
    I = lambda f: h.insf('InitializeMarketInstruction', f)
    n = h.n()
    h.ob('ACCT', 'takes ten to thirteen accounts', z3.And(n >= 10, n <= 13))
    for r in ('market', 'req_q', 'event_q', 'bids', 'asks'):
        a = h.acc(r); ln = data_len(ex, a)
        h.ob('ACCT', 'takes over only accounts owned by the program', weq(h.owner(r), h.prog()))
        h.ob('ACCT', 'takes over only accounts that were never initialized', z3.And([h.flags0(r) == 0] + [ex.int_sym('%s.b@%d' % (a, i), 'u8') == 0 for i in range(5)] + [ex.int_sym('%s.b@%s' % (a, offkey(ln - 7 + i)), 'u8') == 0 for i in range(7)]))
        w = written(h.st, a)
        h.ob('FUNC', 'marks its accounts with the serum header and footer', const_bytes(w.get(('0', 5))) == b'serum' and const_bytes(w.get((offkey(ln - 7), 7))) == b'padding')
        h.allow.add((r, 'padding'))
    for r in ('req_q', 'event_q', 'bids', 'asks', 'coin_vault', 'pc_vault', 'coin_mint', 'pc_mint'):
        h.ob('ACCT', 'takes only rent-exempt accounts', EXEMPT(ex.int_sym(h.acc(r) + '.lamports**', 'u64'), data_len(ex, h.acc(r))))
    signer = pda(ex, h.key('market') + [I('vault_signer_nonce')], h.prog())
    for v, mt in (('coin_vault', 'coin_mint'), ('pc_vault', 'pc_mint')):
        z = lambda o, k: z3.And([ex.int_sym('%s.b@%d' % (h.acc(v), o + i), 'u8') == 0 for i in range(k)])
        h.ob('ACCT', 'takes as vaults only token accounts of the right mint', z3.And(weq(h.owner(v), TOKEN_ID), data_len(ex, h.acc(v)) == 165, weq(h.owner(mt), TOKEN_ID), data_len(ex, h.acc(mt)) == 82, weq([h.w(v, 8 * k) for k in range(4)], h.key(mt))))
        h.ob('AUTH', 'takes as vaults only accounts controlled by the vault signer of this market', weq([h.w(v, 32 + 8 * k) for k in range(4)], signer))
        h.ob('AUTH', 'takes as vaults only accounts nobody else can spend from or close', z3.And(z(72, 4), z(129, 4)))
    h.ob('FUNC', 'demands room for at least 128 events, one request and 200 nodes per book side', z3.And(
        data_len(ex, h.acc('event_q')) - 44 >= 128 * 88, data_len(ex, h.acc('req_q')) - 44 >= 80,
        *[data_len(ex, h.acc(r)) - 20 - 32 >= 201 * 72 for r in ('bids', 'asks')]))
    crank = n == 13; perm = n >= 11
    h.ob('FUNC', 'marks the market initialized, permissioned with an authority, and crank-restricted with a crank authority', z3.And(
        h.m1('account_flags') == INIT + MARKET + z3.If(perm, PERM, 0) + z3.If(crank, CRANK, 0)))
    for f, r in (('own_address', 'market'), ('coin_mint', 'coin_mint'), ('coin_vault', 'coin_vault'), ('pc_mint', 'pc_mint'), ('pc_vault', 'pc_vault'), ('req_q', 'req_q'), ('event_q', 'event_q'), ('bids', 'bids'), ('asks', 'asks')):
        h.ob('FUNC', 'records its own accounts in the market', weq(words(ex, h.st, h.m1(f)), h.key(r)))
    for f in ('coin_deposits_total', 'coin_fees_accrued', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued'):
        h.ob('FUNC', 'starts with nothing deposited and no fees', h.m1(f) == 0)
    for f in ('coin_lot_size', 'pc_lot_size', 'vault_signer_nonce', 'pc_dust_threshold'):
        h.ob('FUNC', 'records the market parameters given', h.m1(f) == I(f))
    h.ob('FUNC', 'records the market parameters given', h.m1('fee_rate_bps') == I('fee_rate_bps'))
    v2 = ('OV', h.acc('market'), 'MarketStateV2') in h.st.mem
    h.ob('FUNC', 'uses the permissioned market layout exactly with an authority', perm if v2 else z3.Not(perm))
    if v2:
        M = h.st.mem[('OV', h.acc('market'), 'MarketStateV2')]
        au = lambda f: words(ex, h.st, ex.get1(h.st, M, ('f', ex.crate.fidx('MarketStateV2', f), 'Pubkey')))
        h.ob('AUTH', 'records the authorities given', z3.And(weq(au('open_orders_authority'), h.key('oo_authority')),
             z3.If(n >= 12, weq(au('prune_authority'), h.key('prune_authority')), weq(au('prune_authority'), [0] * 4)), z3.Implies(crank, weq(au('consume_events_authority'), h.key('crank_authority')))))
    for r, S, fl in (('req_q', 'RequestQueueHeader', REQQ), ('event_q', 'EventQueueHeader', EVQ)):
        h.ob('FUNC', 'starts with empty queues', z3.And(h.new(r, S, 'account_flags') == INIT | fl, h.new(r, S, 'head') == 0, h.new(r, S, 'count') == 0, h.new(r, S, 'next_seq_num' if r == 'req_q' else 'seq_num') == 0))
    for r, fl in (('bids', BIDS), ('asks', ASKS)):
        h.ob('FUNC', 'marks the books as bids and asks', h.new(r, 'OrderBookStateHeader', 'account_flags') == INIT | fl)
    h.ob('SOLV', 'moves no tokens', not h.st.ghost.get('xfer', ()))
    h.frame(('market', 'MarketState'), ('market', 'MarketStateV2'), ('req_q', 'RequestQueueHeader'), ('event_q', 'EventQueueHeader'), ('bids', 'OrderBookStateHeader'), ('asks', 'OrderBookStateHeader'))
    h.led.cover(ex, h.st, 'InitializeMarket of an open market', n == 10)
    h.led.cover(ex, h.st, 'InitializeMarket with all authorities', crank)


INSTR['InitializeMarket'] = instr('InitializeMarket', INITM, init_market, prep=prep, payload=lambda ex: [ex.fresh('InitializeMarketInstruction', 'ins')])
