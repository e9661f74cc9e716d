"""Registry: property id -> verification units."""
import build
from step import *
from order import verify_order
import fees
from hspec import INSTR
import hcancel, hconsume, hreplace, hinit, ring, codec, wire, tree, pool, perm


def dex(): return build.crate('dex')


def steps(tags):
    def u(side):
        def run(led):
            ex = Engine(dex()); ex.models = models.M; install(ex)
            v = setup_step(ex, side)
            n = 0
            for o in run_step(ex, v):
                if o.kind == 'ret' and o.val.d == 0:
                    spec_step(led, ex, o, v, tags); n += 1
            led.note_engine(ex); led.add_stats(ex)
            if n == 0: raise Unsupported('no successful path')
        return ('new_' + side, run)
    return [u('bid'), u('ask')]


def order(led): verify_order(led, dex())


PROPS = {}


def prop(pid, units, **k): PROPS[pid] = dict(k, units=units)


MATCHCATS = ('RESULT', 'BOOK', 'EVENTS', 'FUNDS', 'TOKENS', 'TOTALS', 'SOLVENCY')
prop('C01', steps(['MATCH']), native=('RESULT', 'BOOK', 'EVENTS', 'FUNDS', 'TOKENS'))
prop('C02', steps(['FUNDS']) + [('new_order', order)], native=('FUNDS', 'TOTALS', 'TOKENS', 'SOLVENCY', 'EVENTS', 'RESULT'))
prop('C03', steps(['FEES']) + [('fees', lambda led: fees.verify_fees(led, dex())), ('tier', lambda led: fees.verify_tier(led, dex()))], native=('FEES', 'EVENTS', 'FUNDS', 'TOKENS', 'BOOK'))
prop('C04', steps(['SELF']), native=('RESULT', 'BOOK', 'EVENTS', 'FUNDS'))
prop('C05', steps(['EVENTS']), native=('EVENTS', 'QUEUE'))
prop('C06', [('new_order', order)] + steps(['ORDERTYPE', 'MATCH']), native=('RESULT', 'BOOK', 'EVENTS', 'FUNDS', 'TOKENS'))


def ins(names, tags): return [u for n in names for u in INSTR[n](tags)]


prop('C20', ins(['SettleFunds', 'SweepFees', 'DisableMarket'], None), native=('TOKENS', 'FUNDS', 'TOTALS', 'FEES', 'AUTH', 'FLAGS', 'SOLVENCY', 'RESULT', 'STATIC'))
prop('C22', ins(['InitOpenOrders', 'CloseOpenOrders'], None), native=('OO', 'LAMPORTS', 'AUTH', 'RESULT', 'FLAGS'))

prop('C16', ins(['NewOrderV3'], None), native=('RESULT', 'FUNDS', 'TOTALS', 'TOKENS', 'SLOTS', 'SEQ', 'SOLVENCY'))
prop('C17', ins(['SendTake'], None), native=('RESULT', 'FUNDS', 'TOTALS', 'TOKENS', 'SEQ', 'SOLVENCY'))

prop('C18', ins(['ConsumeEvents', 'ConsumeEventsPermissioned'], None), native=('FUNDS', 'SLOTS', 'QUEUE', 'OO', 'TOTALS', 'FEES', 'SOLVENCY', 'RESULT', 'AUTH'))
prop('C19', ins(['CancelOrderV2', 'CancelOrderByClientIdV2', 'CancelOrdersByClientIds', 'Prune', 'ReplaceOrdersByClientIds', 'ReplaceOrderByClientId'], None), native=('RESULT', 'BOOK', 'EVENTS', 'QUEUE', 'FUNDS', 'SLOTS', 'AUTH'))

ALL = ['ConsumeEvents', 'ConsumeEventsPermissioned', 'CancelOrdersByClientIds', 'NewOrderV3', 'SendTake', 'SettleFunds', 'CancelOrderV2', 'CancelOrderByClientIdV2', 'Prune', 'SweepFees', 'DisableMarket',
       'InitOpenOrders', 'CloseOpenOrders', 'ReplaceOrdersByClientIds', 'ReplaceOrderByClientId', 'InitializeMarket']
prop('C07', ins(['NewOrderV3', 'SendTake', 'InitializeMarket', 'ConsumeEvents', 'CancelOrderV2'], ['SEQ']), native=('SEQ', 'BOOK', 'EVENTS'))
prop('C12', ins(ALL, ['SLOT']), native=('SLOTS', 'OO'))
prop('C13', ins(ALL, ['SOLV']) + steps(['FUNDS']), native=('TOTALS', 'TOKENS', 'SOLVENCY', 'FUNDS', 'FEES'))
prop('C14', ins(ALL, ['AUTH']), native=('AUTH',))
prop('C15', ins(ALL, ['ACCT']), native=('FLAGS', 'STATIC', 'INIT', 'AUTH'))
prop('C21', ins(['InitializeMarket'], None), native=('INIT', 'AUTH', 'STATIC', 'FLAGS'))
prop('C09', [('queue ' + T, lambda led, T=T: ring.verify_queue(led, dex(), T)) for T in ring.HDR], native=('RING', 'QUEUE', 'REQQ', 'SEQ'))
prop('C10', [(T, lambda led, T=T: codec.round_trip(led, dex(), T, T + 'View')) for T in ('Event', 'Request')], native=('CODEC',))
prop('C11', wire.units(dex), native=('WIRE',))
prop('C08', [(n, lambda led, f=f: f(led, dex())) for n, f in tree.UNITS], native=('TREE', 'BOOK'), procs=4,
     assume=['Slab::parts/parts_mut: the header is the first 32 bytes of the slab and the nodes the rest, in cells of 72 bytes (bytemuck casts)', 'a slab holds fewer than 2^32 cells', 'only leaf nodes are inserted'])


def pu(names, cr='pool'): return [(n, lambda led, f=getattr(pool, n): f(led, build.crate(cr))) for n in names]


BORSH = 'borsh (the derived encoding): decoding yields a value determined by the bytes or an error, encoding writes that value'
CPI = 'a cross-program call to the SPL token program does what spl-token documents, or fails the transaction'
prop('C23', pu(['fees', 'get_fees', 'mint_tokens', 'burn_tokens', 'transfer_in', 'transfer_out', 'simple_basket', 'processes']), native=('POOLMONEY',), crates=('pool',),
     assume=[CPI, 'a basket has one quantity per asset of the pool (proved for the default baskets)', 'no more than 2^62 pool tokens are created or redeemed at once (beyond that the fee computation aborts)'])
prop('C24', pu(['ctx_execute', 'ctx_basket', 'ctx_init', 'get_state', 'dispatch', 'initialize', 'entry']), native=('POOLACCT',), crates=('pool',),
     assume=[BORSH, CPI, 'Pack::unpack of spl-token reads the fields at their documented offsets, or fails', 'the pool implementation (trait Pool) may change the pool state in any way', 'RetbufAccounts::write_data sends the bytes it is given to the return buffer'])
prop('C25', pu(['assert_owner'], 'assert-owner'), native=('OWNER',), crates=('assert-owner',))


def pe(names): return [(n, lambda led, f=getattr(perm, n): f(led, build.crate('permissioned'))) for n in names]


prop('C26', pe(['header', 'init', 'order', 'cancel', 'cancel_cid', 'settle', 'close', 'prune', 'referral']), native=('PERM',), crates=('permissioned',),
     assume=['MarketProxy::run (calls the middlewares in order, the relay between the instructions they asked for) is checked by the bounded stand-in only', 'InitAccount::try_accounts (generated by anchor) checks the accounts and creates the open-orders account as declared',
             'Pubkey::find_program_address, spl-token approve/revoke and anchor_spl accessor::authority as documented', 'a failing cross-program call fails the transaction'])
