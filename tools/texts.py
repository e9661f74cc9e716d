HOOKS = None
TESTS = 'The existing tests run a few fixed scenarios plus a short randomised book comparison; '

prop('C01', 'Orders trade best price first and never beyond their limit',
     'An incoming order trades only with the best-priced, earliest resting order on the opposite side, at that resting order\'s price, and never at a price worse than its own limit. '
     'It trades the largest quantity that its remaining size, the resting order\'s size and, for bids, its remaining budget (fees included) allow, and keeps matching while a trade is possible. '
     'Nothing else on the book changes except the rest of the order being posted (evicting at most the worst order of its own side, and only when that side is full).',
     ['inputs', 'histories'], 'every book, every incoming order, every fee tier, every market lot size',
     TESTS + 'the claim is about every reachable book and every size, price and tier combination.', [M, K],
     [('one matching step', M + ' new_bid/new_ask'), ('best order lookup', M + ' find_bbo'), ('loop over steps', M + ' new_order')],
     'The ordered-map contract of the book is proved in C08.')
prop('C02', 'Matching creates and destroys no funds',
     'When an order is matched, what the taker pays equals what makers receive plus the fees and referral rebates booked by the market, in both currencies, to the last unit. '
     'Everything the order locked is spent, unlocked, or still locked behind exactly what it leaves on the book. '
     'Orders removed or evicted give back exactly what was locked for their remaining size.',
     ['inputs', 'histories'], 'every order, book, tier, lot size, self-trade mode and number of matching steps',
     TESTS + 'they compare final balances in a handful of runs, while rounding errors appear only for particular sizes, tiers and lot sizes.', [M, F],
     [('per-step accounting', M + ' new_bid/new_ask'), ('proceeds', M + ' RequestProceeds'), ('loop', M + ' new_order')],
     'Fee functions enter through their contracts, proved in C03.')
prop('C03', 'Fees, rebates and fee tiers are exactly the published schedule',
     'Every taker pays the fee of its tier rounded up to the next unit and never more, every maker receives the rebate of its tier rounded down, one fifth of the taker fee goes to the referrer and the rest to the market. '
     'The tier follows from the trader\'s SRM/MSRM balance thresholds, and stable markets use the stable tier. Fee inclusion never lets an order spend more than its budget, and never wastes a whole trading unit of it.',
     ['inputs'], 'every amount, tier and balance', TESTS + 'fee arithmetic is sampled at a few amounts; rounding errors show only at particular amounts.', [F, M],
     [('fee schedule', F + ' FeeTier'), ('referrer share', F + ' referrer_rebate'), ('use in matching', M + ' new_bid/new_ask')])
prop('C04', 'Self-trades follow the requested self-trade behaviour',
     'When an order would match a resting order of the same account, no fill occurs: decrement-and-take reduces both by the same quantity without fees, cancel-provide removes the resting order and carries on with the incoming one unchanged, abort fails the transaction. '
     'Funds locked for cancelled quantity are returned to their owner in full.',
     ['inputs', 'histories'], 'every book, order and self-trade mode', TESTS + 'only one or two self-trade cases are tried.', [M],
     [('self-trade branches', M + ' new_bid/new_ask')])
prop('C05', 'Events report exactly what happened to each order',
     'Every trade produces one maker fill and, unless it is a send-take, one taker fill, naming the right order, account, slot, side, client id, tier and exact amounts paid, received and charged. '
     'Every order that leaves the book, or finishes without resting, produces exactly one out event for its account and slot with the exact amounts unlocked and still locked, and no other events are emitted.',
     ['inputs', 'histories'], 'every matching step and every cancellation', TESTS + 'they look at few events and few fields.', [M, S],
     [('fill and out events', M + ' new_bid/new_ask/cancel_order')])
prop('C06', 'Order types and the match limit are honoured',
     'A post-only order never trades, an immediate-or-cancel order never rests on the book, and a limit order may do both. '
     'Matching stops after the caller\'s match limit, releasing or posting what is left, and an order never spends more than it locked however many orders it meets.',
     ['inputs', 'histories'], 'every order type, limit and number of matches', TESTS + 'the loop is run for a few iterations only.', [M],
     [('order loop', M + ' new_order'), ('request dispatch', M + ' process_orderbook_request')])
prop('C16', 'A new order moves exactly the right funds between trader, vault and book',
     'NewOrderV3 locks exactly what the order may spend, using the free balance of the open-orders account first and depositing only the rest from the payer; afterwards the account is credited with exactly the proceeds and unlocked amounts of the match, '
     'and what stays locked is exactly what rests on the book. Free never exceeds total. The order is matched once, under the identity of the account, with exactly the parameters, fee tier and time limit asked for, takes one free slot, and nothing else in any account changes.',
     ['inputs', 'histories'], 'every state of the market and account, every instruction field, fresh and existing accounts, with and without a discount account',
     TESTS + 'the balance updates depend on side, deposit, free balance and match outcome together.', [S, M],
     [('handler', S + ' State::process_new_order_v3'), ('account loading', S + ' account_parser::NewOrderV3Args'), ('slots', S + ' OpenOrders::add_order')],
     'The matching engine enters through the order contract proved in C01-C06; account data, SPL token transfers and sysvars through the models listed in the evidence; account positions hold distinct accounts.')
prop('C17', 'A send-take swaps exactly what was matched, within the caller\'s limits',
     'SendTake is matched as an immediate-or-cancel order of nobody: it never rests, never takes more from the signer\'s wallet than the stated maximum, fails unless it obtains the stated minimum, and moves between wallet and vaults exactly the coins and pc that were matched (fees included). '
     'No open-orders account is touched and the vaults stay equal to the recorded deposits and fees.',
     ['inputs', 'histories'], 'every market state, instruction field, and with and without a discount account', TESTS + 'send-take has few tests, each with one book.', [S, M],
     [('handler', S + ' State::process_send_take'), ('account loading', S + ' account_parser::SendTakeArgs')],
     'The matching engine enters through the order contract proved in C01-C06; account and token models as in C16.')
prop('C20', 'Settling, sweeping and disabling pay out exactly what is owed, once',
     'SettleFunds pays the owner of an open-orders account exactly its free coin and pc balances, and its accrued referrer rebate to the referrer (or to market fees without one); those balances become zero and totals shrink by the same amounts. '
     'SweepFees pays the fee sweeper exactly the accrued fees and resets them. DisableMarket only sets the disabled flag, for the disable authority, after which only settling, cancelling, closing and event consumption work. Nothing else changes.',
     ['inputs', 'histories'], 'every state of market, open-orders account, vaults and every list of accounts', TESTS + 'settling with rebates and wrong accounts is not tried.', [S],
     [('settle', S + ' State::process_settle_funds'), ('sweep', S + ' State::process_sweep_fees'), ('disable', S + ' State::process_disable_market')],
     'SPL token transfer, program-derived addresses and account data enter through models.')
prop('C22', 'Open-orders accounts are created empty and closed only when empty',
     'InitOpenOrders makes a fresh, rent-exempt account owned by the program into an empty account of this market and signer (on a permissioned market only with the open-orders authority\'s signature), and leaves an existing one as it was. '
     'CloseOpenOrders succeeds only for the owner, with no open order and no coin or pc balance, hands over all lamports, and leaves the account marked closed so it can never be used again.',
     ['inputs', 'histories'], 'every account content, signer and account list', TESTS + 'closing and reopening are tried once each.', [S],
     [('init', S + ' State::process_init_open_orders'), ('close', S + ' State::process_close_open_orders'), ('loading', S + ' Market::load_orders_mut, OpenOrders::init')],
     'Account data and rent enter through models.')
prop('C18', 'Consuming events credits each account exactly once, as the event says',
     'ConsumeEvents takes events off the queue in order, one by one, and applies each to the open-orders account it names, in the slot it names, only if that slot holds the named order: a maker fill moves what was paid and received (rebate included), a taker fill accrues the referrer share, '
     'an out event releases exactly the released amount and frees the slot when nothing stays locked. Each consumed event leaves the queue, no event is skipped or applied twice, nothing else changes, and markets with a consume-events authority require its signature.',
     ['inputs', 'histories', 'schedules'], 'every queue content, every list of accounts, every number of events and limit',
     TESTS + 'consumption is exercised for a few events with all accounts present.', [S],
     [('handler', S + ' State::process_consume_events'), ('account loading', S + ' account_parser::ConsumeEventsArgs'), ('slots', S + ' OpenOrders::remove_order')],
     'One event per loop iteration, from any state at the loop head (induction); the raw event bits are decoded by the real Event::as_view.')
prop('C19', 'Cancelling returns exactly what was locked, only to the owner',
     'Cancelling by order id, by client id or by a list of client ids, and pruning, remove only the orders named, only from the account given, and only for its owner (pruning: for the prune authority). '
     'Each order removed unlocks exactly its remaining size times price (bids) or size (asks) in the free balance of that account, produces exactly one out event for it with nothing left to release, and leaves everything else unchanged. Replacing cancels exactly the client ids of the new orders and then places every new order, in order.',
     ['inputs', 'histories'], 'every book, account, order id, list of client ids and prune limit',
     TESTS + 'they cancel a few orders in one market.', [S, M],
     [('cancel handlers', S + ' State::process_cancel_order_v2, process_cancel_order_by_client_id_v2, process_cancel_orders_by_client_ids, process_prune, process_replace_orders_by_client_ids'), ('book removal', M + ' cancel_order_v2'), ('account loading', S + ' account_parser::CancelOrderArgs')],
     'The books enter through the ordered-map contract.')
prop('C07', 'Order ids are unique and encode price, then time priority',
     'Every order gets an id made of its price and the market\'s next sequence number (complemented for bids), and the sequence number then advances by exactly one, for new orders and send-takes alike, starting from zero. No other operation changes it. '
     'So no two orders of a market share an id, and among equal prices the earlier order is ahead on either side.',
     ['histories', 'inputs'], 'every sequence of instructions on a market', TESTS + 'ids of a handful of orders are compared.', [S],
     [('id generation', S + ' RequestQueue gen_order_id/gen_seq_num'), ('use', S + ' State::process_new_order_v3, process_send_take')],
     'The numbering is followed through every handler that touches the request queue header.')
prop('C12', 'An order holds one slot of its account from placement until it is out',
     'A new order takes a free slot of its open-orders account and records its id, client id and side there, leaving every other slot alone. The slot is released, and cleared, exactly when the order\'s final out event is consumed, and events are applied only to the slot that holds their order. '
     'No other instruction changes any slot; fresh accounts have all slots free and an account with an occupied slot cannot be closed.',
     ['histories', 'inputs'], 'every instruction, every account content, every slot', TESTS + 'they use one or two slots.', [S],
     [('slot allocation', S + ' OpenOrders::add_order/remove_order'), ('handlers', S + ' State::process_*')],
     'Bit operations on the slot masks are axiomatised per bit.')
prop('C13', 'The vaults always cover everything the market owes',
     'Every instruction changes the pc vault by exactly the change of recorded pc deposits, accrued fees and accrued referrer rebates together, and the coin vault by exactly the change of recorded coin deposits. '
     'Recorded deposits stay equal to the balances of all open-orders accounts, counting fills still in the event queue, and no account\'s free balance exceeds its total. Only free balances, accrued rebates and accrued fees are ever paid out.',
     ['histories', 'inputs'], 'every instruction and therefore every history', TESTS + 'conservation is asserted in one randomised test with small books.', [S, M],
     [('handlers', S + ' State::process_*'), ('matching', M + ' new_bid/new_ask')],
     'Relies on the matching contract (C02); SPL transfers move exactly the amount asked for (model).')
prop('C14', 'Only the rightful signer can move funds, orders or authority',
     'Every instruction that spends, cancels, settles, closes or configures succeeds only with the signature of the owner of the open-orders account or wallet, or of the published or recorded authority: the fee sweeper, the disable authority, and on permissioned markets the open-orders, prune and consume-events authorities. '
     'Tokens leave a vault only under the vault signer, wallets only under the signer, cancellations touch only orders of the account, and owners and authorities never change.',
     ['inputs'], 'every list of accounts, every signer set, every account content', TESTS + 'missing signatures are hardly tried.', [S],
     [('account loading', S + ' account_parser::*'), ('owner checks', S + ' Market::load_orders_mut, SignerAccount, SigningFeeSweeper, SigningDisableAuthority')],
     'Account data and signer flags enter through models.')
prop('C15', 'Substituted, foreign or uninitialized accounts are rejected',
     'Every instruction works only on a market account owned by the program with the right header and flags (not disabled, where that matters), on the books, queues and vaults recorded in that market, on initialized open-orders accounts of that market, on token accounts of the right mint under the SPL token program, and on the derived vault signer. '
     'Initialization takes only fresh program-owned accounts; a closed account is never accepted again; the accounts recorded in a market never change.',
     ['inputs'], 'every list of accounts and every account content', TESTS + 'wrong accounts are hardly tried.', [S],
     [('account loading', S + ' account_parser::*'), ('loading', S + ' Market::load, load_orders_mut, load_bids_mut, load_asks_mut, load_event_queue_mut')],
     'Account positions are taken to hold distinct accounts.')
prop('C21', 'A market is initialized from fresh, safe accounts and starts empty',
     'InitializeMarket succeeds only with never-initialized program-owned accounts, large enough queues and books, and vaults of the two mints that only the market\'s own vault signer can spend from or close. '
     'It records exactly these accounts, parameters and authorities, starts with empty queues and books, zero totals and the right flags, and changes nothing else.',
     ['inputs'], 'every list of accounts, account content and instruction field', TESTS + 'initialization is tried with one well-formed set of accounts.', [S],
     [('handler', S + ' State::process_initialize_market'), ('account loading', S + ' account_parser::InitializeMarketArgs::new')],
     'Account data, rent and address derivation enter through models.')
prop('C09', 'Queues are first-in first-out, bounded, and never lose or repeat an item',
     'The event queue and the request queue behave as first-in first-out lists of at most their capacity, through every wrap-around: pushing appends one item or, when full, fails and changes nothing; popping yields the oldest item or, when empty, fails; '
     'reverting keeps exactly the oldest items asked for; looking at the front and iterating yield the items in order. Every other item keeps its value and place, and event sequence numbers advance by one per event and go back with reverted ones.',
     ['inputs', 'histories'], 'every capacity, head, length, content and item', TESTS + 'a queue is wrapped around once in one of them.', [S],
     [('ring buffer', S + ' Queue'), ('headers', S + ' EventQueueHeader, RequestQueueHeader'), ('iterator', S + ' QueueIterator')],
     'Items are opaque values. The capacity is at least one; a queue is well formed (head inside the buffer, count at most the capacity).')
prop('C10', 'Stored events and requests say exactly what was recorded',
     'Every event and request that the program writes reads back as the same event or request, with every field intact: kind, side, maker flag, fund release, order type, amounts, ids, slot, fee tier, owner and client id. '
     'The stored bytes follow the published layout that clients decode: fields at fixed offsets, and the fixed flag bits.',
     ['inputs'], 'every event and every request, with any field values', TESTS + 'no test reads back every combination of flags and fields.', [S],
     [('events', S + ' Event::new, Event::as_view, EventView, EventFlag'), ('requests', S + ' Request::new, Request::as_view, RequestView')],
     'Field offsets come from the declared types (repr(C), packed).')
prop('C11', 'Instruction data is decoded exactly as published, anything else refused',
     'For every byte string, decoding yields exactly the instruction that the published format assigns to it: version, kind, field offsets, integer widths, sides, order types, self-trade modes, optional limits and client ids. '
     'Strings of another length, version, kind or with invalid field values (a zero where a positive number is needed, an unknown enumeration value) are refused. Packing an instruction produces the bytes that decode to it.',
     ['inputs'], 'every byte string of every length', TESTS + 'one randomised round trip samples well-formed instructions only.', [I],
     [('decoding', I + ' MarketInstruction::unpack/versioned_unpack'), ('orders', I + ' NewOrderInstructionV3::unpack, SendTakeInstruction::unpack, CancelOrderInstructionV2::unpack'), ('encoding', I + ' MarketInstruction::pack')],
     'The encoder is serde/bincode over the declared types: its layout is derived from the declarations and compared field by field with the decoder.')
prop('C08', 'The order book is an exact ordered map of its orders',
     'Whatever sequence of insertions, removals and quantity changes built it, each side of the book holds exactly the orders put in and not yet taken out, each once and unchanged, under distinct ids. '
     'The lowest and highest id, lookup and removal by id, removal of the lowest or highest, and search by owner or client id (until its limit runs out) give exactly the right order, or nothing if there is none. '
     'Inserting fails only when the book is full and then changes nothing, freed cells are reused and never leaked or shared, and no operation on a valid book aborts or runs forever.',
     ['inputs', 'histories'], 'every tree shape, key set, free list, capacity and key', TESTS + 'random sequences over small trees, with keys that rarely share long prefixes and slabs that are rarely full.', [K],
     [('tree', K + ' Slab find_min/find_max/insert_leaf/remove_by_key/remove_min/remove_max/find_by'), ('cells', K + ' SlabView for Slab insert/remove/clear'), ('nodes', K + ' InnerNode, LeafNode, AnyNode')],
     'A slab has fewer than 2^32 cells, and its header and cells lie where Slab::parts puts them. Bit-precise: keys and nodes are bit vectors.')
PC = 'pool/src/context.rs'; PL = 'pool/src/lib.rs'; PP = 'pool/src/pool.rs'
PTESTS = 'The pool tests check one fee computation. '
prop('C23', 'Pool tokens are created and redeemed at the pro-rata price, fees as stated',
     'A creation deposits into every vault at least, and by less than one unit more than, the share of its content that the created tokens are of the tokens in existence; a redemption pays out at most that share, by less than one unit less, of the tokens net of fees. '
     'Exactly the tokens of the creation are minted: the fees to their accounts, the rest to the user; a redemption moves the fees from the user to their accounts and burns the rest. '
     'Fees are the rate times the size rounded up, at least the fixed minimum for LQD, split between LQD, initializer and referrer as documented, never more than the size, and waived as documented when a fee account is the user\'s own. Nothing else is moved; rates out of range and creations on an empty pool are refused; no size up to 2^62 makes the computation abort; swaps are refused unless implemented.',
     ['inputs'], 'every size, fee rate, vault content, supply and number of assets', PTESTS, [PC, PP],
     [('fees', PC + ' Fees::from_fee_rate_and_tokens, PoolContext::get_fees'), ('prices', PC + ' PoolContext::get_simple_basket'), ('token movements', PC + ' transfer_basket_from_user, transfer_basket_to_user, mint_tokens, burn_tokens_and_collect_fees'), ('default operations', PP + ' Pool::process_creation, process_redemption')],
     'Any number of assets. Cross-program calls are recorded with their accounts, amount and signer seeds; their effect is that of spl-token.')
prop('C24', 'A pool acts only on its own accounts and is initialized once, safely',
     'Every request uses only the mint, vaults, authority, fee accounts and additional accounts recorded in the pool, token accounts of the right mint and owner under the SPL token program, vaults the pool authority controls and a mint only it can mint; anything else is refused. '
     'The pool state is read only from an account of the pool program; initialization happens only on an all-zero account and never twice, other requests only on an initialized pool. '
     'Initialization records exactly the accounts given, requires them rent exempt, the authority to be the pool\'s program address, a fee rate in range and an LQD fee account of the fee owner without delegate or foreign close authority. '
     'A request is carried out once, with the requested amount, and the resulting state stored; asking for a basket changes nothing.',
     ['inputs'], 'every list of accounts, account content, number of assets and request', PTESTS + 'No test passes accounts.', [PC, PL],
     [('account checks', PC + ' PoolContext::new, UserAccounts::new, FeeAccounts::new, check_token_account, check_mint_minter'), ('state and dispatch', PL + ' PoolProcessor::get_state, save_state, process_instruction, pool_entrypoint'), ('initialization', PL + ' PoolProcessor::initialize_pool, check_lqd_fee_account')],
     'Loops over assets by induction over an arbitrary iteration. Borsh and spl-token unpacking enter through models.')
prop('C25', 'The owner assertion passes exactly when the account has the stated owner',
     'For every list of accounts and every input, the assert-owner program succeeds if and only if there is a first account and the input is exactly the 32 bytes of that account\'s owner. It changes nothing.',
     ['inputs'], 'every list of accounts and every input', 'There is no test of it.', ['assert-owner/src/lib.rs'],
     [('entry point', 'assert-owner/src/lib.rs entry')], 'Pubkey comparison is by the 32 bytes.')
PX = 'dex/permissioned/src/proxy.rs'
PM = 'dex/permissioned/src/middleware.rs'
prop('C26', 'The permissioned proxy relays only what the user signed for',
     'A request through the permissioned proxy reaches the exchange only under the exchange program\'s id, with the instruction it was given; any other program or an unknown instruction is not relayed. The OpenOrdersPda middleware relays an order, cancel, settle or close only when the user signed, '
     'puts the open-orders account in the place of the owner and leaves the other accounts as they are, and signs only for the open-orders address derived from the exchange, that market and that user. For an order it approves exactly what the order may take from the paying account (the quote limit of a bid, the lots times the market\'s lot size of an ask) and revokes the approval afterwards. '
     'An open-orders account is created only at the derived address for a user who signed. ReferralFees lets a settlement through only when the referral account belongs to the configured referral.',
     ['inputs'], 'every list of accounts, instruction and list of middlewares', 'There is no test of it.', [PX, PM],
     [('relay', PX + ' MarketProxy::run'), ('authorization', PM + ' impl MarketMiddleware for OpenOrdersPda'), ('referral', PM + ' impl MarketMiddleware for ReferralFees')],
     'Proved: each middleware handler, over any accounts and instruction. MarketProxy::run (trait objects) is covered by the bounded stand-in only; the account creation generated by anchor enters as an assumed contract.')
