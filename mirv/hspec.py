"""Specifications of the instruction handlers (State::process, one instruction kind at a time).

Account positions, account-flag values and program ids are the published ABI, written down here independently of the source.
Every obligation carries a tag:
  AUTH  who has to have signed            ACCT  which accounts are accepted
  SOLV  vault balances vs. recorded totals FUNC  exactly what the instruction does (and that it does nothing else)
"""
from handlers import *

INIT, MARKET, OO, REQQ, EVQ, BIDS, ASKS, DISABLED, CLOSED, PERM, CRANK = [1 << i for i in range(11)]
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(s):
    n = 0
    for ch in s: n = n * 58 + B58.index(ch)
    b = n.to_bytes(32, 'big')
    return [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(4)]


TOKEN_ID = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
SWEEPER = b58('DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE')
DISABLER = b58('5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V')


BAL = ('native_coin_free', 'native_coin_total', 'native_pc_free', 'native_pc_total')


def le8(b): return int.from_bytes(b, 'little')


class H:
    """one successful outcome of an instruction, seen through account roles"""

    def __init__(s, led, ex, st, ins, roles, tags, base=None, kind='end'):
        s.led, s.ex, s.ins, s.tags, s.kind = led, ex, ins, tags, kind
        s.st = st
        s.base = base[2] if base else None       # memory at the last loop head passed (None: since the start of the instruction)
        s.roles = roles if isinstance(roles, dict) else {r: 'accs[%d]' % i for i, r in enumerate(roles) if r}
        s.s0 = State(); s.s0.pc = s.st.pc
        s._init = {}
        s.allow = set()

    def ob(s, tag, name, goal):
        ts = tag.split('|')
        tag = ts[0] if s.tags is None or ts[0] in s.tags else next((t for t in ts if t in s.tags), None)
        if tag: s.led.prove(s.ex, s.st, '%s: %s %s' % (tag, s.ins, name), s.ex.b(goal) if not is_z3(goal) else goal)

    def acc(s, r): return s.roles[r]
    # ---- initial values
    def rec0(s, acc, S):
        k = (acc, S)
        if s.base and ('OV', acc, S) in s.base: return s.base[('OV', acc, S)]
        if s.base and S == 'MarketState' and ('OV', acc, 'MarketStateV2') in s.base: return s.ex.get1(s.s0, s.base[('OV', acc, 'MarketStateV2')], ('f', 0, 'MarketState'))
        if k not in s._init:
            s._init[k] = Rec(S, '%s.%s' % (acc, S), {} if S == 'MarketStateV2' else {0: s.ex.int_sym('%s.w@%d' % (acc, HEAD), 'u64')})
        return s._init[k]

    def old(s, r, S, f):
        i = s.ex.crate.fidx(S, f)
        return s.ex.get1(s.s0, s.rec0(s.acc(r), S), ('f', i, FT.get((S, f), 'u64')))

    def cur(s, acc, S):
        m = s.st.mem
        if S == 'MarketState':
            if ('OV', acc, 'MarketStateV2') in m: return s.ex.get1(s.st, m[('OV', acc, 'MarketStateV2')], ('f', 0, 'MarketState'))
        return m.get(('OV', acc, S)) or s.rec0(acc, S)

    def new(s, r, S, f):
        i = s.ex.crate.fidx(S, f)
        return s.ex.get1(s.st, s.cur(s.acc(r), S), ('f', i, FT.get((S, f), 'u64')))

    def d(s, r, S, f): return s.new(r, S, f) - s.old(r, S, f)
    def m0(s, f): return s.old('market', 'MarketState', f)
    def m1(s, f): return s.new('market', 'MarketState', f)
    def o0(s, f): return s.old('oo', 'OpenOrders', f)
    def o1(s, f): return s.new('oo', 'OpenOrders', f)
    def mw(s, f): return words(s.ex, s.s0, s.m0(f))
    # ---- account attributes
    def key(s, r): return keyw(s.ex, s.s0, s.acc(r))
    def prog(s):
        s.ex.celltypes.setdefault(('S', 'prog'), 'Pubkey')
        return words(s.ex, s.s0, s.ex.cell(s.s0, ('S', 'prog')))

    def owner(s, r):
        c = ('S', s.acc(r) + '.owner'); s.ex.celltypes.setdefault(c, 'Pubkey')
        return words(s.ex, s.s0, s.ex.cell(s.s0, c))

    def signer(s, r): return z3.Bool(s.acc(r) + '.is_signer')
    def flags0(s, r): return s.ex.int_sym('%s.w@%d' % (s.acc(r), HEAD), 'u64')
    def w(s, r, off): return s.ex.int_sym('%s.w@%d' % (s.acc(r), off), 'u64')
    def n(s): return z3.Int('naccs')
    def bal0(s, acc): return s.ex.int_sym(acc + '.w@64', 'u64')

    def bal1(s, acc):
        v = written(s.st, acc).get(('64', 8))
        return s.bal0(acc) if v is None else words(s.ex, s.st, v)[0]

    def dbal(s, r): return s.bal1(s.acc(r)) - s.bal0(s.acc(r))
    # ---- common clauses
    def loaded_market(s, disabled_ok=False, v1=True, v2=True):
        fl = []
        if v1: fl += [INIT | MARKET]
        if v2: fl += [INIT | MARKET | PERM, INIT | MARKET | PERM | CRANK]
        if disabled_ok: fl += [x | DISABLED for x in fl]
        f = s.flags0('market')
        s.ob('ACCT', 'runs only on a market account owned by the program', weq(s.owner('market'), s.prog()))
        s.ob('ACCT', 'runs only on an initialized%s' % (' market, possibly disabled' if disabled_ok else ' market that is not disabled'), z3.Or([f == x for x in fl]))
        a = s.acc('market')
        hd = [s.ex.int_sym('%s.b@%d' % (a, i), 'u8') == c for i, c in enumerate(b'serum')]
        ln = data_len(s.ex, a)
        tl = [s.ex.int_sym('%s.b@%s' % (a, offkey(ln - 7 + i)), 'u8') == c for i, c in enumerate(b'padding')]
        s.ob('ACCT', 'runs only on a market account with the serum header and footer', z3.And(hd + tl))

    def signed(s, r, what): s.ob('AUTH', 'requires the signature of ' + what, s.signer(r))

    def oo_of(s, owner_r, owner_words=None):
        s.allow.add(('oo', 'padding'))
        s.ob('ACCT', 'uses only open-orders accounts owned by the program', weq(s.owner('oo'), s.prog()))
        s.ob('ACCT', 'uses only initialized open-orders accounts', s.flags0('oo') == INIT | OO)
        s.ob('ACCT', 'uses only open-orders accounts of this market', weq(words(s.ex, s.s0, s.o0('market')), s.mw('own_address')))
        s.ob('AUTH', 'uses only an open-orders account that belongs to the signer', weq(words(s.ex, s.s0, s.o0('owner')), s.key(owner_r)))

    def vault(s, r, f): s.ob('ACCT', 'uses the vault recorded in the market as %s' % r, weq(s.key(r), s.mw(f)))
    def token_program(s, r='token'): s.ob('ACCT', 'moves tokens through the SPL token program only', weq(s.key(r), TOKEN_ID))

    def vault_signer(s, r='vault_signer'):
        s.ob('ACCT', 'uses the vault signer derived from the market', weq(s.key(r), s.vsk()))

    def vsk(s): return pda(s.ex, s.mw('own_address') + [s.m0('vault_signer_nonce')], s.prog())

    def wallet(s, r, mint):
        s.ob('ACCT', '%s is a token account of the market mint' % r, z3.And(weq(s.owner(r), TOKEN_ID), weq([s.w(r, 8 * k) for k in range(4)], s.mw(mint))))

    def insf(s, T, f, ty=None):
        i = s.ex.crate.fidx(T, f)
        return s.ex.get1(s.s0, Rec(T, 'ins', {}), ('f', i, ty or s.ex.crate.src.stypes[T][i]))

    def is_bid(s, T): return s.insf(T, 'side').d == s.ex.crate.vdisc('Side', 'Bid')

    def book_accounts(s, queue='event_q'):
        for r, f, fl in (('bids', 'bids', BIDS), ('asks', 'asks', ASKS), ('event_q', 'event_q', EVQ), ('req_q', 'req_q', REQQ)):
            if r not in s.roles: continue
            s.ob('ACCT', 'uses the %s account recorded in the market' % r, weq(s.key(r), s.mw(f)))
            s.ob('ACCT', 'uses only an initialized %s account' % r, s.flags0(r) == INIT | fl)

    def dispatched(s, key, fn, payload, accounts):
        """the instruction is nothing but its handler on its own accounts and arguments (which is what Replace relies on)"""
        cs = [x for x in s.st.ghost.get('called', ()) if x[0] == key]
        ok = len(cs) == 1
        if ok:
            _, a, npc = cs[0]
            h = a[3]
            ok = a[0] == Ptr(('S', 'prog')) and npc == s.st.ghost['pc0'] and a[accounts] == Ptr(('ACCS',)) and isinstance(h, FnVal) and h.path.split('::')[-1] == fn and payload(a)
        s.ob('FUNC', 'is exactly its handler on its own accounts and arguments', bool(ok))

    def arrays(s, S, f, r='oo'):
        return s.old(r, S, f), s.new(r, S, f)

    def transfers(s, exp, vault_roles=('coin_vault', 'pc_vault'), payer='owner'):
        """exp: list of (from role, to role, amount); everything moved is in the list, in total"""
        inv = {a: r for r, a in s.roles.items()}
        got = {}
        for f, t, au, amt, seeds, prog in s.st.ghost.get('xfer', ()):
            got[(inv.get(f, f), inv.get(t, t))] = got.get((inv.get(f, f), inv.get(t, t)), 0) + amt
            if inv.get(f) in vault_roles:
                s.ob('AUTH', 'takes tokens out of a vault only under the vault signer', z3.And(weq(s.key('vault_signer'), s.key(inv[au])) if au in inv else z3.BoolVal(False),
                     z3.Or([weq(pda(s.ex, list(q), s.prog()), s.key('vault_signer')) for q in seeds] or [z3.BoolVal(False)])))
            else: s.ob('AUTH', 'takes tokens from a wallet only under the authority of the signer', z3.And(weq(s.key(payer), s.key(inv[au])) if au in inv else z3.BoolVal(False), s.signer(payer)))
            s.ob('ACCT', 'moves tokens through the SPL token program only', weq(list(prog), TOKEN_ID))
        want = {}
        for f, t, amt in exp: want[(f, t)] = want.get((f, t), 0) + amt
        for k in sorted(set(got) | set(want), key=str):
            s.ob('FUNC', 'moves exactly the amount due from %s to %s' % k if k in want else 'makes no other token transfer', s.ex.z(got.get(k, 0)) == s.ex.z(want.get(k, 0)))
        for f, t, _ in exp: s.allow.add((f, 'balance')); s.allow.add((t, 'balance'))

    def solvent(s):
        M = 'MarketState'
        s.ob('SOLV', 'changes the pc vault by exactly the change of recorded pc deposits, fees and rebates',
             s.dbal('pc_vault') == s.d('market', M, 'pc_deposits_total') + s.d('market', M, 'pc_fees_accrued') + s.d('market', M, 'referrer_rebates_accrued'))
        if 'coin_vault' in s.roles:
            s.ob('SOLV', 'changes the coin vault by exactly the change of recorded coin deposits', s.dbal('coin_vault') == s.d('market', M, 'coin_deposits_total'))
        else: s.ob('SOLV', 'leaves recorded coin deposits alone', s.d('market', M, 'coin_deposits_total') == 0)

    def totals_unchanged(s):
        for f in ('coin_deposits_total', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued'):
            s.ob('SOLV', 'leaves recorded deposits, fees and rebates alone', s.m1(f) == s.m0(f))
        s.ob('SOLV', 'moves no tokens', not s.st.ghost.get('xfer', ()))

    XTAG = {('OpenOrders', 'free_slot_bits'): 'SLOT', ('OpenOrders', 'is_bid_bits'): 'SLOT', ('OpenOrders', 'orders'): 'SLOT', ('OpenOrders', 'client_order_ids'): 'SLOT',
            ('RequestQueueHeader', 'next_seq_num'): 'SEQ', ('OpenOrders', 'owner'): 'AUTH', ('OpenOrders', 'market'): 'ACCT',
            **{('OpenOrders', f): 'SOLV' for f in BAL if f.endswith('total')}, **{('MarketState', f): 'SOLV' for f in ('coin_deposits_total', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')},
            **{('MarketStateV2', f): 'AUTH' for f in ('open_orders_authority', 'prune_authority', 'consume_events_authority')},
            **{('MarketState', f): 'ACCT' for f in ('own_address', 'coin_mint', 'pc_mint', 'coin_vault', 'pc_vault', 'req_q', 'event_q', 'bids', 'asks', 'vault_signer_nonce')}}
    XNAME = dict(SLOT='leaves the slots of its accounts alone', SEQ='leaves the order numbering alone', AUTH='leaves owners and authorities alone', SOLV='leaves recorded balances alone', ACCT='leaves the accounts recorded in the market alone')

    def fob(s, tag, S, nm, goal):
        x = s.XTAG.get((S, nm))
        if x and s.tags is not None and tag not in s.tags and x in s.tags: tag = x
        s.ob(tag, s.XNAME.get(tag, 'leaves every other field of its accounts alone'), goal)

    def frame(s, *allow, tag='FUNC', other=()):
        """nothing but the listed (role, struct, field) changed"""
        al = set(allow) | s.allow
        inv = {a: r for r, a in s.roles.items()}
        bad = []
        for c, v in s.st.mem.items():
            if c[0] == 'OV':
                acc, T = c[1], c[2]; r = inv.get(acc, acc)
                recs = [(T, v)]
                if T == 'MarketStateV2': recs = [(T, v), ('MarketState', s.ex.get1(s.st, v, ('f', 0, 'MarketState')))]
                for S, rec in recs:
                    if (r, S) in al: continue
                    names = s.ex.crate.structs[S]
                    r0 = s.rec0(acc, S)
                    for i, nv in rec.f.items():
                        if S == 'MarketStateV2' and i == 0: continue
                        nm = names[i] if isinstance(i, int) and i < len(names) else str(i)
                        if (r, S, nm) in al: continue
                        ov = s.ex.get1(s.s0, r0, ('f', i, s.ex.crate.src.stypes[S][i]))
                        s.fob(tag, S, nm, same(s.ex, s.st, s.s0, nv, ov))
            elif c[0] == 'BW':
                r = inv.get(c[1], c[1])
                if (r, 'bytes') in al: continue
                b0 = s.base[c].v if s.base and c in s.base else {}
                for (off, n), w in v.v.items():
                    if b0.get((off, n)) is w: continue
                    if off == '64' and n == 8 and (r, 'balance') in al: continue
                    if (r, 'padding') in al and const_bytes(w) == (b'serum' if (off, n) == ('0', 5) else b'padding' if (off, n) == (offkey(data_len(s.ex, c[1]) - 7), 7) else None): continue
                    s.ob(tag, 'writes no other account bytes', False)
            elif c[0] == 'S' and c[1].endswith('.lamports*'):
                acc = c[1][:-len('.lamports*')]; r = inv.get(acc, acc)
                if (r, 'lamports') in al: continue
                s.ob(tag, 'moves no lamports', veq(s.ex, s.st, v, s.ex.int_sym('%s.lamports**' % acc, 'u64')) if is_int(v) else False)
            elif c[0] in ('BOOK',):
                r = inv.get(c[1], c[1])
                if (r, 'book') in al: continue
                b = v.v
                s.ob(tag, 'leaves the books alone', not b.log)
            elif c[0] == 'ACCS':
                for i, nv in v.f.items():
                    if i == 'len': continue
                    if not (isinstance(nv, Rec) and nv.name == 'accs[%s]' % (i[1] if isinstance(i, tuple) else i)): raise Unsupported('account list was written: %r %r' % (i, nv))


def const_bytes(w):
    if isinstance(w, Arr) and all(isinstance(x, int) for x in w.items): return bytes(w.items)
    return b'?'


def same(ex, st, s0, nv, ov):
    if isinstance(nv, ZArr) and isinstance(ov, ZArr): return nv.a == ov.a if not nv.a.eq(ov.a) else True
    if isinstance(nv, Rec) and isinstance(ov, Rec) and nv.name is not None and nv.name == ov.name and not nv.f: return True
    return veq(ex, st, nv, ov)


def instr(variant, roles, spec, payload=(), prep=None, cases=None, loop=False):
    """verification units of one instruction; `cases` splits the inputs exhaustively (c or not c, for each c)"""
    def units(tags):
        out = []
        for m in range(1 << len(cases or ())):
            def run(led, m=m):
                import props
                def pre(ex, st):
                    for i, c in enumerate(cases or ()):
                        x = c(ex)
                        ex.assume(st, x if m >> i & 1 else z3.Not(x))
                rl = lambda ex: roles(ex) if callable(roles) else roles
                if loop: ex, ok, outs = run_loops(props.dex(), variant, payload, prep, pre, lambda ex, base, st, kind: spec(H(led, ex, st, variant, rl(ex), tags, base, kind)))
                else: ex, ok, outs = run_case(props.dex(), variant, payload, prep, pre)
                for o in ok:
                    spec(H(led, ex, o.st, variant, rl(ex), tags, o.st.ghost.get('base')))
                    led.cover(ex, o.st, '%s succeeds' % variant)
                led.note_engine(ex); led.add_stats(ex)
                if not ok: raise Unsupported('no successful path of ' + variant)
            out.append((variant + ('/%d' % m if cases else ''), run))
        return out
    return units


# ------------------------------------------------------------------------------------------------ settle, sweep, disable
def settle(h):
    R = h.n() == 10
    h.ob('ACCT', 'takes nine or ten accounts', z3.Or(h.n() == 9, R))
    h.loaded_market(disabled_ok=True)
    h.signed('owner', 'the owner of the open-orders account')
    h.oo_of('owner')
    h.vault('coin_vault', 'coin_vault'); h.vault('pc_vault', 'pc_vault')
    h.wallet('coin_wallet', 'coin_mint'); h.wallet('pc_wallet', 'pc_mint')
    h.vault_signer(); h.token_program()
    cf, pf, rb = h.o0('native_coin_free'), h.o0('native_pc_free'), h.o0('referrer_rebates_accrued')
    h.transfers([('coin_vault', 'coin_wallet', cf), ('pc_vault', 'pc_wallet', pf), ('pc_vault', 'referrer', z3.If(R, rb, 0))])
    h.ob('FUNC', 'pays out the free balances once: both become zero and the totals shrink by them', z3.And(
        h.o1('native_coin_free') == 0, h.o1('native_pc_free') == 0, h.o1('native_coin_total') == h.o0('native_coin_total') - cf, h.o1('native_pc_total') == h.o0('native_pc_total') - pf))
    h.ob('FUNC', 'takes the paid-out balances off the market deposits', z3.And(h.m1('coin_deposits_total') == h.m0('coin_deposits_total') - cf, h.m1('pc_deposits_total') == h.m0('pc_deposits_total') - pf))
    h.ob('FUNC', 'hands the referrer rebate to the referrer if there is one and to the market fees otherwise, once', z3.And(
        h.o1('referrer_rebates_accrued') == 0, h.m1('referrer_rebates_accrued') == h.m0('referrer_rebates_accrued') - rb,
        h.m1('pc_fees_accrued') == h.m0('pc_fees_accrued') + z3.If(R, 0, rb)))
    h.ob('SOLV', 'keeps recorded deposits equal to the balances of all accounts, counting fills not yet consumed', z3.And(
        h.d('market', 'MarketState', 'pc_deposits_total') == h.d('oo', 'OpenOrders', 'native_pc_total'), h.d('market', 'MarketState', 'coin_deposits_total') == h.d('oo', 'OpenOrders', 'native_coin_total')))
    h.ob('SOLV', 'never pays out more than is free', z3.And(h.o1('native_pc_free') == 0, h.o1('native_coin_free') == 0, h.d('oo', 'OpenOrders', 'native_pc_total') == -pf, h.d('oo', 'OpenOrders', 'native_coin_total') == -cf))
    h.solvent()
    M, O = ('market', 'MarketState'), ('oo', 'OpenOrders')
    h.frame(*[M + (f,) for f in ('coin_deposits_total', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')],
            *[O + (f,) for f in ('native_coin_free', 'native_pc_free', 'native_coin_total', 'native_pc_total', 'referrer_rebates_accrued')])
    h.led.cover(h.ex, h.st, 'SettleFunds pays a referrer', z3.And(R, rb > 0))
    h.led.cover(h.ex, h.st, 'SettleFunds pays out', z3.And(cf > 0, pf > 0))


def sweep(h):
    h.ob('ACCT', 'takes six accounts', h.n() == 6)
    h.loaded_market()
    h.signed('sweeper', 'the fee sweeper')
    h.ob('AUTH', 'requires the published fee sweeper key', weq(h.key('sweeper'), SWEEPER))
    h.vault('pc_vault', 'pc_vault'); h.wallet('pc_wallet', 'pc_mint'); h.vault_signer(); h.token_program()
    h.transfers([('pc_vault', 'pc_wallet', h.m0('pc_fees_accrued'))])
    h.ob('FUNC', 'pays out the accrued fees once', h.m1('pc_fees_accrued') == 0)
    h.solvent()
    h.frame(('market', 'MarketState', 'pc_fees_accrued'))


def disable(h):
    h.ob('ACCT', 'takes two accounts', h.n() == 2)
    h.loaded_market()
    h.signed('authority', 'the disable authority')
    h.ob('AUTH', 'requires the published disable authority key', weq(h.key('authority'), DISABLER))
    h.ob('FUNC', 'adds the disabled flag and keeps the others', h.m1('account_flags') == h.m0('account_flags') + DISABLED)
    h.totals_unchanged()
    h.frame(('market', 'MarketState', 'account_flags'))


def close_oo(h):
    h.ob('ACCT', 'takes four accounts', h.n() == 4)
    h.loaded_market(disabled_ok=True)
    h.signed('owner', 'the owner of the open-orders account')
    h.oo_of('owner')
    h.ob('FUNC|SOLV|SLOT', 'closes only an account with no open order and no balance', z3.And(h.o0('native_coin_total') == 0, h.o0('native_pc_total') == 0, h.o0('free_slot_bits') == 2 ** 128 - 1))
    h.ob('FUNC|ACCT', 'leaves the account marked closed, so that it can never be loaded again', h.o1('account_flags') == CLOSED)
    lam = lambda r: h.ex.load(h.st, h.ex.load(h.st, lam_ptr(h.ex, h.st, h.acc(r))))
    lam0 = lambda r: h.ex.int_sym(h.acc(r) + '.lamports**', 'u64')
    h.ob('FUNC', 'hands all its lamports to the destination', z3.And(lam('oo') == 0, lam('dest') == lam0('dest') + lam0('oo')))
    h.totals_unchanged()
    h.frame(('oo', 'OpenOrders', 'account_flags'), ('oo', 'lamports'), ('dest', 'lamports'))


def init_oo(h):
    h.ob('ACCT', 'takes four or five accounts', z3.Or(h.n() == 4, h.n() == 5))
    h.loaded_market()
    h.signed('owner', 'the owner of the open-orders account')
    h.ob('ACCT', 'uses only open-orders accounts owned by the program', weq(h.owner('oo'), h.prog()))
    fresh = h.flags0('oo') == 0
    perm = z3.Or(h.flags0('market') == (INIT | MARKET | PERM), h.flags0('market') == (INIT | MARKET | PERM | CRANK))
    auth = words(h.ex, h.s0, h.ex.get1(h.s0, h.rec0(h.acc('market'), 'MarketStateV2'), ('f', h.ex.crate.fidx('MarketStateV2', 'open_orders_authority'), 'Pubkey')))
    h.ob('AUTH', 'initializes on a permissioned market only with the signature of its open-orders authority',
         z3.Implies(z3.And(fresh, perm), z3.And(h.n() == 5, h.signer('oo_authority'), weq(h.key('oo_authority'), auth))))
    h.ob('AUTH', 'accepts no authority on an open market', z3.Implies(z3.And(fresh, z3.Not(perm)), h.n() == 4))
    h.ob('AUTH', 'ends with an account that belongs to the signer', weq(words(h.ex, h.st, h.o1('owner')), h.key('owner')))
    h.ob('ACCT', 'ends with an account of this market', weq(words(h.ex, h.st, h.o1('market')), h.mw('own_address')))
    h.ob('FUNC', 'ends with an initialized account', h.o1('account_flags') == INIT | OO)
    lam0 = h.ex.int_sym(h.acc('oo') + '.lamports**', 'u64')
    h.ob('FUNC', 'initializes only a rent-exempt account', z3.Implies(fresh, EXEMPT(lam0, data_len(h.ex, h.acc('oo')))))
    h.ob('FUNC|SOLV|SLOT', 'gives a fresh account all slots free and no balance', z3.Implies(fresh, z3.And([h.o1('free_slot_bits') == 2 ** 128 - 1] + [h.o1(f) == 0 for f in BAL])))
    for f in ('account_flags', 'market', 'owner', 'free_slot_bits') + BAL:
        h.ob('FUNC', 'leaves an initialized account as it was', z3.Implies(z3.Not(fresh), veq(h.ex, h.st, h.o1(f), h.o0(f))))
    h.totals_unchanged()
    h.frame(*[('oo', 'OpenOrders', f) for f in ('account_flags', 'market', 'owner', 'free_slot_bits') + BAL], ('oo', 'padding'))
    h.led.cover(h.ex, h.st, 'InitOpenOrders on a fresh account of a permissioned market', z3.And(fresh, perm))
    h.led.cover(h.ex, h.st, 'InitOpenOrders on a fresh account of an open market', z3.And(fresh, z3.Not(perm)))


# ------------------------------------------------------------------------------------------------ orders
def isopt(ex, o, v):
    """Option<NonZeroU64> equals NonZeroU64::new(v)"""
    some = ex.b(o.d == 1); pv = o.f.get(('Some', 0))
    if pv is None and o.name: pv = ex.payload(State(), o, 'Some', 0, 'NonZeroU64')
    return z3.And(some == (v != 0), z3.Implies(some, pv == v) if pv is not None else z3.Not(some))


def request(h, T, R, owner, signer, n0, oid0):
    """obligations on the request handed to the matching engine"""
    ex = h.ex; bid = h.is_bid(T)
    seq = h.old('req_q', 'RequestQueueHeader', 'next_seq_num')
    h.ob('SEQ', 'gives the order an id made of its price and a number no other order has, ordering equal prices by time', z3.And(
        R['order_id'] == h.insf(T, 'limit_price') * 2 ** 64 + z3.If(bid, 2 ** 64 - 1 - seq, seq), h.new('req_q', 'RequestQueueHeader', 'next_seq_num') == seq + 1))
    h.ob('FUNC', 'matches against the books of this market', z3.BoolVal(R['bids'] == 'bid' and R['asks'] == 'ask' and R['market'] and R['event_q'] == h.acc('event_q')))
    h.ob('FUNC', 'matches the order with the side, size and limit asked for', z3.And(R['side'].d == h.insf(T, 'side').d, R['max_coin_qty'] == h.insf(T, 'max_coin_qty'), R['limit'] == h.insf(T, 'limit')))
    h.ob('FUNC', 'locks pc for a bid and only for a bid', z3.And(R['locked_some'] == bid, z3.Implies(bid, R['P'] == h.insf(T, 'max_native_pc_qty_including_fees'))))
    # fee tier
    D = h.n() == n0 + 1
    mint = [h.w('discount', 8 * k) for k in range(4)]; amt = h.w('discount', 64)
    srm = z3.And(D, weq(mint, b58('SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt')))
    msrm = z3.And(D, weq(mint, b58('MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L')))
    tier = TIER(*(h.mw('own_address') + [z3.If(srm, amt, 0), z3.If(z3.And(msrm, z3.Not(srm)), amt, 0)]))
    h.ob('TIER', 'applies the fee tier earned by the SRM or MSRM balance of the discount account', R['fee_tier'].d == tier)
    h.ob('TIER', 'grants a discount only for a token account of the signer', z3.Implies(D, z3.And(weq(h.owner('discount'), TOKEN_ID), weq([h.w('discount', 32 + 8 * k) for k in range(4)], h.key(signer)))))


def pointwise(h, name, f, slot, at):
    """array field f of the open-orders account changed at `slot` only, to `at`"""
    a0, a1 = h.o0(f), h.o1(f)
    k = z3.Int('any_slot')
    h.ob('SLOT', name, z3.Implies(z3.And(k >= 0, k < 128), z3.Select(a1.a, k) == z3.If(k == slot, at, z3.Select(a0.a, k))))


def new_order(h):
    T = 'NewOrderInstructionV3'; ex = h.ex; bid = h.is_bid(T)
    h.ob('ACCT', 'takes twelve or thirteen accounts', z3.Or(h.n() == 12, h.n() == 13))
    h.loaded_market()
    h.dispatched('NewOrderV3Args::with_parsed_args', 'process_new_order_v3', lambda a: getattr(ex.load(h.st, a[1]) if isinstance(a[1], Ptr) else a[1], 'name', None) == 'ins', 2)
    h.signed('owner', 'the owner of the open-orders account')
    fresh = h.flags0('oo') == 0
    h.allow.add(('oo', 'padding'))
    h.ob('ACCT', 'uses only open-orders accounts owned by the program', weq(h.owner('oo'), h.prog()))
    h.ob('ACCT', 'uses only initialized or fresh open-orders accounts', z3.And(z3.Or(fresh, h.flags0('oo') == INIT | OO), h.o1('account_flags') == INIT | OO))
    h.ob('ACCT', 'uses only open-orders accounts of this market', z3.And(weq(words(ex, h.st, h.o1('market')), h.mw('own_address')), z3.Implies(z3.Not(fresh), weq(words(ex, h.s0, h.o0('market')), h.mw('own_address')))))
    h.ob('AUTH', 'uses only an open-orders account that belongs to the signer', z3.And(weq(words(ex, h.st, h.o1('owner')), h.key('owner')), z3.Implies(z3.Not(fresh), weq(words(ex, h.s0, h.o0('owner')), h.key('owner')))))
    h.ob('AUTH', 'creates no open-orders account on a permissioned market', z3.Implies(fresh, h.flags0('market') == INIT | MARKET))
    lam0 = ex.int_sym(h.acc('oo') + '.lamports**', 'u64')
    h.ob('ACCT', 'creates only a rent-exempt open-orders account', z3.Implies(fresh, EXEMPT(lam0, data_len(ex, h.acc('oo')))))
    h.book_accounts(); h.vault('coin_vault', 'coin_vault'); h.vault('pc_vault', 'pc_vault'); h.token_program()
    h.ob('ACCT', 'payer is a token account of the mint sold', z3.And(weq(h.owner('payer'), TOKEN_ID), weq([h.w('payer', 8 * k) for k in range(4)], [z3.If(bid, a, b) for a, b in zip(h.mw('pc_mint'), h.mw('coin_mint'))])))
    mts = h.insf(T, 'max_ts')
    now = ex.get1(h.s0, Rec('Clock', 'sysvar.Clock', {}), ('f', 4, 'i64'))
    h.ob('FUNC', 'is refused after its time limit', z3.Implies(mts < 2 ** 63 - 1, now <= mts))
    rq = h.st.ghost.get('req', ())
    h.ob('FUNC', 'is matched exactly once', len(rq) == 1)
    if len(rq) != 1: return
    R = rq[0]
    request(h, T, R, 'oo', 'owner', 12, None)
    h.ob('FUNC|SLOT', 'is matched under the identity of the open-orders account', z3.And(weq(R['owner'].items, h.key('oo')), R['order_type'].d == h.insf(T, 'order_type').d,
         R['self_trade_behavior'].d == h.insf(T, 'self_trade_behavior').d, isopt(ex, R['client_order_id'], h.insf(T, 'client_order_id'))))
    b0 = {f: z3.If(fresh, 0, h.o0(f)) for f in BAL}
    free0 = z3.If(fresh, z3.IntVal(2 ** 128 - 1), h.o0('free_slot_bits'))
    lot = h.m0('coin_lot_size')
    lock = z3.If(bid, h.insf(T, 'max_native_pc_qty_including_fees'), h.insf(T, 'max_coin_qty') * lot)
    have = z3.If(bid, b0['native_pc_free'], b0['native_coin_free'])
    dep = z3.If(have >= lock, 0, lock - have); use = lock - dep
    D = {f: h.o1(f) - b0[f] for f in BAL}
    h.transfers([('payer', 'pc_vault', z3.If(bid, dep, 0)), ('payer', 'coin_vault', z3.If(bid, 0, dep))])
    h.ob('FUNC', 'credits the account with its deposit and proceeds and debits what it paid', z3.And(
        D['native_pc_total'] == z3.If(bid, dep, 0) + R['pcr'] - R['a'], D['native_coin_total'] == z3.If(bid, 0, dep) + (R['c'] - R['cd']) * lot))
    h.ob('FUNC', 'frees exactly its proceeds and what was unlocked, and locks its own free balance first', z3.And(
        D['native_pc_free'] == R['pcr'] + R['u'] - z3.If(bid, use, 0), D['native_coin_free'] == (R['c'] + R['cu']) * lot - z3.If(bid, 0, use)))
    h.ob('FUNC', 'leaves locked in the account exactly what rests on the book', z3.And(
        z3.Implies(weq(R['owner'].items, [0] * 4), True),
        z3.Implies(z3.Not(ex.b(weq(h.key('oo'), [0] * 4))), z3.And(
            D['native_pc_total'] - D['native_pc_free'] == z3.If(bid, R['posted'] * R['price'] * h.m0('pc_lot_size'), 0),
            D['native_coin_total'] - D['native_coin_free'] == z3.If(bid, 0, R['posted'] * lot)))))
    h.ob('FUNC|SOLV', 'never leaves more free than the account holds', z3.And(h.o1('native_pc_free') <= h.o1('native_pc_total'), h.o1('native_coin_free') <= h.o1('native_coin_total')))
    slot = R['owner_slot']
    h.ob('SLOT', 'takes a free slot of the account', z3.And(slot >= 0, slot < 128, BIT(free0, slot)))
    k = z3.Int('any_slot'); K = z3.And(k >= 0, k < 128)
    h.ob('SLOT', 'occupies its slot, records its side and leaves the other slots alone', z3.And(
        z3.Implies(K, BIT(h.o1('free_slot_bits'), k) == z3.And(k != slot, BIT(free0, k))),
        z3.Implies(K, BIT(h.o1('is_bid_bits'), k) == z3.If(k == slot, bid, BIT(h.o0('is_bid_bits'), k)))))
    pointwise(h, 'records the order id in its slot and touches no other slot', 'orders', slot, R['order_id'])
    pointwise(h, 'records the client id in its slot and touches no other slot', 'client_order_ids', slot, h.insf(T, 'client_order_id'))
    h.ob('SOLV', 'keeps recorded deposits equal to the balances of all accounts, counting fills not yet consumed', z3.And(
        h.d('market', 'MarketState', 'pc_deposits_total') == D['native_pc_total'] + z3.If(bid, R['mp'], -R['mp']),
        h.d('market', 'MarketState', 'coin_deposits_total') == D['native_coin_total'] + z3.If(bid, -R['mc'], R['mc'])))
    h.ob('FUNC', 'adds its deposit to the market deposits', z3.And(h.m1('coin_deposits_total') == h.m0('coin_deposits_total') + z3.If(bid, 0, dep)))
    h.solvent()
    h.frame(*[('market', 'MarketState', f) for f in ('coin_deposits_total', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')],
            *[('oo', 'OpenOrders', f) for f in BAL + ('free_slot_bits', 'is_bid_bits', 'orders', 'client_order_ids', 'account_flags', 'market', 'owner')],
            ('req_q', 'RequestQueueHeader', 'next_seq_num'), ('event_q', 'EventQueueHeader', 'count'), ('event_q', 'EventQueueHeader', 'seq_num'), ('bids', 'book'), ('asks', 'book'))
    h.led.cover(ex, h.st, 'NewOrderV3 bid with deposit and free funds', z3.And(bid, dep > 0, use > 0))
    h.led.cover(ex, h.st, 'NewOrderV3 ask on a fresh account', z3.And(z3.Not(bid), fresh, R['posted'] > 0))
    h.led.cover(ex, h.st, 'NewOrderV3 with a discount', h.n() == 13)


def send_take(h):
    T = 'SendTakeInstruction'; ex = h.ex; bid = h.is_bid(T)
    h.ob('ACCT', 'takes twelve or thirteen accounts', z3.Or(h.n() == 12, h.n() == 13))
    h.loaded_market()
    h.signed('signer', 'the wallet owner')
    h.book_accounts(); h.vault('coin_vault', 'coin_vault'); h.vault('pc_vault', 'pc_vault'); h.token_program(); h.vault_signer()
    h.wallet('coin_wallet', 'coin_mint'); h.wallet('pc_wallet', 'pc_mint')
    rq = h.st.ghost.get('req', ())
    h.ob('FUNC', 'is matched exactly once', len(rq) == 1)
    if len(rq) != 1: return
    R = rq[0]
    request(h, T, R, None, 'signer', 12, None)
    h.ob('FUNC', 'is matched as an anonymous immediate-or-cancel order that aborts on self-trade', z3.And(weq(R['owner'].items, [0] * 4), ex.b(R['order_type'].d == ex.crate.vdisc('OrderType', 'ImmediateOrCancel')),
         ex.b(R['self_trade_behavior'].d == ex.crate.vdisc('SelfTradeBehavior', 'AbortTransaction')), isopt(ex, R['client_order_id'], z3.IntVal(0)), R['owner_slot'] == 0))
    lot = h.m0('coin_lot_size')
    h.ob('FUNC', 'fails unless it obtains the minimum asked for', z3.If(bid, R['c'] >= h.insf(T, 'min_coin_qty'), R['pcr'] >= h.insf(T, 'min_native_pc_qty')))
    h.transfers([('pc_wallet', 'pc_vault', R['a']), ('coin_vault', 'coin_wallet', R['c'] * lot), ('coin_wallet', 'coin_vault', R['cd'] * lot), ('pc_vault', 'pc_wallet', R['pcr'])], payer='signer')
    h.ob('FUNC', 'never takes more from the wallet than allowed', z3.And(R['a'] <= z3.If(bid, h.insf(T, 'max_native_pc_qty_including_fees'), 0), R['cd'] <= z3.If(bid, 0, h.insf(T, 'max_coin_qty'))))
    h.ob('SOLV', 'keeps recorded deposits equal to the balances of all accounts, counting fills not yet consumed', z3.And(
        h.d('market', 'MarketState', 'pc_deposits_total') == z3.If(bid, R['mp'], -R['mp']), h.d('market', 'MarketState', 'coin_deposits_total') == z3.If(bid, -R['mc'], R['mc'])))
    h.solvent()
    h.frame(*[('market', 'MarketState', f) for f in ('coin_deposits_total', 'pc_deposits_total', 'pc_fees_accrued', 'referrer_rebates_accrued')],
            ('req_q', 'RequestQueueHeader', 'next_seq_num'), ('event_q', 'EventQueueHeader', 'count'), ('event_q', 'EventQueueHeader', 'seq_num'), ('bids', 'book'), ('asks', 'book'))
    h.led.cover(ex, h.st, 'SendTake bid trades', z3.And(bid, R['a'] > 0, R['c'] > 0))
    h.led.cover(ex, h.st, 'SendTake ask trades', z3.And(z3.Not(bid), R['cd'] > 0, R['pcr'] > 0))


INSTR = {}
INSTR['SettleFunds'] = instr('SettleFunds', ['market', 'oo', 'owner', 'coin_vault', 'pc_vault', 'coin_wallet', 'pc_wallet', 'vault_signer', 'token', 'referrer'], settle)
INSTR['SweepFees'] = instr('SweepFees', ['market', 'pc_vault', 'sweeper', 'pc_wallet', 'vault_signer', 'token'], sweep)
INSTR['DisableMarket'] = instr('DisableMarket', ['market', 'authority'], disable)
INSTR['CloseOpenOrders'] = instr('CloseOpenOrders', ['oo', 'owner', 'dest', 'market'], close_oo)
INSTR['InitOpenOrders'] = instr('InitOpenOrders', ['oo', 'owner', 'market', 'rent', 'oo_authority'], init_oo)
NEWORDER = ['market', 'oo', 'req_q', 'event_q', 'bids', 'asks', 'payer', 'owner', 'coin_vault', 'pc_vault', 'token', 'rent', 'discount']
SIDE = lambda ex: z3.Int('ins.side.d') == ex.crate.vdisc('Side', 'Bid')
DISC = lambda ex: z3.Int('naccs') == 13
FRESH = lambda ex: z3.Int('accs[1].w@5') == 0
INSTR['NewOrderV3'] = instr('NewOrderV3', NEWORDER, new_order, cases=[SIDE, DISC, FRESH], prep=lambda ex: ex.watch.add('NewOrderV3Args::with_parsed_args'), payload=lambda ex: [ex.fresh('NewOrderInstructionV3', 'ins')])
INSTR['SendTake'] = instr('SendTake', ['market', 'req_q', 'event_q', 'bids', 'asks', 'coin_wallet', 'pc_wallet', 'signer', 'coin_vault', 'pc_vault', 'token', 'vault_signer', 'discount'], send_take, cases=[SIDE, DISC],
                          payload=lambda ex: [ex.fresh('SendTakeInstruction', 'ins')])
