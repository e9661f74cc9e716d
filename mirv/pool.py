"""Contracts of the pool framework (pool/src) and of assert-owner."""
from acct import *
from verify import *
from loops import *
import loops, models

TOKEN_ID = None


def b58(s):
    A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    n = 0
    for ch in s: n = n * 58 + A.index(ch)
    b = n.to_bytes(32, 'big')
    return [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(4)]


TOKEN_ID = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
FEE_OWNER = b58('3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK')
RENT_ID = b58('SysvarRent111111111111111111111111111111111')
MIN_RATE, DENOM = 150, 1000000


def engine(crate):
    ex = Engine(crate); install_acct(ex)
    ex.contracts = {k: v for k, v in ex.contracts.items() if k in ('as_arrays', 'as_array')}
    return ex


def the(crate, head, name):
    f = [x for x in crate.find(head, name) if x.kind == 'fn']
    if len(f) != 1: raise Unsupported('%s::%s not found' % (head, name))
    return f[0]


def _pknew(ex, st, a, c):
    """Pubkey::new: the 32 bytes given; panics on any other number of bytes"""
    from acct import _pknew as base
    r = region(ex, st, a[0])
    if r is None or isinstance(r.n, int): return base(ex, st, a, c)
    out = []
    for s, t in ex.split_bool(st, r.n == 32): out.append((s, base(ex, s, a, c)) if t else (s, Panic('Pubkey::new of other than 32 bytes')))
    return out


# ---------------------------------------------------------------- assert-owner
def assert_owner(led, crate):
    ex = engine(crate); ex.models = dict(ex.models); ex.models['Pubkey::new'] = _pknew
    st = State()
    n = ex.int_sym('naccs', 'usize')
    st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
    ln = data_len(ex, 'input')
    st.mem[('IN',)] = Opq('bytes', Region('input', 0, ln))
    ex.celltypes[('S', 'prog')] = 'Pubkey'
    outs = ex.run(the(crate, None, 'entry'), [Ptr(('S', 'prog')), Ptr(('ACCS',)), Ptr(('IN',))], st)
    want = [ex.int_sym('input.w@%d' % (8 * k), 'u64') for k in range(4)]
    c = ('S', 'accs[0].owner'); ex.celltypes.setdefault(c, 'Pubkey')
    okc = 0
    for o in outs:
        good = z3.And(n >= 1, ln == 32, weq(words(ex, o.st, ex.cell(o.st, c)), want))
        if o.kind == 'ret' and o.val.d == 0:
            okc += 1
            led.prove(ex, o.st, 'GUARD: assert-owner succeeds only if the first account is owned by the program named in the 32 bytes of input', good)
            led.cover(ex, o.st, 'assert-owner success')
        else:
            led.prove(ex, o.st, 'GUARD: assert-owner fails only if there is no account, the input is not 32 bytes, or the owner differs', z3.Not(good))
            led.cover(ex, o.st, 'assert-owner owner mismatch', z3.And(n >= 1, ln == 32))
    if not okc: raise Unsupported('no successful path of assert-owner')
    led.note_engine(ex); led.add_stats(ex)


# ---------------------------------------------------------------- fees
def fees(led, crate):
    ex = engine(crate)
    st = State()
    rate, q = ex.int_sym('rate', 'u32'), ex.int_sym('tokens', 'u64')
    st.ghost['assert_hook'] = lambda ex, st, c, msg, fn, loc: led.prove(ex, st, 'FEES: the fee computation does not overflow', c)
    outs = ex.run(the(crate, 'Fees', 'from_fee_rate_and_tokens'), [rate, q], st)
    ok = z3.And(rate >= MIN_RATE, rate < DENOM)
    for o in outs:
        if o.kind == 'panic': led.prove(ex, o.st, 'FEES: the fee computation panics only on more than 2^62 tokens', q > 2 ** 62); continue
        if o.val.d != 0: led.prove(ex, o.st, 'FEES: only a rate outside [150, 1000000) is refused', z3.Not(ok)); continue
        led.prove(ex, o.st, 'FEES: a rate outside [150, 1000000) is refused', ok)
        lqd, ini, ref = fee_fields(ex, o.st, o.val)
        tot = lqd + ini + ref
        led.prove(ex, o.st, 'FEES: the total fee is the rate applied to the tokens, rounded up', z3.And(tot * DENOM >= q * rate, tot * DENOM < q * rate + DENOM))
        led.prove(ex, o.st, 'FEES: fees never exceed the tokens', z3.And(lqd >= 0, ini >= 0, ref >= 0, tot <= q))
        led.prove(ex, o.st, 'FEES: the LQD share is 2/5 of the fee, and at least one basis point of the tokens rounded up', z3.Or(
            z3.And(5 * lqd <= 2 * tot, 5 * lqd > 2 * tot - 5, 10000 * lqd >= q), z3.And(10000 * lqd >= q, 10000 * lqd < q + 10000, 5 * lqd > 2 * tot - 5)))
        led.prove(ex, o.st, 'FEES: the referrer gets half the LQD share or what is left after it, the initializer the rest', z3.And(
            z3.Or(z3.And(2 * ref <= lqd, 2 * ref > lqd - 2), ref == tot - lqd), 2 * ref <= lqd, ref <= tot - lqd, ini == tot - lqd - ref))
        led.cover(ex, o.st, 'pool fee on nonzero tokens', q > 100000)
        led.cover(ex, o.st, 'pool fee on zero tokens', q == 0)
    led.note_engine(ex); led.add_stats(ex)


def fee_fields(ex, st, v):
    r = v if isinstance(v, Rec) else ex.payload(st, v, 'Ok', 0, 'Fees')
    return [ex.get1(st, r, ('f', ex.crate.fidx('Fees', f), 'u64')) for f in ('lqd_fee', 'initializer_fee', 'referrer_fee')]


# ---------------------------------------------------------------- contexts and cross-program calls
def key_name(ex, st, p):
    """the account whose key p points to"""
    for _ in range(4):
        a = key_acc(p)
        if a: return a
        if not isinstance(p, Ptr): break
        p = ex.load(st, p)
    raise Unsupported('key of an unknown account')


KINDS = {'transfer': ('from', 'to', 'auth'), 'mint_to': ('mint', 'to', 'auth'), 'burn': ('from', 'mint', 'auth'), 'approve': ('from', 'delegate', 'auth'), 'revoke': ('from', 'auth')}


def _cpi(kind):
    def f(ex, st, a, c):
        roles = KINDS[kind]
        r = {k: key_name(ex, st, p) for k, p in zip(roles, a[1:])}
        sg = ex.length(st, a[1 + len(roles)])
        if not (isinstance(sg, int) and sg == 0): raise Unsupported('multisignature token instruction')
        r.update(kind=kind, program=words(ex, st, a[0]), amount=a[2 + len(roles)] if len(a) > 2 + len(roles) else 0)
        return ex.ok(Rec('Instruction', None, {'cpi': r}), 'Result<Instruction, ProgramError>')
    return f


class CPI:
    def __init__(s, d, infos, seeds): s.__dict__.update(d); s.infos = infos; s.seeds = seeds; s.roles = {k: d[k] for k in KINDS[d['kind']]}
    def __repr__(s): return 'CPI(%s %s %s)' % (s.kind, s.roles, s.amount)


def _invoke_rec(ex, st, a, c):
    ins = deref(ex, st, a[0])
    if 'cpi' not in ins.f: raise Unsupported('cross-program call')
    d = ins.f['cpi']
    infos = [accname(ex, st, x) for x in ex.load(st, a[1]).items]
    seeds = []
    if len(a) > 2:
        for s in ex.load(st, a[2]).items:
            w = []
            for q in ex.load(st, s).items:
                v = ex.load(st, q) if isinstance(q, Ptr) else q
                w += [v.items[0]] if isinstance(v, Arr) and len(v.items) == 1 else words(ex, st, q)
            seeds.append(w)
    ty = 'Result<(), ProgramError>'
    s2 = st.fork()
    err = (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), ty))
    if not all(d[k] in infos for k in KINDS[d['kind']]): return [err]       # the runtime refuses a call with a missing account
    st.ghost['cpi'] = st.ghost.get('cpi', ()) + (CPI(d, infos, seeds),)
    st.mem[('NCPI',)] = Rec('usize1', None, {'i': st.mem[('NCPI',)].f['i'] + 1, 'n': 2 ** 63})
    return [(st, ex.ok(UNIT, ty)), err]


POOLM = {'instruction::' + k: _cpi(k) for k in KINDS}
POOLM.update({k: _cpi(k) for k in KINDS})
for k in ('program::invoke_signed', 'program::invoke', 'invoke_signed', 'invoke'): POOLM[k] = _invoke_rec


def pm(*ks):
    def d(f):
        for k in ks: POOLM[k] = f
        return f
    return d


def unpack_token(ex, st, a, c):
    """spl_token Pack::unpack: Err unless the data is a well-formed initialized account of that kind; else the fields at their offsets"""
    r = region(ex, st, a[0])
    if r is None:
        v = ex.load(st, a[0])
        if isinstance(v, Ptr): r = region(ex, st, v)
    if r is None or not (isinstance(r.off, int) and r.off == 0): raise Unsupported('unpack of %r' % (a[0],))
    T = ty_head(c.selfty).split('::')[-1]
    n = r.acc
    W = lambda o: Arr('u64', [ex.int_sym('%s.w@%d' % (n, o + 8 * k), 'u64') for k in range(4)])
    pk = lambda o: Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': W(o)})})
    copt = lambda o: Enum('COption<Pubkey>', None, ex.int_sym('%s.opt@%d' % (n, o), 'u8'), {('Some', 0): pk(o + 4)})
    if T in ('Account', 'TokenAccount'): v = Rec('Account', None, {0: pk(0), 1: pk(32), 2: ex.int_sym('%s.w@64' % n, 'u64'), 3: copt(72), 6: ex.int_sym('%s.w@121' % n, 'u64'), 7: copt(129)})
    elif T == 'Mint': v = Rec('Mint', None, {0: copt(0), 1: ex.int_sym('%s.w@36' % n, 'u64'), 4: copt(46)})
    else: raise Unsupported('unpack of ' + T)
    for x in v.f.values():
        if isinstance(x, Enum): ex.assume(st, x.d <= 1)
    s2 = st.fork()
    ty = 'Result<%s, ProgramError>' % T
    st.ghost['unpacked'] = st.ghost.get('unpacked', frozenset()) | {(T, n)}
    return [(st, ex.ok(v, ty)), (s2, ex.err(Enum('ProgramError', None, 3, {}), ty))]


POOLM['<* as Pack>::unpack'] = POOLM['Pack::unpack'] = unpack_token


def pool_engine(crate, auto=None):
    ex = engine(crate); ex.vecs = True
    ex.contracts.update(POOLC)
    ex.models = dict(ex.models); ex.models.update(POOLM); ex.models['Pubkey::new'] = _pknew
    ex.symidx = ex.symidx | {'[AssetInfo]', '[ParamDesc]'}
    if auto is not None:
        ex.counters = True; ex.canon = canon
        install_loops(ex, auto); ex.models = dict(ex.models); ex.models.update(POOLM); ex.models.update(POOLL)
    return ex


POOLL = {}
POOLC = {}


def context(ex, st, some=('user_accounts', 'fee_accounts', 'spl_token_program')):
    """an arbitrary PoolContext; the optional parts named are arbitrary too (present or not)"""
    st.mem[('CTX',)] = Rec('PoolContext', 'ctx', {})
    st.mem[('STATE',)] = Rec('PoolState', 'state', {})
    st.mem[('NCPI',)] = Rec('usize1', None, {'i': 0, 'n': 2 ** 63})
    # precondition, proved for PoolContext::new: the token program handed out is spl-token
    t, has = opt_acc(ex, st, 'spl_token_program', '&AccountInfo', None)
    ex.assume(st, z3.Implies(has, weq(keyw(ex, st, t), TOKEN_ID)))
    return Ptr(('CTX',)), Ptr(('STATE',))


def cf(ex, st, f, S='PoolContext', r=None):
    """field of the context"""
    i = ex.crate.fidx(S, f)
    return ex.get1(st, r if r is not None else st.mem[('CTX',)], ('f', i, norm_ty(ex.crate.src.stypes[S][i])))


def sf(ex, st, f): return cf(ex, st, f, 'PoolState', st.mem[('STATE',)])


def addr(ex, st, v): return words(ex, st, ex.get1(st, v, ('f', 0, 'Pubkey')))


def opt_acc(ex, st, part, S, f):
    """name of the account `f` of an optional part of the context, and whether the part is there"""
    o = cf(ex, st, part)
    p = ex.payload(st, o, 'Some', 0, S)
    if isinstance(p, Ptr): return accname(ex, st, p), o.d == 1
    x = cf(ex, st, f, S, p)
    return accname(ex, st, x), o.d == 1


def names(ex, st):
    d = {}
    for f in ('lqd_fee_account', 'initializer_fee_account', 'referrer_fee_account'): d[f], d['fees?'] = opt_acc(ex, st, 'fee_accounts', 'FeeAccounts', f)
    for f in ('pool_token_account', 'authority'): d[f], d['user?'] = opt_acc(ex, st, 'user_accounts', 'UserAccounts', f)
    d['token'], d['token?'] = opt_acc(ex, st, 'spl_token_program', '&AccountInfo', None)
    for f in ('pool_account', 'pool_token_mint', 'pool_authority'): d[f] = accname(ex, st, cf(ex, st, f))
    return d


def expected_fees(ex, st, q, N):
    """(lqd, initializer, referrer) of get_fees: the split of C24's first part, waived for a fee account paying itself"""
    F = [z3.Function('pool_fee_%s' % k, z3.IntSort(), z3.IntSort(), z3.IntSort())(sf(ex, st, 'fee_rate'), q) for k in ('lqd', 'ini', 'ref')]
    has = z3.And(N['user?'], N['fees?'])
    u = keyw(ex, st, N['pool_token_account'])
    same = [z3.And(has, weq(keyw(ex, st, N[a]), u)) for a in ('lqd_fee_account', 'initializer_fee_account', 'referrer_fee_account')]
    return [z3.If(same[0], 0, F[0]), z3.If(z3.Or(same[0], same[1]), 0, F[1]), z3.If(z3.Or(same[0], same[2]), 0, F[2])], F


def fees_contract(ex, st, a, c):
    """Fees::from_fee_rate_and_tokens as proved: the split, or refusal of the rate"""
    F = [z3.Function('pool_fee_%s' % k, z3.IntSort(), z3.IntSort(), z3.IntSort())(ex.z(a[0]), ex.z(a[1])) for k in ('lqd', 'ini', 'ref')]
    s2 = st.fork()
    ex.assume(st, z3.And([f >= 0 for f in F] + [F[0] + F[1] + F[2] <= a[1], a[0] >= MIN_RATE, a[0] < DENOM]))
    ex.assume(s2, z3.Or(a[0] < MIN_RATE, a[0] >= DENOM))
    f = {ex.crate.fidx('Fees', n): v for n, v in zip(('lqd_fee', 'initializer_fee', 'referrer_fee'), F)}
    out = [(st, ex.ok(Rec('Fees', None, f), 'Result<Fees, ProgramError>'))]
    if ex.feasible(s2, z3.BoolVal(True)): out.append((s2, ex.err(Enum('ProgramError', None, 1, {}), 'Result<Fees, ProgramError>')))
    return out


def get_fees(led, crate):
    ex = pool_engine(crate)
    ex.contracts['Fees::from_fee_rate_and_tokens'] = fees_contract
    st = State(); ctx, state = context(ex, st)
    q = ex.int_sym('tokens', 'u64')
    N = names(ex, st)
    n = 0
    for o in ex.run(the(crate, 'PoolContext', 'get_fees'), [ctx, state, q], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'FEES: get_fees never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        want, F = expected_fees(ex, o.st, q, N)
        for w, g, nm in zip(want, fee_fields(ex, o.st, o.val), ('LQD', 'initializer', 'referrer')):
            led.prove(ex, o.st, 'FEES: the %s fee is the computed share, waived only for the fee account itself' % nm, g == w)
    if not n: raise Unsupported('no successful path of get_fees')
    led.note_engine(ex); led.add_stats(ex)


def get_fees_contract(ex, st, a, c):
    N = names(ex, st)
    out = []
    for s, r in fees_contract(ex, st, [sf(ex, st, 'fee_rate'), a[2]], c):
        if r.d == 0:
            want, F = expected_fees(ex, s, a[2], N)
            r = ex.ok(Rec('Fees', None, {ex.crate.fidx('Fees', n): v for n, v in zip(('lqd_fee', 'initializer_fee', 'referrer_fee'), want)}), 'Result<Fees, ProgramError>')
        out.append((s, r))
    return out


def seeds_of(ex, st, N): return keyw(ex, st, N['pool_account']) + [sf(ex, st, 'vault_signer_nonce')]


def cpis(led, ex, st, what, got, want, N, signed):
    """the recorded calls are exactly the wanted ones (kind, roles, amount), those with amount zero left out"""
    total = {}
    for w in want: total.setdefault((w[0], tuple(w[1])), []).append(w[2])
    for kind, roles in total:
        amt = sum(total[(kind, roles)][1:], total[(kind, roles)][0])
        g = [x.amount for x in got if x.kind == kind and tuple(x.roles[r] for r in KINDS[kind]) == roles]
        led.prove(ex, st, '%s: %s' % (what, {'mint_to': 'mints exactly the shares due', 'transfer': 'transfers exactly the amounts due', 'burn': 'burns exactly the amount redeemed'}[kind]),
                  (sum(g[1:], g[0]) if g else z3.IntVal(0)) == amt)
    led.prove(ex, st, '%s: makes no other token call' % what, all((x.kind, tuple(x.roles[r] for r in KINDS[x.kind])) in total for x in got))
    for x in got:
        led.prove(ex, st, '%s: goes through the SPL token program' % what, weq(x.program, TOKEN_ID))
        led.prove(ex, st, '%s: signs with the pool authority seeds exactly where the pool pays' % what, weq(sum(x.seeds, []), seeds_of(ex, st, N)) if signed(x) and len(x.seeds) == 1 and len(x.seeds[0]) == 5 else bool(x.seeds) == signed(x))


def mint_tokens(led, crate):
    ex = pool_engine(crate)
    ex.contracts['PoolContext::get_fees'] = get_fees_contract
    st = State(); ctx, state = context(ex, st)
    q = ex.int_sym('tokens', 'u64')
    N = names(ex, st); n = 0
    for o in ex.run(the(crate, 'PoolContext', 'mint_tokens'), [ctx, state, q], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'MINT: mint_tokens never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        F, _ = expected_fees(ex, o.st, q, N)
        rest = q - F[0] - F[1] - F[2]
        want = [('mint_to', (N['pool_token_mint'], N[a], N['pool_authority']), v) for a, v in
                (('lqd_fee_account', F[0]), ('initializer_fee_account', F[1]), ('referrer_fee_account', F[2]), ('pool_token_account', rest))]
        got = o.st.ghost.get('cpi', ())
        cpis(led, ex, o.st, 'MINT', got, want, N, lambda x: True)
        led.prove(ex, o.st, 'MINT: creation mints exactly the requested number of pool tokens in total', sum([x.amount for x in got], z3.IntVal(0)) == q)
        led.cover(ex, o.st, 'mint with all fees', z3.And(q > 0, F[0] > 0, F[1] > 0, F[2] > 0))
    if not n: raise Unsupported('no successful path of mint_tokens')
    led.note_engine(ex); led.add_stats(ex)


def burn_tokens(led, crate):
    ex = pool_engine(crate)
    st = State(); ctx, state = context(ex, st)
    q = ex.int_sym('size', 'u64')
    N = names(ex, st); n = 0
    F = [ex.int_sym('fee%d' % i, 'u64') for i in range(3)]
    fee = Rec('Fees', None, {ex.crate.fidx('Fees', f): v for f, v in zip(('lqd_fee', 'initializer_fee', 'referrer_fee'), F)})
    for o in ex.run(the(crate, 'PoolContext', 'burn_tokens_and_collect_fees'), [ctx, q, fee], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'BURN: burn_tokens_and_collect_fees never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        want = [('transfer', (N['pool_token_account'], N[a], N['authority']), v) for a, v in (('lqd_fee_account', F[0]), ('initializer_fee_account', F[1]), ('referrer_fee_account', F[2]))]
        want += [('burn', (N['pool_token_account'], N['pool_token_mint'], N['authority']), q)]
        cpis(led, ex, o.st, 'BURN', o.st.ghost.get('cpi', ()), want, N, lambda x: False)
        led.cover(ex, o.st, 'burn with all fees', z3.And(q > 0, F[0] > 0, F[1] > 0, F[2] > 0))
    if not n: raise Unsupported('no successful path of burn')
    led.note_engine(ex); led.add_stats(ex)


# ---------------------------------------------------------------- loops over the assets
def explore(crate, mk, hook=None):
    """run mk(auto) -> (engine, outcomes) until the loop invariants are stable, then once more with the specification attached"""
    auto = Auto(); auto.eager = lambda fn: False; stable = 0
    for r in range(14):
        auto.round(); mk(auto); auto.end_round()
        stable = 0 if auto.changed else stable + 1
        if stable == 2: break
    else: raise Unsupported('loop invariants did not stabilise')
    auto.final = True; auto.hook = hook
    auto.round(); r = mk(auto); auto.end_round()
    if auto.changed: raise Unsupported('loop invariants did not stabilise')
    return r


def idx(ex, base, i): return '%s[%s]' % (base, canon(ex, i) if is_z3(i) else i)


def basket(ex, st):
    q = ex.zarr('i64', 'basket.q', ex.int_sym('basket.len', 'usize'))
    st.mem[('BASKET',)] = Rec('Basket', None, {ex.crate.fidx('Basket', 'quantities'): q})
    return Ptr(('BASKET',)), q


def transfer(led, crate, to_user):
    fn = the(crate, 'PoolContext', 'transfer_basket_to_user' if to_user else 'transfer_basket_from_user')
    what = 'PAYOUT' if to_user else 'DEPOSIT'
    box = {}

    def mk(auto):
        ex = pool_engine(crate, auto)
        st = State(); ctx, state = context(ex, st)
        b, q = basket(ex, st)
        box['q'] = q; box['N'] = names(ex, st)
        ua = ex.payload(st, cf(ex, st, 'user_accounts'), 'Some', 0, 'UserAccounts')
        box['user'] = ex.load(st, cf(ex, st, 'asset_accounts', 'UserAccounts', ua)); box['vault'] = ex.load(st, cf(ex, st, 'pool_vault_accounts'))
        n = q.n
        ex.assume(st, z3.And(ex.vlen(st, box['user']) == n, ex.vlen(st, box['vault']) == n))
        return ex, ex.run(fn, [ctx, state, b] if to_user else [ctx, b], st)

    def per(ex, st, got, i0):
        """calls made in a segment that begins with i0 calls made"""
        N = box['N']
        for k, x in enumerate(got):
            i = i0 + k
            u, v = idx(ex, box['user'].name, i), idx(ex, box['vault'].name, i)
            led.prove(ex, st, '%s: asset i moves between the user account and the vault at position i' % what, x.kind == 'transfer' and x.roles == ({'from': v, 'to': u, 'auth': N['pool_authority']} if to_user else {'from': u, 'to': v, 'auth': N['authority']}))
            led.prove(ex, st, '%s: moves exactly the basket quantity of that asset' % what, ex.z(x.amount) == z3.Select(box['q'].a, i))
            led.prove(ex, st, '%s: goes through the SPL token program' % what, weq(x.program, TOKEN_ID))
            led.prove(ex, st, '%s: signs with the pool authority seeds exactly where the pool pays' % what, weq(x.seeds[0], seeds_of(ex, st, N)) if to_user and len(x.seeds) == 1 and len(x.seeds[0]) == 5 else (not to_user and not x.seeds))

    def hook(ex, base, st, kind):
        i0 = base[2][('NCPI',)].f['i'] if base else 0
        per(ex, st, st.ghost.get('cpi', ()), i0)
        if kind == 'iter': led.cover(ex, st, '%s of an asset' % what)
    ex, outs = explore(crate, mk, hook)
    n = 0
    for o in outs:
        if o.kind != 'ret': led.prove(ex, o.st, '%s: never panics' % what, False); continue
        if o.val.d != 0: continue
        n += 1
        base = o.st.ghost.get('base')
        per(ex, o.st, o.st.ghost.get('cpi', ()), base[2][('NCPI',)].f['i'] if base else 0)
        led.prove(ex, o.st, '%s: every asset of the basket is moved, once' % what, ex.z(o.st.mem[('NCPI',)].f['i']) == box['q'].n)
        led.cover(ex, o.st, '%s of several assets' % what, box['q'].n == 3)
    if not n: raise Unsupported('no successful path of the basket transfer')
    led.note_engine(ex); led.add_stats(ex)


def transfer_in(led, crate): transfer(led, crate, False)
def transfer_out(led, crate): transfer(led, crate, True)


# ---------------------------------------------------------------- vectors made by map(..).collect(): element i is the closure's value on element i
class MapVec:
    def __init__(s, src, f, n, wrap, vid, ety): s.src = src; s.f = f; s.n = n; s.wrap = wrap; s.vid = vid; s.ety = ety
    def __repr__(s): return 'MapVec(%s)' % (s.vid,)
    def vlen(s, ex, st): return s.n

    def get1(s, ex, st, v, p):
        if p[0] == 's' and isinstance(p[1], int) and p[1] == 0: return v
        if p[0] != 'i': raise Unsupported('projection %r of a mapped vector' % (p,))
        i = canon(ex, p[1]) if is_z3(p[1]) else p[1]
        nm = '%s[%s]' % (s.vid, i)
        done = st.ghost.get('mapvec', {})
        if nm in done: return done[nm]
        val = ex.fresh(s.ety, nm)
        alts = []
        s0 = st.fork(); n0 = len(s0.pc)
        for o in ex.call_value(s0, s.f, [item(ex, s0, s.src, p[1])]):
            if o.kind != 'ret': continue
            r = o.val
            if s.wrap:
                ok = {'Result': 'Ok', 'Option': 'Some'}[s.wrap]
                for s2, nmv in ex.split(o.st, r):
                    if nmv == ok: alts.append((s2, ex.payload(s2, r, ok, 0)))
            else: alts.append((o.st, r))
        ds = []
        for s2, x in alts:
            e = same(ex, s2, val, x)
            ds.append(z3.And([z3.BoolVal(True)] + s2.pc[n0:] + [ex.b(e)]))
        ex.assume(st, z3.Or(ds) if ds else z3.BoolVal(False))
        st.ghost['mapvec'] = dict(done, **{nm: val})
        return val


def same(ex, st, val, x):
    if isinstance(val, Rec) and not ty_head(val.ty) == 'Pubkey':
        return conj([same(ex, st, ex.get1(st, val, ('f', i, t)), ex.get1(st, x, ('f', i, t))) for i, t in enumerate(ex.crate.src.stypes[ty_head(val.ty)])] if ty_head(val.ty) in ex.crate.src.stypes
                    else [same(ex, st, ex.get1(st, val, ('f', 0, 'Pubkey')), ex.get1(st, x, ('f', 0, 'Pubkey')))])
    return veq(ex, st, val, x)


def item(ex, st, it, i):
    """element i of an iterator at its start"""
    if it.ty == 'Cloned': return ex.load(st, item(ex, st, it.f['in'], i))
    if it.ty == 'SliceIter':
        p = it.f['p']
        return Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),)) if p.path and p.path[-1][0] == 's' else Ptr(p.cell, p.path + (('i', i),))
    raise Unsupported('element of %r' % (it,))


def _collect_map(ex, st, a, c):
    v = a[0]
    src = v.f['in'] if isinstance(v, Rec) and v.ty == 'Map' else None
    if isinstance(src, Rec) and src.ty == 'Cloned': src = src.f['in']
    if not (isinstance(src, Rec) and src.ty == 'SliceIter' and 'p' in src.f and isinstance(src.f['i'], int) and src.f['i'] == 0):
        return loops._collect(ex, st, a, c)
    to = c.gen[0] if c.gen else ''
    wrap = ty_head(to) if ty_head(to) in ('Result', 'Option') else None
    vec = ty_args(to)[0] if wrap else to
    ety = ty_args(vec)[0] if ty_head(vec) == 'Vec' else None
    if ety is None or ety == '_':
        dt = ex.dest_ty or ''
        vec = ty_args(dt)[0] if wrap else dt
        ety = ty_args(vec)[0]
    fp = Ptr(ex.alloc(st, v.f['f'], 'MF'))
    x = Opq('vec', MapVec(v.f['in'], fp, src.f['n'], wrap, ex.gensym('mv'), ety))
    if wrap is None: return x
    s2 = st.fork()
    if wrap == 'Option': return [(st, ex.some(x, vec)), (s2, ex.none(vec))]
    return [(st, ex.ok(x, 'Result<%s, ProgramError>' % vec)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), 'Result<%s, ProgramError>' % vec))]


POOLL['<* as Iterator>::collect'] = _collect_map


def _into(ex, st, a, c):
    v = a[0]
    if isinstance(v, Opq) and isinstance(v.v, MapVec):
        return Rec('Cloned', None, {'in': Rec('SliceIter', None, {'p': Ptr(ex.alloc(st, v)), 'i': 0, 'n': v.v.n})})
    return loops._ii(ex, st, a, c)


POOLL['<* as IntoIterator>::into_iter'] = _into


def simple_basket(led, crate):
    fn = the(crate, 'PoolContext', 'get_simple_basket')
    def mk(auto):
        ex = pool_engine(crate, auto)
        st = State(); ctx, state = context(ex, st)
        return ex, ex.run(fn, [ctx, ex.int_sym('tokens', 'u64'), z3.Bool('req.round_up')], st)
    ex, outs = explore(crate, mk)
    q, up = z3.Int('tokens'), z3.Bool('req.round_up')
    n = 0
    for o in outs:
        if o.kind != 'ret': led.prove(ex, o.st, 'BASKET: never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        st = o.st
        vault = ex.load(st, cf(ex, st, 'pool_vault_accounts'))
        b = ex.payload(st, o.val, 'Ok', 0, 'Basket')
        v = ex.get1(st, b, ('f', ex.crate.fidx('Basket', 'quantities'), 'Vec<i64>'))
        nv = ex.vlen(st, vault)
        led.prove(ex, st, 'BASKET: has one quantity per asset vault', ex.vlen(st, v) == nv)
        ex.assume(st, z3.And(ANYK >= 0, ANYK < nv))
        got = ex.get1(st, v, ('i', ANYK))
        held = ex.int_sym('%s.w@64' % idx(ex, vault.name, ANYK), 'u64')
        supply = ex.int_sym('%s.w@36' % accname(ex, st, cf(ex, st, 'pool_token_mint')), 'u64')
        led.prove(ex, st, 'BASKET: is refused while no pool token exists', supply > 0)
        led.prove(ex, st, 'BASKET: a creation pays at least the pro-rata share of each asset, by less than one unit', z3.Implies(up, z3.And(got * supply >= held * q, got * supply < held * q + supply)))
        led.prove(ex, st, 'BASKET: a redemption receives at most the pro-rata share of each asset, by less than one unit', z3.Implies(z3.Not(up), z3.And(got * supply <= held * q, got * supply > held * q - supply)))
        led.prove(ex, st, 'BASKET: quantities are not negative', got >= 0)
        led.cover(ex, st, 'basket with rounding up', z3.And(up, got > 1)); led.cover(ex, st, 'basket with rounding down', z3.And(z3.Not(up), got > 1))
    if not n: raise Unsupported('no successful path of get_simple_basket')
    led.note_engine(ex); led.add_stats(ex)


# ---------------------------------------------------------------- creation and redemption
def ev(name, ret=None, eff=None):
    """a callee by its contract: recorded; may fail; on success yields `ret`"""
    def f(ex, st, a, c):
        s2 = st.fork()
        st.ghost['ev'] = st.ghost.get('ev', ()) + ((name, tuple(a)),)
        if eff: eff(ex, st, a)
        v = ret(ex, st, a) if ret else UNIT
        return [(st, ex.ok(v, 'Result<?, ProgramError>')), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), 'Result<?, ProgramError>'))]
    return f


def some_basket(ex, st, a):
    return Rec('Basket', None, {ex.crate.fidx('Basket', 'quantities'): ex.zarr('i64', ex.gensym('bk'), ex.int_sym(ex.gensym('bklen'), 'usize'))})


def same_basket(ex, st, p, v):
    x = deref(ex, st, p)
    q = ex.crate.fidx('Basket', 'quantities')
    return isinstance(x, Rec) and isinstance(x.f.get(q), ZArr) and isinstance(v.f[q], ZArr) and x.f[q].a.eq(v.f[q].a)


def processes(led, crate):
    for fn, red in (('process_creation', False), ('process_redemption', True)):
        ex = pool_engine(crate); C = ex.contracts
        made = {}
        def bk(ex, st, a):
            b = some_basket(ex, st, a); st.ghost['basket'] = b
            return b
        C['<* as Pool>::get_creation_basket'] = ev('creation_basket', bk); C['<* as Pool>::get_redemption_basket'] = ev('redemption_basket', bk)
        C['PoolContext::transfer_basket_from_user'] = ev('deposit'); C['PoolContext::transfer_basket_to_user'] = ev('payout')
        C['PoolContext::mint_tokens'] = ev('mint'); C['PoolContext::burn_tokens_and_collect_fees'] = ev('burn')
        C['PoolContext::get_fees'] = get_fees_contract
        st = State(); ctx, state = context(ex, st)
        q = ex.int_sym('tokens', 'u64'); N = names(ex, st); n = 0
        what = 'REDEEM' if red else 'CREATE'
        for o in ex.run(the(crate, 'Pool', fn), [ctx, state, q], st):
            if o.kind != 'ret': led.prove(ex, o.st, '%s: never panics' % what, False); continue
            if o.val.d != 0: continue
            n += 1
            st = o.st; E = list(st.ghost.get('ev', ())); b = st.ghost.get('basket')
            F, _ = expected_fees(ex, st, q, N); net = q - F[0] - F[1] - F[2]
            kinds = [e[0] for e in E]
            if not red:
                led.prove(ex, st, 'CREATE: deposits the creation basket and mints the tokens, each once', sorted(kinds) == ['creation_basket', 'deposit', 'mint'])
                if sorted(kinds) != ['creation_basket', 'deposit', 'mint']: continue
                d = dict(E)
                led.prove(ex, st, 'CREATE: the basket is priced before anything is minted', kinds[0] == 'creation_basket')
                led.prove(ex, st, 'CREATE: the basket is that of the full creation size', ex.z(d['creation_basket'][2]) == q)
                led.prove(ex, st, 'CREATE: the deposit is that basket', same_basket(ex, st, d['deposit'][1], b))
                led.prove(ex, st, 'CREATE: mints the full creation size', ex.z(d['mint'][2]) == q)
            else:
                ks = ['burn', 'payout', 'redemption_basket']
                led.prove(ex, st, 'REDEEM: burns the tokens and pays the redemption basket, each once', sorted(kinds) == ks)
                if sorted(kinds) != ks: continue
                d = dict(E)
                led.prove(ex, st, 'REDEEM: the basket is priced before anything is burned', kinds[0] == 'redemption_basket')
                led.prove(ex, st, 'REDEEM: the basket is that of the size net of fees', ex.z(d['redemption_basket'][2]) == net)
                led.prove(ex, st, 'REDEEM: the payout is that basket', same_basket(ex, st, d['payout'][2], b))
                led.prove(ex, st, 'REDEEM: burns the size net of fees', ex.z(d['burn'][1]) == net)
                g = fee_fields(ex, st, d['burn'][2])
                led.prove(ex, st, 'REDEEM: collects the fees of the full size', z3.And([x == y for x, y in zip(g, F)]))
            led.cover(ex, st, what, q > 0)
        if not n: raise Unsupported('no successful path of ' + fn)
        led.note_engine(ex); led.add_stats(ex)
    for fn, up in (('get_creation_basket', True), ('get_redemption_basket', False)):
        ex = pool_engine(crate)
        ex.contracts['PoolContext::get_simple_basket'] = ev('simple', some_basket)
        st = State(); ctx, state = context(ex, st); q = ex.int_sym('tokens', 'u64'); n = 0
        for o in ex.run(the(crate, 'Pool', fn), [ctx, state, q], st):
            if o.kind != 'ret' or o.val.d != 0: continue
            n += 1
            E = o.st.ghost.get('ev', ())
            led.prove(ex, o.st, 'BASKET: the default %s is the pro-rata basket rounded %s' % ('creation basket' if up else 'redemption basket', 'up' if up else 'down'),
                      z3.And(ex.z(E[0][1][1]) == q, ex.b(E[0][1][2]) == up) if len(E) == 1 else False)
        if not n: raise Unsupported('no successful path of ' + fn)
        led.note_engine(ex)
    for fn in ('get_swap_basket', 'process_swap'):
        ex = pool_engine(crate); st = State(); ctx, state = context(ex, st)
        st.mem[('RQ',)] = ex.zarr('u64', 'req.swap', ex.int_sym('req.swaplen', 'usize'))
        for o in ex.run(the(crate, 'Pool', fn), [ctx, state, Ptr(('RQ',))], st):
            led.prove(ex, o.st, 'SWAP: swaps are refused unless the pool implements them', o.kind != 'ret' or o.val.d == 1)
        led.note_engine(ex)


# ---------------------------------------------------------------- PoolContext::new
@pm('next_account_info', 'account_info::next_account_info')
def _nai(ex, st, a, c):
    """solana_program::account_info::next_account_info"""
    p = a[0]
    while isinstance(ex.load(st, p), Ptr): p = ex.load(st, p)
    out = []
    ty = 'Result<&AccountInfo, ProgramError>'
    for s, o in (nxt(ex, st, p) if ex.auto is not None else acct_next(ex, st, p)):
        out.append((s, ex.err(ex.mk('ProgramError', 'NotEnoughAccountKeys'), ty) if o.d == 0 else ex.ok(o.f[('Some', 0)], ty)))
    return out


def acct_next(ex, st, p):
    from acct import _next
    return _next(ex, st, [p], None)


@pm('Iter::as_slice', '<Iter as AsRef>::as_ref')
def _assl(ex, st, a, c):
    v = ex.load(st, a[0])
    return sub(ex, v.f['p'], v.f['i'], v.f['n'] - v.f['i'])


@pm('<* as Sysvar>::from_account_info', 'Rent::from_account_info')
def _rentacc(ex, st, a, c):
    s2 = st.fork(); ty = 'Result<Rent, ProgramError>'
    return [(st, ex.ok(Rec('Rent', 'sysvar.Rent', {}), ty)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), ty))]


@pm('AccountInfo::try_data_len')
def _tdl(ex, st, a, c): return ex.ok(data_len(ex, accname(ex, st, a[0])), 'Result<usize, ProgramError>')


@pm('AccountInfo::try_lamports')
def _tlam(ex, st, a, c): return ex.ok(ex.int_sym(accname(ex, st, a[0]) + '.lamports0', 'u64'), 'Result<u64, ProgramError>')


@pm('COption::is_some')
def _cois(ex, st, a, c): return deref(ex, st, a[0]).d == 1


@pm('COption::is_none')
def _coin(ex, st, a, c): return deref(ex, st, a[0]).d == 0


@pm('COption::as_ref')
def _coar(ex, st, a, c):
    v = deref(ex, st, a[0])
    return Enum('COption<&Pubkey>', None, v.d, {('Some', 0): Ptr(ex.alloc(st, ex.payload(st, v, 'Some', 0, 'Pubkey')))})


KIND = ('Initialize', 'GetBasket', 'Execute')


def request(ex, kind):
    v = ex.crate.variants('PoolRequestInner')
    d = [x for x in v if x[0] == kind][0][1]
    T = 'InitializePoolRequest' if kind == 'Initialize' else 'PoolAction'
    return Enum('PoolRequestInner', None, d, {(kind, 0): ex.fresh(T, 'req')})


class V:
    """the accounts of an instruction by position"""
    def __init__(s, led, ex, st, what): s.led, s.ex, s.st, s.what = led, ex, st, what
    def a(s, i): return idx(s.ex, 'accs', i) if is_z3(i) else 'accs[%d]' % i
    def key(s, i): return keyw(s.ex, s.st, s.a(i))
    def owner(s, i):
        c = ('S', s.a(i) + '.owner'); s.ex.celltypes.setdefault(c, 'Pubkey')
        return words(s.ex, s.st, s.ex.cell(s.st, c))
    def w(s, i, o): return [s.ex.int_sym('%s.w@%d' % (s.a(i), o + 8 * k), 'u64') for k in range(4)]
    def opt(s, i, o, val): return z3.And(s.ex.int_sym('%s.opt@%d' % (s.a(i), o), 'u8') == 1, weq(s.w(i, o + 4), val))
    def ob(s, name, g): s.led.prove(s.ex, s.st, '%s: %s' % (s.what, name), s.ex.b(g) if not is_z3(g) else g)
    def token(s, i, mint, who, auth=None):
        s.ob('%s is an SPL token account of the right mint' % who, z3.And(weq(s.owner(i), TOKEN_ID), weq(s.w(i, 0), mint)))
        if auth is not None: s.ob('%s is controlled by the right authority' % who, z3.Or(weq(s.w(i, 32), auth), s.opt(i, 72, auth)))


def st_addr(ex, st, f): return addr(ex, st, sf(ex, st, f))


def asset(ex, st, k, f):
    a = sf(ex, st, 'assets')
    e = ex.get1(st, a, ('i', k))
    return addr(ex, st, cf(ex, st, f, 'AssetInfo', e))


def new_context(led, crate, kind):
    fns = [f for f in crate.find('PoolContext', 'new') if f.kind == 'fn']
    if len(fns) != 1: raise Unsupported('PoolContext::new')

    def mk(auto):
        ex = pool_engine(crate, auto)
        st = State(); ctx, state = context(ex, st)
        n = ex.int_sym('naccs', 'usize')
        st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
        ex.celltypes[('S', 'prog')] = 'Pubkey'
        st.mem[('REQ',)] = request(ex, kind)
        return ex, ex.run(fns[0], [Ptr(('S', 'prog')), Ptr(('ACCS',)), state, Ptr(('REQ',))], st)
    ex, outs = explore(crate, mk)
    n = 0
    for o in outs:
        if o.kind != 'ret': led.prove(ex, o.st, 'ACCOUNTS: PoolContext::new never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        accounts_ok(led, ex, o.st, kind)
        handed(led, ex, o.st, kind, ex.payload(o.st, o.val, 'Ok', 0, 'PoolContext'))
        led.cover(ex, o.st, 'context of %s' % kind)
        led.cover(ex, o.st, 'context of %s with assets' % kind, z3.Int('state.assets.len') == 2)
    if not n: raise Unsupported('no successful path of PoolContext::new')
    led.note_engine(ex); led.add_stats(ex)


def layout(ex, st, kind):
    N = ex.vlen(st, sf(ex, st, 'assets')); P = ex.vlen(st, sf(ex, st, 'account_params'))
    pos = {'pool_account': 0, 'pool_token_mint': 1, 'vaults': 2, 'pool_authority': 2 + N}
    if kind == 'GetBasket': pos.update(retbuf=3 + N, retprog=4 + N, params=5 + N)
    if kind == 'Execute': pos.update(user_pool_token=3 + N, user_assets=4 + N, authority=4 + 2 * N, lqd=5 + 2 * N, ini=6 + 2 * N, ref=7 + 2 * N, token=8 + 2 * N, params=9 + 2 * N)
    if kind == 'Initialize': pos.update(lqd=3 + N, ini=4 + N, rent=5 + N)
    return N, P, pos


def accounts_ok(led, ex, st, kind):
    N, P, pos = layout(ex, st, kind)
    v = V(led, ex, st, 'ACCOUNTS: ' + kind)
    mint, signer = st_addr(ex, st, 'pool_token_mint'), st_addr(ex, st, 'vault_signer')
    v.ob('takes the pool token mint recorded in the pool', weq(v.key(1), mint))
    v.ob('takes a mint whose only minter is the pool authority', z3.And(weq(v.owner(1), TOKEN_ID), v.opt(1, 0, signer)))
    v.ob('takes the pool authority recorded in the pool', weq(v.key(pos['pool_authority']), signer))
    # an arbitrary asset
    s2 = st.fork(); ex.assume(s2, z3.And(ANYK >= 0, ANYK < N))
    w = V(led, ex, s2, v.what)
    w.ob('takes for every asset the vault recorded in the pool', weq(w.key(2 + ANYK), asset(ex, s2, ANYK, 'vault_address')))
    w.token(2 + ANYK, asset(ex, s2, ANYK, 'mint'), 'every vault', signer)
    if kind == 'Execute':
        w.token(pos['user_assets'] + ANYK, asset(ex, s2, ANYK, 'mint'), 'every user asset account')
        v.token(pos['user_pool_token'], mint, 'the user pool token account')
        v.ob('calls the SPL token program only', weq(v.key(pos['token']), TOKEN_ID))
    if kind == 'GetBasket': v.ob('the return buffer is owned by the return-buffer program', weq(v.owner(pos['retbuf']), v.key(pos['retprog'])))
    if 'lqd' in pos:
        v.ob('pays LQD fees to the vault recorded in the pool', weq(v.key(pos['lqd']), st_addr(ex, st, 'lqd_fee_vault')))
        v.ob('pays initializer fees to the vault recorded in the pool', weq(v.key(pos['ini']), st_addr(ex, st, 'initializer_fee_vault')))
        v.token(pos['lqd'], mint, 'the LQD fee account', FEE_OWNER)
        v.token(pos['ini'], mint, 'the initializer fee account')
        if 'ref' in pos: v.token(pos['ref'], mint, 'the referrer fee account')
    if 'params' in pos:
        s2 = st.fork(); ex.assume(s2, z3.And(ANYK >= 0, ANYK < P))
        w = V(led, ex, s2, v.what)
        e = ex.get1(s2, sf(ex, s2, 'account_params'), ('i', ANYK))
        w.ob('takes the additional accounts recorded in the pool, in order', weq(w.key(pos['params'] + ANYK), addr(ex, s2, cf(ex, s2, 'address', 'ParamDesc', e))))
    if 'rent' in pos: v.ob('takes the rent sysvar', weq(v.key(pos['rent']), RENT_ID))


def handed(led, ex, st, kind, c):
    """the context hands out the accounts that were checked"""
    N, P, pos = layout(ex, st, kind)
    v = V(led, ex, st, 'ACCOUNTS: ' + kind)
    g = lambda f, S='PoolContext', r=None: ex.get1(st, r or c, ('f', ex.crate.fidx(S, f), '?'))
    def acc(p): return accname(ex, st, p)
    def sl(p, a, n):
        return p.cell == ('ACCS',) and len(p.path) == 1 and p.path[0][0] == 's' and ex.must(st, z3.And(ex.z(p.path[0][1]) == a, ex.z(p.path[0][2]) == n))
    good = [acc(g(f)) == v.a(pos[f]) for f in ('pool_account', 'pool_token_mint', 'pool_authority')] + [sl(g('pool_vault_accounts'), 2, N)]
    if kind == 'Execute':
        u = ex.payload(st, g('user_accounts'), 'Some', 0, 'UserAccounts')
        good += [acc(g('pool_token_account', 'UserAccounts', u)) == v.a(pos['user_pool_token']), sl(g('asset_accounts', 'UserAccounts', u), pos['user_assets'], N), acc(g('authority', 'UserAccounts', u)) == v.a(pos['authority'])]
        f = ex.payload(st, g('fee_accounts'), 'Some', 0, 'FeeAccounts')
        good += [acc(g(n, 'FeeAccounts', f)) == v.a(pos[p]) for n, p in (('lqd_fee_account', 'lqd'), ('initializer_fee_account', 'ini'), ('referrer_fee_account', 'ref'))]
        good += [acc(ex.payload(st, g('spl_token_program'), 'Some', 0, '&AccountInfo')) == v.a(pos['token'])]
    if kind == 'GetBasket':
        r = ex.payload(st, g('retbuf'), 'Some', 0, 'RetbufAccounts')
        good += [acc(g('account', 'RetbufAccounts', r)) == v.a(pos['retbuf']), acc(g('program', 'RetbufAccounts', r)) == v.a(pos['retprog'])]
    if 'params' in pos: good += [sl(ex.payload(st, g('account_params'), 'Some', 0, '&[AccountInfo]'), pos['params'], P)]
    v.ob('hands out exactly the accounts that were checked', all(good))


def ctx_execute(led, crate): new_context(led, crate, 'Execute')
def ctx_basket(led, crate): new_context(led, crate, 'GetBasket')
def ctx_init(led, crate): new_context(led, crate, 'Initialize')


# ---------------------------------------------------------------- PoolProcessor
def untouched(v, name, ex=None):
    """v is the whole value `name`: every field looked at so far is still the original one"""
    if not (isinstance(v, Rec) and v.name == name): return False
    for k, x in v.f.items():
        if ex is None or not isinstance(k, int): return False
        S = ty_head(v.ty).split('::')[-1]
        fs = [f for f in ex.crate.structs.get(S, [])]
        if k >= len(fs): return False
        want = '%s.%s' % (name, fs[k])
        if is_z3(x):
            if not (z3.is_const(x) and str(x) == want): return False
        elif isinstance(x, ZArr):
            if str(x.a) != want: return False
        elif isinstance(x, Rec):
            if not untouched(x, want, ex): return False
        else: return False
    return True


def processor(ex, st, kind, N=None):
    n = ex.int_sym('naccs', 'usize')
    st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
    st.mem[('NCPI',)] = Rec('usize1', None, {'i': 0, 'n': 2 ** 63})
    ex.celltypes[('S', 'prog')] = 'Pubkey'
    F = lambda f: ex.crate.fidx('PoolProcessor', f)
    st.mem[('PP',)] = Rec('PoolProcessor', None, {F('program_id'): Ptr(('S', 'prog')), F('accounts'): Ptr(('ACCS',)), F('request'): request(ex, kind)})
    return Ptr(('PP',))


REQ = lambda ex: Ptr(('PP',), (('f', ex.crate.fidx('PoolProcessor', 'request'), 'PoolRequestInner'),))


def res(ex, st, v, ty, err=None):
    s2 = st.fork()
    return [(st, ex.ok(v, 'Result<%s, ProgramError>' % ty)), (s2, ex.err(err or ex.fresh('ProgramError', ex.gensym('perr')), 'Result<%s, ProgramError>' % ty))]


@pm('<* as Iterator>::all', '<* as Iterator>::any')
def _all(ex, st, a, c):
    """whether all bytes of an account are zero: all(== 0), or not any(!= 0)"""
    neg = c.method == 'any'
    it = deref(ex, st, a[0])
    r = it.v if isinstance(it, Opq) and isinstance(it.v, Region) else region(ex, st, it.f['p']) if isinstance(it, Rec) and isinstance(it.f.get('p'), Ptr) else None
    if r is None or not (isinstance(r.off, int) and r.off == 0): raise Unsupported('all over %r' % (it,))
    b = ex.int_sym(ex.gensym('byte'), 'u8')
    s0 = st.fork()
    for o in ex.call_value(s0, a[1], [Ptr(ex.alloc(s0, b))]):
        s, v = o.st, o.val
        if not ex.must(s, ex.b(v) == ((b != 0) if neg else (b == 0))): raise Unsupported('predicate over account bytes')
    z = z3.Bool('%s.allzero' % r.acc)
    return z3.Not(z) if neg else z


def _deser(ex, st, a, c):
    """borsh: an arbitrary value determined by the bytes, or an error"""
    v = a[0]
    while True:
        r = region(ex, st, v)
        if r is not None: break
        v = ex.load(st, v)
    if not (isinstance(r.off, int) and r.off == 0): raise Unsupported('deserialisation at an offset')
    T = ty_head(c.selfty).split('::')[-1]
    return res(ex, st, ex.fresh(T, 'borsh(%s)' % r.acc), T, Rec('io::Error', ex.gensym('ioerr'), {}))


POOLC['<* as BorshDeserialize>::deserialize'] = POOLC['<* as BorshDeserialize>::try_from_slice'] = _deser


def _ser(ex, st, a, c):
    """borsh: appends the encoding of the value (an injective function of it), or fails"""
    v = deref(ex, st, a[0])
    while isinstance(v, Ptr): v = ex.load(st, v)
    t = a[1]
    for _ in range(3):
        if isinstance(t, Ptr) and region(ex, st, t) is None and isinstance(ex.load(st, t), Ptr): t = ex.load(st, t)
    x = ex.load(st, t) if region(ex, st, t) is None else None
    if isinstance(x, Opq) and x.ty == 'bytevec':
        ex.store(st, t, Opq('bytevec', x.v + (('borsh', v),)))
    else:
        r = region(ex, st, t)
        if r is None: raise Unsupported('serialisation into %r' % (x,))
        st.ghost['ev'] = st.ghost.get('ev', ()) + (('written', (r, v)),)
    return res(ex, st, UNIT, '()', Rec('io::Error', ex.gensym('ioerr'), {}))


POOLC['<* as BorshSerialize>::serialize'] = _ser


@pm('Vec::with_capacity', 'Vec::new')
def _vwc(ex, st, a, c):
    t = ex.dest_ty or ''
    if norm_ty(t) in ('Vec<u8>', 'std::vec::Vec<u8>'): return Opq('bytevec', ())
    return Rec(t, None, {'len': 0})


@pm('Vec::extend_from_slice')
def _efs(ex, st, a, c):
    x = ex.load(st, a[0])
    if not (isinstance(x, Opq) and x.ty == 'bytevec'): raise Unsupported('extend_from_slice')
    v = deref(ex, st, a[1])
    if isinstance(v, Arr): ch = ('bytes', tuple(v.items))
    else: raise Unsupported('extend_from_slice of %r' % (v,))
    ex.store(st, a[0], Opq('bytevec', x.v + (ch,)))
    return UNIT


@pm('<* as Default>::default')
def _dflt(ex, st, a, c):
    if c.selfty in INTS or c.selfty in ('bool', 'Pubkey') or ty_head(c.selfty) == 'Option': return models.M['<* as Default>::default'](ex, st, a, c)
    return Rec(c.selfty, 'default(%s)' % c.selfty, {})


def get_state(led, crate):
    ex = pool_engine(crate)
    st = State(); n = 0
    pp = processor(ex, st, 'Execute')
    c = ('S', 'accs[0].owner'); ex.celltypes.setdefault(c, 'Pubkey')
    for o in ex.run(the(crate, 'PoolProcessor', 'get_state'), [pp], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'STATE: get_state never panics', False); continue
        if o.val.d != 0: continue
        st = o.st; v = ex.payload(st, o.val, 'Ok', 0, 'Option<PoolState>')
        n += 1
        own = weq(words(ex, st, ex.cell(st, c)), words(ex, st, Ptr(('S', 'prog'))))
        led.prove(ex, st, 'STATE: the pool is read only from an account owned by the pool program', own)
        if v.d == 0:
            led.prove(ex, st, 'STATE: a pool counts as uninitialized exactly when its account is all zero', z3.Bool('accs[0].allzero'))
            led.cover(ex, st, 'uninitialized')
        else:
            led.prove(ex, st, 'STATE: a pool counts as uninitialized exactly when its account is all zero', z3.Not(z3.Bool('accs[0].allzero')))
            led.prove(ex, st, 'STATE: the pool state is the one stored in the pool account', untouched(ex.payload(st, v, 'Some', 0, 'PoolState'), 'borsh(accs[0])', ex))
            led.cover(ex, st, 'initialized')
    if not n: raise Unsupported('no successful path of get_state')
    led.note_engine(ex); led.add_stats(ex)
    ex = pool_engine(crate); st = State(); n = 0
    pp = processor(ex, st, 'Execute'); st.mem[('STATE',)] = Rec('PoolState', 'state', {})
    for o in ex.run(the(crate, 'PoolProcessor', 'save_state'), [pp, Ptr(('STATE',))], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'STATE: save_state never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        E = o.st.ghost.get('ev', ())
        led.prove(ex, o.st, 'STATE: saving writes exactly the given state at the start of the pool account',
                  len(E) == 1 and E[0][0] == 'written' and E[0][1][0].acc == 'accs[0]' and E[0][1][0].off == 0 and untouched(E[0][1][1], 'state', ex))
    if not n: raise Unsupported('no successful path of save_state')
    led.note_engine(ex); led.add_stats(ex)


def plain(name, ty='()', val=None):
    def f(ex, st, a, c):
        s2 = st.fork()
        st.ghost['ev'] = st.ghost.get('ev', ()) + ((name, tuple(deref(ex, st, x) if isinstance(x, Ptr) and (name != 'ctx' or i == 2) else x for i, x in enumerate(a))),)
        v = UNIT if val is None else val(ex, st, a)
        return [(st, ex.ok(v, 'Result<%s, ProgramError>' % ty)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), 'Result<%s, ProgramError>' % ty))]
    return f


def dispatch(led, crate):
    fn = the(crate, 'PoolProcessor', 'process_instruction')
    for kind in KIND:
        ex = pool_engine(crate); C = ex.contracts
        def gs(ex, st, a, c):
            s2, s3 = st.fork(), st.fork()
            st.ghost['was'] = 'none'; s2.ghost['was'] = 'some'
            T = 'Result<Option<PoolState>, ProgramError>'
            return [(st, ex.ok(ex.none('PoolState'), T)), (s2, ex.ok(ex.some(Rec('PoolState', 'pst', {}), 'PoolState'), T)), (s3, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), T))]
        def newc(ex, st, a):
            return Rec('PoolContext', 'ctx', {})
        def act(name):
            g = plain(name)
            def f(ex, st, a, c):
                o = g(ex, st, a, c)
                ex.store(o[0][0], a[1], Rec('PoolState', 'pst2', {}))
                return o
            return f
        C['PoolProcessor::get_state'] = gs
        C['PoolProcessor::save_state'] = plain('save'); C['PoolProcessor::initialize_pool'] = plain('init')
        C['PoolContext::new'] = plain('ctx', 'PoolContext', newc)
        C['RetbufAccounts::write_data'] = plain('retbuf')
        for a in ('creation', 'redemption', 'swap'):
            C['<* as Pool>::process_' + a] = act('process_' + a)
            C['<* as Pool>::get_%s_basket' % a] = plain('get_%s_basket' % a, 'Basket', lambda ex, st, a: Rec('Basket', 'bk', {}))
        st = State(); pp = processor(ex, st, kind); n = 0
        seen = set()
        for o in ex.run(fn, [pp], st):
            if o.kind != 'ret': led.prove(ex, o.st, 'DISPATCH: never panics', False); continue
            if o.val.d != 0: continue
            st = o.st; E = list(st.ghost.get('ev', ())); K = [e[0] for e in E]; n += 1
            ob = lambda name, g: led.prove(ex, st, 'DISPATCH: %s: %s' % (kind, name), g)
            was = st.ghost.get('was')
            ob('only an uninitialized pool can be initialized; only an initialized one can be used', was == ('none' if kind == 'Initialize' else 'some'))
            if kind == 'Initialize':
                ob('initializes the pool once, with the request', K == ['init'] and untouched(E[0][1][1], 'req', ex))
                led.cover(ex, st, 'initialize'); continue
            A = ex.payload(st, st.mem[('PP',)].f[ex.crate.fidx('PoolProcessor', 'request')], kind, 0, 'PoolAction')
            vs = {d: x for x, d in [(v[0], v[1]) for v in ex.crate.variants('PoolAction')]}
            which = [x for d, x in vs.items() if ex.must(st, ex.z(ex.get1(st, A, ('d',)) if not isinstance(A, Enum) else A.d) == d)]
            if len(which) != 1: raise Unsupported('action not decided')
            w = {'Create': 'creation', 'Redeem': 'redemption', 'Swap': 'swap'}[which[0]]; seen.add(w)
            want = ['ctx', 'process_' + w, 'save'] if kind == 'Execute' else ['ctx', 'get_%s_basket' % w, 'retbuf']
            ob('a %s is checked, carried out once and recorded' % w if kind == 'Execute' else 'the basket of a %s is computed once and returned' % w, K == want)
            if K != want: continue
            ca = E[0][1]
            ob('accounts are checked against the stored state and this request',
               isinstance(ca[0], Ptr) and ca[0].cell == ('S', 'prog') and isinstance(ca[1], Ptr) and ca[1].cell == ('ACCS',) and not ca[1].path
               and ca[3] == REQ(ex) and untouched(ca[2], 'pst', ex))
            x = E[1][1]
            amt = ex.payload(st, A, which[0], 0, 'u64' if w != 'swap' else 'Vec<u64>')
            ob('the %s uses the checked accounts, the stored state and the requested amount' % w,
               (isinstance(x[0], Rec) and x[0].name == 'ctx' and untouched(x[1], 'pst', ex)) and (ex.z(x[2]) == amt if w != 'swap' else same_vec(x[2], amt)))
            if kind == 'Execute': ob('the state left by the %s is stored' % w, untouched(E[2][1][1], 'pst2', ex))
            else:
                d = E[2][1][1]
                ob('the basket returned is the one computed', isinstance(d, Opq) and d.ty == 'bytevec' and len(d.v) == 2 and d.v[0] == ('bytes', (0,) * 8) and d.v[1][0] == 'borsh' and (untouched(d.v[1][1], 'bk', ex) or isinstance(d.v[1][1], ZArr) and str(d.v[1][1].a) == 'bk.quantities'))
            led.cover(ex, st, kind + ' ' + w)
        if not n or (kind != 'Initialize' and seen != {'creation', 'redemption', 'swap'}): raise Unsupported('no successful path of process_instruction')
        led.note_engine(ex); led.add_stats(ex)


def entry(led, crate):
    ex = pool_engine(crate)
    fn = [f for f in crate.find(None, 'pool_entrypoint') if f.kind == 'fn']
    if len(fn) != 1: raise Unsupported('pool_entrypoint')
    st = State(); n = ex.int_sym('naccs', 'usize')
    st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
    ln = data_len(ex, 'input'); st.mem[('IN',)] = Opq('bytes', Region('input', 0, ln))
    ex.celltypes[('S', 'prog')] = 'Pubkey'
    C = ex.contracts
    def note(name):
        def f(ex, st, a, c):
            s2 = st.fork()
            st.ghost['ev'] = st.ghost.get('ev', ()) + ((name, tuple(a), st.mem.get(a[0].cell) if isinstance(a[0], Ptr) else None),)
            s2.ghost['ev'] = s2.ghost.get('ev', ()) + ((name, tuple(a), s2.mem.get(a[0].cell) if isinstance(a[0], Ptr) else None),)
            st.ghost['res'] = 0; s2.ghost['res'] = 1
            return [(st, ex.ok(UNIT, 'Result<(), ProgramError>')), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), 'Result<(), ProgramError>'))]
        return f
    C['PoolProcessor::process_instruction'] = note('pool'); C['<* as Pool>::process_foreign_instruction'] = note('foreign')
    tag = z3.And(ln >= 8, ex.int_sym('input.w@0', 'u64') == 0x220a6cbdcd1cc4cf)
    P = lambda x, c: isinstance(x, Ptr) and x.cell == c and not x.path
    k = 0
    for o in ex.run(fn[0], [Ptr(('S', 'prog')), Ptr(('ACCS',)), Ptr(('IN',))], st):
        if o.kind != 'ret': led.prove(ex, o.st, 'ENTRY: never panics', False); continue
        E = o.st.ghost.get('ev', ()); st = o.st; k += 1
        led.prove(ex, st, 'ENTRY: at most one handler runs', len(E) <= 1)
        if not E:
            led.prove(ex, st, 'ENTRY: an instruction is refused only if it carries the pool tag and is malformed', z3.And(tag, o.val.d == 1)); continue
        name, a, rec = E[0]
        led.prove(ex, st, 'ENTRY: the answer is that of the handler', o.val.d == st.ghost['res'])
        if name == 'pool':
            F = lambda f: ex.crate.fidx('PoolProcessor', f)
            led.prove(ex, st, 'ENTRY: pool requests are exactly the instructions that carry the pool tag', tag)
            rq = rec.f[F('request')]
            led.prove(ex, st, 'ENTRY: the request handled is the one decoded from the instruction', P(rec.f[F('program_id')], ('S', 'prog')) and P(rec.f[F('accounts')], ('ACCS',)) and getattr(rq, 'name', None) == 'borsh(input).inner')
            led.cover(ex, st, 'pool request')
        else:
            led.prove(ex, st, 'ENTRY: pool requests are exactly the instructions that carry the pool tag', z3.Not(tag))
            led.prove(ex, st, 'ENTRY: other instructions reach the pool implementation unchanged', P(a[0], ('S', 'prog')) and P(a[1], ('ACCS',)) and P(a[2], ('IN',)))
            led.cover(ex, st, 'foreign instruction')
    if not k: raise Unsupported('no path of pool_entrypoint')
    led.note_engine(ex); led.add_stats(ex)


def same_vec(x, y):
    if isinstance(x, ZArr) and isinstance(y, ZArr): return x.a.eq(y.a)
    return isinstance(x, Rec) and isinstance(y, Rec) and x.name == y.name and x.name is not None


def initialize(led, crate):
    fn = the(crate, 'PoolProcessor', 'initialize_pool')

    def mk(auto):
        ex = pool_engine(crate, auto); C = ex.contracts
        def newc(ex, st, a, c):
            """PoolContext::new as proved for Initialize: hands out the accounts by position"""
            s2 = st.fork(); T = 'Result<PoolContext, ProgramError>'
            S = deref(ex, st, a[2])
            st.ghost['built'] = (S, a[0], a[1], a[3])
            N = ex.vlen(st, ex.get1(st, S, ('f', ex.crate.fidx('PoolState', 'assets'), 'Vec<AssetInfo>')))
            F = lambda f: ex.crate.fidx('PoolContext', f)
            ac = lambda i: Ptr(('ACCS',), (('i', i),))
            v = Rec('PoolContext', 'ctx', {F('program_id'): a[0], F('pool_account'): ac(0), F('pool_token_mint'): ac(1), F('pool_vault_accounts'): Ptr(('ACCS',), (('s', 2, N),)),
                                           F('pool_authority'): ac(2 + N), F('rent'): ex.some(Rec('Rent', 'sysvar.Rent', {}), 'Rent')})
            return [(st, ex.ok(v, T)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), T))]
        def pinit(ex, st, a, c):
            """the pool implementation: may change the state in any way, or refuse"""
            s2 = st.fork()
            st.ghost['preinit'] = deref(ex, st, a[1])
            ex.store(st, a[1], Rec('PoolState', 'state', {}))
            return [(st, ex.ok(UNIT, 'Result<(), ProgramError>')), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), 'Result<(), ProgramError>'))]
        C['PoolContext::new'] = newc; C['<* as Pool>::initialize_pool'] = pinit; C['PoolProcessor::save_state'] = plain('save')
        st = State(); pp = processor(ex, st, 'Initialize')
        rq = Ptr(REQ(ex).cell, REQ(ex).path + (('v', 'Initialize'), ('f', 0, 'InitializePoolRequest'))) if False else None
        st.mem[('IR',)] = Rec('InitializePoolRequest', 'req', {})
        return ex, ex.run(fn, [pp, Ptr(('IR',))], st)
    ex, outs = explore(crate, mk)
    n = 0
    for o in outs:
        if o.kind != 'ret': led.prove(ex, o.st, 'INIT: never panics', False); continue
        if o.val.d != 0: continue
        n += 1
        st = o.st; st.mem[('STATE',)] = Rec('PoolState', 'state', {})
        ob = lambda name, g, s=None: led.prove(ex, s or st, 'INIT: ' + name, g)
        if 'built' not in st.ghost: ob('the accounts are checked', False); continue
        S, pid, accs, rq = st.ghost['built']
        fld = lambda f, s=None: ex.get1(s or st, S, ('f', ex.crate.fidx('PoolState', f), norm_ty(ex.crate.src.stypes['PoolState'][ex.crate.fidx('PoolState', f)])))
        R = lambda f: ex.get1(st, st.mem[('IR',)], ('f', ex.crate.fidx('InitializePoolRequest', f), norm_ty(ex.crate.src.stypes['InitializePoolRequest'][ex.crate.fidx('InitializePoolRequest', f)])))
        v = V(led, ex, st, 'INIT')
        A = fld('assets'); N = ex.vlen(st, A)
        ob('the pool has the number of assets requested', ex.z(N) == R('assets_length'))
        ob('records the pool token mint given', weq(addr(ex, st, fld('pool_token_mint')), v.key(1)))
        ob('records the vault signer and fee vaults given', z3.And(weq(addr(ex, st, fld('vault_signer')), v.key(2 + N)), weq(addr(ex, st, fld('lqd_fee_vault')), v.key(3 + N)), weq(addr(ex, st, fld('initializer_fee_vault')), v.key(4 + N))))
        ob('records the fee rate and nonce requested', z3.And(ex.z(fld('fee_rate')) == R('fee_rate'), ex.z(fld('vault_signer_nonce')) == R('vault_signer_nonce')))
        s2 = st.fork(); ex.assume(s2, z3.And(ANYK >= 0, ANYK < N)); w = V(led, ex, s2, 'INIT')
        e = ex.get1(s2, A, ('i', ANYK))
        ob('records every vault given, with its mint', z3.And(weq(addr(ex, s2, cf(ex, s2, 'vault_address', 'AssetInfo', e)), w.key(2 + ANYK)), weq(addr(ex, s2, cf(ex, s2, 'mint', 'AssetInfo', e)), w.w(2 + ANYK, 0))), s2)
        ob('the accounts are checked against this state, for this request', isinstance(pid, Ptr) and pid.cell == ('S', 'prog') and accs == Ptr(('ACCS',)) and rq == REQ(ex))
        pre = st.ghost.get('preinit')
        ob('the pool implementation starts from the checked state', pre is not None and same_state(ex, st, pre, S))
        rent = lambda s, i: rent_ok(ex, s, V(led, ex, s, '').a(i))
        ob('the pool, mint and fee accounts are rent exempt', z3.And([rent(st, i) for i in (0, 1, 3 + N, 4 + N)]))
        ob('every vault is rent exempt', rent(s2, 2 + ANYK), s2)
        q = 3 + N
        ob('LQD fees go to an account of the fee owner', weq(v.w(q, 32), FEE_OWNER))
        ob('the LQD fee account has no delegate', ex.int_sym('%s.opt@72' % v.a(q), 'u8') != 1)
        ob('only the pool may be able to close the LQD fee account', z3.Or(ex.int_sym('%s.opt@129' % v.a(q), 'u8') != 1, weq(v.w(q, 133), v.key(2 + N))))
        ob('the fee rate stored is in range', z3.And(sf(ex, st, 'fee_rate') >= MIN_RATE, sf(ex, st, 'fee_rate') < DENOM))
        pda = st.ghost.get('pda', ())
        ob('the pool authority is the program address of this pool', z3.Or([z3.BoolVal(False)] + [z3.And(weq(w1, v.key(2 + N)), weq(sd[:4], v.key(0)), ex.z(sd[4]) == sf(ex, st, 'vault_signer_nonce'), weq(pg, words(ex, st, Ptr(('S', 'prog'))))) for sd, pg, w1 in pda]))
        E = st.ghost.get('ev', ())
        ob('the state left by the pool implementation is stored', len(E) == 1 and E[0][0] == 'save' and untouched(E[0][1][1], 'state', ex))
        led.cover(ex, st, 'initialized pool with assets', N == 2)
    if not n: raise Unsupported('no successful path of initialize_pool')
    led.note_engine(ex); led.add_stats(ex)


def rent_ok(ex, st, acc): return EXEMPT(ex.int_sym(acc + '.lamports0', 'u64'), data_len(ex, acc))


def _pda(ex, st, a, c):
    sp = ex.load(st, a[0]); sw = []
    for s in sp.items:
        v = ex.load(st, s) if isinstance(s, Ptr) else s
        sw += [v.items[0]] if isinstance(v, Arr) and len(v.items) == 1 else words(ex, st, s)
    pg = words(ex, st, a[1]); k = pda(ex, sw, pg)
    st.ghost['pda'] = st.ghost.get('pda', ()) + ((sw, pg, k),)
    return res(ex, st, Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', k)})}), 'Pubkey', Rec('PubkeyError', None, {}))


POOLM['Pubkey::create_program_address'] = _pda


def same_state(ex, st, a, b): return a is b or (isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name and set(a.f) == set(b.f) and all(a.f[k] is b.f[k] or a.f[k] == b.f[k] for k in a.f))
