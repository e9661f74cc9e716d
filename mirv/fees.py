"""Contracts of fees.rs, against the published schedule in tenths of a basis point."""
from book import *
from verify import *

RATE = {'Base': 40, 'SRM2': 39, 'SRM3': 38, 'SRM4': 36, 'SRM5': 34, 'SRM6': 32, 'MSRM': 30, 'Stable': 10}
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
STABLE = ['77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS', '5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z', 'EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ',
          '8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m', '2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62', 'CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5']


def b58words(s):
    n = 0
    for c in s: n = n * 58 + B58.index(c)
    b = n.to_bytes(32, 'big')
    return [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(4)]


def eng(crate):
    ex = Engine(crate); ex.models = models.M
    return ex


def one(crate, head, name):
    f = crate.find(head, name)
    if len(f) != 1: raise Unsupported('%s::%s not found' % (head, name))
    return f[0]


def no_panic(led, ex, outs, what):
    for o in outs:
        if o.kind == 'panic': led.prove(ex, o.st, 'FEES: %s never panics' % what, False)


def verify_fees(led, crate):
    rates = {d: RATE.get(nm) for nm, d, _ in crate.enums['FeeTier']}
    if any(v is None for v in rates.values()): raise Unsupported('fee tiers changed')

    def perpath(ex, f, tag, spec, hook=True):
        st = State(); t = ex.fresh('FeeTier', 'tier'); q = ex.int_sym('q', 'u64')
        if hook:
            st.ghost['assert_hook'] = lambda ex, st, c, msg, fn, loc: led.prove(ex, st, 'FEES: %s no overflow' % tag, c)
        outs = ex.run(f, [t, q], st)
        n = 0
        for o in outs:
            if o.kind == 'panic':
                led.prove(ex, o.st, 'FEES: %s never panics' % tag, False); continue
            n += 1
            for d, r in rates.items():
                if not ex.feasible(o.st, t.d == d): continue
                s2 = o.st.fork(); ex.assume(s2, t.d == d)
                for nm, g in spec(ex, s2, r, q, o.val): led.prove(ex, s2, 'FEES: %s %s' % (tag, nm), g)
                led.cover(ex, s2, '%s tier %d' % (tag, d), q > 0)
        led.note_engine(ex)
        if not n: raise Unsupported('%s has no normal path' % tag)
    T64 = 2 ** 64
    ex = eng(crate)
    perpath(ex, one(crate, 'FeeTier', 'taker_fee'), 'taker_fee', lambda ex, st, r, q, v: [
        ('is the tier rate of the notional, rounded up', z3.And(100000 * (v - 1) < r * q, 100000 * T64 * v >= (r * T64 - 100000) * q)),
        ('is at least one unit on a non-zero notional, and never exceeds it', z3.And(v >= 0, v <= q, z3.Implies(q > 0, v >= 1), z3.Implies(q == 0, v == 0))),
        ('is below 0.4%% plus one unit', 1000 * v <= 4 * q + 1000)])
    # remove_taker_fee(P) = the largest notional that leaves room for its own fee (fixed-point resolution)
    ex = eng(crate)
    perpath(ex, one(crate, 'FeeTier', 'remove_taker_fee'), 'remove_taker_fee', lambda ex, st, r, q, v: [
        ('leaves room for the tier fee', z3.And(v >= 0, v <= q, v * (T64 + (r * T64) // 100000) <= q * T64)),
        ('is the largest such notional', (v + 1) * (T64 + (r * T64) // 100000) > q * T64)])
    ex = eng(crate)
    perpath(ex, one(crate, 'FeeTier', 'maker_rebate'), 'maker_rebate', lambda ex, st, r, q, v: [('is zero at every tier', v == 0)])
    ex = eng(crate)
    f = [x for x in crate.by_method.get('referrer_rebate', []) if x.selfty is None]
    if len(f) != 1: raise Unsupported('referrer_rebate not found')
    st = State(); q = ex.int_sym('q', 'u64')
    for o in ex.run(f[0], [q], st):
        led.prove(ex, o.st, 'FEES: referrer_rebate is one fifth of the taker fee rounded down', False if o.kind != 'ret' else z3.And(5 * o.val <= q, q < 5 * o.val + 5))
    led.note_engine(ex)
    # lemma used by matching: any notional up to remove_taker_fee(P), plus its fee, fits into P
    x, P, fee, un = z3.Ints('x P fee un')
    st = State()
    for r in sorted(set(rates.values())):
        rate = (r * T64) // 100000
        pc = [x >= 0, P >= 0, P < T64, x <= un, un * (T64 + rate) <= P * T64, (fee - 1) * T64 < rate * x]
        led.lemma('FEES: notional within remove_taker_fee plus its fee fits the budget', pc, x + fee <= P)
    # exact: taker_fee is ceil(rate * q) in fixed point, the form the lemma uses
    ex = eng(crate)
    perpath(ex, one(crate, 'FeeTier', 'taker_fee'), 'taker_fee', lambda ex, st, r, q, v: [
        ('never charges more than the fixed-point rate rounded up', z3.Or(v == 0, (v - 1) * T64 < ((r * T64) // 100000) * q))], hook=False)


def verify_tier(led, crate):
    """fee tier from token balances"""
    ex = eng(crate)
    f = one(crate, 'FeeTier', 'from_srm_and_msrm_balances')
    st = State()
    mk = ex.fresh('&Pubkey', 'market'); srm = ex.int_sym('srm', 'u64'); msrm = ex.int_sym('msrm', 'u64')
    outs = ex.run(f, [mk, srm, msrm], st)
    D = lambda n: crate.vdisc('FeeTier', n)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            led.prove(ex, o.st, 'FEES: tier selection never panics', False); continue
        n += 1
        w = words(ex, o.st, mk)
        stable = z3.Or([z3.And([a == b for a, b in zip(w, b58words(s))]) for s in STABLE])
        u = 1000000
        want = z3.If(stable, D('Stable'), z3.If(msrm >= 1, D('MSRM'), z3.If(srm >= 1000000 * u, D('SRM6'), z3.If(srm >= 100000 * u, D('SRM5'),
               z3.If(srm >= 10000 * u, D('SRM4'), z3.If(srm >= 1000 * u, D('SRM3'), z3.If(srm >= 100 * u, D('SRM2'), D('Base'))))))))
        led.prove(ex, o.st, 'FEES: tier is the best one the balances qualify for', ex.z(o.val.d) == want)
        led.cover(ex, o.st, 'tier %s' % o.val.d)
    led.note_engine(ex)
    if not n: raise Unsupported('tier selection has no path')
