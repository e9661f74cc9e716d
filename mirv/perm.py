"""Contracts of the permissioned proxy's middlewares (dex/permissioned/src/middleware.rs)."""
from pool import *
import z3

PERM = {}


def pmm(*ks):
    def d(f):
        for k in ks: PERM[k] = f
        return f
    return d


class Bytes:
    """an owned byte string: a tuple of parts"""
    def __init__(s, kind, v): s.kind, s.v = kind, v
    def __repr__(s): return 'Bytes(%s,%r)' % (s.kind, s.v)


def as_bytes(ex, st, p):
    v = ex.load(st, p) if isinstance(p, Ptr) else p
    if isinstance(v, Str): return Bytes('lit', lit(v))
    if isinstance(v, Opq) and isinstance(v.v, Bytes): return v.v
    if isinstance(v, Arr):
        if all(isinstance(x, int) for x in v.items): return Bytes('lit', bytes(v.items))
        return Bytes('u8s', tuple(v.items))
    return Bytes('key', words(ex, st, p))


def lit(v):
    t = v.s if hasattr(v, 's') else v.v
    return t if isinstance(t, bytes) else t.encode('latin1')


@pmm('[]::to_vec', 'slice::to_vec')
def _tv(ex, st, a, c): return Opq('Vec<u8>', as_bytes(ex, st, a[0]))


@pmm('<[] as AsRef>::as_ref', '<* as AsRef>::as_ref')
def _ar(ex, st, a, c): return a[0]


BUMP = {}


def bump(ex, seeds, prog):
    ints = []
    for s in seeds:
        if s.kind == 'lit': ints.append(z3.IntVal(int.from_bytes(s.v, 'big')))
        else: ints += [ex.z(x) for x in s.v]
    ints += [ex.z(x) for x in prog]
    n = len(ints)
    f = BUMP.setdefault(n, z3.Function('bump%d' % n, *([z3.IntSort()] * (n + 1))))
    r = f(*ints)
    ex.axioms.setdefault(str(r), z3.And(r >= 0, r <= 255))
    return r


@pmm('Pubkey::find_program_address')
def _fpa(ex, st, a, c):
    sp = ex.load(st, a[0])
    b = bump(ex, [as_bytes(ex, st, s) for s in sp.items], words(ex, st, a[1]))
    return Rec('(Pubkey, u8)', None, {0: ex.fresh('Pubkey', ex.gensym('pda')), 1: b})


@pmm('Vec::push')
def _push(ex, st, a, c):
    p = a[0]
    if p.cell != ('CTX',) or not p.path or p.path[-1][0] != 'f': raise Unsupported('push to %r' % (p,))
    st.ghost['push'] = st.ghost.get('push', ()) + ((ex.crate.structs['Context'][p.path[-1][1]], a[1]),)
    return UNIT


@pmm('<AccountInfo as Clone>::clone')
def _clone(ex, st, a, c): return deref(ex, st, a[0])


@pmm('<* as Into>::into')
def _into_err(ex, st, a, c): return ex.fresh('ProgramError', ex.gensym('perr'))


@pmm('Vec::new')
def _vn(ex, st, a, c): return Arr('T', [])


def cpi(kind):
    def f(ex, st, a, c):
        r = [words(ex, st, x) for x in (a[:4] if kind == 'approve' else a[:3])]
        am = a[5] if kind == 'approve' else None
        sg = ex.load(st, a[4] if kind == 'approve' else a[3])
        n = len(sg.items) if isinstance(sg, Arr) else None
        s2 = st.fork()
        T = 'Result<Instruction, ProgramError>'
        return [(st, ex.ok(Opq('Instruction', (kind, r, am, n)), T)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), T))]
    return f


PERM['approve'] = PERM['instruction::approve'] = cpi('approve')
PERM['revoke'] = PERM['instruction::revoke'] = cpi('revoke')


def perm_engine(crate):
    ex = pool_engine(crate)
    ex.models = dict(ex.models); ex.models.update(L); ex.models.update(PERM)
    ex.crate.structs.setdefault('AccountInfo', ['key', 'is_signer', 'is_writable', 'lamports', 'data', 'owner', 'executable', 'rent_epoch'])
    return ex


def ctx(ex, st):
    n = ex.int_sym('naccs', 'usize')
    st.mem[('ACCS',)] = Rec('[AccountInfo]', 'accs', {'len': n})
    F = lambda f: ex.crate.fidx('Context', f)
    ex.celltypes[('S', 'prog')] = 'Pubkey'; ex.celltypes[('S', 'dexprog')] = 'Pubkey'
    st.mem[('CTX',)] = Rec('Context', 'ctx', {F('program_id'): Ptr(('S', 'prog')), F('dex_program_id'): Ptr(('S', 'dexprog')), F('accounts'): Ptr(('ACCS',))})
    st.mem[('SELF',)] = Rec('OpenOrdersPda', 'self', {})
    return n


def acc0(ex, st, i):
    """the account at position i on entry"""
    r = Rec('[AccountInfo]', 'accs', {})
    return ex.get1(st, r, ('i', i))


def fld(ex, st, a, f, ty): return ex.get1(st, a, ('f', ex.crate.fidx('AccountInfo', f), ty))


def key0(ex, st, i): return keyw(ex, st, 'accs[%d]' % i)


def signer(ex, st, a): return ex.b(fld(ex, st, a, 'is_signer', 'bool'))


def handler(led, crate, name, T, market, user, oo, owner, need, extra=()):
    fs = [f for f in crate.find('OpenOrdersPda', name) if f.kind == 'fn']
    if len(fs) != 1: raise Unsupported('OpenOrdersPda::' + name)
    ex = perm_engine(crate); st = State(); n = ctx(ex, st)
    ex.assume(st, n >= need)
    args = [Ptr(('SELF',)), Ptr(('CTX',))]
    ix0 = ex.fresh(T, 'ix') if T else None
    if T: st.mem[('IX',)] = ix0; args.append(Ptr(('IX',)))
    outs = ex.run(fs[0], args, st); ok = 0
    for o in outs:
        if o.kind != 'ret':
            if name != 'new_order_v3': led.prove(ex, o.st, '%s: never panics on enough accounts' % name, False)
            continue
        if o.val.d != 0: continue
        ok += 1; s = o.st
        P = lambda nm, g: led.prove(ex, s, '%s: %s' % (name, nm), g)
        user_acc = ex.fresh('AccountInfo', 'accs[%d]' % user)
        P('relayed only when the user signed', signer(ex, s, user_acc))
        pu = s.ghost.get('push', ())
        seeds = [v for f, v in pu if f == 'seeds']
        P('signs with one set of seeds', len(seeds) == 1)
        for v in seeds: P('signs only for the open-orders address of this market and user', seeds_ok(ex, s, v, market, user))
        accounts_after(P, ex, s, {owner: oo})
        c = s.mem[('CTX',)]
        P('runs under the same program ids', all(c.f.get(ex.crate.fidx('Context', k)) == v for k, v in (('program_id', Ptr(('S', 'prog'))), ('dex_program_id', Ptr(('S', 'dexprog'))), ('accounts', Ptr(('ACCS',))))))
        if T: P('the instruction is relayed as given', s.mem[('IX',)] is ix0 or (is_z3(ix0) and ex.z(s.mem[('IX',)]) == ix0))
        if name != 'new_order_v3': P('adds no other instruction', len(pu) == 1)
        else: approvals(P, ex, s, pu)
        led.cover(ex, s, '%s relayed' % name, True)
    if not ok: raise Unsupported('no successful path of ' + name)
    led.note_engine(ex); led.add_stats(ex)


def seeds_ok(ex, st, v, market, user):
    v = ex.load(st, v) if isinstance(v, Ptr) else v
    if not isinstance(v, Arr) or len(v.items) != 5: return False
    b = [as_bytes(ex, st, x) for x in v.items]
    want = [Bytes('lit', b'open-orders'), Bytes('key', words(ex, st, Ptr(('S', 'dexprog')))), Bytes('key', key0(ex, st, market)), Bytes('key', key0(ex, st, user))]
    g = []
    for x, y in zip(b, want):
        if x.kind != y.kind: return False
        g.append(x.v == y.v if x.kind == 'lit' else weq(x.v, y.v))
    if b[4].kind != 'u8s' or len(b[4].v) != 1: return False
    g.append(ex.z(b[4].v[0]) == bump(ex, want, words(ex, st, Ptr(('S', 'prog')))))
    return z3.And([ex.b(x) for x in g])


def accounts_after(P, ex, st, moved):
    """position w holds account o, marked signer; every other position what it held"""
    A = st.mem[('ACCS',)]
    for k, v in A.f.items():
        if k == 'len': continue
        i = k[1]
        if i in moved: continue
        P('leaves the other accounts as they were', is_acc(ex, v, i))
    for w, o in moved.items():
        v = A.f.get(('i', w))
        good = is_acc(ex, v, o, (1,))
        P('the open-orders account takes the place of the owner', good)
        if good: P('the open-orders address signs', ex.b(fld(ex, st, v, 'is_signer', 'bool')))


FT = ('&Pubkey', 'bool', 'bool', None, None, '&Pubkey', 'bool', 'u64')


def is_acc(ex, v, o, but=()):
    """this is the account at position o on entry, its fields those it came with (except `but`)"""
    n = 'accs[%s]' % o
    if not isinstance(v, Rec) or ty_head(v.ty) != 'AccountInfo' or (v.name is not None and v.name != n): return False
    for i, f in enumerate(ex.crate.structs['AccountInfo']):
        x = v.f.get(i)
        if x is None and v.name == n: continue
        if i in but: continue
        m = '%s.%s' % (n, f)
        if FT[i] is None:
            if getattr(x, 'name', None) != m and not (isinstance(x, Ptr) and x.cell == ('S', m)): return False
            continue
        y = ex.fresh(FT[i], m)
        if x is not y and repr(x) != repr(y): return False
    return True


def market_lot(ex, st): return ex.int_sym('accs[0].w@%d' % (5 + 43 * 8), 'u64')


def vec(ex, st, v):
    v = ex.load(st, v) if isinstance(v, Ptr) else v
    return list(v.items) if isinstance(v, Arr) else None


def approvals(P, ex, st, pu):
    """exactly one approval before, for what the order may take, and its revocation after"""
    pre = [v for f, v in pu if f == 'pre_instructions']; post = [v for f, v in pu if f == 'post_instructions']
    P('one approval before, one revocation after, nothing else', len(pre) == 1 and len(post) == 1 and len(pu) == 3)
    if len(pre) != 1 or len(post) != 1: return
    ix = st.mem[('IX',)]
    I = lambda f: ex.get1(st, ix, ('f', ex.crate.fidx('NewOrderInstructionV3', f), norm_ty(ex.crate.src.stypes['NewOrderInstructionV3'][ex.crate.fidx('NewOrderInstructionV3', f)])))
    num = lambda v: ex.z(v if not isinstance(v, Rec) else ex.get1(st, v, ('f', 0, 'u64')))
    amount = z3.If(I('side').d == 0, num(I('max_native_pc_qty_including_fees')), num(I('max_coin_qty')) * market_lot(ex, st))
    for what, t, kind, keys, accs in (('approval', pre[0], 'approve', (6, 1, 7), (6, 1, 7)), ('revocation', post[0], 'revoke', (6, 7), (6, 7))):
        i = t.f[0]; k, r, am, ns = i.v
        P('the %s goes to the token program for the payer account, the open-orders address and the user' % what,
          z3.And([ex.b(k == kind and ns == 0), weq(r[0], TOKEN_ID)] + [weq(x, key0(ex, st, j)) for x, j in zip(r[1:], keys)]) if len(r) == len(keys) + 1 else False)
        al = vec(ex, st, t.f[1])
        P('the %s is given its accounts as they are' % what, al is not None and all(any(is_acc(ex, x, j) for x in al) for j in accs))
        P('the %s needs no signature of the program' % what, vec(ex, st, t.f[2]) == [])
        if kind == 'approve': P('approves exactly what the order may take', ex.z(am) == amount)


def cancel(led, crate): handler(led, crate, 'cancel_order_v2', 'CancelOrderInstructionV2', 0, 4, 3, 4, 6)
def cancel_cid(led, crate): handler(led, crate, 'cancel_order_by_client_id_v2', 'u64', 0, 4, 3, 4, 6)
def settle(led, crate): handler(led, crate, 'settle_funds', None, 0, 2, 1, 2, 10)
def close(led, crate): handler(led, crate, 'close_open_orders', None, 3, 1, 0, 1, 4)
def order(led, crate): handler(led, crate, 'new_order_v3', 'NewOrderInstructionV3', 0, 7, 1, 7, 12)


def prune(led, crate):
    fs = [f for f in crate.find('OpenOrdersPda', 'prune') if f.kind == 'fn']
    if len(fs) != 1: raise Unsupported('OpenOrdersPda::prune')
    ex = perm_engine(crate); st = State(); n = ctx(ex, st); ex.assume(st, n >= 7)
    st.mem[('IX',)] = ex.int_sym('limit', 'u16')
    for o in ex.run(fs[0], [Ptr(('SELF',)), Ptr(('CTX',)), Ptr(('IX',))], st):
        P = lambda nm, g: led.prove(ex, o.st, 'prune: ' + nm, g)
        P('always relayed', o.kind == 'ret' and o.val.d == 0)
        if o.kind != 'ret': continue
        P('adds no signature and no instruction', 'push' not in o.st.ghost)
        P('the limit is relayed as given', o.st.mem[('IX',)] == ex.int_sym('limit', 'u16'))
        A = o.st.mem[('ACCS',)]
        for k, v in A.f.items():
            if k != 'len': P('names the open-orders account as its own owner, nothing else', is_acc(ex, v, 4 if k[1] == 5 else k[1]))
        P('the owner is the open-orders account', ('i', 5) in A.f)
    led.note_engine(ex); led.add_stats(ex)


@pmm('authority', 'accessor::authority')
def _auth(ex, st, a, c):
    """anchor_spl::token::accessor::authority: bytes 32..64 of the account"""
    acc = accname(ex, st, a[0]); s2 = st.fork(); T = 'Result<Pubkey, ProgramError>'
    k = [ex.int_sym('%s.w@%d' % (acc, 32 + 8 * i), 'u64') for i in range(4)]
    return [(st, ex.ok(Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', k)})}), T)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), T))]


def referral(led, crate):
    fs = [f for f in crate.find('ReferralFees', 'settle_funds') if f.kind == 'fn']
    if len(fs) != 1: raise Unsupported('ReferralFees::settle_funds')
    ex = perm_engine(crate); st = State(); n = ctx(ex, st); ex.assume(st, n >= 10)
    st.mem[('SELF',)] = Rec('ReferralFees', 'self', {})
    ok = 0
    for o in ex.run(fs[0], [Ptr(('SELF',)), Ptr(('CTX',))], st):
        P = lambda nm, g: led.prove(ex, o.st, 'referral: ' + nm, g)
        if o.kind != 'ret': P('never panics on enough accounts', False); continue
        ref = words(ex, o.st, ex.get1(o.st, o.st.mem[('SELF',)], ('f', ex.crate.fidx('ReferralFees', 'referral'), 'Pubkey')))
        own = [ex.int_sym('accs[9].w@%d' % (32 + 8 * i), 'u64') for i in range(4)]
        A = o.st.mem[('ACCS',)]
        P('changes nothing', 'push' not in o.st.ghost and all(k == 'len' or is_acc(ex, v, k[1]) for k, v in A.f.items()))
        if o.val.d == 0: ok += 1; P('a settlement goes only to the configured referral', weq(own, ref)); led.cover(ex, o.st, 'settlement relayed', True)
    if not ok: raise Unsupported('no successful path')
    led.note_engine(ex); led.add_stats(ex)


class Tail:
    """accounts[k..] copied into a vector of its own"""
    def __init__(s, k, over=None): s.k, s.over = k, dict(over or {})
    def get1(s, ex, st, v, p):
        if p[0] != 'i' or not isinstance(p[1], int): raise Unsupported('tail of the accounts')
        if p[1] not in s.over: s.over[p[1]] = ex.get1(st, st.mem[('ACCS',)], ('i', p[1] + s.k))
        return s.over[p[1]]
    def setp(s, ex, st, v, path, nv):
        p = path[0]
        if p[0] != 'i' or not isinstance(p[1], int): raise Unsupported('tail of the accounts')
        o = dict(s.over)
        o[p[1]] = nv if len(path) == 1 else ex.setp(st, s.get1(ex, st, v, p), path[1:], nv)
        return Opq(v.ty if hasattr(v, 'ty') else 'Vec', Tail(s.k, o))


def _tv2(ex, st, a, c):
    p = a[0]
    if isinstance(p, Ptr) and p.cell == ('ACCS',):
        if not p.path: return p
        if len(p.path) == 1 and p.path[0][0] == 's' and isinstance(p.path[0][1], int): st.mem[('TAIL',)] = Opq('Vec<AccountInfo>', Tail(p.path[0][1])); return Ptr(('TAIL',))
        raise Unsupported('copy of part of the accounts')
    return Opq('Vec<u8>', as_bytes(ex, st, p))


PERM['[]::to_vec'] = PERM['slice::to_vec'] = _tv2


def _tix(ex, st, a, c):
    p = a[0]; v = ex.load(st, p)
    if isinstance(v, Ptr) and v.cell == ('TAIL',) and isinstance(a[1], int):
        n = ex.int_sym('naccs', 'usize') - st.mem[('TAIL',)].v.k
        return [(s, Ptr(('TAIL',), (('i', a[1]),)) if t else Panic('index')) for s, t in ex.split_bool(st, a[1] < n)]
    import acct
    return acct._index(ex, st, a, c)


PERM['<* as Index>::index'] = PERM['<* as IndexMut>::index_mut'] = _tix


def init(led, crate):
    """over the contract of InitAccount::try_accounts (anchor): checks the accounts and creates the open-orders account, or fails"""
    fs = [f for f in crate.find('OpenOrdersPda', 'init_open_orders') if f.kind == 'fn']
    if len(fs) != 1: raise Unsupported('OpenOrdersPda::init_open_orders')
    ex = perm_engine(crate); st = State(); n = ctx(ex, st); ex.assume(st, n >= 7)

    def ta(ex, st, a, c):
        s2 = st.fork(); T = 'Result<InitAccount, ProgramError>'
        st.ghost['anchor'] = st.ghost.get('anchor', ()) + ((a[0], ex.load(st, a[1]), ex.load(st, a[2])),)
        return [(st, ex.ok(Rec('InitAccount', 'checked', {}), T)), (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), T))]
    ex.contracts = dict(ex.contracts); ex.contracts['<InitAccount as Accounts>::try_accounts'] = ta
    b = [ex.get1(st, st.mem[('SELF',)], ('f', ex.crate.fidx('OpenOrdersPda', f), 'u8')) for f in ('bump', 'bump_init')]
    ok = 0
    for o in ex.run(fs[0], [Ptr(('SELF',)), Ptr(('CTX',))], st):
        s = o.st; P = lambda nm, g: led.prove(ex, s, 'init_open_orders: ' + nm, g)
        if o.kind != 'ret': P('never panics on enough accounts', False); continue
        if o.val.d != 0: continue
        ok += 1
        an = s.ghost.get('anchor', ())
        P('the accounts are checked and the account created once', len(an) == 1)
        if len(an) != 1: continue
        pid, acc, args = an[0]
        P('all the accounts are checked, for this program and these bumps', pid == Ptr(('S', 'prog')) and whole(ex, acc) and isinstance(args, Arr) and len(args.items) == 2 and [str(x) for x in args.items] == [str(x) for x in b])
        pu = s.ghost.get('push', ()); sd = [v for f, v in pu if f == 'seeds']
        P('signs with two sets of seeds and adds no instruction', len(sd) == 2 and len(pu) == 2)
        if len(sd) == 2:
            for k, (v, want) in enumerate(zip(sd, ([b'open-orders', 'dexprog', 4, 3], [b'open-orders-init', 'dexprog', 4]))):
                P('signs only for the open-orders address of this market and user, and the init authority of this market', raw_seeds(ex, s, v, want, b[k]))
        c = s.mem[('CTX',)]
        P('runs under the same program ids', all(c.f.get(ex.crate.fidx('Context', k)) == v for k, v in (('program_id', Ptr(('S', 'prog'))), ('dex_program_id', Ptr(('S', 'dexprog'))))))
        P('relays the accounts after the two of the proxy', c.f.get(ex.crate.fidx('Context', 'accounts')) == Ptr(('TAIL',)) and s.mem[('TAIL',)].v.k == 2)
        if ('TAIL',) not in s.mem: continue
        T = s.mem[('TAIL',)].v
        for i in sorted(set(T.over) | {1, 4}):
            v = T.get1(ex, s, s.mem[('TAIL',)], ('i', i)); src = 2 if i == 1 else i + 2
            P('the open-orders account takes the place of the owner, the rest stays', is_acc(ex, v, src, (1,) if i in (1, 4) else ()))
            if i in (1, 4): P('the open-orders address and the init authority sign', ex.b(fld(ex, s, v, 'is_signer', 'bool')))
        led.cover(ex, s, 'init relayed', True)
    if not ok: raise Unsupported('no successful path')
    led.note_engine(ex); led.add_stats(ex)


def whole(ex, p): return isinstance(p, Ptr) and p.cell == ('ACCS',) and (not p.path or (len(p.path) == 1 and p.path[0][0] == 's' and isinstance(p.path[0][1], int) and p.path[0][1] == 0 and str(p.path[0][2]) in ('naccs', 'naccs - 0')))


def raw_seeds(ex, st, v, want, b):
    it = vec(ex, st, v)
    if it is None or len(it) != len(want) + 1: return False
    g = []
    for x, w in zip([as_bytes(ex, st, x) for x in it], want):
        if isinstance(w, bytes): g.append(x.kind == 'lit' and x.v == w); continue
        if x.kind != 'key': return False
        g.append(weq(x.v, words(ex, st, Ptr(('S', w))) if isinstance(w, str) else key0(ex, st, w)))
    l = as_bytes(ex, st, it[-1])
    g.append(l.kind == 'u8s' and len(l.v) == 1 and ex.z(l.v[0]) == b)
    return z3.And([ex.b(x) for x in g])


class Data:
    """bytes start .. of the instruction data"""
    def __init__(s, start, n): s.start, s.n = start, n
    def vlen(s, ex, st): return s.n
    def get1(s, ex, st, v, p):
        if p[0] == 's': return Opq('[u8]', Data(s.start + p[1], p[2]))
        if p[0] == 'i' and isinstance(p[1] + s.start, int): return ex.int_sym('data[%d]' % (p[1] + s.start), 'u8')
        raise Unsupported('instruction data at %r' % (p,))


def header(led, crate):
    """OpenOrdersPda::instruction: strips its own prefix"""
    fs = [f for f in crate.find('OpenOrdersPda', 'instruction') if f.kind == 'fn']
    if len(fs) != 1: raise Unsupported('OpenOrdersPda::instruction')
    ex = perm_engine(crate); st = State()
    n = ex.int_sym('ndata', 'usize')
    st.mem[('BYTES',)] = Opq('[u8]', Data(0, n)); st.mem[('DP',)] = Ptr(('BYTES',))
    st.mem[('SELF',)] = Rec('OpenOrdersPda', 'self', {})
    B = lambda i: ex.int_sym('data[%d]' % i, 'u8')
    g0 = [ex.get1(st, st.mem[('SELF',)], ('f', ex.crate.fidx('OpenOrdersPda', f), 'u8')) for f in ('bump', 'bump_init')]
    ok = 0
    for o in ex.run(fs[0], [Ptr(('SELF',)), Ptr(('DP',))], st):
        s = o.st; P = lambda nm, g: led.prove(ex, s, 'instruction: ' + nm, g)
        if o.kind != 'ret': P('fails only on data shorter than its prefix', z3.Or(n < 1, z3.And(B(0) == 0, n < 3))); continue
        P('accepted', o.val.d == 0); ok += 1
        me = s.mem[('SELF',)]
        g1 = [ex.get1(s, me, ('f', ex.crate.fidx('OpenOrdersPda', f), 'u8')) for f in ('bump', 'bump_init')]
        d = s.mem[('DP',)]
        good = isinstance(d, Ptr) and d.cell == ('BYTES',) and len(d.path) == 1 and d.path[0][0] == 's'
        P('what is left is the rest of the data', good)
        if good:
            k = z3.If(B(0) == 0, z3.IntVal(3), z3.IntVal(1))
            P('strips exactly its prefix', z3.And(ex.z(d.path[0][1]) == k, ex.z(d.path[0][2]) == n - k))
        P('takes the bumps of an init request only', z3.If(B(0) == 0, z3.And(ex.z(g1[0]) == B(1), ex.z(g1[1]) == B(2)), z3.And(ex.z(g1[0]) == g0[0], ex.z(g1[1]) == g0[1])))
    if not ok: raise Unsupported('no successful path')
    led.note_engine(ex); led.add_stats(ex)
