"""Replace: the cancellation of the named orders followed by the new orders, each through the contract of its own instruction."""
from hcancel import *
import loops


def calls(st): return st.ghost.get('newo', ())


def sub_instruction(kind):
    """<Args>::with_parsed_args(.., handler): the whole instruction, by the contract proved for it; accounts are not readable afterwards"""
    def f(ex, st, a, c):
        st.ghost['newo'] = calls(st) + ((kind, tuple(a)),)
        st.ghost['spent'] = True
        n = next(ex.ctr)
        return [(st.fork(), ex.ok(UNIT, 'Result<(), DexError>')), (st, ex.err(ex.fresh('DexError', 'sub.err%d' % n), 'Result<(), DexError>'))]
    return f


CANCELPOS = (0, 4, 5, 1, 7, 3)


def prep(ex):
    ex.contracts['CancelOrdersByClientIdsArgs::with_parsed_args'] = sub_instruction('cancel')
    ex.contracts['NewOrderV3Args::with_parsed_args'] = sub_instruction('new')


def accname(ex, st, v):
    if isinstance(v, Ptr): v = ex.load(st, v)
    return v.name if isinstance(v, Rec) else None


def items(ex, st, p):
    v = ex.load(st, p)
    while isinstance(v, Ptr): v = ex.load(st, v)
    if not isinstance(v, Arr): raise Unsupported('account list %r' % (v,))
    return v.items


def handler(v): return isinstance(v, FnVal) and v.path.split('::')[-1]


def cid(ex, st, i): return ex.get1(st, Rec('NewOrderInstructionV3', 'ins[%s]' % i, {}), ('f', ex.crate.fidx('NewOrderInstructionV3', 'client_order_id'), 'u64'))


def leaves(v, path=()):
    """symbols made arbitrary at the loop head, with their places"""
    if is_z3(v):
        if z3.is_const(v) and v.decl().name().startswith('hv'): yield path, v
    elif isinstance(v, Rec):
        for k, y in v.f.items(): yield from leaves(y, path + (k,))


def at(v, path):
    for k in path:
        if not isinstance(v, Rec) or k not in v.f: return None
        v = v.f[k]
    return v


def is_one(ex, st, v, single):
    if not isinstance(v, Ptr): return None
    if single:
        r = ex.load(st, v)
        return 0 if isinstance(r, Rec) and r.name == 'ins[0]' else None
    if v.path and v.path[-1][0] == 'i' and isinstance(ex.load(st, Ptr(v.cell, v.path[:-1])), Rec): 
        l = ex.load(st, Ptr(v.cell, v.path[:-1]))
        if l.name == 'ins': return v.path[-1][1]
    return None


def replace(single):
    def spec(h):
        ex = h.ex; cs = calls(h.st); memo = ex.auto.__dict__.setdefault('memo', dict(enter=[], loc=set(), cancel=[]))
        n = 1 if single else z3.Int('ninstr')
        ob = lambda nm, g: h.ob('FUNC', nm, g)
        for kind, a in cs:
            ob('runs its parts for this program', a[0] == Ptr(('S', 'prog')))
            if kind == 'cancel':
                ob('cancels with the accounts of the new order', [accname(ex, h.st, x) for x in items(ex, h.st, a[1])] == ['accs[%d]' % i for i in CANCELPOS])
                ids = ex.load(h.st, a[2]).items if isinstance(a[2], Ptr) else a[2].items
                want = [z3.If(z3.IntVal(i) < ex.z(n), cid(ex, h.st, i), 0) for i in range(8)]
                ob('cancels exactly the client ids of the new orders', z3.And([x == w for x, w in zip(ids, want)]) if len(ids) == 8 else False)
                ob('cancels through the cancellation handler', handler(a[3]) == 'process_cancel_orders_by_client_ids')
            else:
                ob('places with the accounts given', a[2] == Ptr(('ACCS',)))
                ob('places through the new-order handler', handler(a[3]) == 'process_new_order_v3')
        kinds = [k for k, _ in cs]
        if h.kind == 'enter':
            memo['enter'].append(dict(h.st.mem))
            ob('cancels once, before it places anything', kinds == ['cancel'] if h.base is None else kinds == [])
        elif h.kind == 'iter':
            ob('places one order per instruction', kinds == ['new'])
            if kinds != ['new']: return
            k = is_one(ex, h.st, cs[0][1][1], single)
            ob('places an order of the instruction', k is not None)
            if k is None: return
            hit = None
            for c, v in h.base.items():
                for p, x in leaves(v):
                    if hit or c not in h.st.mem or not z3.is_int(x): continue
                    y = at(h.st.mem[c], p)
                    if y is not None and is_int(y) and ex.must(h.st, x == k) and ex.must(h.st, ex.z(y) == x + 1): hit = (c, p, str(x))
            ob('places the orders one after the other', hit is not None)
            if hit is None: return
            c, p, k = hit
            memo['loc'].add(hit)
            ms = [m for m in memo['enter'] if c in m]
            if not ms: ob('starts with the first order', False)
            for m in ms:
                y = at(m[c], p)
                ob('starts with the first order', y is not None and ex.z(y) == 0)
            h.led.cover(ex, h.st, h.ins + ' places an order')
        else:
            if h.base is None: ob('cancels once and then places every order', kinds == ['cancel'] + ['new'] * n if isinstance(n, int) and [is_one(ex, h.st, a[1], single) for k, a in cs[1:]] == list(range(n)) else False); return h.frame()
            ob('places nothing outside the loop', kinds == [])
            loc = [x for x in memo['loc'] if x[0] in h.base]
            for c, p, k in loc:
                y = at(h.base.get(c), p)
                ob('places every order of the instruction', y is not None and ex.z(y) >= n)
            if not loc: ob('places every order of the instruction', n == 0)
        h.frame()
    return spec


def vec(ex):
    n = ex.int_sym('ninstr', 'usize')
    return [Rec('[NewOrderInstructionV3]', 'ins', {'len': n})]


INSTR['ReplaceOrdersByClientIds'] = instr('ReplaceOrdersByClientIds', NEWORDER, replace(False), loop=True, prep=prep, payload=vec)
INSTR['ReplaceOrderByClientId'] = instr('ReplaceOrderByClientId', NEWORDER, replace(True), loop=True, prep=prep, payload=lambda ex: [Rec('NewOrderInstructionV3', 'ins[0]', {})])
