"""Contracts of the order-book slab, event queue, events and fee schedule used by the matching engine.
The contracts used here are proved of the code: slab in C08 (tree.py), queue in C09 (ring.py), event codec in C10 (codec.py), fees in C03 (fees.py)."""
from models import *


class Book:
    """abstract ordered map: what has been learnt about the book so far plus a log of mutations"""
    __slots__ = ('side', 'name', 'best', 'worst', 'n', 'log', 'leaves', 'full', 'epoch')

    def __init__(self, side, name):
        self.side = side; self.name = name; self.best = None; self.worst = None; self.n = 0; self.log = (); self.leaves = (); self.full = None; self.epoch = 0

    def copy(self):
        b = Book(self.side, self.name)
        b.best = self.best; b.worst = self.worst; b.n = self.n; b.log = self.log; b.leaves = self.leaves; b.full = self.full; b.epoch = self.epoch
        return b


def leaf_fields(ex):
    return ex.crate.structs['LeafNode']


LEAF_TY = {'tag': 'u32', 'owner_slot': 'u8', 'fee_tier': 'u8', 'padding': '[u8; 2]', 'key': 'u128', 'owner': '[u64; 4]',
           'quantity': 'u64', 'client_order_id': 'u64'}


def new_leaf(ex, st, name):
    """a leaf of a well-formed book: representation invariant of resting orders"""
    fs = leaf_fields(ex)
    f = {}
    for i, nm in enumerate(fs): f[i] = ex.fresh(LEAF_TY[nm], '%s.%s' % (name, nm))
    # the key is price*2^64 + seq with price > 0
    price = ex.int_sym(name + '.price', 'NonZeroU64'); seq = ex.int_sym(name + '.seq', 'u64')
    f[fs.index('key')] = price * 2 ** 64 + seq
    f[fs.index('tag')] = ex.crate.vdisc('NodeTag', 'LeafNode')
    v = Rec('LeafNode', None, f)
    ntier = len(ex.crate.enums['FeeTier'])
    ex.assume(st, f[fs.index('quantity')] >= 1)
    ex.assume(st, f[fs.index('fee_tier')] < ntier)
    ex.assume(st, f[fs.index('owner_slot')] < 128)
    return v, price, seq


def lf(ex, leaf, name): return leaf.f[leaf_fields(ex).index(name)]


def slab(ex, st, p):
    v = ex.load(st, p)
    if not (isinstance(v, Opq) and isinstance(v.v, Book)): raise Unsupported('slab value %r' % (v,))
    return v.v


def put(ex, st, p, b): ex.store(st, p, Opq('Slab', b))


def find_best(which):
    def f(ex, st, a, c):
        b = slab(ex, st, a[0])
        field = 'best' if (which == 'min') == (b.side == 'ask') else 'worst'
        cur = getattr(b, field)
        if cur is None and field == 'best' or cur is None:
            s2 = st.fork()
            # empty
            b1 = b.copy(); setattr(b1, field, 'empty'); put(ex, st, a[0], b1)
            # some leaf
            b2 = b.copy(); h = 1000 + b.n + (500 if b.side == 'ask' else 0)
            leaf, price, seq = new_leaf(ex, s2, '%s.%s%d' % (b.name, field, b.n))
            cell = ('N', b.name, b.n)
            s2.mem[cell] = leaf
            b2.n += 1
            for (op, l2, k2) in b.log:
                if op == 'remove' and field == 'best':
                    key = leaf.f[leaf_fields(ex).index('key')]
                    ex.assume(s2, key > k2 if b.side == 'ask' else key < k2)
            setattr(b2, field, (h, cell, leaf)); b2.leaves = b.leaves + ((h, cell, leaf),)
            put(ex, s2, a[0], b2)
            return [(st, ex.none('u32')), (s2, ex.some(h, 'u32'))]
        if cur == 'empty': return ex.none('u32')
        return ex.some(cur[0], 'u32')
    return f


def slab_get(ex, st, a, c):
    b = slab(ex, st, a[0])
    for h, cell, leaf in b.leaves:
        if h is a[1] or h == a[1]: return ex.some(Ptr(cell), '&mut AnyNode')
    raise Unsupported('slab get of unknown handle %r' % (a[1],))


def as_leaf(ex, st, a, c): return ex.some(a[0], '&mut LeafNode')


def own_by_key(ex, st, b, leaf):
    """keys are unique in a book: until something is inserted, a key determines whose order it is"""
    for j, w in enumerate(words(ex, st, lf(ex, leaf, 'owner'))):
        ex.assume(st, w == z3.Function('%s.%d.owner%d' % (b.name, b.epoch, j), z3.IntSort(), z3.IntSort())(lf(ex, leaf, 'key')))


def slab_find_by(ex, st, a, c):
    """keys of orders in the book that satisfy the predicate; the limit shrinks"""
    import loops
    b = slab(ex, st, a[0])
    lim = ex.load(st, a[1])
    l2 = ex.int_sym(ex.gensym('limit'), 'u16'); ex.assume(st, l2 <= lim); ex.store(st, a[1], l2)
    k = loops.site(ex, st, 'find_by'); n = ex.auto.arr.get(k, 0); ex.auto.arr[k] = n + 1
    vid = (k, n)
    npc, known = len(st.pc), set(st.pcset)
    s = st.fork()
    leaf, price, seq = new_leaf(ex, s, ex.gensym('%s.found' % b.name))
    own_by_key(ex, s, b, leaf)
    for o in ex.call_value(s, a[2], [Ptr(ex.alloc(s, leaf))]):
        for s2, t in ex.split_bool(o.st, o.val):
            if t: ex.auto.ntmpl.setdefault(vid, []).append(loops.Tmpl(lf(ex, leaf, 'key'), s2.pc[npc:], known))
    n = ex.int_sym(ex.gensym('veclen'), 'usize')
    return Opq('SymVec', loops.SymVec(vid, (), (), n))


def slab_remove_by_key(ex, st, a, c):
    b = slab(ex, st, a[0]); key = a[1]
    out = []
    work = [(st, b)]
    for h, cell, leaf in b.leaves:
        if any(op == 'remove' and k is leaf for op, k, _ in b.log): continue
        lk = lf(ex, leaf, 'key')
        nxt = []
        for s, bb in work:
            for s2, t in ex.split_bool(s, ex.z(key) == lk):
                if t:
                    cur = ex.cell(s2, cell)
                    b2 = bb.copy(); b2.log = bb.log + (('remove', leaf, lk),)
                    if b2.best and b2.best != 'empty' and b2.best[0] == h: b2.best = None
                    if b2.worst and b2.worst != 'empty' and b2.worst[0] == h: b2.worst = None
                    b2.leaves = tuple(x for x in b2.leaves if x[0] != h)
                    put(ex, s2, a[0], b2)
                    out.append((s2, ex.some(cur, 'LeafNode')))
                else: nxt.append((s2, bb))
        work = nxt
    for s, bb in work:
        # some other order, or absent
        s2 = s.fork()
        out.append((s, ex.none('LeafNode')))
        nm = '%s.byk%d' % (b.name, b.n)
        leaf, price, seq = new_leaf(ex, s2, nm)
        ex.assume(s2, ex.z(key) == lf(ex, leaf, 'key'))
        own_by_key(ex, s2, b, leaf)
        leaf.f['$side'] = 0 if b.side == 'bid' else 1 if b.side == 'ask' else 2
        b2 = bb.copy(); b2.n += 1; b2.log = bb.log + (('remove', leaf, lf(ex, leaf, 'key')),)
        put(ex, s2, a[0], b2)
        out.append((s2, ex.some(leaf, 'LeafNode')))
    return out


def slab_remove_end(which):
    fb = find_best(which)

    def f(ex, st, a, c):
        r = fb(ex, st, a, c)
        if not isinstance(r, list): r = [(st, r)]
        out = []
        for s, v in r:
            if v.d == 0: out.append((s, ex.none('LeafNode'))); continue
            b = slab(ex, s, a[0])
            h = v.f[('Some', 0)]
            hh, cell, leaf = [x for x in b.leaves if x[0] == h][0]
            b2 = b.copy(); b2.log = b.log + (('remove', leaf, lf(ex, leaf, 'key')),)
            b2.leaves = tuple(x for x in b.leaves if x[0] != h)
            if b2.best and b2.best != 'empty' and b2.best[0] == h: b2.best = None
            if b2.worst and b2.worst != 'empty' and b2.worst[0] == h: b2.worst = None
            b2.full = False
            cur = ex.cell(s, cell)
            put(ex, s, a[0], b2)
            out.append((s, ex.some(cur, 'LeafNode')))
        return out
    return f


def slab_insert_leaf(ex, st, a, c):
    """requires: the key is not in the book (order-id uniqueness, C07).
    ensures: Ok((handle, None)) and the book gains exactly this leaf, or Err(OutOfSpace) and the book is unchanged;
    OutOfSpace does not recur after a removal."""
    b = slab(ex, st, a[0])
    leaf = ex.load(st, a[1])
    ty = 'Result<(u32, Option<LeafNode>), SlabTreeError>'
    out = []
    if b.full is not False:
        s2 = st.fork()
        b3 = b.copy(); b3.full = True; put(ex, s2, a[0], b3)
        out.append((s2, ex.err(ex.mk('SlabTreeError', 'OutOfSpace'), ty)))
    if b.full is not True:
        b2 = b.copy(); b2.log = b.log + (('insert', leaf, lf(ex, leaf, 'key')),); b2.epoch += 1
        h = 2000 + b.n; b2.n += 1
        put(ex, st, a[0], b2)
        out.append((st, ex.ok(Rec('(u32, Option<LeafNode>)', None, {0: h, 1: ex.none('LeafNode')}), ty)))
    return out


def event_new(ex, st, a, c): return Rec('Event', None, {'view': a[0]})
def event_view(ex, st, a, c):
    v = deref(ex, st, a[0])
    if 'view' not in v.f:
        if v.name is None: raise Unsupported('event view')
        v.f['view'] = ex.fresh('EventView', v.name + '.view')
    return Ok_view(ex, st, v)


def Ok_view(ex, st, v): return ex.ok(v.f['view'], 'Result<EventView, DexError>')


def queue_push(ex, st, a, c):
    """Err(value) iff the ring is full (log unchanged), else appended at the tail"""
    q = ex.load(st, a[0])
    if not isinstance(q, Opq): raise Unsupported('queue %r' % (q,))
    s2 = st.fork()
    ex.store(st, a[0], Opq(q.ty, q.v + (a[1],)))
    return [(st, ex.ok(UNIT, 'Result<(), Event>')), (s2, ex.err(a[1], 'Result<(), Event>'))]


FEE = z3.Function('taker_fee', z3.IntSort(), z3.IntSort(), z3.IntSort())
UNFEE = z3.Function('remove_taker_fee', z3.IntSort(), z3.IntSort(), z3.IntSort())
REB = z3.Function('maker_rebate', z3.IntSort(), z3.IntSort(), z3.IntSort())
REF = z3.Function('referrer_rebate', z3.IntSort(), z3.IntSort())


def fee_axioms(x):
    """consequences of the fee contracts proved in C03 (ceil of rate*q, rate in [0.1%,0.4%])"""
    n = x.decl().name()
    if n == 'taker_fee':
        t, q = x.children()
        yield z3.And(x >= 0, z3.Implies(q >= 0, z3.And(x <= q, 1000 * x <= 4 * q + 1000)), z3.Implies(q > 0, x >= 1), z3.Implies(q == 0, x == 0))
    elif n == 'remove_taker_fee':
        t, q = x.children()
        yield z3.And(x >= 0, z3.Implies(q >= 0, x <= q))
    elif n == 'maker_rebate':
        t, q = x.children()
        yield x == 0
    elif n == 'referrer_rebate':
        (q,) = x.children()
        yield z3.And(x >= 0, 5 * x <= q, q < 5 * x + 5)


def tier(v):
    if isinstance(v, Enum): return v.d if is_z3(v.d) else z3.IntVal(v.d)
    raise Unsupported('fee tier %r' % (v,))


def install(ex):
    C = ex.contracts
    C['Slab::find_min'] = find_best('min'); C['Slab::find_max'] = find_best('max')
    C['Slab::get_mut'] = C['Slab::get'] = slab_get
    C['AnyNode::as_leaf_mut'] = C['AnyNode::as_leaf'] = as_leaf
    C['Slab::find_by'] = slab_find_by
    C['Slab::remove_by_key'] = slab_remove_by_key
    C['Slab::remove_min'] = slab_remove_end('min'); C['Slab::remove_max'] = slab_remove_end('max')
    C['Slab::insert_leaf'] = slab_insert_leaf
    C['Event::new'] = event_new; C['Event::as_view'] = event_view
    C['Queue::push_back'] = queue_push
    C['FeeTier::taker_fee'] = lambda ex, st, a, c: FEE(tier(a[0]), ex.z(a[1]))
    C['FeeTier::remove_taker_fee'] = lambda ex, st, a, c: UNFEE(tier(a[0]), ex.z(a[1]))
    C['FeeTier::maker_rebate'] = lambda ex, st, a, c: REB(tier(a[0]), ex.z(a[1]))
    C['referrer_rebate'] = C['fees::referrer_rebate'] = lambda ex, st, a, c: REF(ex.z(a[0]))
    ex.axfn.append(fee_axioms)
