"""Queue<H>: ring buffer, over both header types.  Items are opaque values (the code only copies them).

Abstraction: item i (0 <= i < count) of the queue is buf[(head + i) mod capacity]; invariant: head < capacity, count <= capacity."""
from acct import *
from verify import *

HDR = {'EventQueueHeader': 'seq_num', 'RequestQueueHeader': 'next_seq_num'}


class Q:
    def __init__(s, crate, T):
        s.ex = ex = Engine(crate); install_acct(ex)
        s.T = T
        s.st = st = State()
        s.cell, s.buf = ('QH',), ('QB',)
        s.h0 = {f: ex.int_sym('q.' + f, 'u64') for f in ('account_flags', 'head', 'count', HDR[T])}
        st.mem[s.cell] = Rec(T, None, {ex.crate.fidx(T, f): v for f, v in s.h0.items()})
        s.cap = ex.int_sym('cap', 'usize')
        s.A = z3.Array('items', z3.IntSort(), z3.IntSort())
        st.mem[s.buf] = ZArr('u128', s.A, s.cap)
        qt = 'Queue'
        st.mem[('Q',)] = Rec(qt, None, {ex.crate.fidx('Queue', 'header'): Ptr(s.cell), ex.crate.fidx('Queue', 'buf'): Ptr(s.buf)})
        s.me = Ptr(('Q',))
        ex.assume(st, z3.And(s.cap >= 1, s.cap <= 2 ** 32, s.h0['head'] >= 0, s.h0['head'] < s.cap, s.h0['count'] <= s.cap))

    def run(s, name, args):
        ex = s.ex
        c = parse_callee('state::Queue::<%s>::%s' % (s.T, name))
        f = ex.resolve_fn(c, args)
        if f is None: raise Unsupported('Queue::' + name)
        ex.inlined[f.name] = f
        ex.push(s.st, f, args, None, None, {'H': s.T})
        return [o for o in ex.run_until(s.st, 0) if o.kind == 'ret']

    def h(s, st, f): return s.ex.get1(st, st.mem[s.cell], ('f', s.ex.crate.fidx(s.T, f), 'u64'))
    def arr(s, st): return st.mem[s.buf].a


def at(A, head, i, cap): return z3.Select(A, z3.If(head + i < cap, head + i, head + i - cap))


def verify_queue(led, crate, T):
    N = T.replace('Header', '')
    seq = HDR[T]; step = 1 if T == 'EventQueueHeader' else 0
    i = z3.Int('any_i')

    def go(name, mk, spec):
        q = Q(crate, T)
        outs = q.run(name, [q.me] + mk(q))
        if not outs: raise Unsupported('no path through Queue::' + name)
        for o in outs: spec(q, o, o.st, lambda nm, g: led.prove(q.ex, o.st, '%s::%s %s' % (N, name, nm), q.ex.b(g)))
        led.note_engine(q.ex); led.add_stats(q.ex)

    def inv(q, st, ob): ob('keeps head and count within the buffer', z3.And(q.h(st, 'head') >= 0, q.h(st, 'head') < q.cap, q.h(st, 'count') >= 0, q.h(st, 'count') <= q.cap))

    def same(q, st, ob, *but):
        for f in ('account_flags', 'head', 'count', seq):
            if f not in but: ob('leaves the %s alone' % f, q.h(st, f) == q.h0[f])
        if 'items' not in but: ob('leaves the items alone', q.arr(st).eq(q.A))

    def push(q, o, st, ob):
        n, hd = q.h0['count'], q.h0['head']
        if o.val.d == 1:
            ob('fails only when full and hands the item back', z3.And(n == q.cap, q.ex.payload(st, o.val, 'Err', 0) == z3.Int('item'))); return same(q, st, ob)
        ob('succeeds only when not full', n < q.cap)
        ob('adds one item', q.h(st, 'count') == n + 1); same(q, st, ob, 'count', 'items', seq)
        ob('numbers the event', q.h(st, seq) == q.h0[seq] + step)
        ob('appends the item behind the others', at(q.arr(st), hd, n, q.cap) == z3.Int('item'))
        ob('keeps the other items in order', z3.Implies(z3.And(i >= 0, i < n), at(q.arr(st), hd, i, q.cap) == at(q.A, hd, i, q.cap)))
        inv(q, st, ob)
        led.cover(q.ex, st, N + ' wraps around on push', hd + n >= q.cap)

    def pop(q, o, st, ob):
        n, hd = q.h0['count'], q.h0['head']
        if o.val.d == 1: ob('fails only when empty', n == 0); return same(q, st, ob)
        ob('succeeds only when not empty', n > 0)
        ob('returns the oldest item', q.ex.payload(st, o.val, 'Ok', 0) == at(q.A, hd, 0, q.cap))
        ob('removes one item', q.h(st, 'count') == n - 1); same(q, st, ob, 'count', 'head')
        ob('keeps the other items in order', z3.Implies(z3.And(i >= 0, i < n - 1), at(q.arr(st), q.h(st, 'head'), i, q.cap) == at(q.A, hd, i + 1, q.cap)))
        inv(q, st, ob)
        led.cover(q.ex, st, N + ' wraps around on pop', hd == q.cap - 1)

    def peek(q, o, st, ob):
        same(q, st, ob)
        if o.val.d == 0: return ob('yields nothing only when empty', q.h0['count'] == 0)
        p = q.ex.payload(st, o.val, 'Some', 0)
        ob('yields the oldest item', z3.And(q.h0['count'] > 0, q.ex.load(st, p) == at(q.A, q.h0['head'], 0, q.cap)))
        ob('yields the item in the queue itself', isinstance(p, Ptr) and p.cell == q.buf)

    def revert(q, o, st, ob):
        n, k = q.h0['count'], z3.Int('desired')
        if o.val.d == 1: ob('fails only for more items than there are', k > n); return same(q, st, ob)
        ob('succeeds only for at most the items there are', k <= n)
        ob('keeps exactly the oldest items asked for', q.h(st, 'count') == k); same(q, st, ob, 'count', seq)
        ob('takes their numbers back', q.h(st, seq) == q.h0[seq] - step * (n - k))
        inv(q, st, ob)

    def nxt(q, o, st, ob):
        k = z3.Int('index'); same(q, st, ob)
        nk = q.ex.get1(st, st.mem[('IT',)], ('f', q.ex.crate.fidx('QueueIterator', 'index'), 'u64'))
        if o.val.d == 0: return ob('ends after the last item', z3.And(k == q.h0['count'], nk == k))
        ob('yields the items in order', z3.And(k < q.h0['count'], q.ex.load(st, q.ex.payload(st, o.val, 'Some', 0)) == at(q.A, q.h0['head'], k, q.cap), nk == k + 1))

    item = lambda q: [z3.Int('item')]
    go('push_back', item, push)
    go('pop_front', lambda q: [], pop)
    go('peek_front', lambda q: [], peek)
    go('peek_front_mut', lambda q: [], peek)
    go('revert_pushes', lambda q: [q.ex.int_sym('desired', 'u64')], revert)
    for nm, val in (('full', lambda q: q.h0['count'] == q.cap), ('empty', lambda q: q.h0['count'] == 0), ('len', lambda q: q.h0['count'])):
        go(nm, lambda q: [], lambda q, o, st, ob, val=val: (ob('tells the truth', q.ex.b(o.val) == val(q) if is_bool(o.val) else o.val == val(q)), same(q, st, ob)))
    # the iterator
    q = Q(crate, T)
    ix = q.ex.int_sym('index', 'u64')
    q.ex.assume(q.st, ix <= q.h0['count'])
    q.st.mem[('IT',)] = Rec('QueueIterator', None, {q.ex.crate.fidx('QueueIterator', 'queue'): q.me, q.ex.crate.fidx('QueueIterator', 'index'): ix})
    fs = [f for f in q.ex.crate.by_method.get('next', ()) if f.selfty and ty_head(f.selfty) == 'QueueIterator']
    if len(fs) != 1: raise Unsupported('QueueIterator::next')
    q.ex.inlined[fs[0].name] = fs[0]
    q.ex.push(q.st, fs[0], [Ptr(('IT',))], None, None, {'H': T})
    for o in q.ex.run_until(q.st, 0):
        if o.kind == 'ret': nxt(q, o, o.st, lambda nm, g: led.prove(q.ex, o.st, '%s::iter %s' % (N, nm), q.ex.b(g)))
    led.note_engine(q.ex)
    q = Q(crate, T)
    for o in q.run('iter', [q.me]):
        v = o.val
        led.prove(q.ex, o.st, '%s::iter starts with the oldest item' % N, isinstance(v, Rec) and v.f.get(q.ex.crate.fidx('QueueIterator', 'index')) == 0 and v.f.get(q.ex.crate.fidx('QueueIterator', 'queue')) == q.me)
    led.note_engine(q.ex)
