"""The slab: node allocator (SlabView for Slab) and critbit tree (find_min/max, insert_leaf, remove_by_key, remove_min/max, find_by).

Everything is bit-precise (bv.py): a node is its 72 bytes, fields are read and written at the offsets of the declared packed structs,
the node area is an array of nodes indexed by handle.

Allocator invariant (ghost: allocated set A, rank of free cells, numbering idx/inv of A):
  fll <= bump <= len;  A and free cells partition [0, bump);  the free list has ranks fll..1 along `next`, tags FreeNode.. LastFreeNode;
  A is numbered 0..bump-fll-1.
Tree invariant (T = A; PL(h) = prefix_len of an inner node, 128 of a leaf; I(h) = keys that agree with key(h) on the top PL(h) bits):
  W  an allocated node is a leaf or an inner node; an inner node's children are allocated, c_b has a longer prefix and lies in half b of I(h)
  R  every node lies in I(root) when the tree is not empty, and root is allocated
  B  a node inside I(h) other than inner h itself lies in I(c_b(h)) for the half b it is in, with a longer prefix than h
  U  two leaves have different keys
  E  bump - fll = 2*leaf_count - 1, or 0 for the empty tree
Quantified facts are instantiated at the handles a path touches and at the skolem handles of the goal."""
from bv import *

CUTS = [('tag', 0, 4), ('w4', 4, 4), ('key', 8, 16), ('c0', 24, 4), ('c1', 28, 4), ('rest', 32, 40)]
NODE = 72
HB = z3.BitVecSort(32)


def tyoff(ex, T):
    """[(offset, size, type)] of a packed struct"""
    out, o = [], 0
    for t in ex.crate.src.stypes[T]:
        s = ex.sizeof(t); out.append((o, s, t)); o += s
    return out, o


def is_node(ex, T):
    h = ty_head(T)
    if h not in ex.crate.src.stypes: return False
    try: return h.endswith('Node') and tyoff(ex, h)[1] == NODE
    except Unsupported: return False


def flat(ex, v, ty):
    """value of type ty as one bit vector (little endian)"""
    if ty in W: return fit(v, W[ty])
    m = re.match(r'^\[(.*); (\d+)\]$', ty)
    if m and isinstance(v, Arr): return z3.Concat([flat(ex, x, m.group(1)) for x in reversed(v.items)]) if len(v.items) > 1 else flat(ex, v.items[0], m.group(1))
    raise Unsupported('bits of %r: %s' % (v, ty))


def unflat(ex, b, ty):
    if ty in W: return b
    m = re.match(r'^\[(.*); (\d+)\]$', ty)
    if m:
        s = 8 * ex.sizeof(m.group(1))
        return Arr(m.group(1), [unflat(ex, piece(b, s * k + s - 1, s * k), m.group(1)) for k in range(int(m.group(2)))])
    raise Unsupported('value of type %s from bits' % ty)


def piece(v, hi, lo):
    """bits hi..lo, taken whole where they are one part of a concatenation"""
    if z3.is_app_of(v, z3.Z3_OP_CONCAT):
        o = 0
        for x in reversed(v.children()):
            if o == lo and o + x.size() - 1 == hi: return x
            if o <= lo and hi < o + x.size(): return piece(x, hi - o, lo - o)
            o += x.size()
    return z3.Extract(hi, lo, v)


class NodeV:
    """72 bytes, seen as one of the node structs"""

    def __init__(s, c, view): s.c = tuple(c); s.view = view

    def rd(s, off, size):
        ps = []
        for (n, o, z), x in zip(CUTS, s.c):
            lo, hi = max(o, off), min(o + z, off + size)
            if lo < hi: ps.append(x if hi - lo == z else z3.Extract(8 * (hi - o) - 1, 8 * (lo - o), x))
        return ps[0] if len(ps) == 1 else z3.Concat(ps[::-1])

    def wr(s, off, size, v):
        out = []
        for (n, o, z), x in zip(CUTS, s.c):
            lo, hi = max(o, off), min(o + z, off + size)
            if lo >= hi: out.append(x); continue
            nv = piece(v, 8 * (hi - off) - 1, 8 * (lo - off)) if (lo, hi) != (off, off + size) else v
            ps = []
            if lo > o: ps.append(z3.Extract(8 * (lo - o) - 1, 0, x))
            ps.append(nv)
            if hi < o + z: ps.append(z3.Extract(8 * z - 1, 8 * (hi - o), x))
            out.append(ps[0] if len(ps) == 1 else z3.simplify(z3.Concat(ps[::-1])))
        return NodeV(out, s.view)

    def get1(s, ex, st, v, p):
        if p[0] == 'cast': return Opq(p[1], NodeV(s.c, p[1]))
        if p[0] == 'f':
            o, z, t = tyoff(ex, s.view)[0][p[1]]
            return unflat(ex, s.rd(o, z), t)
        raise Unsupported('node projection %r' % (p,))

    def setp(s, ex, st, v, path, nv):
        p = path[0]
        if p[0] == 'cast':
            n = Opq(p[1], NodeV(s.c, p[1]))
            n = n.v.setp(ex, st, n, path[1:], nv) if len(path) > 1 else nv
            return Opq(s.view, NodeV(n.v.c, s.view))
        if p[0] == 'f':
            o, z, t = tyoff(ex, s.view)[0][p[1]]
            x = nv if len(path) == 1 else ex.setp(st, s.get1(ex, st, v, p), path[1:], nv)
            return Opq(s.view, s.wr(o, z, flat(ex, x, t)))
        raise Unsupported('node projection %r' % (p,))

    def eq(s, ex, st, o): return same_node(s.c, o.v.c)


def same_node(a, b): return z3.And([x == y for x, y in zip(a, b)])


class NodesV:
    """the node area: one array per cut"""

    def __init__(s, arrs, n): s.a = arrs; s.n = n
    def at(s, h): return tuple(z3.Select(x, h) for x in s.a)
    def vlen(s, ex, st): return s.n

    def get1(s, ex, st, v, p):
        if p[0] != 'i': raise Unsupported('node area projection %r' % (p,))
        h = fit(p[1], 32)
        ex.saw(st, h)
        return Opq('AnyNode', NodeV(s.at(h), 'AnyNode'))

    def setp(s, ex, st, v, path, nv):
        p = path[0]
        if p[0] != 'i': raise Unsupported('node area projection %r' % (p,))
        h = fit(p[1], 32)
        old = s.get1(ex, st, v, p)
        new = old.v.setp(ex, st, old, path[1:], nv) if len(path) > 1 else nv
        ex.wrote(st, h)
        return Opq('nodes', s.put(h, new.v.c))

    def put(s, h, c):
        return NodesV([a if x.eq(z3.Select(a, h)) else z3.Store(a, h, x) for a, x in zip(s.a, c)], s.n)


class TreeEngine(BVEngine):
    loop_mode = False
    allocator = True        # calls of SlabView::insert/remove go through their contracts

    def __init__(s, crate, led):
        BVEngine.__init__(s, crate); install_acct(s)
        s.led = led
        C = s.contracts
        for k in [k for k in C if k.split('::')[0] in ('Slab', 'AnyNode', 'LeafNode')]: del C[k]
        C['Slab::parts'] = C['Slab::parts_mut'] = lambda ex, st, a, c: Rec('(parts)', None, {0: Ptr(('HD',)), 1: Ptr(('ND',))})
        C['cast_ref'] = C['cast_mut'] = s.m_cast
        C['cast'] = s.m_castval
        C['[]::get'] = C['[]::get_mut'] = s.m_get
        C['int::leading_zeros'] = s.m_lz
        s.cands = {}; s.changed = False; s.final = False
        s.templates = lambda locs: []

    # -------------------------------------------------- models
    def m_cast(s, ex, st, a, c):
        T = ty_head(c.gen[1])
        if not is_node(ex, T) or not is_node(ex, c.gen[0]): raise Unsupported('cast to ' + c.gen[1])
        return Ptr(a[0].cell, a[0].path + (('cast', T),))

    def m_castval(s, ex, st, a, c):
        T = ty_head(c.gen[1])
        if not is_node(ex, T) or not isinstance(a[0], Opq): raise Unsupported('cast to ' + c.gen[1])
        return Opq(T, NodeV(a[0].v.c, T))

    def m_get(s, ex, st, a, c):
        v = ex.load(st, a[0])
        if not (isinstance(v, Opq) and isinstance(v.v, NodesV)): raise Unsupported('get on %r' % (v,))
        i = fit(a[1], 64)
        out = []
        for s2, t in ex.split_bool(st, z3.ULT(i, v.v.n)):
            out.append((s2, ex.some(Ptr(a[0].cell, a[0].path + (('i', i),)), '&AnyNode') if t else ex.none('&AnyNode')))
        return out

    def m_lz(s, ex, st, a, c):
        v = a[0]
        if not is_bv(v) or v.size() != 128: raise Unsupported('leading_zeros')
        if z3.is_app_of(v, z3.Z3_OP_BXOR) and v.num_args() == 2: return lcp(v.arg(0), v.arg(1))
        return lcp(v, z3.BitVecVal(0, 128))

    def binop(s, st, op, a, b, ty):
        """k & (TOP >> p), compared with zero, is bit p of k"""
        if op == 'BitAnd' and ty == 'u128':
            for x, y in ((a, b), (b, a)):
                p = topshift(x)
                if p is not None and is_bv(y): return z3.If(BIT(y, p), x, z3.BitVecVal(0, 128))
        if op in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 0 and is_bv(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and topshift(x.arg(1)) is not None:
                    r = z3.And(x.arg(0), z3.ULT(topshift(x.arg(1)), 128))
                    return r if op == 'Ne' else z3.Not(r)
        return BVEngine.binop(s, st, op, a, b, ty)

    def adt(s, st, path, fs, destty):
        r = BVEngine.adt(s, st, path, fs, destty)
        if isinstance(r, Rec) and is_node(s, r.ty):
            T = ty_head(r.ty); offs, _ = tyoff(s, T)
            n = NodeV([z3.BitVecVal(0, 8 * z) for _, _, z in CUTS], T)
            for i, (o, z, t) in enumerate(offs): n = n.wr(o, z, flat(s, r.f[i], t))
            return Opq(T, n)
        return r

    # -------------------------------------------------- hooks
    def on_assert(s, st, c, msg, fn, at):
        if s.final: s.prove(st, 'never overflows or indexes out of bounds', c, numbered(s))
        return BVEngine.on_assert(s, st, c, msg, fn, at)

    def saw(s, st, h):
        hs = st.ghost.get('hs', ())
        if not any(h.eq(x) for x in hs):
            st.ghost['hs'] = hs + (h,)
            if 'G' in st.ghost: s.assume(st, WF(st.ghost['G'], h))

    def wrote(s, st, h):
        if 'A' in st.ghost and s.led is not None and s.final:
            s.prove(st, 'writes only to nodes of the tree', z3.Select(st.ghost['A'], h), [h])

    # -------------------------------------------------- loops: candidate invariants, filtered by Houdini iterations
    def loop_entry(s, st, fr):
        body, mod = s.cfg(fr.fn)[1], s.cfg(fr.fn)[2]
        if fr.bb not in body: return None
        key = (fr.fn.name, fr.bb)
        here = [x for x in fr.inloop if x[0] == 'tree' and x[1] == fr.bb]
        locs = {l: st.mem.get(('L', fr.id, l)) for l in mod[fr.bb]}
        tys = {l: s.subst(st, fr.fn.locals.get(l, '?')) for l in locs}
        locs = {l: v for l, v in locs.items() if v is not None and tys[l] in ('u32', 'bool')}
        loc = lambda l: fit(st.mem[('L', fr.id, l)], 32) if tys[l] == 'u32' else s.b(st.mem[('L', fr.id, l)])
        if not here:
            cs = s.cands.get(key)
            if cs is None: cs = s.cands[key] = s.templates({l: tys[l] for l in locs})
            for c in list(cs):
                if any(l not in locs for l in c.locs) or not c.holds(s, st, loc): cs.remove(c); s.changed = True
            for l in mod[fr.bb]:
                cell = ('L', fr.id, l)
                if cell not in st.mem: continue
                if tys.get(l) == 'u32': st.mem[cell] = z3.BitVec(s.gensym('loop'), 32)
                elif tys.get(l) == 'bool': st.mem[cell] = z3.Bool(s.gensym('loop'))
                else: del st.mem[cell]
            for c in cs: c.assume(s, st, loc)
            fr.inloop = fr.inloop + (('tree', fr.bb, {l: st.mem[('L', fr.id, l)] for l in locs}, st.mem[('ND',)], st.mem[('HD',)]),)
            fr.visits = {}
            return None
        _, _, old, nd, hd = here[0]
        if st.mem[('ND',)] is not nd or st.mem[('HD',)] is not hd: raise Unsupported('the loop changes the tree')
        cs = s.cands[key]
        for c in list(cs):
            if not c.holds(s, st, loc): cs.remove(c); s.changed = True
        if s.final:
            g = st.ghost['G']
            hs = [l for l in old if tys[l] == 'u32' and any(c.name == 'T' and c.locs == (l,) for c in cs)]
            s.prove(st, 'descends in every iteration', z3.Or([z3.UGT(PL(g, loc(l)), PL(g, old[l])) for l in hs] + [z3.BoolVal(False)]), [loc(l) for l in hs])
        return []

    def check(s, st, goal, extra=(), deep=True):
        """is the goal implied here (with instantiated facts)?"""
        pool = facts(s, st, extra)
        if by_laws(list(st.pc) + [z3.Not(goal)], pool, 20000): return True
        if not deep: return False
        fs = list(st.pc) + pool + [z3.Not(goal)]
        sv = z3.Solver(); sv.set('timeout', 5000)
        sv.add(*fs); sv.add(*definitions(fs))
        return sv.check() == z3.unsat

    def prove(s, st, name, goal, extra=()):
        if s.led is None or not s.final: return
        n = len(s.led.tasks)
        s.led.prove(s, st, s.unit + ' ' + name, goal)
        if len(s.led.tasks) > n and 'G' in st.ghost:
            g = dict(st.ghost)
            t = s.led.tasks[-1]; neg = z3.Not(goal)

            def weak(ms):
                pool = facts(s, st, extra, g)
                if by_laws(list(t.pc) + [neg], pool, ms): return True
                t.pc = list(t.pc) + pool
                t.pc += definitions(t.pc + [neg])
                return False
            t.weak = weak


class Cand:
    """candidate loop invariant over locals: exists-free formula f(G, handles..., x) for every handle x"""

    def __init__(s, name, locs, f, quant): s.name = name; s.locs = tuple(locs); s.f = f; s.quant = quant

    def holds(s, ex, st, loc):
        vs = [loc(l) for l in s.locs]
        x = z3.BitVec('any_x', 32)
        return ex.check(st, s.f(st.ghost['G'], *vs, x) if s.quant else s.f(st.ghost['G'], *vs), [v for v in vs if is_bv(v)] + ([x] if s.quant else []))

    def assume(s, ex, st, loc):
        vs = [loc(l) for l in s.locs]
        if s.quant: st.ghost['q'] = st.ghost.get('q', ()) + ((lambda g, x: s.f(g, *vs, x)),)
        else: ex.assume(st, s.f(st.ghost['G'], *vs))
        for v in vs:
            if is_bv(v): ex.saw(st, v)


# ------------------------------------------------------------ the invariant
ONES = z3.BitVecVal(2 ** 128 - 1, 128)
TOP = z3.BitVecVal(2 ** 127, 128)
def w128(p): return z3.ZeroExt(96, p)
def mask(p): return ~z3.LShR(ONES, w128(p))
def bitat(p): return z3.LShR(TOP, w128(p))
# LCP(a, b): number of leading bits two keys share; BIT(k, p): bit p of k counted from the top (false from 128 on).  Obligations are first tried over the
# laws of these two functions (LAWS, each proved bit-precisely as a lemma), then with their definitions.
K128, B32 = z3.BitVecSort(128), z3.BitVecSort(32)
LCP = z3.Function('lcp', K128, K128, B32)
BIT = z3.Function('bit', K128, B32, z3.BoolSort())
def lcp(a, b): return z3.BitVecVal(128, 32) if a.eq(b) else LCP(a, b) if a.get_id() <= b.get_id() else LCP(b, a)
def bit(k, p): return BIT(k, p)
def agree(a, b, p): return z3.UGE(lcp(a, b), p)
def d_lcp(r, a, b): return z3.And(z3.ULE(r, 128), (a ^ b) & mask(r) == 0, (r == 128) == (a == b), z3.Implies(z3.ULT(r, 128), ((a ^ b) & bitat(r)) != 0))
def d_bit(k, p): return (k & bitat(p)) != 0


def topshift(x):
    """p if x is TOP >> p"""
    if is_bv(x) and z3.is_app_of(x, z3.Z3_OP_BLSHR) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 2 ** 127:
        p = x.arg(1)
        if z3.is_app_of(p, z3.Z3_OP_ZERO_EXT) and p.arg(0).size() == 32: return p.arg(0)


def min32(a, b): return z3.If(z3.ULE(a, b), a, b)
L_ID = lambda l, a, b: z3.And(z3.ULE(l, 128), (l == 128) == (a == b))
L_TRI = lambda ab, bc, ac: z3.UGE(ac, min32(ab, bc))
L_BIN = lambda ab, bc, ac: z3.Not(z3.And(ab == bc, bc == ac, z3.ULT(ab, 128)))    # of three keys that differ pairwise, two agree on the next bit
L_BIT = lambda l, a, b, p, ba, bb: z3.And(z3.Implies(z3.ULT(p, l), ba == bb), z3.Implies(z3.And(p == l, z3.ULT(l, 128)), ba != bb))
L_LT = lambda l, a, b, bb: z3.ULT(a, b) == z3.And(a != b, bb)              # bb: bit l of b


def laws(led):
    a, b, c = z3.BitVecs('a b c', 128); p, x, y, z = z3.BitVecs('p x y z', 32)
    led.lemma('prefix law: identity', [d_lcp(x, a, b)], L_ID(x, a, b))
    led.lemma('prefix law: shared prefixes compose', [d_lcp(x, a, b), d_lcp(y, b, c), d_lcp(z, a, c)], L_TRI(x, y, z))
    led.lemma('prefix law: keys are binary', [d_lcp(x, a, b), d_lcp(y, b, c), d_lcp(z, a, c)], L_BIN(x, y, z))
    led.lemma('prefix law: bits within and right after the shared prefix', [d_lcp(x, a, b)], L_BIT(x, a, b, p, d_bit(a, p), d_bit(b, p)))
    led.lemma('prefix law: order', [d_lcp(x, a, b)], L_LT(x, a, b, d_bit(b, x)))
    led.lemma('prefix law: leading zeros', [d_lcp(x, a, b), d_lcp(y, a ^ b, z3.BitVecVal(0, 128))], x == y)


def subterms(fs):
    seen = {}; todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen[e.get_id()] = e
        todo.extend(e.children())
    return seen.values()


def definitions(fs):
    ap = [e for e in subterms(fs) if z3.is_app(e)]
    pairs = [e for e in ap if e.decl().eq(LCP)]; bits = [e for e in ap if e.decl().eq(BIT)]
    return [d_lcp(e, e.arg(0), e.arg(1)) for e in pairs] + [e == d_bit(e.arg(0), e.arg(1)) for e in bits]


KS, RS = z3.DeclareSort('Key'), z3.DeclareSort('Bits')
iLCP = z3.Function('ilcp', KS, KS, z3.IntSort())
iBIT = z3.Function('ibit', KS, z3.IntSort(), z3.BoolSort())
iLT = z3.Function('ilt', KS, KS, z3.BoolSort())
def ilcp(a, b): return z3.IntVal(128) if a.eq(b) else iLCP(a, b) if a.get_id() <= b.get_id() else iLCP(b, a)


class Abstract:
    """Formulas over bit vectors, weakened: words of up to 64 bits become integers in range, keys and other blocks of bits become uninterpreted values."""

    def __init__(s): s.memo = {}; s.side = []; s.keep = []

    def sort(s, x):
        if x.kind() == z3.Z3_BV_SORT: return z3.IntSort() if x.size() <= 64 else KS if x.size() == 128 else RS
        if x.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(s.sort(x.domain()), s.sort(x.range()))
        return x

    def leaf(s, e):
        r = z3.Const('@%d' % e.get_id() if e.num_args() else e.decl().name(), s.sort(e.sort()))
        return s.ranged(e, r)

    def ranged(s, e, r):
        if z3.is_bv(e) and e.size() <= 64: s.side.append(z3.And(r >= 0, r < 2 ** e.size()))
        return r

    def __call__(s, e):
        todo = [e]
        while todo:
            x = todo[-1]
            if x.get_id() in s.memo: todo.pop(); continue
            miss = [c for c in x.children() if c.get_id() not in s.memo]
            if miss: todo.extend(miss); continue
            todo.pop()
            s.keep.append(x)
            s.memo[x.get_id()] = s.one(x, [s.memo[c.get_id()] for c in x.children()])
        return s.memo[e.get_id()]

    def one(s, e, a):
        k = e.decl().kind()
        small = all(c.size() <= 64 for c in e.children() if z3.is_bv(c))
        if z3.is_bv_value(e): return z3.IntVal(e.as_long()) if e.size() <= 64 else s.leaf_val(e)
        if e.num_args() == 0: return e if z3.is_bool(e) else s.leaf(e)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR): return (z3.And if k == z3.Z3_OP_AND else z3.Or)(*a)
        if k == z3.Z3_OP_NOT: return z3.Not(a[0])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(*a)
        if k == z3.Z3_OP_XOR: return z3.Xor(*a)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF: return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*a)
        if k == z3.Z3_OP_ITE: return z3.If(*a)
        if k == z3.Z3_OP_SELECT: return s.ranged(e, z3.Select(*a))
        if k == z3.Z3_OP_STORE: return z3.Store(*a)
        c = {z3.Z3_OP_ULT: lambda x, y: x < y, z3.Z3_OP_ULEQ: lambda x, y: x <= y, z3.Z3_OP_UGT: lambda x, y: x > y, z3.Z3_OP_UGEQ: lambda x, y: x >= y}.get(k)
        if c and small: return c(*a)
        if c and e.arg(0).size() == 128: return {z3.Z3_OP_ULT: iLT(a[0], a[1]), z3.Z3_OP_UGT: iLT(a[1], a[0]), z3.Z3_OP_ULEQ: z3.Not(iLT(a[1], a[0])), z3.Z3_OP_UGEQ: z3.Not(iLT(a[0], a[1]))}[k]
        if e.decl().eq(LCP): return ilcp(*a)
        if e.decl().eq(BIT): return iBIT(*a)
        if small and z3.is_bv(e) and e.size() <= 64:
            m = 2 ** e.size()
            if k == z3.Z3_OP_ZERO_EXT: return a[0]
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = e.params()
                return (a[0] if lo == 0 else a[0] / (2 ** lo)) % m
            if k == z3.Z3_OP_BADD and len(a) == 2: return z3.If(a[0] + a[1] < m, a[0] + a[1], a[0] + a[1] - m)
            if k == z3.Z3_OP_BSUB and len(a) == 2: return z3.If(a[0] >= a[1], a[0] - a[1], a[0] - a[1] + m)
            if k == z3.Z3_OP_BMUL and len(a) == 2 and z3.is_int_value(a[1]): return (a[0] * a[1]) % m
            if k == z3.Z3_OP_BMUL and len(a) == 2 and z3.is_int_value(a[0]): return (a[0] * a[1]) % m
        if k == z3.Z3_OP_UNINTERPRETED and not z3.is_array(e): return s.ranged(e, z3.Function(e.decl().name() + '_', *[x.sort() for x in a], s.sort(e.sort()))(*a))
        return s.leaf(e)

    def leaf_val(s, e): return z3.Const('#%d_%d' % (e.size(), e.as_long()), s.sort(e.sort()))


def by_laws(core, pool, ms):
    """are the formulas contradictory by the prefix laws alone?  Formulas of the pool and instances of the laws are added where the candidate model breaks them."""
    tr = Abstract()
    core = [tr(f) for f in core]; pool = [tr(f) for f in pool] + tr.side
    fs = core + pool
    keys, bits, cmps = {}, [], []
    for e in subterms(fs):
        if not z3.is_app(e): continue
        d = e.decl()
        if d.eq(iLCP) or d.eq(iLT):
            keys[e.arg(0).get_id()] = e.arg(0); keys[e.arg(1).get_id()] = e.arg(1)
            if d.eq(iLT): cmps.append((e.arg(0), e.arg(1)))
        elif d.eq(iBIT): bits.append(e); keys[e.arg(0).get_id()] = e.arg(0)
    ks = list(keys.values())
    ps = list({e.arg(1).get_id(): e.arg(1) for e in bits}.values())
    sv = z3.Solver(); sv.add(*core)
    end = time.time() + ms / 1000
    n = len(ks)
    L = {(i, j): ilcp(ks[i], ks[j]) for i in range(n) for j in range(i + 1, n)}
    idx = {k.get_id(): i for i, k in enumerate(ks)}
    le = lambda i, j: L[(i, j) if i < j else (j, i)]
    for a, b in cmps:
        i, j = idx[a.get_id()], idx[b.get_id()]
        if i == j: sv.add(z3.Not(iLT(a, b))); continue
        sv.add(iLT(a, b) == z3.And(a != b, iBIT(b, le(i, j))))
        if not any(le(i, j).eq(q) for q in ps): ps.append(le(i, j))
    for l in L.values(): sv.add(l >= 0, l <= 128)
    done = set()
    while True:
        left = int((end - time.time()) * 1000)
        if left <= 0: return False
        sv.set('timeout', left)
        r = sv.check()
        if r != z3.sat: return r == z3.unsat
        m = sv.model()
        ev = lambda e: m.eval(e, True)
        bad = [f for f in pool if not z3.is_true(ev(f))]
        if bad:
            sv.add(*bad); ids = {f.get_id() for f in bad}; pool = [f for f in pool if f.get_id() not in ids]
            continue
        kv = [str(ev(k)) for k in ks]
        lv = {p: ev(e).as_long() for p, e in L.items()}
        lc = lambda i, j: 128 if i == j else lv[(i, j) if i < j else (j, i)]
        add = []
        for (i, j), v in lv.items():
            if (v == 128) != (kv[i] == kv[j]): add.append((('id', i, j), lambda i=i, j=j: (le(i, j) == 128) == (ks[i] == ks[j])))
        if ps:
            pv = [ev(p).as_long() for p in ps]
            bv = [[z3.is_true(ev(iBIT(k, p))) for p in ps] for k in ks]
            for (i, j), v in lv.items():
                for q in range(len(ps)):
                    if (pv[q] < v and bv[i][q] != bv[j][q]) or (pv[q] == v < 128 and bv[i][q] == bv[j][q]):
                        add.append((('bit', i, j, q), lambda i=i, j=j, q=q: z3.And(z3.Implies(ps[q] < le(i, j), iBIT(ks[i], ps[q]) == iBIT(ks[j], ps[q])),
                                                                                 z3.Implies(z3.And(ps[q] == le(i, j), ps[q] < 128), iBIT(ks[i], ps[q]) != iBIT(ks[j], ps[q])))))
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(n):
                    if k != i and k != j and lc(i, j) < min(lc(i, k), lc(k, j)):
                        add.append((('tri', i, j, k), lambda i=i, j=j, k=k: z3.Or(le(i, j) >= le(i, k), le(i, j) >= le(k, j))))
                    if i < j < k and lc(i, j) == lc(j, k) == lc(i, k) < 128:
                        add.append((('bin', i, j, k), lambda i=i, j=j, k=k: z3.Not(z3.And(le(i, j) == le(j, k), le(j, k) == le(i, k), le(i, j) < 128))))
        new = [x for x in add if x[0] not in done]
        if not new: return False
        for key, f in new: done.add(key); sv.add(f())


class G:
    """a state of the slab: node arrays, allocated set, header"""

    def __init__(s, nd, A, hd): s.nd = nd; s.A = A; s.__dict__.update(hd)
    def c(s, h, name): return z3.Select(s.nd.a[[x[0] for x in CUTS].index(name)], h)
    def T(s, h): return z3.Select(s.A, h)
    def tag(s, h): return s.c(h, 'tag')
    def key(s, h): return s.c(h, 'key')
    def inner(s, h): return s.tag(h) == 1
    def leaf(s, h): return z3.And(s.T(h), s.tag(h) == 2)
    def ch(s, h, b): return s.c(h, 'c1' if b else 'c0')


def PL(g, h): return z3.If(g.inner(h), g.c(h, 'w4'), z3.BitVecVal(128, 32))
def inn(g, k, h): return agree(k, g.key(h), PL(g, h))                     # k in I(h)
def sub(g, x, h): return z3.And(z3.UGE(PL(g, x), PL(g, h)), inn(g, g.key(x), h))


def WF(g, h):
    p = g.c(h, 'w4')
    kids = []
    for b in (0, 1):
        c = g.ch(h, b)
        kids += [g.T(c), z3.UGT(PL(g, c), p), agree(g.key(c), g.key(h), p), bit(g.key(c), p) == bool(b)]
    return z3.Implies(g.T(h), z3.And(z3.ULT(z3.ZeroExt(32, h), g.nd.n), z3.Or(g.tag(h) == 1, g.tag(h) == 2), z3.Implies(g.inner(h), z3.And([z3.ULE(p, 127)] + kids))))


def INROOT(g, x): return z3.Implies(g.T(x), z3.And(g.lc != 0, g.T(g.root), sub(g, x, g.root)))


def BELOW(g, h, x):
    b = bit(g.key(x), PL(g, h))
    return z3.Implies(z3.And(g.T(h), g.inner(h), g.T(x), x != h, sub(g, x, h)),
                      z3.And(z3.UGT(PL(g, x), PL(g, h)), z3.If(b, sub(g, x, g.ch(h, 1)), sub(g, x, g.ch(h, 0)))))


def UNIQ(g, x, y): return z3.Implies(z3.And(g.leaf(x), g.leaf(y), x != y), g.key(x) != g.key(y))


def GLOB(g):
    return z3.And(z3.ULE(g.fll, g.bump), z3.ULE(g.bump, g.nd.n), z3.ULT(g.nd.n, 2 ** 32), z3.Implies(g.lc == 0, g.bump == g.fll), z3.Implies(g.lc != 0, z3.And(g.bump - g.fll == g.lc * 2 - 1, z3.ULT(g.lc, 2 ** 32), g.T(g.root))))


def facts(ex, st, extra, gh=None):
    gh = gh or st.ghost
    g = gh['G']
    hs = []
    for h in gh.get('hs', ()) + tuple(extra) + (g.root,):
        if not any(h.eq(x) for x in hs): hs.append(h)
    out = [GLOB(g)]
    i = z3.Function('idx', HB, z3.BitVecSort(64))
    n0, n1 = z3.BitVec('node_nr_0', 32), z3.BitVec('node_nr_1', 32)
    out += [z3.Implies(z3.UGT(g.bump - g.fll, 0), z3.And(g.T(n0), i(n0) == 0)), z3.Implies(z3.UGT(g.bump - g.fll, 1), z3.And(g.T(n1), i(n1) == 1))]
    for h in hs:
        out += [WF(g, h), INROOT(g, h)]
        for q in gh.get('q', ()): out.append(q(g, h))
        for x in hs:
            if h.eq(x): continue
            out.append(BELOW(g, h, x))
            if h.get_id() < x.get_id(): out += [UNIQ(g, h, x), NUM(g, h, x)]
    return out


def NUM(g, x, y):
    """allocated nodes are numbered below bump - fll"""
    i = z3.Function('idx', HB, z3.BitVecSort(64))
    n = g.bump - g.fll
    return z3.And(z3.Implies(g.T(x), z3.ULT(i(x), n)), z3.Implies(g.T(y), z3.ULT(i(y), n)), z3.Implies(z3.And(g.T(x), g.T(y), x != y), i(x) != i(y)))


HDR = ('bump_index', 'free_list_len', 'free_list_head', 'root_node', 'leaf_count')


def start(crate, led, unit, tree=True, cls=None):
    ex = (cls or TreeEngine)(crate, led); ex.unit = unit
    st = State()
    n = z3.BitVec('len', 64)
    nd = NodesV([z3.Array('node.' + nm, HB, z3.BitVecSort(8 * z)) for nm, o, z in CUTS], n)
    st.mem[('ND',)] = Opq('nodes', nd)
    tys = dict(zip(ex.crate.structs['SlabHeader'], ex.crate.src.stypes['SlabHeader']))
    if set(tys) != set(HDR): raise Unsupported('slab header')
    h = {f: z3.BitVec('hd.' + f, W[t]) for f, t in tys.items()}
    st.mem[('HD',)] = Rec('SlabHeader', None, {ex.crate.fidx('SlabHeader', f): v for f, v in h.items()})
    st.mem[('SLAB',)] = Opq('Slab', None)
    A = z3.Array('allocated', HB, z3.BoolSort())
    ex.g0 = G(nd, A, dict(bump=h['bump_index'], fll=h['free_list_len'], head=h['free_list_head'], root=h['root_node'], lc=h['leaf_count']))
    if tree:
        st.ghost['G'] = ex.g0; st.ghost['A'] = A
        ex.assume(st, GLOB(ex.g0))
        ex.contracts['Slab::insert'] = c_insert; ex.contracts['Slab::remove'] = c_remove
        ex.loop_specs = {'': 1}
    return ex, st


def now(ex, st):
    hd = st.mem[('HD',)]
    f = lambda n, w: fit(hd.f[ex.crate.fidx('SlabHeader', n)], w)
    return G(st.mem[('ND',)].v, st.ghost['A'], dict(bump=f('bump_index', 64), fll=f('free_list_len', 64), head=f('free_list_head', 32), root=f('root_node', 32), lc=f('leaf_count', 64)))


def sethd(ex, st, **k):
    hd = st.mem[('HD',)]
    for n, v in k.items(): hd = hd.set(ex.crate.fidx('SlabHeader', n), v)
    st.mem[('HD',)] = hd


# ------------------------------------------------------------ allocator contracts, as used by the tree
def owned(ex, st):
    """the allocator's header fields change only through the allocator"""
    g = now(ex, st); b = st.ghost.get('alloc') or (ex.g0.bump, ex.g0.fll, ex.g0.head)
    ask(ex, st, 'leaves the allocator fields to the allocator', z3.And(g.bump == b[0], g.fll == b[1], g.head == b[2]))


def ask(ex, st, name, goal, extra=()):
    ex.prove(st, name, goal, extra)


def c_insert(ex, st, a, c):
    """Err iff no cell is free, nothing changes; Ok(h): h was not allocated, now holds the node, nothing else changes"""
    owned(ex, st)
    v = ex.load(st, a[1])
    tag = v.v.rd(0, 4)
    ask(ex, st, 'stores only leaves and inner nodes', z3.Or(tag == 1, tag == 2))
    g = now(ex, st)
    none = z3.And(g.fll == 0, g.bump == g.nd.n)
    s2 = st.fork()
    ex.assume(s2, none)
    ex.assume(st, z3.Not(none))
    h = z3.BitVec(ex.gensym('new'), 32)
    nb, nf = z3.BitVec(ex.gensym('bump'), 64), z3.BitVec(ex.gensym('fll'), 64)
    ex.assume(st, z3.And(z3.Not(g.T(h)), z3.ULT(z3.ZeroExt(32, h), g.nd.n), z3.ULE(nf, nb), z3.ULE(nb, g.nd.n), nb - nf == g.bump - g.fll + 1))
    st.mem[('ND',)] = Opq('nodes', g.nd.put(h, v.v.c))
    st.ghost['A'] = z3.Store(st.ghost['A'], h, True)
    st.ghost['fresh'] = st.ghost.get('fresh', ()) + (h,)
    hd = z3.BitVec(ex.gensym('head'), 32)
    sethd(ex, st, bump_index=nb, free_list_len=nf, free_list_head=hd); st.ghost['alloc'] = (nb, nf, hd)
    ex.saw(st, h)
    return [(st, ex.ok(h, 'Result<u32, ()>'))] + ([(s2, ex.err(UNIT, 'Result<u32, ()>'))] if ex.feasible(s2, z3.And(none)) else [])


def c_remove(ex, st, a, c):
    """requires an allocated handle; returns its node and frees it, nothing else changes"""
    owned(ex, st)
    h = fit(a[1], 32)
    g = now(ex, st)
    ask(ex, st, 'frees only nodes of the tree', g.T(h), [h])
    v = Opq('AnyNode', NodeV(g.nd.at(h), 'AnyNode'))
    nb, nf = z3.BitVec(ex.gensym('bump'), 64), z3.BitVec(ex.gensym('fll'), 64)
    ex.assume(st, z3.And(z3.ULE(nf, nb), z3.ULE(nb, g.nd.n), nb - nf == g.bump - g.fll - 1))
    st.mem[('ND',)] = Opq('nodes', g.nd.put(h, [z3.BitVec(ex.gensym('freed'), 8 * z) for _, _, z in CUTS]))
    st.ghost['A'] = z3.Store(st.ghost['A'], h, False)
    hd = z3.BitVec(ex.gensym('head'), 32)
    sethd(ex, st, bump_index=nb, free_list_len=nf, free_list_head=hd); st.ghost['alloc'] = (nb, nf, hd)
    ex.saw(st, h)
    return ex.some(v, 'AnyNode')


def stored(*arrs):
    """handles at which the arrays have been written"""
    out = []
    for a in arrs:
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if not any(a.arg(1).eq(x) for x in out): out.append(a.arg(1))
            a = a.arg(0)
    return out


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def reduce(e, apart, memo):
    """select over store, where the handles are the same term or known to differ; constant folding"""
    r = memo.get(e.get_id())
    if r is not None: return r[1]
    a = [reduce(c, apart, memo) for c in e.children()]
    r = e.decl()(*a) if a and any(x is not y for x, y in zip(a, e.children())) else e
    k = r.decl().kind()
    if k == z3.Z3_OP_SELECT:
        arr, j = r.arg(0), r.arg(1)
        while z3.is_app_of(arr, z3.Z3_OP_STORE):
            i = arr.arg(1)
            if i.eq(j): r = arr.arg(2); break
            if frozenset((i.get_id(), j.get_id())) not in apart: break
            arr = arr.arg(0); r = z3.Select(arr, j)
        if not r.eq(e): r = reduce(r, apart, memo)
    elif k == z3.Z3_OP_ITE:
        c = r.arg(0)
        r = r.arg(1) if z3.is_true(c) else r.arg(2) if z3.is_false(c) else r.arg(1) if r.arg(1).eq(r.arg(2)) else r
    elif a and all(z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x) for x in a): r = z3.simplify(r)
    elif k == z3.Z3_OP_EQ and a[0].eq(a[1]): r = TRUE
    elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        d, u = (z3.is_false, z3.is_true) if k == z3.Z3_OP_AND else (z3.is_true, z3.is_false)
        if any(d(x) for x in a): r = FALSE if k == z3.Z3_OP_AND else TRUE
        else:
            a = [x for x in a if not u(x)]
            r = (TRUE if k == z3.Z3_OP_AND else FALSE) if not a else a[0] if len(a) == 1 else (z3.And if k == z3.Z3_OP_AND else z3.Or)(a)
    elif k == z3.Z3_OP_NOT and (z3.is_true(a[0]) or z3.is_false(a[0])): r = z3.BoolVal(z3.is_false(a[0]))
    memo[e.get_id()] = (e, r)
    return r


def conds(e, out):
    """atoms deciding the conditionals of a term"""
    for x in subterms([e]):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            for y in subterms([x.arg(0)]):
                if z3.is_bool(y) and (y.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ)) and not any(y.eq(o) for o in out): out.append(y)
    return out


def split(ex, o, ob, name, vs, f):
    """f(handles...) = (goal, extra) for all handles: one obligation per choice of each being one of the written nodes or none of them, and of what the
    conditionals and children in the extra handles are"""
    g = now(ex, o.st)
    ws = stored(g.A, *g.nd.a)
    if 'apart' not in o.st.ghost:
        o.st.ghost['apart'] = frozenset(frozenset((a.get_id(), b.get_id())) for a, b in itertools.combinations(ws, 2) if ex.check(o.st, a != b, [a, b]))
    pairs = lambda us, ws: {frozenset((u.get_id(), w.get_id())) for u in us for w in ws}
    for pick in itertools.product(ws + [None], repeat=len(vs)):
        hs = [v if p is None else p for v, p in zip(vs, pick)]
        free = [v for v, p in zip(vs, pick) if p is None]
        goal, extra = f(g, *hs)
        apart = o.st.ghost['apart'] | pairs(free, ws)
        hyp = [v != w for v in free for w in ws]
        memo = {}
        goal = reduce(goal, apart, memo); extra = [reduce(e, apart, memo) for e in extra]
        atoms = [(c, None) for e in extra for c in conds(e, [])]
        atoms = [a for i, a in enumerate(atoms) if not any(a[0].eq(b[0]) for b in atoms[:i])][:4]
        kids = [e for e in extra if z3.is_app_of(e, z3.Z3_OP_SELECT)]
        if kids:
            par = z3.And(reduce(g.T(hs[0]), apart, {}), reduce(g.inner(hs[0]), apart, {}))
            ob(name, z3.Implies(z3.And(hyp + [z3.Not(par)]), goal), hs + extra)
            new = []
            for e in kids:
                for w in ws:
                    if any(w.eq(f) for f in o.st.ghost.get('fresh', ())):
                        if len(vs) == 1: ob(name + ' (fresh cells are nobody\'s child)', z3.Implies(z3.And(hyp + [par]), e != w), [hs[0], e, w])
                        apart = apart | pairs([e], [w]); new.append(e != w)
                    else: atoms.append((e, w))
            hyp = hyp + [par] + new
        for bits in itertools.product((True, False), repeat=len(atoms)):
            memo, ap, h2 = {}, apart, list(hyp)
            if any(b and b2 and a[1] is not None and a2[1] is not None and a[0].eq(a2[0]) for (a, b), (a2, b2) in itertools.combinations(list(zip(atoms, bits)), 2)): continue
            for (a, w), b in zip(atoms, bits):
                c = a if w is None else a == w
                h2.append(c if b else z3.Not(c))
                if w is None: memo[a.get_id()] = (a, TRUE if b else FALSE)
                elif b: memo[a.get_id()] = (a, w)
                else: ap = ap | pairs([a], [w])
            gl = reduce(goal, ap, memo); ext = [reduce(e, ap, memo) for e in extra]
            ob(name, z3.Implies(z3.And(h2), gl) if h2 else gl, hs + ext)


def tree_inv(ex, o, ob):
    """the invariant after the operation"""
    h, x = z3.BitVec('any_h', 32), z3.BitVec('any_x', 32)
    kids = lambda g, h: [g.ch(h, 0), g.ch(h, 1)]
    split(ex, o, ob, 'keeps every node well formed', [h], lambda g, h: (WF(g, h), kids(g, h)))
    split(ex, o, ob, 'keeps every node below the root', [x], lambda g, x: (INROOT(g, x), []))
    split(ex, o, ob, 'keeps every node reachable by its key', [h, x], lambda g, h, x: (BELOW(g, h, x), kids(g, h)))
    split(ex, o, ob, 'keeps keys unique', [h, x], lambda g, h, x: (UNIQ(g, h, x), []))
    ob('keeps the node count in step with the leaf count', GLOB(now(ex, o.st)), [])


def go(ex, st, name, args, locs=12):
    """explore until the candidate invariants are stable, then once more emitting obligations"""
    f = ex.crate.find('Slab', name)
    if len(f) != 1: raise Unsupported('Slab::' + name)
    ex.inlined[f[0].name] = f[0]
    for _ in range(locs):
        ex.changed = False; ex.final = False
        s = st.fork()
        ex.run(f[0], list(args), s)
        if not ex.changed: break
    else: raise Unsupported('loop invariants did not stabilise')
    ex.final = True
    ex.panics = []
    s = st.fork()
    outs = ex.run(f[0], list(args), s)
    return outs


def never_aborts(ex, outs, ob):
    for o in outs:
        if o.kind == 'panic': ob(o, 'never aborts', z3.BoolVal(False), [])


# ------------------------------------------------------------ loop invariant templates
def per(locs, ty): return [l for l, t in locs.items() if t == ty]
def cT(l): return Cand('T', (l,), lambda g, v: g.T(v), False)
def beyond(g, x, v, up): return z3.Implies(g.leaf(x), z3.Or(inn(g, g.key(x), v), z3.UGT(g.key(x), g.key(v)) if up else z3.ULT(g.key(x), g.key(v))))


def t_minmax(locs):
    return [c for l in per(locs, 'u32') for c in (cT(l), Cand('above', (l,), lambda g, v, x: beyond(g, x, v, True), True), Cand('below', (l,), lambda g, v, x: beyond(g, x, v, False), True))]


def obs(led, ex, o):
    return lambda name, goal, extra=(): ex.prove(o.st, name, goal, extra)


def frame(ex, o, ob):
    g = now(ex, o.st); z = ex.g0; x = z3.BitVec('any_x', 32)
    ob('changes nothing', z3.And([getattr(g, k) == getattr(z, k) for k in ('bump', 'fll', 'head', 'root', 'lc')] + [g.T(x) == z.T(x), same_node(g.nd.at(x), z.nd.at(x))]), [x])


def unopt(ex, o, V='Some'):
    """(condition under which it is Some, payload)"""
    v = o.val
    if not isinstance(v.d, int): raise Unsupported('undetermined result')
    return v.d


def verify_minmax(led, crate, name, up):
    ex, st = start(crate, led, 'Slab::' + name)
    ex.templates = t_minmax
    outs = go(ex, st, name, [Ptr(('SLAB',))])
    x = z3.BitVec('any_x', 32); g = ex.g0
    for o in outs:
        ob = obs(led, ex, o)
        if o.kind == 'panic': ob('never aborts', z3.BoolVal(False)); continue
        frame(ex, o, ob)
        if o.val.d == 0: ob('finds nothing only in an empty tree', g.lc == 0); led.cover(ex, o.st, ex.unit + ' none'); continue
        h = fit(ex.payload(o.st, o.val, 'Some', 0), 32)
        ob('finds a leaf', g.leaf(h), [h])
        ob('finds the ' + ('smallest' if up else 'largest') + ' key', z3.Implies(g.leaf(x), z3.ULE(g.key(h), g.key(x)) if up else z3.UGE(g.key(h), g.key(x))), [h, x])
        led.cover(ex, o.st, ex.unit + ' some')
    led.note_engine(ex); led.add_stats(ex)


def t_insert(nk):
    def f(locs):
        cs = []
        for l in per(locs, 'u32'):
            cs += [cT(l),
                   Cand('path', (l,), lambda g, v, y: z3.Implies(z3.And(g.T(y), y != v, sub(g, v, y)), agree(nk, g.key(v), PL(g, y) + 1)), True),
                   Cand('aside', (l,), lambda g, v, x: z3.Implies(g.T(x), z3.Or(sub(g, x, v), sub(g, v, x), z3.UGT(lcp(nk, g.key(v)), lcp(g.key(x), g.key(v))))), True)]
        return cs
    return f


def leaf_val(nm): return Opq('LeafNode', NodeV([z3.BitVec('%s.%s' % (nm, n), 8 * z) for n, o, z in CUTS], 'LeafNode'))


def survive(ex, st, frm, to, x, but=()):
    """the leaf x of state frm is, content and all, a leaf of state to"""
    hs = [x] + list(st.ghost.get('hs', ()))
    return z3.Implies(z3.And([frm.leaf(x)] + list(but)), z3.Or([z3.And(to.leaf(y), same_node(frm.nd.at(x), to.nd.at(y))) for y in hs]))


def u_insert(led, crate):
    ex, st = start(crate, led, 'Slab::insert_leaf')
    new = leaf_val('new'); st.mem[('NEW',)] = new
    nc = new.v.c; nk = nc[2]
    ex.assume(st, nc[0] == 2)
    ex.templates = t_insert(nk)
    outs = go(ex, st, 'insert_leaf', [Ptr(('SLAB',)), Ptr(('NEW',))])
    x = z3.BitVec('any_x', 32); z = ex.g0
    for o in outs:
        ob = obs(led, ex, o)
        if o.kind == 'panic': ob('never aborts', z3.BoolVal(False)); continue
        g = now(ex, o.st)
        owned(ex, o.st)
        if o.val.d == 1:
            ob('fails only when fewer than two cells are free (one for an empty tree)', z3.UGT(z3.If(z.lc == 0, z3.BitVecVal(1, 64), z.bump - z.fll + 2), z.nd.n))
            ob('changes nothing when it fails', z3.And(g.lc == z.lc, z3.Or(z.lc == 0, g.root == z.root), g.bump - g.fll == z.bump - z.fll, g.T(x) == z.T(x), z3.Implies(z.T(x), same_node(g.nd.at(x), z.nd.at(x)))), [x])
            led.cover(ex, o.st, ex.unit + ' out of space'); continue
        p = ex.payload(o.st, o.val, 'Ok', 0)
        h, old = fit(p.f[0], 32), p.f[1]
        tree_inv(ex, o, ob)
        ob('stores the leaf under the handle it returns', z3.And(g.leaf(h), same_node(g.nd.at(h), nc)), [h])
        if old.d == 1:
            lf = ex.payload(o.st, old, 'Some', 0)
            ob('returns the leaf it replaces', z3.And(z.leaf(h), z.key(h) == nk, same_node(lf.v.c, z.nd.at(h)), g.lc == z.lc), [h])
            ob('keeps every other leaf', survive(ex, o.st, z, g, x, [x != h]), [x, h]); ob('adds no other leaf', survive(ex, o.st, g, z, x, [x != h]), [x, h])
            led.cover(ex, o.st, ex.unit + ' replaces')
        else:
            ob('replaces nothing only if the key is new', z3.Implies(z.leaf(x), z.key(x) != nk), [x, h])
            ob('counts the leaf', g.lc == z.lc + 1)
            ob('keeps every other leaf', survive(ex, o.st, z, g, x), [x, h]); ob('adds no other leaf', survive(ex, o.st, g, z, x, [x != h]), [x, h])
            led.cover(ex, o.st, ex.unit + ' adds to an empty tree', z.lc == 0); led.cover(ex, o.st, ex.unit + ' adds', z.lc != 0)
    led.note_engine(ex); led.add_stats(ex)


def t_remove(sk):
    def f(locs):
        us = per(locs, 'u32'); cs = []
        for l in us:
            cs += [cT(l), Cand('onpath', (l,), lambda g, v, x: z3.Implies(z3.And(g.leaf(x), g.key(x) == sk), inn(g, sk, v)), True)]
            for m in us:
                if m == l: continue
                for b in per(locs, 'bool'):
                    cs.append(Cand('child', (l, m, b), lambda g, p, c, b: z3.And(g.T(p), g.inner(p), c == z3.If(b, g.ch(p, 1), g.ch(p, 0))), False))
        return cs
    return f


def removed(ex, o, ob, led, sk, lf):
    """posts of a removal: the leaf with key sk, or nothing"""
    x = z3.BitVec('any_x', 32); z = ex.g0; g = now(ex, o.st)
    if o.val.d == 0:
        ob('returns nothing only if no leaf has the key', z3.Implies(z.leaf(x), z.key(x) != sk), [x])
        frame(ex, o, ob); led.cover(ex, o.st, ex.unit + ' none'); return
    hs = list(o.st.ghost.get('hs', ()))
    ob('returns the leaf with the key', z3.Or([z3.And(z.leaf(y), z.key(y) == sk, same_node(z.nd.at(y), lf)) for y in hs + [z.root]]))
    ob('takes that leaf out', z3.Implies(g.leaf(x), g.key(x) != sk), [x])
    ob('keeps every other leaf', survive(ex, o.st, z, g, x, [z.key(x) != sk]), [x]); ob('adds no leaf', survive(ex, o.st, g, z, x), [x])
    ob('counts the leaf', g.lc == z.lc - 1)
    tree_inv(ex, o, ob)


def u_remove(led, crate):
    ex, st = start(crate, led, 'Slab::remove_by_key')
    sk = z3.BitVec('search_key', 128)
    ex.templates = t_remove(sk)
    outs = go(ex, st, 'remove_by_key', [Ptr(('SLAB',)), sk])
    for o in outs:
        ob = obs(led, ex, o)
        if o.kind == 'panic': ob('never aborts', z3.BoolVal(False), numbered(ex)); continue
        owned(ex, o.st)
        removed(ex, o, ob, led, sk, ex.payload(o.st, o.val, 'Some', 0).v.c if o.val.d == 1 else None)
        if o.val.d == 1: led.cover(ex, o.st, ex.unit + ' last leaf', ex.g0.lc == 1); led.cover(ex, o.st, ex.unit + ' one of many', ex.g0.lc != 1)
    led.note_engine(ex); led.add_stats(ex)


def numbered(ex):
    """the nodes numbered 0 and 1"""
    return [z3.BitVec('node_nr_0', 32), z3.BitVec('node_nr_1', 32)]


# ------------------------------------------------------------ the allocator
class AG(G):
    """slab state with the allocator's ghost state"""
    def free(s, h): return z3.Select(s.rank, h) != 0
    @property
    def n(s): return s.bump - s.fll


def a_glob(g): return z3.And(z3.ULE(g.fll, g.bump), z3.ULE(g.bump, g.nd.n), z3.ULT(g.nd.n, 2 ** 32), z3.Implies(g.fll != 0, z3.And(z3.ULT(w64(g.head), g.bump), z3.Select(g.rank, g.head) == g.fll)))
def w64(h): return z3.ZeroExt(32, h)


def a_cell(g, h):
    r = z3.Select(g.rank, h); nx = g.c(h, 'w4')
    return z3.And(z3.Implies(z3.ULT(w64(h), g.bump), g.T(h) != g.free(h)), z3.Implies(z3.UGE(w64(h), g.bump), z3.And(z3.Not(g.T(h)), z3.Not(g.free(h)))),
                  z3.Implies(g.T(h), z3.Or(g.tag(h) == 1, g.tag(h) == 2)),
                  z3.Implies(g.free(h), z3.And(z3.ULE(r, g.fll), g.tag(h) == z3.If(r == 1, z3.BitVecVal(4, 32), z3.BitVecVal(3, 32)), z3.Implies(r != 1, z3.And(z3.ULT(w64(nx), g.bump), z3.Select(g.rank, nx) == r - 1)))))


def a_pair(g, x, y): return z3.Implies(z3.And(x != y, g.free(x), g.free(y)), z3.Select(g.rank, x) != z3.Select(g.rank, y))
def a_num(g, h): return z3.Implies(g.T(h), z3.And(z3.ULT(z3.Select(g.idx, h), g.n), z3.Select(g.inv, z3.Select(g.idx, h)) == h))
def a_inv(g, i): return z3.Implies(z3.ULT(i, g.n), z3.And(g.T(z3.Select(g.inv, i)), z3.Select(g.idx, z3.Select(g.inv, i)) == i))


def a_state(ex, st, A, rank, idx, inv):
    b = now0(ex, st, A)
    g = AG(b.nd, A, dict(bump=b.bump, fll=b.fll, head=b.head, root=b.root, lc=b.lc)); g.rank, g.idx, g.inv = rank, idx, inv
    return g


def now0(ex, st, A):
    s = st.fork(); s.ghost['A'] = A
    return now(ex, s)


def a_facts(g, hs, ns):
    out = [a_glob(g)]
    hs = hs + [g.c(h, 'w4') for h in hs] + [z3.Select(g.inv, i) for i in ns]
    for h in hs:
        out += [a_cell(g, h), a_num(g, h)]
        out += [a_pair(g, h, k) for k in hs if not k.eq(h)]
    return out + [a_inv(g, i) for i in ns]


def u_alloc(led, crate):
    S = lambda n, *s: z3.Array(n, *s)
    I64 = z3.BitVecSort(64)
    for name in ('insert', 'remove', 'clear'):
        ex, st = start(crate, led, 'SlabView::' + name, tree=False)
        ex.final = True
        z = a_state(ex, st, ex.g0.A, S('rank', HB, I64), S('idx', HB, I64), S('inv', I64, HB))
        ex.assume(st, a_glob(z))
        x, y = z3.BitVecs('any_x any_y', 32); i = z3.BitVec('any_i', 64)
        h = z3.BitVec('handle', 32)
        val = Opq('AnyNode', NodeV([z3.BitVec('val.' + n, 8 * w) for n, _, w in CUTS], 'AnyNode')); st.mem[('VAL',)] = val
        at = {'insert': [z.head], 'remove': [h], 'clear': []}[name]
        if name == 'insert': ex.assume(st, z3.Or(val.v.c[0] == 1, val.v.c[0] == 2)); args = [Ptr(('VAL',))]
        elif name == 'remove': ex.assume(st, z.T(h)); args = [h]
        else: args = []
        for f in a_facts(z, at, []): ex.assume(st, f)
        fs = [f for f in ex.crate.find('Slab', name)]
        if len(fs) != 1: raise Unsupported('SlabView::' + name)
        ex.inlined[fs[0].name] = fs[0]
        for o in ex.run(fs[0], [Ptr(('SLAB',))] + args, st.fork()):
            def ob(nm, goal, hs=(), ns=()):
                s2 = o.st.fork()
                for f in a_facts(z, at + list(hs), list(ns)): ex.assume(s2, f)
                led.prove(ex, s2, ex.unit + ' ' + nm, goal)
            if o.kind == 'panic': ob('never aborts', FALSE); continue
            b = now0(ex, o.st, z.A)
            same = lambda x: same_node(b.nd.at(x), z.nd.at(x))
            rest = z3.And(b.root == z.root, b.lc == z.lc)
            if name == 'clear':
                g = a_state(ex, o.st, z3.K(HB, FALSE), z3.K(HB, z3.BitVecVal(0, 64)), z.idx, z.inv)
                ob('empties the slab', z3.And(b.lc == 0, b.bump == b.fll, b.root == 0))
            elif name == 'insert' and o.val.d == 1:
                ob('fails only when no cell is free', z3.And(z.fll == 0, z.bump == z.nd.n)); ob('changes nothing when it fails', z3.And(rest, same(x), b.bump == z.bump, b.fll == z.fll, b.head == z.head))
                led.cover(ex, o.st, ex.unit + ' full'); continue
            elif name == 'insert':
                k = fit(ex.payload(o.st, o.val, 'Ok', 0), 32)
                ob('succeeds only when a cell is free', z3.Or(z.fll != 0, z.bump != z.nd.n), [k])
                ob('hands out a cell that was not in use', z3.And(z3.Not(z.T(k)), z3.ULT(w64(k), z.nd.n)), [k])
                ob('stores the node', same_node(b.nd.at(k), val.v.c)); ob('leaves every other cell alone', z3.Implies(x != k, same(x)))
                ob('leaves root and leaf count alone', rest); ob('counts the cell', b.bump - b.fll == z.n + 1, [k])
                g = a_state(ex, o.st, z3.Store(z.A, k, True), z3.Store(z.rank, k, z3.BitVecVal(0, 64)), z3.Store(z.idx, k, z.n), z3.Store(z.inv, z.n, k))
                led.cover(ex, o.st, ex.unit + ' bump', z.fll == 0); led.cover(ex, o.st, ex.unit + ' reuse', z.fll != 0)
            else:
                if o.val.d == 0: ob('finds every allocated node', FALSE); continue
                k = h
                ob('returns the node', same_node(ex.payload(o.st, o.val, 'Some', 0).v.c, z.nd.at(h))); ob('leaves every other cell alone', z3.Implies(x != h, same(x)))
                ob('leaves root and leaf count alone', rest); ob('counts the cell', b.bump - b.fll == z.n - 1)
                last = z3.Select(z.inv, z.n - 1)
                g = a_state(ex, o.st, z3.Store(z.A, h, False), z3.Store(z.rank, h, z.fll + 1), z3.Store(z.idx, last, z3.Select(z.idx, h)), z3.Store(z.inv, z3.Select(z.idx, h), last))
                led.cover(ex, o.st, ex.unit + ' of many', z.n != 1)
            more = [] if name == 'clear' else [k]
            L = [z.n - 1]
            ob('keeps the free list and bump index valid', a_glob(g), [x] + more, L)
            ob('keeps every cell either in use or on the free list', a_cell(g, x), [x] + more, L); ob('keeps free cells apart', a_pair(g, x, y), [x, y] + more, L)
            ob('keeps the numbering of cells in use', z3.And(a_num(g, x), a_inv(g, i)), [x] + more, L + [i])
        led.note_engine(ex); led.add_stats(ex)


# ------------------------------------------------------------ operations over the contracts of others
def c_find(up):
    def f(ex, st, a, c):
        g = now(ex, st)
        out = []
        for s2, t in ex.split_bool(st, g.lc == 0):
            if t: out.append((s2, ex.none('u32'))); continue
            h = z3.BitVec(ex.gensym('end'), 32)
            ex.assume(s2, g.leaf(h))
            s2.ghost['q'] = s2.ghost.get('q', ()) + ((lambda g, x, h=h: z3.Implies(g.leaf(x), z3.ULE(g.key(h), g.key(x)) if up else z3.UGE(g.key(h), g.key(x)))),)
            ex.saw(s2, h); out.append((s2, ex.some(h, 'u32')))
        return out
    return f


def c_rbk(ex, st, a, c):
    if st.ghost.get('rbk') is not None: raise Unsupported('two removals')
    sk = fit(a[1], 128)
    g = ex.g0
    ask(ex, st, 'removes a key that is in the tree', z3.Or([z3.And(g.leaf(y), g.key(y) == sk) for y in st.ghost.get('hs', ())] + [FALSE]))
    st.ghost['rbk'] = sk
    out = leaf_val('out'); ex.assume(st, z3.And(out.v.c[2] == sk, out.v.c[0] == 2))
    return ex.some(out, 'LeafNode')


def u_rend(led, crate, name, up):
    ex, st = start(crate, led, 'Slab::' + name)
    ex.contracts['Slab::find_min'] = c_find(True); ex.contracts['Slab::find_max'] = c_find(False); ex.contracts['Slab::remove_by_key'] = c_rbk
    x = z3.BitVec('any_x', 32); g = ex.g0
    for o in go(ex, st, name, [Ptr(('SLAB',))]):
        ob = obs(led, ex, o)
        if o.kind == 'panic': ob('never aborts', FALSE); continue
        sk = o.st.ghost.get('rbk')
        frame(ex, o, ob)                 # beyond what remove_by_key does
        if sk is None:
            if o.val.d != 0: raise Unsupported('a leaf comes from elsewhere than remove_by_key')
            ob('returns nothing only from an empty tree', z3.And(g.lc == 0, o.val.d == 0)); continue
        if o.val.d != 1: ob('returns the leaf it removes', FALSE); continue
        ob('returns the leaf it removes', same_node(ex.payload(o.st, o.val, 'Some', 0).v.c, leaf_val('out').v.c))
        ob('removes the %s key' % ('smallest' if up else 'largest'), z3.Implies(g.leaf(x), z3.ULE(sk, g.key(x)) if up else z3.UGE(sk, g.key(x))), [x])
        led.cover(ex, o.st, ex.unit + ' removes')
    led.note_engine(ex); led.add_stats(ex)


def u_rmin(led, crate): u_rend(led, crate, 'remove_min', True); u_rend(led, crate, 'remove_max', False)


def u_small(led, crate):
    for name in ('capacity', 'is_empty', 'root', 'get', 'get_mut', 'contains', 'assert_minimum_capacity'):
        ex, st = start(crate, led, 'Slab::' + name)
        h = z3.BitVec('handle', 32)
        g = ex.g0; n = g.nd.n
        args = [h] if name in ('get', 'get_mut', 'contains', 'assert_minimum_capacity') else []
        valid = z3.And(z3.ULT(w64(h), n), z3.Or(g.tag(h) == 1, g.tag(h) == 2))
        for o in go(ex, st, name, [Ptr(('SLAB',))] + args):
            ob = obs(led, ex, o)
            if o.kind == 'panic': ob('never aborts', FALSE); continue
            frame(ex, o, ob)
            v = o.val
            if name == 'capacity': ob('is the number of cells', fit(v, 64) == n)
            elif name == 'is_empty': ob('holds when there is no leaf', ex.b(v) == (g.lc == 0))
            elif name == 'contains': ob('holds for nodes', ex.b(v) == valid)
            elif name == 'root': ob('is the root node, if there is one', g.lc == 0 if v.d == 0 else z3.And(g.lc != 0, fit(ex.payload(o.st, v, 'Some', 0), 32) == g.root))
            elif name == 'assert_minimum_capacity':
                big = z3.UGT(n, w64(h) * 2)
                ob('accepts slabs with room for the orders and their inner nodes', big if v.d == 0 else z3.Not(big))
            elif v.d == 0: ob('finds every node', z3.Not(valid))
            else:
                p = ex.payload(o.st, v, 'Some', 0)
                node = ex.load(o.st, p)
                ob('finds only nodes', valid); ob('is the node with that handle', z3.And(same_node(node.v.c, g.nd.at(h)), p.cell == ('ND',)))
                for acc, mk in (('as_leaf', 'Leaf'), ('as_leaf_mut', 'Leaf')):
                    if (acc == 'as_leaf_mut') != (name == 'get_mut'): continue
                    f = ex.crate.find('AnyNode', acc)
                    if len(f) != 1: raise Unsupported('AnyNode::' + acc)
                    ex.inlined[f[0].name] = f[0]
                    for o2 in ex.run(f[0], [p], o.st.fork()):
                        ob2 = obs(led, ex, o2)
                        if o2.kind == 'panic': ob2(acc + ' never aborts', FALSE); continue
                        if o2.val.d == 0: ob2(acc + ' sees every leaf', g.tag(h) != 2); continue
                        ob2(acc + ' sees only leaves', g.tag(h) == 2)
                        q = ex.payload(o2.st, o2.val, 'Some', 0)
                        ob2(acc + ' is the node itself', same_node(ex.load(o2.st, q).v.c, g.nd.at(h)))
                        if acc == 'as_leaf_mut': set_qty(led, ex, o2, q, h)
        led.note_engine(ex); led.add_stats(ex)


def set_qty(led, ex, o, q, h):
    """changing a leaf's quantity leaves tag, key, owner and every other node alone"""
    f = ex.crate.find('LeafNode', 'set_quantity')
    if len(f) != 1: raise Unsupported('LeafNode::set_quantity')
    ex.inlined[f[0].name] = f[0]
    ex.assume(o.st, ex.g0.T(h))
    v = z3.BitVec('quantity', 64); x = z3.BitVec('any_x', 32)
    offs = dict(zip(ex.crate.structs['LeafNode'], tyoff(ex, 'LeafNode')[0]))
    for o2 in ex.run(f[0], [q, v], o.st.fork()):
        ob = obs(led, ex, o2)
        if o2.kind == 'panic': ob('set_quantity never aborts', FALSE); continue
        g = now(ex, o2.st); z = ex.g0
        ob('set_quantity leaves every other node alone', z3.Implies(x != h, same_node(g.nd.at(x), z.nd.at(x))))
        a, b = NodeV(g.nd.at(h), 'LeafNode'), NodeV(z.nd.at(h), 'LeafNode')
        ob('set_quantity changes only the quantity', z3.And([a.rd(o, n) == (v if nm == 'quantity' else b.rd(o, n)) for nm, (o, n, _) in offs.items()]))


# ------------------------------------------------------------ find_by: depth-first search with an explicit stack
PRED = z3.Function('wanted', HB, z3.BoolSort())
WIT = 'wit'


class FindEngine(TreeEngine):
    """Vectors: the stack is known through a ghost set S of handles it contains, the result through the ghost set F of keys pushed"""

    def __init__(s, crate, led):
        TreeEngine.__init__(s, crate, led)
        C = s.contracts
        C['Vec::new'] = C['Vec::with_capacity'] = s.v_new
        C['Vec::push'] = s.v_push; C['Vec::pop'] = s.v_pop; C['Vec::is_empty'] = s.v_empty
        C['<* as Fn>::call'] = s.v_pred
        s.models['<* as Fn>::call'] = s.v_pred

    def vec(s, st, p):
        v = s.load(st, p)
        if not (isinstance(v, Opq) and v.ty == 'gvec'): raise Unsupported('vector')
        return v.v

    def v_new(s, ex, st, a, c):
        t = (c.gen or ty_args(c.selfty or '') or ['?'])[0]
        if t not in ('u32', 'u128') or ('V', t) in st.ghost: raise Unsupported('vector of ' + t)
        st.ghost[('V', t)] = (z3.K(z3.BitVecSort(W[t]), FALSE), TRUE)
        return Opq('gvec', t)

    def v_push(s, ex, st, a, c):
        t = s.vec(st, a[0]); S, e = st.ghost[('V', t)]; v = fit(a[1], W[t])
        if t == 'u32': s.prove(st, 'searches only nodes of the tree', st.ghost['G'].T(v), [v])
        else:
            g = st.ghost['G']
            s.prove(st, 'returns only keys of leaves that satisfy the predicate', z3.Or([z3.And(g.leaf(y), g.key(y) == v, PRED(y)) for y in st.ghost.get('hs', ())] + [FALSE]))
        st.ghost[('V', t)] = (z3.Store(S, v, True), FALSE)
        return UNIT

    def v_empty(s, ex, st, a, c):
        t = s.vec(st, a[0]); S, e = st.ghost[('V', t)]
        if e is None:
            e = z3.Bool(ex.gensym('empty'))
            st.ghost[('V', t)] = (S, e)
        if t == 'u32': st.ghost['q'] = st.ghost.get('q', ()) + ((lambda g, x, e=e, S=S: z3.Implies(e, z3.Not(z3.Select(S, x)))),)
        return e

    def v_pop(s, ex, st, a, c):
        e = s.v_empty(ex, st, a, c)
        t = s.vec(st, a[0]); S, _ = st.ghost[('V', t)]
        if t != 'u32': raise Unsupported('pop of results')
        out = []
        for s2, b in ex.split_bool(st, e):
            if b: out.append((s2, ex.none('u32'))); continue
            h = z3.BitVec(ex.gensym('top'), 32)
            ex.assume(s2, s2.ghost['G'].T(h)); ex.saw(s2, h)
            s2.ghost[('V', t)] = (z3.Store(S, h, False), None)
            out.append((s2, ex.some(h, 'u32')))
        return out

    def v_pred(s, ex, st, a, c):
        p = a[1].f[0]
        while isinstance(p, Ptr) and isinstance(s.load(st, p), Ptr): p = s.load(st, p)
        if not isinstance(p, Ptr) or p.cell != ('ND',) or not p.path or p.path[0][0] != 'i': raise Unsupported('predicate argument')
        return PRED(fit(p.path[0][1], 32))

    def cover_at(s, st, g, x, wits):
        S, F = st.ghost[('V', 'u32')][0], st.ghost[('V', 'u128')][0]
        return z3.Implies(z3.And(g.leaf(x), PRED(x)), z3.Or([z3.Select(F, g.key(x))] + [z3.And(z3.Select(S, w), sub(g, x, w)) for w in wits]))

    def loop_entry(s, st, fr):
        body, mod = s.cfg(fr.fn)[1], s.cfg(fr.fn)[2]
        if fr.bb not in body: return None
        if ('V', 'u32') not in st.ghost or ('V', 'u128') not in st.ghost: raise Unsupported('loop without the two vectors')
        here = [x for x in fr.inloop if x[0] == 'tree' and x[1] == fr.bb]
        x = z3.BitVec('any_x', 32); g = st.ghost['G']
        w = [f for f in st.ghost.get('w', ())]
        wits = [f(x) for f in w] + list(st.ghost.get('hs', ())) + [g.root] + [g.ch(h, b) for h in st.ghost.get('hs', ()) for b in (0, 1)]
        s.prove(st, 'has every wanted leaf found or below the stack', s.cover_at(st, g, x, wits), [x] + wits[:len(w)])
        if not here:
            if st.frames[-1] is not fr or any(y[0] == 'tree' for y in fr.inloop): raise Unsupported('nested loop')
            n = z3.Function(s.gensym(WIT), HB, HB)
            st.ghost['w'] = (n,)
            st.ghost[('V', 'u32')] = (z3.Array(s.gensym('S'), HB, z3.BoolSort()), None)
            st.ghost[('V', 'u128')] = (z3.Array(s.gensym('F'), K128, z3.BoolSort()), None)
            lim = z3.BitVec(s.gensym('limit'), 16)
            s.assume(st, z3.ULE(lim, st.mem[('LIM',)])); st.mem[('LIM',)] = lim
            s2 = st.fork()
            st.ghost['q'] = st.ghost.get('q', ()) + ((lambda g, x: s.cover_at(s2, g, x, [n(x)])),)
            for l in mod[fr.bb]:
                cell = ('L', fr.id, l)
                if cell in st.mem and not (isinstance(st.mem[cell], Opq) and st.mem[cell].ty == 'gvec'): del st.mem[cell]
            fr.inloop = fr.inloop + (('tree', fr.bb, lim, st.mem[('ND',)], st.mem[('HD',)]),)
            fr.visits = {}
            return None
        _, _, lim, nd, hd = here[0]
        if st.mem[('ND',)] is not nd or st.mem[('HD',)] is not hd: raise Unsupported('the loop changes the tree')
        s.prove(st, 'spends the limit in every iteration', z3.ULT(st.mem[('LIM',)], lim))
        return []


def u_findby(led, crate):
    ex, st = start(crate, led, 'Slab::find_by', cls=FindEngine)
    lim = z3.BitVec('limit', 16); st.mem[('LIM',)] = lim
    g = ex.g0; x = z3.BitVec('any_x', 32)
    outs = go(ex, st, 'find_by', [Ptr(('SLAB',)), Ptr(('LIM',)), Rec('F', None, {})])
    for o in outs:
        ob = obs(led, ex, o)
        if o.kind == 'panic': ob('never aborts', FALSE); continue
        frame(ex, o, ob)
        if not (isinstance(o.val, Opq) and o.val.ty == 'gvec' and o.val.v == 'u128'): raise Unsupported('result of find_by')
        l2 = o.st.mem[('LIM',)]; F = o.st.ghost[('V', 'u128')][0]
        ob('never raises the limit', z3.ULE(l2, lim))
        w = [f(x) for f in o.st.ghost.get('w', ())]
        ob('finds every leaf that satisfies the predicate unless the limit runs out', z3.Implies(z3.And(g.leaf(x), PRED(x), l2 != 0), z3.Select(F, g.key(x))), [x] + w)
        led.cover(ex, o.st, ex.unit + ' completes', z3.And(l2 != 0, g.lc != 0))
    led.note_engine(ex); led.add_stats(ex)


UNITS = [('laws', lambda led, crate: laws(led)), ('allocator', u_alloc), ('min', lambda led, crate: verify_minmax(led, crate, 'find_min', True)), ('max', lambda led, crate: verify_minmax(led, crate, 'find_max', False)),
         ('insert', u_insert), ('remove', u_remove), ('ends', u_rmin), ('access', u_small), ('search', u_findby)]
