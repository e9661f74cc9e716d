"""Accounts, account bytes, Solana runtime and SPL-token models (assumed contracts on dependencies), and the
abstract views of the accounts a market consists of.

Account identity is the name of the AccountInfo value ('accs[3]'); two different positions of the account list are taken to
be different accounts (stated in the evidence).  Account data is a byte region; 8-byte groups that the code reads or compares
as a whole are single 64-bit symbols `<acc>.w@<offset>`; a struct overlaid on the data (from_bytes_mut) is a memory cell of
its own whose first word is the flags word at offset 5."""
from book import *

HEAD = 5
TOKEN = None


def offkey(o):
    if isinstance(o, int): return str(o)
    o = z3.simplify(o)
    return str(o.as_long()) if z3.is_int_value(o) else str(o).replace('\n', ' ')


class Region:
    """a window of an account's data: `n` elements of `es` bytes starting at byte `off`"""

    def __init__(s, acc, off, n, es=1): s.acc = acc; s.off = off; s.n = n; s.es = es
    def __repr__(s): return 'Region(%s+%s;%s*%s)' % (s.acc, s.off, s.n, s.es)

    def vlen(s, ex, st): return s.n

    def get1(s, ex, st, v, p):
        if p[0] == 's': return Opq('bytes', Region(s.acc, s.off + p[1] * s.es, p[2], s.es))
        if p[0] == 'i':
            o = s.off + p[1] * s.es
            if s.es == 1: return byte(ex, st, s.acc, o)
            if s.es == 8: return Opq('bytes', Region(s.acc, o, 8, 1))
        raise Unsupported('projection %r of %r' % (p, s))

    def setp(s, ex, st, v, path, nv):
        if len(path) != 1: raise Unsupported('store into account bytes')
        r = s.get1(ex, st, v, path[0])
        if not (isinstance(r, Opq) and isinstance(r.v, Region)): raise Unsupported('store of one byte')
        if isinstance(nv, Opq) and isinstance(nv.v, Region) and (nv.v.acc, offkey(nv.v.off)) == (r.v.acc, offkey(r.v.off)): return v
        write(ex, st, r.v, nv)
        return v

    def bytes_n(s): return s.n * s.es

    def words(s, ex, st):
        n = s.bytes_n()
        if is_z3(n):
            for k in (32, 8):
                if ex.must(st, n == k): n = k; break
        if not isinstance(n, int) or n % 8: raise Unsupported('words of %r' % (s,))
        w = written(st, s.acc).get((offkey(s.off), n))
        if w is not None: return words(ex, st, w)
        return [word(ex, st, s.acc, s.off + 8 * k) for k in range(n // 8)]

    def eq(s, ex, st, o):
        if isinstance(o, Ptr): o = ex.load(st, o)
        n = s.bytes_n()
        if isinstance(o, Opq) and isinstance(o.v, Region):
            m = o.v.bytes_n()
            if isinstance(n, int) and isinstance(m, int):
                if n != m: return False
                if n % 8 == 0: return conj([a == b for a, b in zip(s.words(ex, st), o.v.words(ex, st))])
                return conj([byte(ex, st, s.acc, s.off + k) == byte(ex, st, o.v.acc, o.v.off + k) for k in range(n)])
            raise Unsupported('equality of symbolic-length regions')
        if isinstance(o, Arr):
            if isinstance(n, int):
                if n != len(o.items): return False
            elif not ex.must(st, n == len(o.items)):
                return conj([n == len(o.items), Region(s.acc, s.off, len(o.items)).eq(ex, st, o)])
            n = len(o.items)
            w = written(st, s.acc).get((offkey(s.off), n))
            if w is not None: return veq(ex, st, w, o)
            if n % 8 == 0:
                ws = []
                for k in range(0, n, 8):
                    b = o.items[k:k + 8]
                    if not all(isinstance(x, int) for x in b): raise Unsupported('byte compare')
                    ws.append(sum(x << (8 * i) for i, x in enumerate(b)))
                return conj([a == b for a, b in zip(s.words(ex, st), ws)])
            return conj([byte(ex, st, s.acc, s.off + k) == o.items[k] for k in range(n)])
        if isinstance(o, Rec):
            ow = words(ex, st, o)
            if isinstance(n, int):
                if n != 8 * len(ow): return False
                return conj([a == b for a, b in zip(s.words(ex, st), ow)])
            return conj([n == 8 * len(ow)] + [a == b for a, b in zip(Region(s.acc, s.off, 8 * len(ow)).words(ex, st), ow)])
        raise Unsupported('equality of %r and %r' % (s, o))


def written(st, acc):
    if st.ghost.get('spent'): raise Unsupported('account data after a nested instruction')
    v = st.mem.get(('BW', acc))
    return v.v if v is not None else {}


def write(ex, st, r, nv):
    n = r.bytes_n()
    d = dict(written(st, r.acc))
    k = (offkey(r.off), n if isinstance(n, int) else offkey(n))
    for o in d:
        if o != k and not (disjoint(o, k)): raise Unsupported('overlapping byte writes %s %s' % (o, k))
    if isinstance(nv, Arr): nv = Arr('u8', nv.items)
    d[k] = nv
    st.mem[('BW', r.acc)] = Opq('writes', d)


def disjoint(a, b):
    if a[0].isdigit() and b[0].isdigit() and isinstance(a[1], int) and isinstance(b[1], int):
        x, y = int(a[0]), int(b[0])
        return x + a[1] <= y or y + b[1] <= x
    # head padding [0,5), flags/body from 5, tail padding at len-7: the tail is disjoint from the head because len >= 12
    return a[0].isdigit() != b[0].isdigit() and max(int(a[0]) if a[0].isdigit() else 0, int(b[0]) if b[0].isdigit() else 0) <= 5


def flags_word(ex, st, acc):
    for T in OVERLAYS:
        c = ('OV', acc, T)
        if c in st.mem:
            r = st.mem[c]
            if T == 'MarketStateV2': r = ex.get1(st, r, ('f', 0, 'MarketState'))
            return ex.get1(st, r, ('f', 0, 'u64'))
    return ex.int_sym('%s.w@%d' % (acc, HEAD), 'u64')


OVERLAYS = ('MarketState', 'MarketStateV2', 'OpenOrders', 'EventQueueHeader', 'RequestQueueHeader', 'OrderBookStateHeader')


def word(ex, st, acc, off):
    k = offkey(off)
    w = written(st, acc).get((k, 8))
    if w is not None:
        return w if is_int(w) else words(ex, st, w)[0]
    for o in written(st, acc):
        if not disjoint(o, (k, 8)): raise Unsupported('read of overwritten bytes')
    if k == str(HEAD): return flags_word(ex, st, acc)
    if any(('OV', acc, T) in st.mem for T in OVERLAYS): raise Unsupported('byte read of an account with a struct view')
    return ex.int_sym('%s.w@%s' % (acc, k), 'u64')


def byte(ex, st, acc, off):
    k = offkey(off)
    for o, w in written(st, acc).items():
        if o == (k, 1): return w
        if not disjoint(o, (k, 1)):
            if o[0] == k or (o[0].isdigit() and k.isdigit()):
                if isinstance(w, Arr) and k.isdigit(): return w.items[int(k) - int(o[0])]
            m = re.match(r'^(\d+) \+ (.*)$', k)
            if isinstance(w, Arr):      # symbolic base
                for i in range(len(w.items)):
                    if offkey(off) == o[0] and i == 0: return w.items[0]
            d = z3.simplify(ex.z(off) - parse_off(ex, acc, o[0]))
            if z3.is_int_value(d) and isinstance(w, Arr) and 0 <= d.as_long() < len(w.items): return w.items[d.as_long()]
            raise Unsupported('read of overwritten bytes %s %s' % (o, k))
    return ex.int_sym('%s.b@%s' % (acc, k), 'u8')


def parse_off(ex, acc, k):
    if k.isdigit(): return z3.IntVal(int(k))
    m = re.match(r'^(-?\d+) \+ ', k)
    n = data_len(ex, acc)
    if m: return n + int(m.group(1))
    raise Unsupported('offset ' + k)


def data_len(ex, acc):
    n = acc + '.data_len'
    v = z3.Int(n)
    ex.axioms.setdefault(n, z3.And(v >= 0, v <= 10 * 1024 * 1024))
    return v


def accname(ex, st, p):
    v = ex.load(st, p) if isinstance(p, Ptr) else p
    if not isinstance(v, Rec) or ty_head(v.ty) != 'AccountInfo' or v.name is None: raise Unsupported('not an account: %r' % (v,))
    return v.name


def data_cell(ex, st, acc):
    a, b = ('DA', acc), ('BY', acc)
    if a not in st.mem:
        st.mem[a] = Ptr(b); st.mem[b] = Opq('bytes', Region(acc, 0, data_len(ex, acc)))
    return Ptr(a)


def region(ex, st, p):
    v = ex.load(st, p) if isinstance(p, Ptr) else p
    if isinstance(v, Opq) and isinstance(v.v, Region): return v.v
    return None


def sub(ex, p, start, n):
    """pointer to p[start .. start+n]"""
    path = list(p.path)
    if path and path[-1][0] == 's': path[-1] = ('s', path[-1][1] + start, n)
    else: path.append(('s', start, n))
    return Ptr(p.cell, path)


def bounds(ex, st, p, rng, kind):
    """(start, end) of a range index"""
    n = ex.length(st, p)
    f = rng.f if isinstance(rng, Rec) else {}
    if kind == 'RangeFull': return 0, n
    if kind == 'RangeTo': return 0, f[0]
    if kind == 'RangeFrom': return f[0], n
    if kind == 'Range': return f[0], f[1]
    raise Unsupported('range ' + kind)


X = {}


def m(*ks):
    def d(f):
        for k in ks: X[k] = f
        return f
    return d


@m('<* as Index>::index', '<* as IndexMut>::index_mut')
def _index(ex, st, a, c):
    it = c.traitgen[0] if c.traitgen else '?'
    p = a[0]
    if ty_head(c.selfty) == 'Vec':
        v = ex.load(st, p)
        if isinstance(v, Ptr): p = v
    n = ex.length(st, p)
    if it == 'usize':
        i = a[1]
        return [(s, Ptr(p.cell, p.path + (('i', i),)) if t else Panic('index')) for s, t in ex.split_bool(st, conj([i >= 0, i < n]))]
    s0, e0 = bounds(ex, st, p, a[1], ty_head(it))
    return [(s, sub(ex, p, s0, e0 - s0) if t else Panic('slice index')) for s, t in ex.split_bool(st, conj([s0 >= 0, s0 <= e0, e0 <= n]))]


def _slice_opt(first):
    def f(ex, st, a, c):
        n = ex.length(st, a[0])
        out = []
        for s, t in ex.split_bool(st, n >= 1 if is_z3(n) else n >= 1):
            if not t: out.append((s, ex.none())); continue
            i = 0 if first else n - 1
            p = a[0]
            if p.path and p.path[-1][0] == 's': q = Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),))
            else: q = Ptr(p.cell, p.path + (('i', i),))
            out.append((s, ex.some(q, '&T')))
        return out
    return f


X['[]::first'] = X['[]::first_mut'] = _slice_opt(True)
X['[]::last'] = X['[]::last_mut'] = _slice_opt(False)


@m('[]::get', '[]::get_mut')
def _get(ex, st, a, c):
    n = ex.length(st, a[0]); i = a[1]; p = a[0]
    if not is_int(i): raise Unsupported('slice get by range')
    out = []
    for s, t in ex.split_bool(st, conj([i >= 0, i < n])):
        q = Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),)) if p.path and p.path[-1][0] == 's' else Ptr(p.cell, p.path + (('i', i),))
        out.append((s, ex.some(q, '&T') if t else ex.none()))
    return out


@m('[]::len', 'Vec::len')
def _len(ex, st, a, c): return ex.length(st, a[0])


@m('[]::is_empty', 'Vec::is_empty')
def _isempty(ex, st, a, c): return ex.length(st, a[0]) == 0


@m('[]::split_at', '[]::split_at_mut')
def _splitat(ex, st, a, c):
    n = ex.length(st, a[0]); k = a[1]
    return [(s, Rec('(&[T], &[T])', None, {0: sub(ex, a[0], 0, k), 1: sub(ex, a[0], k, n - k)}) if t else Panic('split_at')) for s, t in ex.split_bool(st, k <= n)]


@m('[]::as_ptr', '[]::as_mut_ptr', 'Vec::as_slice', 'Vec::as_mut_slice')
def _same(ex, st, a, c): return a[0]


def as_arrays(ex, st, a, c):
    """arrayref's array_refs!: consecutive sub-arrays of the given sizes, one of which may be `..`"""
    ty = ex.dest_ty
    if not ty or ty[0] != '(': raise Unsupported('as_arrays destination %s' % ty)
    parts = split_top(ty[1:-1])
    sizes = []
    for t in parts:
        t = t.replace('&mut ', '').replace('&', '').strip()
        q = split_top(t[1:-1], ';')
        sizes.append(int(q[1].replace('_usize', '')) if len(q) == 2 and q[1].strip().replace('_usize', '').isdigit() else None if len(q) == 1 else constlen(ex, st, q[1].strip()))
    n = ex.length(st, a[0])
    tot = sum(x for x in sizes if x is not None)
    out = []
    ok = (n >= tot) if None in sizes else (n == tot)
    for s, t in ex.split_bool(st, ok):
        if not t: out.append((s, Panic('array_refs'))); continue
        f = {}; o = 0
        for i, k in enumerate(sizes):
            k2 = n - tot if k is None else k
            f[i] = sub(ex, a[0], o, k2); o = o + k2
        out.append((s, Rec(ty, None, f)))
    return out


def constlen(ex, st, nm):
    cf = [v for k, v in ex.crate.consts.items() if split_path(k)[-1] == nm.split('::')[-1]]
    vals = set()
    for x in cf:
        v = ex.eval_const(st, x)
        if isinstance(v, int): vals.add(v)
    if len(vals) != 1: raise Unsupported('array length constant ' + nm)
    return vals.pop()


def as_array(ex, st, a, c): return a[0]


# ---------------------------------------------------------------- bytes
@m('AccountInfo::try_borrow_data', 'AccountInfo::try_borrow_mut_data')
def _tbd(ex, st, a, c):
    return ex.ok(data_cell(ex, st, accname(ex, st, a[0])), 'Result<RefMut<&mut [u8]>, ProgramError>')


@m('AccountInfo::data_len')
def _dl(ex, st, a, c): return data_len(ex, accname(ex, st, a[0]))


def lam_ptr(ex, st, acc):
    cell = ('S', acc + '.lamports')
    ex.celltypes.setdefault(cell, '&mut u64')
    return Ptr(cell)


@m('AccountInfo::lamports')
def _lam(ex, st, a, c): return ex.load(st, ex.load(st, lam_ptr(ex, st, accname(ex, st, a[0]))))


@m('<Rc as Deref>::deref')
def _rc(ex, st, a, c):
    v = ex.load(st, a[0])
    if isinstance(v, Ptr): return v
    if isinstance(v, Rec) and v.name:
        t = ty_args(c.selfty)[0]
        cell = ('S', v.name)
        ex.celltypes.setdefault(cell, ty_args(t)[0] if ty_head(t) == 'RefCell' else t)
        return Ptr(cell)
    raise Unsupported('Rc deref')


@m('RefMut::map', 'Ref::map')
def _refmap(ex, st, a, c): return ('invoke', a[1], [a[0]])


@m('RefMut::map_split', 'Ref::map_split')
def _refmapsplit(ex, st, a, c): return ('invoke', a[1], [a[0]])


def cast_region(ex, st, p, to):
    v = ex.load(st, p)
    if isinstance(v, Opq) and isinstance(v.v, Region):
        r = v.v; es = ex.sizeof(to)
        if es == r.es: return p
        nb = r.bytes_n()
        n = nb // es if isinstance(nb, int) else (nb if es == 1 else ex.divrem(st, nb, es, 'usize')[0])
        if r.es % es == 0: n = r.n * (r.es // es)
        return Ptr(ex.alloc(st, Opq('bytes', Region(r.acc, r.off, n, es)), 'RG'))
    if isinstance(v, Arr) and v.ty == 'u64' and to == 'u8':
        return Ptr(ex.alloc(st, Rec('[u8; %d]' % (8 * len(v.items)), None, {'w': Arr('u64', v.items)})))
    if isinstance(v, Arr) and not v.items: return p
    raise Unsupported('cast of %r to [%s]' % (v, to))


@m('cast_slice', 'cast_slice_mut', 'bytemuck::cast_slice', 'bytemuck::cast_slice_mut')
def _cast(ex, st, a, c): return cast_region(ex, st, a[0], c.gen[1])


@m('try_cast_slice_mut', 'try_cast_slice', 'bytemuck::try_cast_slice_mut')
def _trycast(ex, st, a, c):
    r = region(ex, st, a[0])
    if r is None: raise Unsupported('try_cast_slice')
    es = ex.sizeof(c.gen[1]); nb = r.bytes_n()
    ok = (nb % es == 0) if isinstance(nb, int) else ex.divrem(st, nb, es, 'usize')[1] == 0
    ty = 'Result<&mut [%s], PodCastError>' % c.gen[1]
    return [(s, ex.ok(cast_region(ex, s, a[0], c.gen[1]), ty) if t else ex.err(Rec('PodCastError', None, {}), ty)) for s, t in ex.split_bool(st, ok)]


def overlay(ex, st, r, T):
    """struct view of account bytes"""
    if T.startswith('['):
        return Ptr(ex.alloc(st, Arr('u8', [])))
    cell = ('OV', r.acc, T)
    if cell in st.mem: return Ptr(cell)
    if offkey(r.off) != str(HEAD): raise Unsupported('struct view at offset %s' % r.off)
    if any(('OV', r.acc, o) in st.mem for o in OVERLAYS if o != T): raise Unsupported('two struct views of one account')
    fw = flags_word(ex, st, r.acc)
    nm = '%s.%s' % (r.acc, T)
    if T == 'MarketStateV2':
        st.mem[cell] = Rec(T, nm, {0: Rec('MarketState', '%s.MarketState' % r.acc, {0: fw})})
    else: st.mem[cell] = Rec(T, nm, {0: fw})
    return Ptr(cell)


@m('from_bytes_mut', 'from_bytes', 'bytemuck::from_bytes_mut', 'bytemuck::from_bytes')
def _frombytes(ex, st, a, c):
    r = region(ex, st, a[0]); T = c.gen[0]
    if r is None: raise Unsupported('from_bytes')
    nb = r.bytes_n()
    return [(s, overlay(ex, s, r, T) if t else Panic('from_bytes size')) for s, t in ex.split_bool(st, nb == ex.sizeof(T))]


@m('try_from_bytes_mut', 'try_from_bytes', 'bytemuck::try_from_bytes_mut', 'try_cast_mut', 'try_cast_ref')
def _tryfrombytes(ex, st, a, c):
    r = region(ex, st, a[0]); T = c.gen[-1]
    if r is None: raise Unsupported('try_from_bytes')
    nb = r.bytes_n()
    ty = 'Result<&mut %s, PodCastError>' % T
    return [(s, ex.ok(overlay(ex, s, r, T), ty) if t else ex.err(Rec('PodCastError', None, {}), ty)) for s, t in ex.split_bool(st, nb == ex.sizeof(T))]


@m('slice::from_mut', 'slice::from_ref', 'from_mut')
def _frommut(ex, st, a, c): return Ptr(ex.alloc(st, Arr('&', [a[0]]), 'ONE'))


_first0 = X['[]::first']


def _first(ex, st, a, c):
    if a[0].cell[0] == 'ONE' and not a[0].path: return ex.some(ex.load(st, a[0]).items[0], '&mut T')
    return _first0(ex, st, a, c)


X['[]::first'] = X['[]::first_mut'] = _first


@m('transmute_to_bytes', 'bytes_of', 'bytemuck::bytes_of')
def _bytesof(ex, st, a, c):
    v = ex.load(st, a[0])
    if is_int(v): return Ptr(ex.alloc(st, Rec('[u8; 8]', None, {'w': Arr('u64', [v])})))
    if isinstance(v, Arr) and v.ty == 'u64': return Ptr(ex.alloc(st, Rec('[u8; %d]' % (8 * len(v.items)), None, {'w': Arr('u64', v.items)})))
    raise Unsupported('bytes of %r' % (v,))


class ByteView:
    def __init__(s, ptr): s.ptr = ptr
    def vlen(s, ex, st): return 8 * ex.length(st, s.ptr)


@m('bytes_of_mut', 'bytemuck::bytes_of_mut')
def _bytesofmut(ex, st, a, c): return Ptr(ex.alloc(st, Opq('bytes', ByteView(a[0]))))


@m('[]::copy_from_slice', '[]::clone_from_slice')
def _cfs(ex, st, a, c):
    src = ex.load(st, a[1])
    w = words(ex, st, src)
    d = ex.load(st, a[0])
    if isinstance(d, Opq) and isinstance(d.v, ByteView):
        o = ex.load(st, d.v.ptr)
        if len(o.items) != len(w): raise Panic('copy_from_slice length')
        ex.store(st, d.v.ptr, Arr('u64', w)); return UNIT
    if isinstance(d, (Arr, Rec)):
        n = ex.vlen(st, d)
        if n != 8 * len(w): raise Panic('copy_from_slice length')
        ex.store(st, a[0], Rec('[u8; %d]' % n, None, {'w': Arr('u64', w)})); return UNIT
    raise Unsupported('copy_from_slice into %r' % (d,))


@m('u64::from_le_bytes', 'int::from_le_bytes')
def _fle(ex, st, a, c):
    v = a[0]
    if isinstance(v, Arr) and all(isinstance(x, int) for x in v.items): return sum(x << (8 * i) for i, x in enumerate(v.items))
    w = words(ex, st, v)
    if len(w) != 1: raise Unsupported('from_le_bytes')
    return w[0]


@m('<* as Zeroable>::zeroed')
def _zeroed(ex, st, a, c):
    t = c.selfty
    q = re.match(r'^\[(\w+); (\d+)\]$', t)
    if q: return Arr(q.group(1), [0] * int(q.group(2)))
    if t in INTS: return 0
    raise Unsupported('zeroed ' + t)


@m('Pubkey::new', 'Pubkey::new_from_array')
def _pknew(ex, st, a, c): return Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', words(ex, st, a[0]))})})


@m('<Pubkey as AsRef>::as_ref', 'Pubkey::as_ref')
def _pkref(ex, st, a, c): return Ptr(ex.alloc(st, Rec('[u8; 32]', None, {'w': Arr('u64', words(ex, st, a[0]))})))


def pda(ex, seeds, prog):
    args = [ex.z(x) for x in seeds + prog]
    out = []
    for i in range(4):
        f = z3.Function('pda%d_%d' % (len(args), i), *([z3.IntSort()] * (len(args) + 1)))
        out.append(f(*args))
    return out


def pda_ax(x):
    if x.decl().name().startswith('pda'): yield z3.And(x >= 0, x < 2 ** 64)


@m('Pubkey::create_program_address')
def _cpa(ex, st, a, c):
    sp = ex.load(st, a[0])
    sw = []
    for s in sp.items: sw += words(ex, st, s)
    k = pda(ex, sw, words(ex, st, a[1]))
    s2 = st.fork()
    ty = 'Result<Pubkey, PubkeyError>'
    return [(st, ex.ok(Rec('Pubkey', None, {0: Rec('[u8; 32]', None, {'w': Arr('u64', k)})}), ty)), (s2, ex.err(Rec('PubkeyError', None, {}), ty))]


# ---------------------------------------------------------------- flags
def bits(v):
    if isinstance(v, Enum): return v.d
    if isinstance(v, Rec): return v.f[0]
    if is_int(v): return v
    raise Unsupported('flags %r' % (v,))


def bf(v, x): return Rec('BitFlags<%s>' % v, None, {0: x})


def fty(c):
    a = ty_args(c.selfty) if c.selfty else []
    return a[0] if a else c.selfty


def kmask(ex, t): 
    r = 0
    for nm, d, fl in ex.crate.enums[t]: r |= d
    return r


def iw(ex, t): return 'u%d' % (8 * ex.sizeof(t))


@m('BitFlags::from_bits')
def _frombits(ex, st, a, c):
    t = fty(c); k = kmask(ex, t)
    if isinstance(a[0], int): ok = a[0] & ~k == 0
    elif (k & (k + 1)) == 0: ok = a[0] <= k
    else: ok = ex.andmask(st, a[0], k, iw(ex, t)) == a[0]
    ty = 'Result<BitFlags<%s>, FromBitsError>' % t
    return [(s, ex.ok(bf(t, a[0]), ty) if b else ex.err(Rec('FromBitsError', None, {}), ty)) for s, b in ex.split_bool(st, ok)]


@m('BitFlags::bits', '<* as RawBitFlags>::bits', 'BitFlags::from_flag', 'BitFlags::new')
def _bits(ex, st, a, c):
    v = bits(deref(ex, st, a[0]))
    return v if c.method == 'bits' else bf(fty(c), v)


@m('BitFlags::empty')
def _bfempty(ex, st, a, c): return bf(fty(c), 0)


@m('BitFlags::all')
def _bfall(ex, st, a, c): return bf(fty(c), kmask(ex, fty(c)))


def and_(ex, st, x, y, ty):
    if isinstance(x, int) and isinstance(y, int): return x & y
    if isinstance(y, int): return ex.andmask(st, x, y, ty)
    if isinstance(x, int): return ex.andmask(st, y, x, ty)
    raise Unsupported('symbolic flag and')


def or_(ex, st, x, y, ty): return ex.binop(st, 'BitOr', x, y, ty)


@m('BitFlags::intersects')
def _inter(ex, st, a, c): return and_(ex, st, bits(deref(ex, st, a[0])), bits(a[1]), 'u64') != 0


@m('BitFlags::contains')
def _cont(ex, st, a, c):
    y = bits(a[1])
    return and_(ex, st, bits(deref(ex, st, a[0])), y, 'u64') == y


@m('BitFlags::insert')
def _ins(ex, st, a, c):
    v = ex.load(st, a[0])
    ex.store(st, a[0], bf(fty(c), or_(ex, st, bits(v), bits(a[1]), 'u64'))); return UNIT


@m('BitFlags::remove')
def _rem(ex, st, a, c):
    v = ex.load(st, a[0]); x, y = bits(v), bits(a[1])
    ex.store(st, a[0], bf(fty(c), x - and_(ex, st, x, y, 'u64'))); return UNIT


def _flagop(op):
    def f(ex, st, a, c):
        t = c.selfty if ty_head(c.selfty) != 'BitFlags' else (ty_args(c.selfty) or ['?'])[0]
        if ty_head(c.selfty) != 'BitFlags' and c.selfty not in ex.crate.enums:
            raise Unsupported('flag op on ' + c.selfty)
        x, y = bits(a[0]), bits(a[1])
        if op == 'or': return bf(t, or_(ex, st, x, y, 'u64'))
        return bf(t, and_(ex, st, x, y, 'u64'))
    return f


X['<* as BitOr>::bitor'] = _flagop('or'); X['<* as BitAnd>::bitand'] = _flagop('and')


@m('<* as BitOrAssign>::bitor_assign')
def _boa(ex, st, a, c):
    v = ex.load(st, a[0])
    ex.store(st, a[0], bf(fty(c), or_(ex, st, bits(v), bits(a[1]), 'u64'))); return UNIT


# ---------------------------------------------------------------- sysvars
@m('<Rent as Sysvar>::get', '<Clock as Sysvar>::get')
def _sysvar(ex, st, a, c):
    return ex.ok(Rec(c.selfty, 'sysvar.' + c.selfty, {}), 'Result<%s, ProgramError>' % c.selfty)


EXEMPT = z3.Function('rent_exempt', z3.IntSort(), z3.IntSort(), z3.BoolSort())


@m('Rent::is_exempt')
def _exempt(ex, st, a, c): return EXEMPT(ex.z(a[1]), ex.z(a[2]))


# ---------------------------------------------------------------- token transfers
def key_acc(p):
    if isinstance(p, Ptr) and p.cell[0] == 'S' and p.cell[1].endswith('.key') and not p.path: return p.cell[1][:-4]
    return None


def keyw(ex, st, acc):
    cell = ('S', acc + '.key'); ex.celltypes.setdefault(cell, 'Pubkey')
    return words(ex, st, ex.cell(st, cell))


def weq(a, b): return conj([x == y for x, y in zip(a, b)])


@m('instruction::transfer', 'transfer')
def _xfer(ex, st, a, c):
    while isinstance(a[3], Ptr) and key_acc(a[3]) is None and isinstance(ex.load(st, a[3]), Ptr): a[3] = ex.load(st, a[3])
    f, t, au = key_acc(a[1]), key_acc(a[2]), key_acc(a[3])
    if None in (f, t, au): raise Unsupported('transfer between unknown accounts')
    ins = Rec('Instruction', None, {'program': words(ex, st, a[0]), 'from': f, 'to': t, 'auth': au, 'amount': a[5]})
    return ex.ok(ins, 'Result<Instruction, ProgramError>')


def balance(ex, st, acc): return word(ex, st, acc, 64)


def set_balance(ex, st, acc, v): write(ex, st, Region(acc, 64, 8), Rec('[u8; 8]', None, {'w': Arr('u64', [v])}))


@m('program::invoke_signed', 'program::invoke', 'invoke_signed', 'invoke')
def _invoke(ex, st, a, c):
    ins = deref(ex, st, a[0])
    if 'amount' not in ins.f: raise Unsupported('cross-program call')
    infos = ex.load(st, a[1])
    names = [accname(ex, st, x) for x in infos.items]
    seeds = []
    if len(a) > 2:
        sv = ex.load(st, a[2])
        for s in sv.items:
            w = []
            for q in ex.load(st, s).items: w += words(ex, st, q)
            seeds.append(w)
    amt = ins.f['amount']; f, t, au = ins.f['from'], ins.f['to'], ins.f['auth']
    ty = 'Result<(), ProgramError>'
    s2 = st.fork()
    err = (s2, ex.err(ex.fresh('ProgramError', ex.gensym('perr')), ty))
    if not all(x in names for x in (f, t, au)): return [err]
    # effect of a successful SPL transfer
    bal = balance(ex, st, f)
    ex.assume(st, bal >= amt)
    ex.assume(st, weq([word(ex, st, f, 8 * k) for k in range(4)], [word(ex, st, t, 8 * k) for k in range(4)]))
    if f != t:
        tb = balance(ex, st, t)
        set_balance(ex, st, f, bal - amt); set_balance(ex, st, t, tb + amt)
        ex.assume(st, tb + amt <= 2 ** 64 - 1)
    st.ghost['xfer'] = st.ghost.get('xfer', ()) + ((f, t, au, amt, tuple(tuple(s) for s in seeds), tuple(ins.f['program'])),)
    return [(st, ex.ok(UNIT, ty)), err]


@m('<* as FromPrimitive>::from_u32')
def _fromu32(ex, st, a, c): return ex.fresh('Option<TokenError>', ex.gensym('terr'))


# ---------------------------------------------------------------- vectors and slice iterators (concrete length)
@m('Vec::new', 'Vec::with_capacity')
def _vnew(ex, st, a, c): return Arr('?', [])


@m('Vec::push')
def _vpush(ex, st, a, c):
    v = ex.load(st, a[0])
    if not isinstance(v, Arr): raise Unsupported('push onto %r' % (v,))
    ex.store(st, a[0], Arr(v.ty, v.items + (a[1],))); return UNIT


@m('<Vec as Deref>::deref', '<Vec as DerefMut>::deref_mut')
def _vderef(ex, st, a, c): return a[0]


@m('[]::iter', '[]::iter_mut', '<& as IntoIterator>::into_iter')
def _iter(ex, st, a, c): return Rec('SliceIter', None, {'p': a[0], 'i': 0, 'n': ex.length(st, a[0])})


def _intoiter(ex, st, a, c):
    v = a[0]
    if isinstance(v, Rec) and ('i' in v.f or ty_head(v.ty) in ('Range', 'RangeInclusive')): return v
    if isinstance(v, Ptr): return _iter(ex, st, a, c)
    if isinstance(v, Arr): return Rec('SliceIter', None, {'own': v, 'i': 0, 'n': len(v.items)})
    raise Unsupported('into_iter of %r' % (v,))


X['<* as IntoIterator>::into_iter'] = _intoiter


@m('<* as Iterator>::next')
def _next(ex, st, a, c):
    v = ex.load(st, a[0])
    if ty_head(v.ty) == 'Range':
        lo, hi = v.f[0], v.f[1]
        out = []
        for s, t in ex.split_bool(st, lo < hi):
            if t: ex.store(s, a[0], v.set(0, lo + 1)); out.append((s, ex.some(lo, '?')))
            else: out.append((s, ex.none()))
        return out
    if ty_head(v.ty) == 'RangeInclusive':
        lo, hi = v.f[0], v.f[1]
        out = []
        for s, t in ex.split_bool(st, lo <= hi):
            if t: ex.store(s, a[0], v.set(0, lo + 1)); out.append((s, ex.some(lo, '?')))
            else: out.append((s, ex.none()))
        return out
    if 'i' not in v.f: raise Unsupported('next of %r' % (v,))
    i, n = v.f['i'], v.f['n']
    out = []
    for s, t in ex.split_bool(st, i < n):
        if not t: out.append((s, ex.none())); continue
        ex.store(s, a[0], v.set('i', i + 1))
        if 'own' in v.f: x = v.f['own'].items[i]
        else:
            p = v.f['p']
            x = Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + i),)) if p.path and p.path[-1][0] == 's' else Ptr(p.cell, p.path + (('i', i),))
        out.append((s, ex.some(x, '&T')))
    return out


@m('RangeInclusive::new')
def _ri(ex, st, a, c): return Rec('RangeInclusive', None, {0: a[0], 1: a[1]})


# ---------------------------------------------------------------- abstract books and queues of the market's accounts
def market_of(ex, st):
    """(account name, MarketState value) of the market account loaded on this path"""
    for c, v in st.mem.items():
        if c[0] == 'OV' and c[2] == 'MarketState': return c[1], v, Ptr(c)
        if c[0] == 'OV' and c[2] == 'MarketStateV2': return c[1], ex.get1(st, v, ('f', 0, 'MarketState')), Ptr(c, (('f', 0, 'MarketState'),))
    return None, None, None


def mfield(ex, st, rec, S, f, ty=None):
    i = ex.crate.fidx(S, f)
    return ex.get1(st, rec, ('f', i, ty or FT.get((S, f), 'u64')))


FT = {}
for f in ('own_address', 'coin_mint', 'pc_mint', 'coin_vault', 'pc_vault', 'req_q', 'event_q', 'bids', 'asks'): FT[('MarketState', f)] = '[u64; 4]'
for f in ('market', 'owner'): FT[('OpenOrders', f)] = '[u64; 4]'
for f in ('free_slot_bits', 'is_bid_bits'): FT[('OpenOrders', f)] = 'u128'
FT[('OpenOrders', 'orders')] = '[u128; 128]'; FT[('OpenOrders', 'client_order_ids')] = '[u64; 128]'
for f in ('open_orders_authority', 'prune_authority', 'consume_events_authority'): FT[('MarketStateV2', f)] = 'Pubkey'


def slab_new(ex, st, a, c):
    """which book an account holds is decided by its address: the market's bids, its asks, or neither"""
    r = region(ex, st, a[0])
    if r is None: raise Unsupported('slab bytes')
    cell = ('BOOK', r.acc)
    if cell in st.mem: return Ptr(cell)
    mk, rec, _ = market_of(ex, st)
    if mk is None: raise Unsupported('book loaded before the market')
    out = []
    k = keyw(ex, st, r.acc)
    cur = st
    bw, aw = [words(ex, cur, mfield(ex, cur, rec, 'MarketState', f)) for f in ('bids', 'asks')]
    isb = ex.b(weq(k, bw))
    isa = ex.b(weq(k, aw))
    ex.assume(st, z3.Not(weq(bw, aw)))      # market invariant: the two books are different accounts
    for s, t in ex.split_bool(st, isb):
        if t:
            s.mem[cell] = Opq('Slab', Book('bid', 'bids')); out.append((s, Ptr(cell))); continue
        for s2, t2 in ex.split_bool(s, isa):
            s2.mem[cell] = Opq('Slab', Book('ask', 'asks') if t2 else Book('foreign', 'foreign')); out.append((s2, Ptr(cell)))
    return out


def book_side(ex, st, p):
    v = ex.load(st, p)
    return v.v.side if isinstance(v, Opq) and isinstance(v.v, Book) else None


def queue_acc(ex, st, p):
    """account and header type of a Queue value"""
    q = ex.load(st, p)
    if isinstance(q, Rec):
        h = q.f.get(0)
        if isinstance(h, Ptr) and h.cell[0] == 'OV': return h.cell[1], h.cell[2]
    raise Unsupported('queue %r' % (q,))


def install_acct(ex):
    install(ex)
    ex.models = dict(models_M()); ex.models.update(X)
    ex.crate.structs['AccountInfo'] = ['key', 'is_signer', 'is_writable', 'lamports', 'data', 'owner', 'executable', 'rent_epoch']
    ex.symidx = {'[AccountInfo]'}
    C = ex.contracts
    C['as_arrays'] = as_arrays; C['as_array'] = as_array
    C['Slab::new'] = slab_new
    ex.axfn.append(pda_ax)


def models_M(): return M
