"""Parser for rustc's textual MIR (the repository's own compiler, 1.72.1,
-Zunpretty=mir -Zmir-include-spans).  Nothing here knows about serum-dex."""
import re, os, functools


class MirError(Exception):
    pass


class Unsupported(Exception):
    """A construct outside the verifier's reach: never reported as a violation."""


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


def split_top(s, sep=','):
    """split on sep at nesting depth 0 (strings, '->' and lifetimes respected)"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.index("'", i + 2 if s[i + 1] != '\\' else i + 3)
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == '-' and s[i:i + 2] == '->':
            cur.append('->'); i += 2; continue
        if c in OPEN: depth += 1
        elif c in CLOSE: depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t or out: out.append(t)
    return out


def match_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == '-' and s[i:i + 2] == '->': i += 1
        elif c in OPEN: depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0: return i
        i += 1
    raise MirError('unbalanced: ' + s)


_path = re.compile(r"(?<![\w>])(?:[A-Za-z_]\w*::)+(?=[A-Za-z_])")
_life = re.compile(r"(?:for<[^>]*> )|'(?:[a-z_]\w*)\b(?: \+ )?(?:, ?| )?(?!')")


@functools.lru_cache(maxsize=None)
def norm_ty(t):
    t = t.strip()
    if '[closure@' in t or '{closure@' in t:
        # keep closure spans verbatim
        parts = re.split(r'(\[closure@[^\]]*\])', t)
        return ''.join(p if p.startswith('[closure@') else _norm(p) for p in parts)
    return _norm(t)


def _norm(t):
    t = _life.sub('', t)
    t = _path.sub('', t)
    t = t.replace('<>', '')
    t = re.sub(r', ?>', '>', t)
    return t.strip() if t.strip() else t


def ty_head(t):
    """'Option<u64>' -> 'Option'"""
    m = re.match(r'[A-Za-z_]\w*', t)
    return m.group(0) if m else t


def ty_args(t):
    i = t.find('<')
    if i < 0 or not re.match(r'[A-Za-z_]\w*<', t): return []
    return split_top(t[i + 1:match_close(t, i)])


class Fn:
    __slots__ = ('name', 'args', 'ret', 'locals', 'debug', 'blocks', 'kind', 'allocs', 'selfty', 'trait',
                 'short', 'loops', 'file', 'line', 'parsed', 'preds', 'implgen', 'promoted')

    def __repr__(self): return '<Fn %s>' % self.name


_hdr = re.compile(r'^(fn|const|static|static mut|promoted\[\d+\] in) ?(.*)$')


def parse_file(path, rename=None):
    """-> (list of Fn, dict of const/static/promoted Fn by name)"""
    fns, consts, allocs = [], {}, {}
    cur = None
    blk = None
    pend = None      # pending statement text
    lits = []
    with open(path) as fh:
        txt = fh.read()
    if rename: txt = re.sub(r'\balloc(?=\d)', rename, txt)
    lines = txt.split('\n')
    i, n = 0, len(lines)
    ctfe = False
    while i < n:
        l = lines[i]
        if cur is None:
            if l.startswith('// MIR FOR CTFE'):
                ctfe = True; i += 1; continue
            if l.startswith('alloc'):
                m = re.match(r'^(alloc\d+) \((?:static: ([^,]*), )?size: (\d+), align: (\d+)\) \{', l)
                if m:
                    data, j = [], i + 1
                    while not lines[j].startswith('}'):
                        mm = re.match(r'^\s+(?:0x[0-9a-f]+ │ )?(.*?) │', lines[j])
                        if mm: data.append(mm.group(1))
                        j += 1
                    allocs[m.group(1)] = (m.group(2), int(m.group(3)), ' '.join(data))
                    i = j + 1; continue
            if re.match(r'^(fn|const|static|promoted)\b', l) and (l.rstrip().endswith('{') or re.search(r'\{\s+// ', l)):
                cur = Fn(); cur.blocks = {}; cur.locals = {}; cur.debug = {}; cur.allocs = allocs
                cur.selfty = cur.trait = None; cur.loops = None; cur.preds = None; cur.parsed = {}
                cur.implgen = None; cur.promoted = {}
                head = re.sub(r'\s+// .*$', '', l).rstrip()
                head = head[:-1].rstrip()
                mloc = re.search(r'// .*? at (\S+?):(\d+):', l)
                cur.file, cur.line = (mloc.group(1), int(mloc.group(2))) if mloc else (None, 0)
                if head.startswith('fn '):
                    cur.kind = 'fn'
                    h = head[3:]
                    # find the argument list: first '(' at depth 0 outside <>
                    k = _find_args(h)
                    e = match_close(h, k)
                    cur.name = h[:k]
                    cur.args = []
                    for a in split_top(h[k + 1:e]):
                        nm, ty = a.split(': ', 1)
                        cur.args.append((int(nm[1:]), norm_ty(ty)))
                        cur.locals[int(nm[1:])] = norm_ty(ty)
                    rest = h[e + 1:].strip()
                    cur.ret = norm_ty(rest[3:]) if rest.startswith('->') else '()'
                else:
                    cur.kind = 'const'
                    h = re.sub(r'^(const|static mut|static|promoted)\b ?', '', head)
                    h = re.sub(r' =$', '', h)
                    k = _find_colon(h)
                    cur.name = ('promoted' if head.startswith('promoted') else '') + h[:k]
                    cur.args = []
                    cur.ret = norm_ty(h[k + 1:])
                i += 1
                continue
            i += 1
            continue
        # inside a function
        if l.startswith('}'):
            if cur.kind == 'fn':
                if not ctfe: fns.append(cur)
                else: cur.kind = 'ctfe'; fns.append(cur)
            else:
                consts[cur.name] = cur
                if cur.name.startswith('promoted[') and fns and cur.name.split(' in ', 1)[1] == fns[-1].name:
                    fns[-1].promoted[cur.name.split(' in ', 1)[0]] = cur
            ctfe = False
            cur = None; blk = None; i += 1
            continue
        s = l.strip()
        if not s or s == '}':
            if s == '}' and blk is not None and l.startswith('    }'): blk = None
            i += 1; continue
        if blk is None:
            m = re.match(r'^(bb\d+)( \(cleanup\))?: \{', s)
            if m:
                blk = []; cur.blocks[int(m.group(1)[2:])] = blk
                i += 1; continue
            s2 = re.sub(r'\s+// .*$', '', s)
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s2)
            if m: cur.locals[int(m.group(1))] = norm_ty(m.group(2)); i += 1; continue
            m = re.match(r'^debug (\S+) => (.*);$', s2)
            if m: cur.debug.setdefault(m.group(1), m.group(2)); i += 1; continue
            i += 1; continue
        # statement in a block, with comments
        if s.startswith('//'):
            m = re.match(r'^// \+ literal: (.*)$', s)
            if m and blk: blk[-1][1].append(m.group(1))
            i += 1; continue
        m = re.match(r'^(.*?;)\s*// scope \d+ at (.*)$', s)
        if m: txt, loc = m.group(1), m.group(2)
        else:
            m = re.match(r'^(.*?)\s*// scope \d+ at (.*)$', s)
            if m: txt, loc = m.group(1), m.group(2)
            else: txt, loc = s, ''
        if '"' in s and not txt.endswith(';'):
            k = s.rfind('; // scope')
            if k >= 0: txt = s[:k + 1]; loc = s[k + 10:]
        blk.append((txt, [], loc))
        i += 1
    return fns, consts, allocs


def _find_args(h):
    depth = 0
    for i, c in enumerate(h):
        if c == '<' : depth += 1
        elif c == '>' and h[i - 1] != '-': depth -= 1
        elif c == '(' and depth == 0: return i
    raise MirError('no args in ' + h)


def _find_colon(h):
    depth = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c in '<({[': depth += 1
        elif c in ')}]' or (c == '>' and h[i - 1] != '-'): depth -= 1
        elif c == ':' and depth == 0:
            if h[i:i + 2] == '::': i += 2; continue
            return i
        i += 1
    raise MirError('no colon in ' + h)


# ---------------------------------------------------------------- places
# place = (local, [proj...]);  proj: ('*',) ('f',i,ty) ('v',name) ('i',local) ('c',off,fromend) ('s',a,b,fromend)

def parse_place(s, i=0):
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        pl = (int(m.group(1)), [])
        i = m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            (b, pr), i = parse_place(s, i + 2)
            if s[i] != ')': raise MirError('place ' + s)
            pl = (b, pr + [('*',)]); i += 1
        else:
            (b, pr), j = parse_place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                if not m: raise MirError('place ' + s)
                e = match_close(s, i)
                pl = (b, pr + [('f', int(m.group(1)), norm_ty(s[m.end():e]))]); i = e + 1
            elif s.startswith(' as ', j):
                e = match_close(s, i)
                pl = (b, pr + [('v', s[j + 4:e].strip())]); i = e + 1
            else: raise MirError('place ' + s)
    else: raise MirError('place ' + s)
    while i < len(s) and s[i] == '[':
        e = match_close(s, i)
        ix = s[i + 1:e]
        if re.match(r'^_\d+$', ix): pr = ('i', int(ix[1:]))
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', ix)
            if m: pr = ('c', int(m.group(2)), bool(m.group(1)))
            else:
                m = re.match(r'^(\d*):(-?)(\d*)$', ix)
                if not m:
                    m = re.match(r'^(\d*)\.\.(-?)(\d*)$', ix)
                if not m: raise MirError('index ' + s)
                pr = ('s', int(m.group(1) or 0), int(m.group(3) or 0), bool(m.group(2)))
        pl = (pl[0], pl[1] + [pr]); i = e + 1
    return pl, i


def place(s):
    p, i = parse_place(s)
    if i != len(s): raise MirError('trailing place ' + s)
    return p


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne',
          'Ge', 'Gt', 'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Cmp'}


def operand(s, lits):
    s = s.strip()
    if s.startswith('move '): return ('move', place(s[5:]))
    if s.startswith('copy '): return ('copy', place(s[5:]))
    if s.startswith('const '): return const(s[6:], lits)
    if s[0] in '_(': return ('copy', place(s))
    if re.match(r'^[A-Za-z<]', s): return ('fnitem', s)
    raise MirError('operand ' + s)


_int = re.compile(r'^(-?\d+)_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$')


def const(c, lits):
    c = c.strip()
    m = _int.match(c)
    if m: return ('const', int(m.group(1)), m.group(2))
    if c == 'true': return ('const', True, 'bool')
    if c == 'false': return ('const', False, 'bool')
    if c == '()': return ('unit',)
    if c == '_':
        for k, l in enumerate(lits):
            if l and 'Unevaluated(' in l:
                lits[k] = None
                return ('uneval', l)
        return ('anon', '')
    if c[0] == '"': return ('str', c[1:-1])
    if c[0] == 'b' and c[1:2] == '"': return ('bstr', c[2:-1])
    m = re.match(r"^(?:core::num::<impl )?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>?::(MAX|MIN|BITS)$", c)
    if m:
        t, w = m.groups()
        b = {'size': 64}.get(t[1:], None) or int(t[1:])
        lo, hi = (0, 2 ** b - 1) if t[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        return ('const', {'MAX': hi, 'MIN': lo, 'BITS': b}[w], t if w != 'BITS' else 'u32')
    m = re.match(r"^'(.*)'$", c)
    if m and len(m.group(1)) == 1: return ('const', ord(m.group(1)), 'char')
    m = re.match(r'^\{(alloc\d+): (.*)\}$', c)
    if m: return ('alloc', m.group(1), norm_ty(m.group(2)))
    return ('constpath', c, tuple(x for x in lits if x))


def rvalue(s, lits):
    s = s.strip()
    c0 = s[0]
    if s.startswith('deref_copy '): return ('use', ('copy', place(s[11:])))
    if s.startswith('discriminant('): return ('discr', place(s[13:-1]))
    if s.startswith('Len('): return ('len', place(s[4:-1]))
    if s.startswith('SizeOf(') : return ('sizeof', norm_ty(s[7:-1]))
    if s.startswith('AlignOf('): return ('alignof', norm_ty(s[8:-1]))
    if s.startswith('ShallowInitBox('): return ('shallowbox', operand(split_top(s[15:-1])[0], lits))
    if c0 == '&':
        for pre, k in (('&raw const ', 'raw'), ('&raw mut ', 'rawmut'), ('&mut ', 'mut'), ('&fake ', 'fake'),
                       ('&shallow ', 'fake'), ('&uniq ', 'mut'), ('&', 'shared')):
            if s.startswith(pre): return ('ref', k, place(s[len(pre):]))
    for pre in ('addr_of!(', 'addr_of_mut!('):
        if s.startswith(pre): return ('ref', 'raw', place(s[len(pre):-1]))
    m = re.match(r'^(\w+)\(', s)
    if m and m.group(1) in BINOPS:
        a = split_top(s[m.end():-1])
        return ('bin', m.group(1), operand(a[0], lits), operand(a[1], lits))
    if m and m.group(1) in ('Neg', 'Not'): return ('un', m.group(1), operand(s[m.end():-1], lits))
    # cast
    m = re.match(r'^(.*) as (.*) \(((?:IntToInt|PtrToPtr|Transmute|PointerCoercion\(.*\)|Pointer\(.*\)|'
                 r'PointerExposeAddress|PointerFromExposedAddress|FnPtrToPtr|Misc|FloatToInt|IntToFloat|FloatToFloat|DynStar))\)$', s)
    if m:
        return ('cast', operand(m.group(1), lits), norm_ty(m.group(2)), m.group(3))
    if s.startswith('const ') or s.startswith('move ') or s.startswith('copy '): return ('use', operand(s, lits))
    if c0 == '_': return ('use', ('copy', place(s)))
    if c0 == '(':
        try: return ('use', ('copy', place(s)))
        except MirError: pass
        inner = s[1:-1].strip()
        if inner.endswith(','): inner = inner[:-1]
        return ('tuple', [operand(x, lits) for x in split_top(inner)] if inner else [])
    if c0 == '[' and s.startswith('[closure@'):
        e = match_close(s, 0)
        rest = s[e + 1:].strip()
        fs = []
        if rest.startswith('{'):
            for a in split_top(rest[1:-1]):
                fs.append(operand(a.split(': ', 1)[1], lits))
        return ('closure', s[:e + 1], fs)
    if c0 == '[':
        inner = s[1:-1].strip()
        p = split_top(inner, ';')
        if len(p) == 2: return ('repeat', operand(p[0], lits), p[1])
        return ('array', [operand(x, lits) for x in split_top(inner)] if inner else [])
    # ADT aggregates
    if s.endswith('}'):
        k = s.index(' {') if ' {' in s else s.index('{')
        path = s[:k].strip()
        fs = []
        body = s[s.index('{', k) + 1:-1].strip()
        for a in split_top(body):
            if not a: continue
            nm, o = a.split(': ', 1)
            fs.append((nm, operand(o, lits)))
        return ('adt', path, fs)
    if s.endswith(')'):
        # find the '(' matching the final ')'
        k = _last_open(s)
        return ('adt', s[:k], [(str(j), operand(x, lits)) for j, x in enumerate(split_top(s[k + 1:-1]))])
    return ('adt', s, [])


def _last_open(s):
    depth, i = 0, len(s) - 1
    instr = False
    while i >= 0:
        c = s[i]
        if c == '"' and (i == 0 or s[i - 1] != '\\'): instr = not instr
        elif not instr:
            if c in ')]}': depth += 1
            elif c in '([{':
                depth -= 1
                if depth == 0: return i
        i -= 1
    raise MirError('no open ' + s)


def parse_stmt(t):
    """t=(text,literals,loc) -> tuple"""
    s, lits, loc = t
    lits = list(lits)
    s = s.strip()
    if s.endswith(';'): s = s[:-1]
    if s.startswith(('StorageLive', 'StorageDead', 'ConstEvalCounter', 'nop', 'FakeRead', 'AscribeUserType',
                     'Retag', 'PlaceMention', 'Coverage')): return ('nop',)
    if s == 'return': return ('return',)
    if s == 'unreachable': return ('unreachable',)
    if s == 'resume' or s.startswith('terminate') or s.startswith('abort'): return ('resume',)
    if s.startswith('goto -> '): return ('goto', int(s[10:]))
    if s.startswith('switchInt('):
        e = match_close(s, 9)
        op = operand(s[10:e], lits)
        tg = s[s.index('[', e) + 1:s.rindex(']')]
        arms, other = [], None
        for a in split_top(tg):
            k, b = a.split(': ')
            b = int(b.strip()[2:])
            if k == 'otherwise': other = b
            else: arms.append((int(k), b))
        return ('switch', op, arms, other)
    if s.startswith('drop('):
        e = match_close(s, 4)
        m = re.search(r'(?:return: |-> )bb(\d+)', s[e:])
        return ('goto_drop', place(s[5:e]), int(m.group(1)))
    if s.startswith('assert('):
        e = match_close(s, 6)
        a = split_top(s[7:e])
        cond = a[0]
        neg = cond.startswith('!')
        if neg: cond = cond[1:]
        m = re.search(r'(?:success: |-> )bb(\d+)', s[e:])
        return ('assert', operand(cond, lits), not neg, a[1], int(m.group(1)))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'(?:real: |\[real: )bb(\d+)', s)
        return ('goto', int(m.group(1)))
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
    if m: return ('setdiscr', place(m.group(1)), int(m.group(2)))
    if s.startswith('Deinit('): return ('nop',)
    if s.startswith('assume('): return ('assume', operand(s[7:-1], lits))
    k = s.find(' = ')
    if k < 0: raise MirError('stmt ' + s)
    lhs, rhs = s[:k], s[k + 3:]
    # call?
    m = re.search(r' -> (?:\[return: bb(\d+), unwind.*\]|bb(\d+)|unwind .*|unwind: .*|\[return: bb(\d+)\])$', rhs)
    if m and rhs[:m.start()].endswith(')'):
        callee = rhs[:m.start()]
        o = _last_open(callee)
        tgt = m.group(1) or m.group(2) or m.group(3)
        args = [operand(x, lits) for x in split_top(callee[o + 1:-1])]
        return ('call', place(lhs), callee[:o], args, int(tgt) if tgt else None, loc, tuple(x for x in lits if x))
    return ('assign', place(lhs), rvalue(rhs, lits), loc)


# ---------------------------------------------------------------- callee paths
class Callee:
    __slots__ = ('raw', 'selfty', 'trait', 'method', 'mod', 'gen', 'traitgen')

    def __repr__(self): return self.key()

    def key(self):
        if self.trait: return '<%s as %s>::%s' % (ty_head(self.selfty), self.trait, self.method)
        if self.selfty: return '%s::%s' % (ty_head(self.selfty), self.method)
        return '%s::%s' % (self.mod, self.method) if self.mod else self.method


def split_path(s):
    """split a path on '::' at depth 0"""
    out, depth, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if s.startswith('->', i): cur += '->'; i += 2; continue
        if c in OPEN: depth += 1
        elif c in CLOSE: depth -= 1
        if depth == 0 and s.startswith('::', i):
            out.append(cur); cur = ''; i += 2; continue
        cur += c; i += 1
    out.append(cur)
    return out


@functools.lru_cache(maxsize=None)
def parse_callee(s):
    c = Callee(); c.raw = s; c.selfty = c.trait = c.mod = None; c.gen = []; c.traitgen = []
    segs = split_path(s)
    if len(segs) > 1 and segs[-1].startswith('<') and not segs[-1].startswith('<impl'):
        c.gen = [norm_ty(x) for x in split_top(segs[-1][1:-1])]
        c.gen = [g for g in c.gen if g]
        segs = segs[:-1]
    c.method = segs[-1]
    pre = segs[:-1]
    if not pre: return c
    if pre[0].startswith('<') and len(pre) == 1:
        inner = pre[0][1:-1]
        # "T as Trait" at depth 0
        k = _find_as(inner)
        if k is None:
            c.selfty = norm_ty(inner); return c
        c.selfty = norm_ty(inner[:k])
        tr = norm_ty(inner[k + 4:])
        c.trait = ty_head(tr); c.traitgen = ty_args(tr)
        return c
    if pre[-1].startswith('<impl '):
        c.selfty = norm_ty(pre[-1][6:-1]); return c
    if pre[-1].startswith('<') and len(pre) >= 2:
        c.selfty = norm_ty('::'.join(pre[:-1]) + pre[-1]); return c
    if pre[-1][:1].isupper() or pre[-1] in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i64', 'str', 'bool'):
        c.selfty = norm_ty('::'.join(pre)); return c
    c.mod = pre[-1]
    return c


def _find_as(s):
    depth, i = 0, 0
    while i < len(s):
        if s.startswith('->', i): i += 2; continue
        if s[i] in OPEN: depth += 1
        elif s[i] in CLOSE: depth -= 1
        if depth == 0 and s.startswith(' as ', i): return i
        i += 1
    return None
