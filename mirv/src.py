"""Source index: enum variants/discriminants, struct field names, impl headers (to name MIR items)."""
import re, os


def strip_comments(s):
    # keep offsets: replace comment bodies by spaces
    def rep(m):
        t = m.group(0)
        if t.startswith('/'): return re.sub(r'[^\n]', ' ', t)
        return t
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', rep, s, flags=re.S)


class SrcIndex:
    def __init__(self, root, dirs=('src',)):
        self.root = root
        self.enums, self.structs, self.text, self.lines, self.stypes, self.packed = {}, {}, {}, {}, {}, set()
        self.alias = {}
        for d in dirs:
          for dp, dn, fs in os.walk(os.path.join(root, d)):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    raw = open(p).read()
                    self.lines[rel] = raw.split('\n')
                    self.text[rel] = strip_comments(raw)
        for rel, t in self.text.items():
            self._scan(t)

    def _scan(self, t):
        for m in re.finditer(r'^(?:pub(?:\([^)]*\))?\s+)?type\s+([A-Z]\w*)\s*(?:<[^=;]*>)?\s*=\s*([^;]+);', t, re.M): self.alias[m.group(1)] = m.group(2).strip()
        for m in re.finditer(r'\b(enum|struct|union)\s+([A-Z]\w*)\s*(<[^{;(]*?>)?\s*(?:where[^{]*)?([{;(])', t):
            kind, name, _, op = m.groups()
            i = m.end() - 1
            if op == ';':
                self.structs.setdefault(name, []); continue
            e = self._close(t, i)
            body = t[i + 1:e]
            body = self._noattr(body)
            if kind == 'enum':
                if name in self.enums and '$' in body: continue
                self.enums[name] = self._variants(body, t)
            elif op == '{':
                self.stypes[name] = [re.sub(r'^(?:pub(?:\([^)]*\))?\s+)?\w+\s*:', '', x.strip()).strip() for x in self._split(body) if re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', x.strip())]
                self.structs[name] = [re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', x.strip()).group(1)
                                      for x in self._split(body) if re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', x.strip())]
            else:
                self.structs[name] = [str(k) for k, x in enumerate(self._split(body)) if x.strip()]

    def fn_generics(self, name):
        """type parameter names of `fn name<..>` (lifetimes dropped)"""
        if name not in self._gen:
            g = []
            for t in self.text.values():
                m = re.search(r'\bfn\s+%s\s*<' % re.escape(name), t)
                if m:
                    i = m.end() - 1; d = 0; j = i
                    while j < len(t):
                        if t[j] == '<': d += 1
                        elif t[j] == '>' and t[j - 1] not in '-=':
                            d -= 1
                            if d == 0: break
                        j += 1
                    g = [x.split(':')[0].strip() for x in self._split(t[i + 1:j]) if not x.strip().startswith("'")]
                    break
            self._gen[name] = g
        return self._gen[name]

    _gen = {}

    @staticmethod
    def _close(t, i):
        d = 0
        while i < len(t):
            if t[i] in '([{': d += 1
            elif t[i] in ')]}':
                d -= 1
                if d == 0: return i
            i += 1
        return len(t) - 1

    @staticmethod
    def _noattr(b):
        out, i = '', 0
        while i < len(b):
            if b[i] == '#' and b[i + 1:].lstrip().startswith('['):
                j = b.index('[', i)
                i = SrcIndex._close(b, j) + 1
            else:
                out += b[i]; i += 1
        return out

    @staticmethod
    def _split(b, angle=True):
        out, d, cur = [], 0, ''
        for k, c in enumerate(b):
            if c in '([{' or (angle and c == '<'): d += 1
            elif c in ')]}' or (angle and c == '>' and b[k - 1] not in '-='): d -= 1
            if c == ',' and d == 0: out.append(cur); cur = ''
            else: cur += c
        if cur.strip(): out.append(cur)
        return out

    def _variants(self, body, t):
        vs, nxt = [], 0
        for v in self._split(body, False):
            v = v.strip()
            m = re.match(r'(\w+)\s*(\{.*\}|\(.*\))?\s*(?:=\s*(.*))?$', v, re.S)
            if not m: continue
            nm, flds, d = m.groups()
            if d is not None:
                nxt = self._const(d.strip(), t)
            fl = []
            if flds and flds[0] == '{':
                for x in self._split(flds[1:-1]):
                    mm = re.match(r'(?:pub\s+)?(\w+)\s*:', x.strip())
                    if mm: fl.append(mm.group(1))
            elif flds: fl = [str(k) for k, x in enumerate(self._split(flds[1:-1])) if x.strip()]
            vs.append((nm, nxt, fl))
            nxt = nxt + 1 if nxt is not None else None
        return vs

    @staticmethod
    def _const(d, t):
        d = d.replace('_', '') if re.match(r'^[\d_x]+$', d) else d
        d = re.sub(r'(\d)[ui](8|16|32|64|128)\b', r'\1', d)
        try: return int(eval(d, {}, {}))
        except Exception: return None

    def impl_header(self, file, line, col):
        """text of the impl header (or derive target) at file:line:col"""
        ls = self.lines.get(file)
        if ls is None: return None
        l = ls[line - 1][col - 1:]
        if l.startswith('impl') or l.startswith('unsafe impl'):
            txt = l
            k = line
            while '{' not in txt and k < len(ls):
                txt += ' ' + ls[k].strip(); k += 1
            return txt.split('{')[0].strip()
        # derive: next struct/enum
        for k in range(line - 1, min(line + 40, len(ls))):
            m = re.search(r'\b(?:struct|enum|union)\s+(\w+)', ls[k])
            if m: return 'derive ' + m.group(1)
        return None
