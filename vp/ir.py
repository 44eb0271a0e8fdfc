"""Parser for the textual LLVM-18 IR that clang/opt produce (opaque pointers)."""
import re

TOK = re.compile(r'''\s*(?:
    (?P<str>c"(?:[^"])*") |
    (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+) |
    (?P<num>-?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?) |
    (?P<meta>![-a-zA-Z0-9_.]*) |
    (?P<attr>\#[0-9]+) |
    (?P<dots>\.\.\.) |
    (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*) |
    (?P<quo>"[^"]*") |
    (?P<p>[][(){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].strip().startswith(';'):
                break
            raise Exception('tok: %r at %r' % (s, s[i:i + 30]))
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'els', 'packed', 'name')

    def __init__(self, k, **kw):
        self.k = k
        for a in ('w', 'el', 'n', 'els', 'packed', 'name'):
            setattr(self, a, kw.get(a))


VOID = Ty('void')
PTR = Ty('int', w=64, name='ptr')
FLOAT = Ty('f')
DOUBLE = Ty('d')
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty('int', w=w)
    return _ints[w]


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}   # name -> (ty, init tokens or None, const?)
        self.funcs = {}     # name -> Func
        self.decls = set()

    # layout
    def size(self, t):
        k = t.k
        if k == 'int':
            return max(1, (t.w + 7) // 8) if t.w <= 8 else 1 << ((t.w + 7) // 8 - 1).bit_length()
        if k == 'f':
            return 4
        if k == 'd':
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t.n * self.size(t.el)
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'named':
            return self.size(self.structs[t.name])
        raise Exception('size ' + k)

    def align(self, t):
        k = t.k
        if k == 'arr':
            return self.align(t.el)
        if k == 'named':
            return self.align(self.structs[t.name])
        if k == 'struct':
            if t.packed:
                return 1
            return max([self.align(e) for e in t.els] + [1])
        return min(16, self.size(t))

    def layout(self, t):
        offs = []
        o = 0
        for e in t.els:
            a = 1 if t.packed else self.align(e)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        a = 1 if t.packed else self.align(t)
        return offs, (o + a - 1) // a * a

    def resolve(self, t):
        while t.k == 'named':
            t = self.structs[t.name]
        return t


class Func:
    __slots__ = ('name', 'ret', 'params', 'lines', 'blocks', 'code', 'nreg', 'ninstr', 'merges')


ATTRW = set('noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly returned immarg noalias nofree nest swiftself allocptr allocalign writable dead_on_unwind'.split())


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, m):
        self.t = toks
        self.i = 0
        self.m = m

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def pk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Exception('expected %r got %r in %r' % (v, self.t[self.i:self.i + 3], ' '.join(x[1] for x in self.t)))

    def type(self):
        w = self.next()
        if w == 'void':
            t = VOID
        elif w == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif w == 'float':
            t = FLOAT
        elif w == 'double':
            t = DOUBLE
        elif w == 'x86_fp80':
            t = Ty('x86_fp80')
        elif w == 'label' or w == 'metadata' or w == 'token':
            t = Ty(w)
        elif re.fullmatch(r'i[0-9]+', w):
            t = INT(int(w[1:]))
        elif w == '[':
            n = int(self.next()); self.expect('x')
            el = self.type(); self.expect(']')
            t = Ty('arr', n=n, el=el)
        elif w == '{':
            t = self._struct('}', False)
        elif w == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                el = self.type(); self.expect('>')
                t = Ty('vec', n=n, el=el)
        elif w[0] == '%':
            t = Ty('named', name=w)
        else:
            raise Exception('type %r in %s' % (w, ' '.join(x[1] for x in self.t)))
        # function type e.g. "i32 (ptr, ...)"
        if self.peek() == '(' and t.k != 'label':
            # only in call of varargs
            d = 0
            save = self.i
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        return t

    def _struct(self, end, packed):
        els = []
        if not self.accept(end):
            while True:
                els.append(self.type())
                if self.accept(end):
                    break
                self.expect(',')
        return Ty('struct', els=els, packed=packed)

    def attrs(self):
        while True:
            w = self.peek()
            if w in ATTRW:
                self.next()
            elif w == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'initializes', 'elementtype', 'range', 'nofpclass'):
                self.next()
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                return


def unq(s):
    return s


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            if rest.strip() != 'opaque':
                m.structs[name.strip()] = P(tokenize(rest), m).type()
        elif ln.startswith('@'):
            _global(m, ln)
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            if mm:
                m.decls.add(mm.group(1))
        elif ln.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            f = Func()
            f.name = mm.group(1)
            f.lines = [ln]
            f.code = None
            i += 1
            while lines[i] != '}':
                f.lines.append(lines[i])
                i += 1
            m.funcs[f.name] = f
        i += 1
    return m


def _global(m, ln):
    mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    name, rest = mm.group(1), mm.group(2)
    if rest.startswith('comdat') or ' comdat any' in ln and 'global' not in ln and 'constant' not in ln:
        return
    rest = rest.split(', !dbg')[0]
    k = re.search(r'\b(global|constant|alias|ifunc)\b', rest)
    if not k:
        return
    pre = rest[:k.start()]
    body = rest[k.end():]
    toks = tokenize(body)
    if k.group(1) == 'alias':
        p = P(toks, m)
        p.type(); p.expect(','); p.type()
        m.globals[name] = ('alias', p.next()[1:])
        return
    p = P(toks, m)
    ty = p.type()
    if 'external' in pre or 'available_externally' in pre or p.peek() in (None, ','):
        m.globals[name] = (ty, None)
    else:
        m.globals[name] = (ty, p)


def parse_func(m, f):
    """returns (params[(ty,name)], blocks: list of (label, [instr tokens]))"""
    head = f.lines[0]
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
    toks = tokenize(head[mm.end() - 1:].rstrip('{ ').split(' personality')[0])
    p = P(toks, m)
    p.expect('(')
    params = []
    cnt = 0
    if not p.accept(')'):
        while True:
            if p.peek() == '...':
                p.next()
                p.expect(')')
                break
            t = p.type()
            p.attrs()
            if p.pk() == 'id':
                nm = p.next()
                if nm[1:].isdigit():
                    cnt += 1
            else:
                nm = '%' + str(cnt)
                cnt += 1
            params.append((t, nm))
            if p.accept(')'):
                break
            p.expect(',')
    # return type
    pre = tokenize(head[len('define'):mm.start()])
    # drop linkage words
    j = 0
    while j < len(pre):
        if pre[j][0] == 'word' and not (pre[j][1] in ('void', 'ptr', 'float', 'double') or re.fullmatch(r'i[0-9]+', pre[j][1])):
            if j + 1 < len(pre) and pre[j + 1][1] == '(':
                while pre[j][1] != ')':
                    j += 1
            elif pre[j][1] == 'align':
                j += 1
            j += 1
        else:
            break
    ret = P(pre[j:], m).type()
    blocks = []
    cur = None
    first = True
    k = 1
    L = f.lines
    while k < len(L):
        ln = L[k]
        k += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if mm:
            cur = ('%' + mm.group(1), [])
            blocks.append(cur)
            first = False
            continue
        if first:
            cur = ('%' + str(cnt), [])
            blocks.append(cur)
            first = False
        s = ln.strip()
        if s.startswith('switch'):
            while ']' not in s.split('[', 1)[-1] if '[' in s else True:
                s += ' ' + L[k].strip()
                k += 1
        cur[1].append(s)
    return ret, params, blocks
