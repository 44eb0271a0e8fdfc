"""Hash-consed terms of the symbolic executor.

Concrete values: Python int (bit-vectors, masked unsigned; pointers are 64-bit
ints), Python float (float32 values are held exactly as doubles).
Symbolic values: T(op, args, s) with s = width (int) | 'f' (binary32) | 'd'
(binary64).  Width-1 terms are booleans.  Only rewrites that are valid for every
IEEE/bit-vector value are performed here.
"""
import struct, math, ctypes

MASK = [(1 << i) - 1 for i in range(0, 257)]


class T:
    __slots__ = ('op', 'args', 's', 'id')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_next = [1]
_fresh = {}


def reset():
    _tab.clear()
    _fresh.clear()


def _k(a):
    if isinstance(a, float):
        return ('F', struct.pack('<d', a))
    return a


def mk(op, args, s):
    key = (op, s) + tuple([(_k(a) if type(a) is float else a) for a in args])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.s = s
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


def _hash_ok():
    pass


def var(name, s):
    return mk('var', (name,), s)


def fresh(name, s):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var('%s!%d' % (name, n), s)


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'var':
        return t.args[0]
    if d == 0:
        return '..'
    return '(%s %s)' % (t.op, ' '.join(show(a, d - 1) for a in t.args))


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def f32(x):
    return ctypes.c_float(x).value


def fconst(x, s):
    return f32(x) if s == 'f' else float(x)


# ------------------------------------------------------------------ booleans
def bnot(a):
    if type(a) is int:
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 1)


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if a is bnot(b):
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 1)


def bor(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    if a is b:
        return a
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    n = 0
    if a.op == 'not':
        a = a.args[0]
        n ^= 1
    if b.op == 'not':
        b = b.args[0]
        n ^= 1
    if a is b:
        return n
    if a.id > b.id:
        a, b = b, a
    r = mk('xorb', (a, b), 1)
    return bnot(r) if n else r


def ite(c, a, b):
    """sort-generic if-then-else; a/b may be concrete if the other tells sort"""
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if type(a) is type(b) and type(a) is not T:
        if type(a) is int and a == b:
            return a
        if type(a) is float and struct.pack('<d', a) == struct.pack('<d', b):
            return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return None  # caller knows sort


def ite_s(c, a, b, s):
    r = ite(c, a, b)
    if r is not None:
        return r
    if c.op == 'not':
        return ite_s(c.args[0], b, a, s)
    if s == 1:
        return bor(band(c, a), band(bnot(c), b))
    return mk('ite', (c, a, b), s)


# ------------------------------------------------------------------ bit-vectors
def split_add(a):
    """(base, const)"""
    if type(a) is int:
        return None, a
    if a.op == 'add' and type(a.args[1]) is int:
        return a.args[0], a.args[1]
    return a, 0


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & MASK[w]
    if w == 1:
        return bxor(a, b)
    ba, ca = split_add(a)
    bb, cb = split_add(b)
    c = (ca + cb) & MASK[w]
    if ba is None:
        base = bb
    elif bb is None:
        base = ba
    else:
        # x + (-x)
        if (ba.op == 'neg' and ba.args[0] is bb) or (bb.op == 'neg' and bb.args[0] is ba):
            return c
        # (x + (-y)) + y
        if ba.op == 'addt':
            for i in (0, 1):
                o = ba.args[i]
                if (o.op == 'neg' and o.args[0] is bb) or (bb.op == 'neg' and bb.args[0] is o):
                    return add(ba.args[1 - i], c, w)
        if bb.op == 'addt':
            for i in (0, 1):
                o = bb.args[i]
                if (o.op == 'neg' and o.args[0] is ba) or (ba.op == 'neg' and ba.args[0] is o):
                    return add(bb.args[1 - i], c, w)
        if ba.id > bb.id:
            ba, bb = bb, ba
        base = mk('addt', (ba, bb), w)
    if c == 0:
        return base
    if base.op == 'ite' and type(base.args[1]) is int and type(base.args[2]) is int:
        return mk('ite', (base.args[0], (base.args[1] + c) & MASK[w], (base.args[2] + c) & MASK[w]), w)
    return mk('add', (base, c), w)


def neg(a, w):
    if type(a) is int:
        return (-a) & MASK[w]
    if w == 1:
        return a
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'add':
        return add(neg(a.args[0], w), (-a.args[1]) & MASK[w], w)
    if a.op == 'addt':
        return add(neg(a.args[0], w), neg(a.args[1], w), w)
    return mk('neg', (a,), w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & MASK[w]
    if w == 1:
        return bxor(a, b)
    return add(a, neg(b, w), w)


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & MASK[w]
    if w == 1:
        return band(a, b)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'add':
            return add(mul(a.args[0], b, w), (a.args[1] * b) & MASK[w], w)
        if a.op == 'mul' and type(a.args[1]) is int:
            return mul(a.args[0], (a.args[1] * b) & MASK[w], w)
        if a.op == 'neg':
            return mul(a.args[0], (-b) & MASK[w], w)
        if b == MASK[w]:
            return neg(a, w)
        if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
            return ite_s(a.args[0], (a.args[1] * b) & MASK[w], (a.args[2] * b) & MASK[w], w)
        return mk('mul', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), w)


def _b0(a, w):
    """a is a zero-extended bit: that bit, else None"""
    if type(a) is int:
        return a if a < 2 else None
    if a.op == 'cat' and len(a.args) == 4 and a.args[3] == 1 and type(a.args[0]) is int and a.args[0] == 0:
        return a.args[2]
    return None


def and_(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    if w == 1:
        return band(a, b)
    x, y = _b0(a, w), _b0(b, w)
    if x is not None and y is not None:
        return zext(band(x, y), 1, w)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        # low mask -> zext(trunc)
        if (b & (b + 1)) == 0:
            k = b.bit_length()
            return zext(extract(a, k - 1, 0, w), k, w)
        if a.op == 'andc':
            return and_(a.args[0], a.args[1] & b, w)
        # single bit in the middle: keep as extract
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return shl(zext(extract(a, k, k, w), 1, w), k, w)
        return mk('andc', (a, b), w)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('bvand', (a, b), w)


def or_(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    if w == 1:
        return bor(a, b)
    x, y = _b0(a, w), _b0(b, w)
    if x is not None and y is not None:
        return zext(bor(x, y), 1, w)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
    elif a is b:
        return a
    # disjoint concat pieces
    pa = pieces(a, w)
    pb = pieces(b, w)
    if pa is not None and pb is not None:
        r = merge_pieces(pa, pb, w)
        if r is not None:
            return r
    if type(b) is int:
        return mk('bvor', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return mk('bvor', (a, b), w)


def xor_(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if w == 1:
        return bxor(a, b)
    x, y = _b0(a, w), _b0(b, w)
    if x is not None and y is not None:
        return zext(bxor(x, y), 1, w)
    if a is b:
        return 0
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return bvnot(a, w)
        return mk('bvxor', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return mk('bvxor', (a, b), w)


def bvnot(a, w):
    if type(a) is int:
        return a ^ MASK[w]
    if w == 1:
        return bnot(a)
    # ~x = -x-1
    return add(neg(a, w), MASK[w], w)


# representation of a value as list of (lo, len, val) non-overlapping nonzero pieces
def pieces(a, w):
    if type(a) is int:
        out = []
        i = 0
        v = a
        while v:
            # runs of ones/any: take maximal nonzero byte-ish chunks
            tz = (v & -v).bit_length() - 1
            i += tz
            v >>= tz
            # take the run up to next zero bit
            ln = 0
            x = v
            while x & 1:
                ln += 1
                x >>= 1
            out.append((i, ln, MASK[ln]))
            i += ln
            v = x
        return out
    if a.op == 'cat':
        out = []
        lo = 0
        for v, n in reversed(_catparts(a)):
            if type(v) is int:
                for (l, n2, v2) in pieces(v, n):
                    out.append((lo + l, n2, v2))
            else:
                out.append((lo, n, v))
            lo += n
        return out
    return [(0, w, a)]


def _catparts(a):
    # cat args: v0,n0,v1,n1,... from MSB
    ar = a.args
    return [(ar[i], ar[i + 1]) for i in range(0, len(ar), 2)]


def merge_pieces(pa, pb, w):
    allp = sorted(pa + pb, key=lambda p: p[0])
    pos = 0
    for (lo, n, v) in allp:
        if lo < pos:
            return None
        pos = lo + n
    parts = []
    pos = 0
    for (lo, n, v) in allp:
        if lo > pos:
            parts.append((0, lo - pos))
        parts.append((v, n))
        pos = lo + n
    if pos < w:
        parts.append((0, w - pos))
    parts.reverse()
    return cat(parts)


def cat(parts):
    """parts: list of (val,width) MSB first"""
    out = []

    def push(v, n):
        if n == 0:
            return
        if out:
            pv, pn = out[-1]
            if type(pv) is int and type(v) is int:
                out[-1] = ((pv << n) | v, pn + n)
                return
            if type(pv) is T and type(v) is T:
                # adjacent extracts
                pb, phi, plo = (pv.args if pv.op == 'ext' else (pv, pn - 1, 0))
                vb, vhi, vlo = (v.args if v.op == 'ext' else (v, n - 1, 0))
                if pb is vb and plo == vhi + 1:
                    bw = pb.s if type(pb.s) is int else (32 if pb.s == 'f' else 64)
                    out[-1] = (extract(pb, phi, vlo, bw), pn + n)
                    return
        out.append((v, n))

    for v, n in parts:
        if type(v) is T and v.op == 'cat':
            for v2, n2 in _catparts(v):
                push(v2, n2)
        else:
            push(v, n)
    if len(out) == 1:
        return out[0][0]
    w = sum(n for _, n in out)
    args = []
    for v, n in out:
        args += [v, n]
    return mk('cat', tuple(args), w)


def extract(a, hi, lo, w):
    if type(a) is int:
        return (a >> lo) & MASK[hi - lo + 1]
    if lo == 0 and hi == w - 1:
        return a
    n = hi - lo + 1
    if a.op == 'ext':
        b, h, l = a.args
        return extract(b, l + hi, l + lo, b.s)
    if a.op == 'cat':
        parts = []
        top = w
        for v, k in _catparts(a):
            bot = top - k
            h = min(hi, top - 1)
            l = max(lo, bot)
            if h >= l:
                parts.append((extract(v, h - bot, l - bot, k), h - l + 1))
            top = bot
        return cat(parts)
    if a.op == 'sext':
        b = a.args[0]
        bw = b.s
        if hi < bw:
            return extract(b, hi, lo, bw)
        if lo == 0:
            return sext(b, bw, n)
    if a.op == 'andc':
        m = (a.args[1] >> lo) & MASK[n]
        return and_(extract(a.args[0], hi, lo, w), m, n)
    if a.op in ('add', 'mul') and lo == 0 and type(a.args[1]) is int:
        f = add if a.op == 'add' else mul
        return f(extract(a.args[0], hi, 0, w), a.args[1] & MASK[n], n)
    if a.op == 'addt' and lo == 0:
        return add(extract(a.args[0], hi, 0, w), extract(a.args[1], hi, 0, w), n)
    if a.op == 'neg' and lo == 0:
        return neg(extract(a.args[0], hi, 0, w), n)
    if a.op == 'ite':
        if type(a.args[1]) is int or type(a.args[2]) is int:
            return ite_s(a.args[0], extract(a.args[1], hi, lo, w), extract(a.args[2], hi, lo, w), n)
    if a.op == 'bvor':
        return or_(extract(a.args[0], hi, lo, w), extract(a.args[1], hi, lo, w), n)
    return mk('ext', (a, hi, lo), n)


def zext(a, fw, w):
    if type(a) is int:
        return a
    if fw == w:
        return a
    return cat([(0, w - fw), (a, fw)])


def sext(a, fw, w):
    if type(a) is int:
        return sx(a, fw) & MASK[w]
    if fw == w:
        return a
    if a.op == 'cat' and type(a.args[0]) is int and (a.args[0] >> (a.args[1] - 1)) == 0:
        return zext(a, fw, w)
    if a.op == 'sext':
        a = a.args[0]
        fw = a.s
    return mk('sext', (a,), w)


def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0  # poison in LLVM; executor flags separately
        if type(a) is int:
            return (a << b) & MASK[w]
        if b == 0:
            return a
        if a.op == 'neg':
            return neg(shl(a.args[0], b, w), w)
        if a.op == 'add' and type(a.args[1]) is int:
            return add(shl(a.args[0], b, w), (a.args[1] << b) & MASK[w], w)
        if a.op == 'ite':
            return ite_s(a.args[0], shl(a.args[1], b, w), shl(a.args[2], b, w), w)
        if a.op == 'sext' and a.args[0].s == w - b and a.args[0].op == 'ext' and a.args[0].args[1:] == (w - 1, b):
            return and_(a.args[0].args[0], MASK[w] & ~((1 << b) - 1), w)
        return cat([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
    if type(a) is int and a == 0:
        return 0
    return mk('shl', (a, b), w)


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return cat([(0, b), (extract(a, w - 1, b, w), w - b)])
    if type(a) is int and a == 0:
        return 0
    return mk('lshr', (a, b), w)


def ashr(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (sx(a, w) >> min(b, w - 1)) & MASK[w]
        if b == 0:
            return a
        b = min(b, w - 1)
        return sext(extract(a, w - 1, b, w), w - b, w)
    if type(a) is int and a == 0:
        return 0
    return mk('ashr', (a, b), w)


def udiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        return a // b
    if type(b) is int and b and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    return mk('udiv', (a, b), w)


def urem(a, b, w):
    if type(a) is int and type(b) is int and b:
        return a % b
    if type(b) is int and b and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    return mk('urem', (a, b), w)


def sdiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & MASK[w]
    if b == 1:
        return a
    return mk('sdiv', (a, b), w)


def srem(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & MASK[w]
    return mk('srem', (a, b), w)


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    if w == 1:
        return bnot(bxor(a, b))
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if a.op == 'add':
            return eq(a.args[0], (b - a.args[1]) & MASK[w], w)
        if a.op == 'neg':
            return eq(a.args[0], (-b) & MASK[w], w)
        if a.op == 'cat':
            r = 1
            pos = w
            for v, n in _catparts(a):
                pos -= n
                r = band(r, eq(v, (b >> pos) & MASK[n], n))
                if r == 0 and type(r) is int:
                    return 0
            return r
        if a.op == 'sext':
            fw = a.args[0].s
            if sx(b & MASK[fw], fw) & MASK[w] != b:
                return 0
            return eq(a.args[0], b & MASK[fw], fw)
        if a.op == 'ite':
            return ite_s(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 1)
        if w == 1:
            return a if b else bnot(a)
        return mk('eq', (a, b), 1)
    if a.op == 'add' and b.op == 'add':
        return eq(a.args[0], add(b.args[0], (b.args[1] - a.args[1]) & MASK[w], w), w)
    if a.op == 'cat' and b.op == 'cat' and type(a.args[0]) is int and type(b.args[0]) is int and a.args[1] == b.args[1]:
        n = a.args[1]
        if a.args[0] != b.args[0]:
            return 0
        return eq(extract(a, w - n - 1, 0, w), extract(b, w - n - 1, 0, w), w - n)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 1)


def umax_of(a, w):
    if type(a) is int:
        return a
    if a.op == 'cat' and type(a.args[0]) is int:
        rest = w - a.args[1]
        return (a.args[0] << rest) | MASK[rest]
    if a.op == 'ite':
        return max(umax_of(a.args[1], w), umax_of(a.args[2], w))
    return MASK[w]


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if w == 1:
        return band(bnot(a), b)
    if type(b) is int:
        if b == 0:
            return 0
        if umax_of(a, w) < b:
            return 1
        if b == 1:
            return eq(a, 0, w)
        if a.op == 'cat' and type(a.args[0]) is int and a.args[0] == 0:
            n = w - a.args[1]
            return ult(extract(a, n - 1, 0, w), b, n)
        if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
            return ite_s(a.args[0], 1 if a.args[1] < b else 0, 1 if a.args[2] < b else 0, 1)
    if type(a) is int:
        if a == MASK[w]:
            return 0
        if umax_of(b, w) <= a:
            return 0
        if a == 0:
            return bnot(eq(b, 0, w))
        if b.op == 'cat' and type(b.args[0]) is int and b.args[0] == 0:
            n = w - b.args[1]
            return ult(a, extract(b, n - 1, 0, w), n)
    return mk('ult', (a, b, w), 1)


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sx(a, w) < sx(b, w) else 0
    if a is b:
        return 0
    if w == 1:
        return band(a, bnot(b))

    def pos(x):
        if type(x) is int:
            return x >> (w - 1) == 0
        return x.op == 'cat' and type(x.args[0]) is int and (x.args[0] >> (x.args[1] - 1)) == 0
    if pos(a) and pos(b):
        return ult(a, b, w)
    if pos(a) and type(b) is int:
        return 0
    if pos(b) and type(a) is int:
        return 1
    if type(a) is int and sx(a, w) == -1 and False:
        pass
    if type(b) is T and type(a) is T and a.op == 'sext' and b.op == 'sext' and a.args[0].s == b.args[0].s:
        return slt(a.args[0], b.args[0], a.args[0].s)
    if type(b) is int and a.op == 'sext':
        n = a.args[0].s
        v = sx(b, w)
        if v > MASK[n - 1]:
            return 1
        if v <= -(1 << (n - 1)):
            return 0
        return slt(a.args[0], v & MASK[n], n)
    if type(a) is int and b.op == 'sext':
        n = b.args[0].s
        v = sx(a, w)
        if v >= MASK[n - 1]:
            return 0
        if v < -(1 << (n - 1)):
            return 1
        return slt(v & MASK[n], b.args[0], n)
    if type(a) is T and a.op == 'ite' and type(b) is int and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite_s(a.args[0], slt(a.args[1], b, w), slt(a.args[2], b, w), 1)
    return mk('slt', (a, b, w), 1)


# ------------------------------------------------------------------ floating point
def fpack(v, s):
    """float const -> int bits"""
    if s == 'f':
        return struct.unpack('<I', struct.pack('<f', v))[0]
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def funpack(b, s):
    if s == 'f':
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fdivc(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        neg_ = math.copysign(1, a) * math.copysign(1, b)
        return math.inf if neg_ > 0 else -math.inf


def isneg1(a):
    return type(a) is float and a == -1.0


def fneg(a, s):
    if type(a) is float:
        return -a
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), s)


def fadd(a, b, s):
    if type(a) is float and type(b) is float:
        return fconst(a + b, s)
    # keep commutative order canonical
    if type(a) is float or (type(b) is T and a.id > b.id):
        a, b = b, a
    if type(b) is float and b == 0.0 and math.copysign(1, b) < 0:
        return a
    # (-a)+(-b) = -(a+b)
    if type(a) is T and a.op == 'fneg' and type(b) is T and b.op == 'fneg':
        # exact in RNE except sign of zero is also symmetric only when not cancelling;
        # -(a+b): a+b = +0 when a=-b -> -(+0) = -0 but (-a)+(-b)=+0 : differs, so no rewrite
        pass
    return mk('fadd', (a, b), s)


def fsub(a, b, s):
    if type(a) is float and type(b) is float:
        return fconst(a - b, s)
    # a - b == a + (-b) exactly in IEEE
    return fadd(a, fneg(b, s), s)


def fmul(a, b, s):
    if type(a) is float and type(b) is float:
        return fconst(a * b, s)
    n = 0
    if type(a) is T and a.op == 'fneg':
        a = a.args[0]
        n ^= 1
    if type(b) is T and b.op == 'fneg':
        b = b.args[0]
        n ^= 1
    if type(a) is float:
        if math.copysign(1, a) < 0:
            a = -a
            n ^= 1
        a, b = b, a
    elif type(b) is float:
        if math.copysign(1, b) < 0:
            b = -b
            n ^= 1
    elif a.id > b.id:
        a, b = b, a
    if type(b) is float and b == 1.0:
        r = a
    else:
        r = mk('fmul', (a, b), s)
    return fneg(r, s) if n else r


def fdiv(a, b, s):
    if type(a) is float and type(b) is float:
        return fconst(fdivc(a, b), s)
    n = 0
    if type(a) is T and a.op == 'fneg':
        a = a.args[0]
        n ^= 1
    if type(b) is T and b.op == 'fneg':
        b = b.args[0]
        n ^= 1
    if type(b) is float and b == 1.0:
        r = a
    elif type(b) is float and b != 0 and abs(b) != math.inf and math.frexp(b)[0] in (0.5, -0.5) and 2.0 ** -1000 < abs(b) < 2.0 ** 100 and s == 'd':
        return fneg(fmul(a, 1.0 / b, s), s) if n else fmul(a, 1.0 / b, s)
    else:
        r = mk('fdiv', (a, b), s)
    return fneg(r, s) if n else r


def frem(a, b, s):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b)
    return mk('frem', (a, b), s)


def fabs_(a, s):
    if type(a) is float:
        return abs(a)
    if a.op in ('fabs',):
        return a
    if a.op == 'fneg':
        return fabs_(a.args[0], s)
    if a.op == 'fadd':
        # |x+y| == |(-x)+(-y)| : keep the older of the two sums
        x, y = a.args
        alt = fadd(fneg(x, s), fneg(y, s), s)
        if type(alt) is T and alt.id < a.id:
            a = alt
        return mk('fabs', (a,), s)
    if a.op == 'fpext':
        return fpext(fabs_(a.args[0], 'f'))
    if a.op == 'fptrunc':
        return mk('fabs', (a,), s)
    return mk('fabs', (a,), s)


def fsqrt(a, s):
    if type(a) is float:
        return fconst(math.sqrt(a), s) if a >= 0 else math.nan
    return mk('fsqrt', (a,), s)


def fpext(a):
    if type(a) is float:
        return a
    if a.op == 'fneg':
        return fneg(fpext(a.args[0]), 'd')
    return mk('fpext', (a,), 'd')


def fptrunc(a):
    if type(a) is float:
        return f32(a)
    if a.op == 'fpext':
        return a.args[0]
    if a.op == 'fneg':
        return fneg(fptrunc(a.args[0]), 'f')
    return mk('fptrunc', (a,), 'f')


def sitofp(a, w, s):
    if type(a) is int:
        return fconst(float(sx(a, w)), s)
    return mk('sitofp', (a,), s)


def uitofp(a, w, s):
    if type(a) is int:
        return fconst(float(a), s)
    if a.op == 'cat' and type(a.args[0]) is int and (a.args[0] >> (a.args[1] - 1)) == 0:
        return mk('sitofp', (a,), s)
    return mk('uitofp', (a,), s)


def fptosi(a, s, w):
    if type(a) is float:
        if a != a or abs(a) >= 2.0 ** (w - 1) and a != -2.0 ** (w - 1):
            # x86 cvttsd2si indefinite integer (UB in C)
            if w == 32 or w == 64:
                return 1 << (w - 1)
            return 0
        return int(a) & MASK[w]
    if a.op == 'sitofp' and a.args[0].s == w and ((w <= 32 and s == 'd') or w <= 24):
        return a.args[0]
    return mk('fptosi', (a,), w)


def fptoui(a, s, w):
    if type(a) is float:
        if a != a or a <= -1 or a >= 2.0 ** w:
            return 0
        return int(a)
    return mk('fptoui', (a,), w)


def flt(a, b, s):
    if type(a) is float and type(b) is float:
        return 1 if a < b else 0
    if a is b:
        return 0
    if type(a) is T and a.op == 'fneg' and type(b) is T and b.op == 'fneg':
        return flt(b.args[0], a.args[0], s)
    if type(a) is T and a.op == 'fneg' and type(b) is float:
        return flt(-b, a.args[0], s)
    if type(b) is T and b.op == 'fneg' and type(a) is float:
        return flt(b.args[0], -a, s)
    if type(a) is T and a.op == 'fpext' and type(b) is T and b.op == 'fpext':
        return flt(a.args[0], b.args[0], 'f')
    if type(a) is T and a.op == 'fpext' and type(b) is float and f32(b) == b:
        return flt(a.args[0], b, 'f')
    if type(b) is T and b.op == 'fpext' and type(a) is float and f32(a) == a:
        return flt(a, b.args[0], 'f')
    if type(b) is T and b.op == 'fabs' and type(a) is float and a < 0:
        return bnot(funo(b, b, s))
    if type(a) is T and a.op == 'fabs' and type(b) is float and b <= 0:
        return 0
    if type(a) is float and a == 0.0:
        a = 0.0
    if type(b) is float and b == 0.0:
        b = 0.0
    return mk('flt', (a, b, s), 1)


def fle(a, b, s):
    if type(a) is float and type(b) is float:
        return 1 if a <= b else 0
    if a is b:
        return bnot(funo(a, a, s))
    if type(a) is T and a.op == 'fneg' and type(b) is T and b.op == 'fneg':
        return fle(b.args[0], a.args[0], s)
    if type(a) is T and a.op == 'fneg' and type(b) is float:
        return fle(-b, a.args[0], s)
    if type(b) is T and b.op == 'fneg' and type(a) is float:
        return fle(b.args[0], -a, s)
    if type(a) is T and a.op == 'fpext' and type(b) is T and b.op == 'fpext':
        return fle(a.args[0], b.args[0], 'f')
    if type(a) is T and a.op == 'fpext' and type(b) is float and f32(b) == b:
        return fle(a.args[0], b, 'f')
    if type(b) is T and b.op == 'fpext' and type(a) is float and f32(a) == a:
        return fle(a, b.args[0], 'f')
    if type(a) is float and a == 0.0:
        a = 0.0
    if type(b) is float and b == 0.0:
        b = 0.0
    return mk('fle', (a, b, s), 1)


def feq(a, b, s):
    if type(a) is float and type(b) is float:
        return 1 if a == b else 0
    if a is b:
        return bnot(funo(a, a, s))
    if type(a) is float:
        a, b = b, a
    if type(b) is float:
        if b == 0.0:
            b = 0.0
            while type(a) is T and a.op in ('fneg', 'fabs', 'fpext'):
                if a.op == 'fpext':
                    s = 'f'
                a = a.args[0]
        elif type(a) is T and a.op == 'fneg':
            return feq(a.args[0], -b, s)
        if type(a) is T and a.op == 'fpext' and f32(b) == b:
            return feq(a.args[0], b, 'f')
    else:
        if a.op == 'fpext' and b.op == 'fpext':
            return feq(a.args[0], b.args[0], 'f')
        if a.id > b.id:
            a, b = b, a
    return mk('feq', (a, b, s), 1)


def fisnan(a, s):
    if type(a) is float:
        return 1 if a != a else 0
    while a.op in ('fneg', 'fabs', 'fpext'):
        if a.op == 'fpext':
            s = 'f'
        a = a.args[0]
    if a.op in ('sitofp', 'uitofp'):
        return 0
    return mk('isnan', (a, s), 1)


def funo(a, b, s):
    if a is b:
        return fisnan(a, s)
    return bor(fisnan(a, s), fisnan(b, s))


def fcmp(pred, a, b, s):
    if pred == 'oeq':
        return feq(a, b, s)
    if pred == 'one':
        return bor(flt(a, b, s), flt(b, a, s))
    if pred == 'olt':
        return flt(a, b, s)
    if pred == 'ole':
        return fle(a, b, s)
    if pred == 'ogt':
        return flt(b, a, s)
    if pred == 'oge':
        return fle(b, a, s)
    if pred == 'ord':
        return bnot(funo(a, b, s))
    if pred == 'uno':
        return funo(a, b, s)
    if pred == 'ueq':
        return bnot(bor(flt(a, b, s), flt(b, a, s)))
    if pred == 'une':
        return bnot(feq(a, b, s))
    if pred == 'ult':
        return bnot(fle(b, a, s))
    if pred == 'ule':
        return bnot(flt(b, a, s))
    if pred == 'ugt':
        return bnot(fle(a, b, s))
    if pred == 'uge':
        return bnot(flt(a, b, s))
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    raise Exception(pred)


def tobits(a, s):
    """FP value -> int"""
    if type(a) is float:
        return fpack(a, s)
    w = 32 if s == 'f' else 64
    if a.op == 'frombits':
        return a.args[0]
    if a.op == 'fneg':
        b = tobits(a.args[0], s)
        return cat([(bnot(extract(b, w - 1, w - 1, w)), 1), (extract(b, w - 2, 0, w), w - 1)])
    if a.op == 'fabs':
        b = tobits(a.args[0], s)
        return cat([(0, 1), (extract(b, w - 2, 0, w), w - 1)])
    return mk('tobits', (a,), w)


def frombits(b, s):
    if type(b) is int:
        return funpack(b, s)
    if b.op == 'tobits':
        return b.args[0]
    return mk('frombits', (b,), s)


def uf(name, args, s):
    return mk('uf', (name,) + tuple(args), s)
