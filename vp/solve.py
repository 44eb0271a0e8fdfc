"""Translation of terms to z3.  Three encodings:
  A  abstract : FP terms are elements of uninterpreted sorts with congruence, an order
                embedding val:F->Real, nan flags and lemmas valid for IEEE-754 RNE.  unsat in A
                implies unsat over IEEE.
  E  exact    : bit-precise IEEE-754 (z3 FP theory).
  R  real     : FP values are exact reals (used only for claims stated in exact arithmetic).
libm functions are uninterpreted in every encoding.
"""
import math, time, fractions
import z3
from .terms import T, MASK, sx, fpack
from . import terms

BIG = 1 << 1100
LIBM = set()


def rat(v):
    if v == math.inf:
        return z3.RealVal(BIG)
    if v == -math.inf:
        return z3.RealVal(-BIG)
    fr = fractions.Fraction(v)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Lem:
    """lemmas, attributed to the term whose translation produced them"""
    def __init__(self):
        self.own = {}
        self.glob = []
        self.cur = None
        self.pairs = {}      # term id -> [(other term id, lemma)]: lemma relevant when both terms occur

    def append(self, x):
        if self.cur is None:
            self.glob.append(x)
        else:
            self.own.setdefault(self.cur, []).append(x)


class Base:
    def __init__(self):
        self.cache = {}
        self.lem = Lem()
        self.ufs = {}

    def lemmas(self, terms_, seen=None):
        """lemmas of all subterms not in seen (which is updated)"""
        seen = set() if seen is None else seen
        out = []
        st = [t for t in terms_ if type(t) is T]
        own, pairs = self.lem.own, self.lem.pairs
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            l = own.get(x.id)
            if l:
                out += l
            l = pairs.get(x.id)
            if l:
                out += [p for o, p in l if o in seen]
            for a in x.args:
                if type(a) is T and a.id not in seen:
                    st.append(a)
        return out

    def bv(self, v, w):
        if type(v) is int:
            if w == 1:
                return z3.BoolVal(bool(v))
            return z3.BitVecVal(v, w)
        return self.tr(v)

    def bb(self, v, w):
        """as bitvector even for width 1"""
        if w == 1:
            if type(v) is int:
                return z3.BitVecVal(v, 1)
            return z3.If(self.tr(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return self.bv(v, w)

    def tr(self, t):
        c = self.cache.get(t.id)
        if c is not None:
            return c[1]
        # iterative post-order to avoid deep recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.cache:
                stack.pop()
                continue
            todo = [a for a in x.args if type(a) is T and a.id not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.lem.cur = x.id
            self.cache[x.id] = (x, self.one(x))
            self.lem.cur = None
        return self.cache[t.id][1]

    def sort_of(self, s):
        if s == 1:
            return z3.BoolSort()
        if type(s) is int:
            return z3.BitVecSort(s)
        return self.fsort(s)

    def val_s(self, v, s):
        """translate value with known sort"""
        if type(s) is int:
            return self.bv(v, s)
        return self.fp(v, s)

    def uffun(self, name, argsorts, s):
        key = (name, tuple(argsorts), s)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function('%s#%s' % (name, '_'.join(map(str, argsorts))), *([self.sort_of(a) for a in argsorts] + [self.sort_of(s)]))
        return f

    def one(self, t):
        op = t.op
        a = t.args
        s = t.s
        bv = self.bv
        if op == 'var':
            return self.mkvar(a[0], s)
        if op == 'not':
            return z3.Not(self.tr(a[0]))
        if op == 'and':
            return z3.And(self.tr(a[0]), self.tr(a[1]))
        if op == 'xorb':
            return z3.Xor(self.tr(a[0]), self.tr(a[1]))
        if op == 'ite':
            return z3.If(self.tr(a[0]), self.val_s(a[1], s), self.val_s(a[2], s))
        if op in ('add', 'addt'):
            return self.tr(a[0]) + bv(a[1], s)
        if op == 'neg':
            return -self.tr(a[0])
        if op == 'mul':
            return self.tr(a[0]) * bv(a[1], s)
        if op in ('andc', 'bvand'):
            return self.tr(a[0]) & bv(a[1], s)
        if op == 'bvor':
            return self.tr(a[0]) | bv(a[1], s)
        if op == 'bvxor':
            return self.tr(a[0]) ^ bv(a[1], s)
        if op == 'shl':
            return bv(a[0], s) << bv(a[1], s)
        if op == 'lshr':
            return z3.LShR(bv(a[0], s), bv(a[1], s))
        if op == 'ashr':
            return bv(a[0], s) >> bv(a[1], s)
        if op == 'udiv':
            return z3.UDiv(bv(a[0], s), bv(a[1], s))
        if op == 'urem':
            return z3.URem(bv(a[0], s), bv(a[1], s))
        if op == 'sdiv':
            return bv(a[0], s) / bv(a[1], s)
        if op == 'srem':
            return z3.SRem(bv(a[0], s), bv(a[1], s))
        if op == 'ext':
            r = z3.Extract(a[1], a[2], self.bb(a[0], a[0].s))
            if s == 1:
                return r == z3.BitVecVal(1, 1)
            return r
        if op == 'cat':
            ps = []
            for i in range(0, len(a), 2):
                ps.append(self.bb(a[i], a[i + 1]))
            return z3.Concat(*ps)
        if op == 'sext':
            n = a[0].s
            return z3.SignExt(s - n, self.bb(a[0], n))
        if op == 'eq':
            w = a[0].s
            return self.tr(a[0]) == bv(a[1], w)
        if op == 'ult':
            return z3.ULT(bv(a[0], a[2]), bv(a[1], a[2]))
        if op == 'slt':
            return bv(a[0], a[2]) < bv(a[1], a[2])
        if op == 'fsame':
            k = a[0].s
            return self.fp(a[0], k) == self.fp(a[1], k)
        if op == 'uf':
            args = a[1:]
            srts = []
            vals = []
            for x in args:
                xs = x.s if type(x) is T else ('d' if type(x) is float else 64)
                srts.append(xs)
                vals.append(self.val_s(x, xs))
            r = self.uffun(a[0], srts, s)(*vals)
            self.uflemma(t, a[0], args, r)
            return r
        return self.fpop(t)

    def uflemma(self, t, name, args, r):
        pass

    def mkvar(self, name, s):
        return z3.Const(name, self.sort_of(s))


FSORT = {'f': z3.Float32(), 'd': z3.Float64()}
RNE = z3.RNE()


class Exact(Base):
    def fsort(self, s):
        return FSORT[s]

    def fp(self, v, s):
        if type(v) is float:
            if v != v:
                return z3.fpNaN(FSORT[s])
            if v == math.inf:
                return z3.fpPlusInfinity(FSORT[s])
            if v == -math.inf:
                return z3.fpMinusInfinity(FSORT[s])
            if v == 0:
                return z3.fpMinusZero(FSORT[s]) if math.copysign(1, v) < 0 else z3.fpPlusZero(FSORT[s])
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(fpack(v, s), 32 if s == 'f' else 64), FSORT[s]))
        return self.tr(v)

    def fpop(self, t):
        op, a, s = t.op, t.args, t.s
        fp = self.fp
        if op == 'fadd':
            return z3.fpAdd(RNE, fp(a[0], s), fp(a[1], s))
        if op == 'fmul':
            return z3.fpMul(RNE, fp(a[0], s), fp(a[1], s))
        if op == 'fdiv':
            return z3.fpDiv(RNE, fp(a[0], s), fp(a[1], s))
        if op == 'frem':
            return self.uffun('frem', [s, s], s)(fp(a[0], s), fp(a[1], s))
        if op == 'fneg':
            return z3.fpNeg(fp(a[0], s))
        if op == 'fabs':
            return z3.fpAbs(fp(a[0], s))
        if op == 'fsqrt':
            return z3.fpSqrt(RNE, fp(a[0], s))
        if op == 'fpext':
            return z3.fpFPToFP(RNE, fp(a[0], 'f'), FSORT['d'])
        if op == 'fptrunc':
            return z3.fpFPToFP(RNE, fp(a[0], 'd'), FSORT['f'])
        if op == 'sitofp':
            return z3.fpSignedToFP(RNE, self.bb(a[0], a[0].s), FSORT[s])
        if op == 'uitofp':
            return z3.fpUnsignedToFP(RNE, self.bb(a[0], a[0].s), FSORT[s])
        if op == 'fptosi':
            x = a[0]
            f = fp(x, x.s)
            lim = z3.FPVal(2.0 ** (s - 1), FSORT[x.s])
            ok = z3.And(z3.fpLT(f, lim), z3.fpGEQ(f, z3.fpNeg(lim)))
            return z3.If(ok, z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(s)), z3.BitVecVal(1 << (s - 1), s))
        if op == 'fptoui':
            x = a[0]
            return z3.fpToUBV(z3.RTZ(), fp(x, x.s), z3.BitVecSort(s))
        if op == 'flt':
            return z3.fpLT(fp(a[0], a[2]), fp(a[1], a[2]))
        if op == 'fle':
            return z3.fpLEQ(fp(a[0], a[2]), fp(a[1], a[2]))
        if op == 'feq':
            return z3.fpEQ(fp(a[0], a[2]), fp(a[1], a[2]))
        if op == 'isnan':
            return z3.fpIsNaN(fp(a[0], a[1]))
        if op == 'frombits':
            return z3.fpBVToFP(self.tr(a[0]), FSORT[s])
        if op == 'tobits':
            return z3.fpToIEEEBV(fp(a[0], a[0].s))
        if op == 'ffloor' or op == 'fceil' or op == 'ftruncI' or op == 'frint':
            rm = {'ffloor': z3.RTN(), 'fceil': z3.RTP(), 'ftruncI': z3.RTZ(), 'frint': z3.RNE()}[op]
            return z3.fpRoundToIntegral(rm, fp(a[0], s))
        raise Exception('E: ' + op)


HEAVY = ('fadd', 'fmul', 'fdiv', 'fsqrt', 'frem')


def pow2term(t):
    """t is a product of exact powers of two: constants and pow(2^k, integer) (libm's pow is exact there)"""
    if type(t) is float:
        return t > 0 and t != math.inf and math.frexp(t)[0] == 0.5
    if t.op == 'fmul':
        return pow2term(t.args[0]) and pow2term(t.args[1])
    if t.op == 'uf' and t.args[0].startswith('pow_'):
        a = t.args[1:] if type(t.args[1]) is not tuple else t.args[1]
        b, e = a[0], a[1]
        return type(b) is float and b > 1 and math.frexp(b)[0] == 0.5 and type(e) is T and e.op == 'sitofp'
    return False


def pow2(v):
    if type(v) is not float or v == 0 or v != v or v in (math.inf, -math.inf):
        return False
    return abs(math.frexp(v)[0]) == 0.5 and 1e-30 < abs(v) < 1e30


def is_heavy(t):
    if t.op == 'fsqrt' or t.op == 'frem' or t.op == 'fadd':
        return True
    if t.op == 'fmul':
        return not (pow2(t.args[0]) or pow2(t.args[1]))
    if t.op == 'fdiv':
        return not pow2(t.args[1])
    return False


class Lite(Exact):
    """bit-precise except that sums, products and quotients are uninterpreted with sign lemmas (valid for IEEE-754 RNE)"""
    def fpop(self, t):
        op, a, s = t.op, t.args, t.s
        fp = self.fp
        if not is_heavy(t):
            if op == 'fdiv':
                return z3.fpMul(RNE, fp(a[0], s), fp(1.0 / a[1], s))
            return super().fpop(t)
        vals = [fp(x, s) for x in a]
        r = self.uffun(op, [s] * len(a), s)(*vals)
        z = z3.FPVal(0.0, FSORT[s])
        L = self.lem
        nn = z3.Not(z3.fpIsNaN(r))
        if op == 'fsqrt':
            L.append(z3.Implies(nn, z3.fpGEQ(r, z)))
            return r
        x, y = vals
        ge = lambda v: z3.fpGEQ(v, z)
        le = lambda v: z3.fpLEQ(v, z)
        L.append(z3.Implies(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), z3.fpIsNaN(r)))
        if op == 'fadd':
            L.append(z3.Implies(nn, z3.And(z3.Implies(ge(x), z3.fpGEQ(r, y)), z3.Implies(le(x), z3.fpLEQ(r, y)),
                                           z3.Implies(ge(y), z3.fpGEQ(r, x)), z3.Implies(le(y), z3.fpLEQ(r, x)))))
        elif op in ('fmul', 'fdiv'):
            L.append(z3.Implies(nn, z3.And(z3.Implies(z3.Or(z3.And(ge(x), ge(y)), z3.And(le(x), le(y))), z3.Or(ge(r), z3.And(z3.fpIsZero(y), op == 'fdiv'))),
                                           z3.Implies(z3.Or(z3.And(ge(x), le(y)), z3.And(le(x), ge(y))), z3.Or(le(r), z3.And(z3.fpIsZero(y), op == 'fdiv'))))))
        return r


class Fresh(Exact):
    """bit-precise with sums, products, quotients and libm results as fresh values"""
    def fpop(self, t):
        if is_heavy(t):
            return z3.Const('h!%d' % t.id, FSORT[t.s])
        if t.op == 'fdiv':
            return z3.fpMul(RNE, self.fp(t.args[0], t.s), self.fp(1.0 / t.args[1], t.s))
        return super().fpop(t)

    def one(self, t):
        if t.op == 'uf':
            return z3.Const('h!%d' % t.id, self.sort_of(t.s))
        return super().one(t)


class Abstract(Base):
    def __init__(self):
        super().__init__()
        self.S = {'f': z3.DeclareSort('F32'), 'd': z3.DeclareSort('F64')}
        self.val = {k: z3.Function('val_' + k, v, z3.RealSort()) for k, v in self.S.items()}
        self.nan = {k: z3.Function('nan_' + k, v, z3.BoolSort()) for k, v in self.S.items()}
        self.consts = {}
        self.B = z3.RealVal(BIG)
        self.byop = {}       # operand -> products having it

    def fsort(self, s):
        return self.S[s]

    def fp(self, v, s):
        if type(v) is float:
            k = (s, fpack(v, s))
            c = self.consts.get(k)
            if c is None:
                c = z3.Const('fc_%s_%x' % k, self.S[s])
                self.consts[k] = c
                if v != v:
                    self.lem.glob.append(self.nan[s](c))
                else:
                    self.lem.glob.append(z3.Not(self.nan[s](c)))
                    self.lem.glob.append(self.val[s](c) == rat(v))
            return c
        return self.tr(v)

    def mkvar(self, name, s):
        c = z3.Const(name, self.sort_of(s))
        if type(s) is not int:
            self.rng(c, s)
        return c

    def rng(self, c, s):
        v = self.val[s](c)
        self.lem.append(z3.And(v <= self.B, v >= -self.B))

    def uflemma(self, t, name, args, r):
        if type(t.s) is int:
            return
        self.rng(r, t.s)
        v = self.val[t.s](r)
        if name.startswith('pow') and type(args[0]) is float and 1 <= args[0] < 1e6:
            k = self.val_s(args[1], t.s)
            self.lem.append(z3.Implies(z3.And(z3.Not(self.nan[t.s](k)), self.val[t.s](k) >= 0), z3.And(z3.Not(self.nan[t.s](r)), v >= 1)))
            self.lem.append(z3.Implies(z3.And(z3.Not(self.nan[t.s](k)), self.val[t.s](k) <= 0), z3.And(z3.Not(self.nan[t.s](r)), v <= 1, v >= 0)))
        if name.startswith('log2'):
            x = self.fp(args[0], t.s)
            vx, nx = self.val[t.s](x), self.nan[t.s](x)
            nr = self.nan[t.s](r)
            self.lem.append(z3.Implies(z3.And(z3.Not(nx), vx > 0), z3.And(z3.Not(nr), v >= -1075, z3.Implies(vx < self.B, v <= 1024), z3.Implies(vx == self.B, v == self.B), z3.Implies(vx >= 1, v >= 0), z3.Implies(vx <= 1, v <= 0))))
            ok = z3.And(z3.Not(nx), vx > 0)
            self.lem.append(z3.Implies(ok, z3.And(*[z3.And(z3.Implies(vx <= rat(2.0 ** k), v <= k), z3.Implies(vx >= rat(2.0 ** k), v >= k)) for k in (-99, -98, -30, 1, 3, 6, 10, 30, 50, 64, 128)])))
            self.lem.append(z3.Implies(z3.And(ok, vx <= rat(1.5)), v <= rat(0.75)))
            self.mono((name, t.s), t, vx, v, ok)
        if name.startswith('exp2'):
            x = self.fp(args[0], t.s)
            vx, nx = self.val[t.s](x), self.nan[t.s](x)
            self.lem.append(z3.Implies(z3.Not(self.nan[t.s](r)), v >= 0))
            self.lem.append(z3.Implies(z3.And(z3.Not(nx), vx >= -126), z3.And(z3.Not(self.nan[t.s](r)), v > 0)))

    def mono(self, key, t, w, v, ok):
        """t (value v) is a monotone function, named by key, of an operand of value w, whenever ok"""
        l = self.byop.setdefault(key, [])
        for oid, ow, ov, ook in l[-200:]:
            if oid == t.id:
                continue
            le = z3.Implies(z3.And(ok, ook), z3.And(z3.Implies(w <= ow, v <= ov), z3.Implies(ow <= w, ov <= v)))
            self.lem.pairs.setdefault(t.id, []).append((oid, le))
            self.lem.pairs.setdefault(oid, []).append((t.id, le))
        l.append((t.id, w, v, ok))

    def fpop(self, t):
        op, a, s = t.op, t.args, t.s
        L = self.lem
        if op in ('flt', 'fle', 'feq'):
            k = a[2]
            x, y = self.fp(a[0], k), self.fp(a[1], k)
            vx, vy = self.val[k](x), self.val[k](y)
            c = {'flt': vx < vy, 'fle': vx <= vy, 'feq': vx == vy}[op]
            g = []
            if type(a[0]) is not float:
                g.append(z3.Not(self.nan[k](x)))
            if type(a[1]) is not float:
                g.append(z3.Not(self.nan[k](y)))
            return z3.And(c, *g)
        if op == 'isnan':
            return self.nan[a[1]](self.fp(a[0], a[1]))
        if op == 'fptosi' or op == 'fptoui' or op == 'tobits':
            x = a[0]
            f = self.fp(x, x.s)
            r = self.uffun(op + str(s), [x.s], s)(f)
            if op == 'fptosi' and s in (32, 64):
                v, nn = self.val[x.s](f), z3.Not(self.nan[x.s](f))
                H = 1 << (s - 1)
                inr = z3.And(nn, v < H, v >= -H)
                L.append(z3.Implies(z3.Not(inr), r == z3.BitVecVal(H, s)))
                L.append(z3.Implies(inr, z3.And(z3.Implies(v > -1, r >= 0), z3.Implies(v < 1, r <= 0), z3.Implies(v >= 1, r >= 1), z3.Implies(v <= -1, r <= -1))))
                L.append(z3.Implies(inr, z3.And(*[z3.And(z3.Implies(v < (1 << k), r < (1 << k)), z3.Implies(v > -(1 << k), r > -(1 << k)), z3.Implies(v >= (1 << k), r >= (1 << k))) for k in (10, 14, 15, 16, 17, 20, 24) ])))
            return r
        # FP results
        srts = []
        vals = []
        for i, x in enumerate(a):
            if type(x) is T:
                srts.append(x.s)
                vals.append(self.tr(x))
            else:
                xs = s if op not in ('fpext', 'fptrunc') else ('f' if op == 'fpext' else 'd')
                srts.append(xs)
                vals.append(self.fp(x, xs))
        r = self.uffun(op, srts, s)(*vals)
        self.rng(r, s)
        v = self.val[s](r)
        nn = z3.Not(self.nan[s](r))
        if op in ('fadd', 'fmul', 'fdiv'):
            x, y = vals
            vx, vy = self.val[s](x), self.val[s](y)
            nx, ny = self.nan[s](x), self.nan[s](y)
            L.append(z3.Implies(z3.Or(nx, ny), z3.Not(nn)))
            B = self.B
            if op == 'fadd':
                L.append(z3.Implies(z3.And(z3.Not(nn), z3.Not(nx), z3.Not(ny)), z3.Or(z3.And(vx == B, vy == -B), z3.And(vx == -B, vy == B))))
                L.append(z3.Implies(nn, z3.And(z3.Implies(vx >= 0, v >= vy), z3.Implies(vx <= 0, v <= vy),
                                               z3.Implies(vy >= 0, v >= vx), z3.Implies(vy <= 0, v <= vx))))
                L.append(z3.Implies(nn, z3.And(z3.Implies(z3.Or(vx == B, vx == -B), v == vx), z3.Implies(z3.Or(vy == B, vy == -B), v == vy))))
                # gradual underflow: sum is zero only on exact cancellation
                L.append(z3.Implies(nn, (v == 0) == (vx == -vy)))
                L.append(z3.Implies(nn, z3.And(z3.Implies(vx + vy <= -1, v <= -1), z3.Implies(vx + vy >= 1, v >= 1))))
                for i in (0, 1):
                    c = a[i]
                    if type(c) is float and 0 < abs(c) < 1e300:
                        w, c = (vx, vy)[1 - i], abs(c)
                        L.append(z3.Implies(z3.And(nn, w <= rat(c), w >= -rat(c)), z3.And(v <= rat(2 * c), v >= -rat(2 * c))))
                        self.mono(('fadd', a[i], s), t, w, v, z3.Not((nx, ny)[1 - i]))
                        if c == 1:
                            L.append(z3.Implies(z3.And(nn, w <= rat(0.5)), v <= rat(0.5 + a[i])))
                            L.append(z3.Implies(z3.And(nn, w >= rat(-0.5)), v >= rat(a[i] - 0.5)))
            elif op == 'fmul':
                L.append(z3.Implies(z3.And(nn, z3.Or(vx == B, vx == -B, vy == B, vy == -B)), z3.Or(v == B, v == -B)))
                L.append(z3.Implies(z3.And(z3.Not(nn), z3.Not(nx), z3.Not(ny)), z3.Or(z3.And(vx == 0, z3.Or(vy == B, vy == -B)), z3.And(vy == 0, z3.Or(vx == B, vx == -B)))))
                L.append(z3.Implies(nn, z3.And(
                    z3.Implies(z3.Or(z3.And(vx >= 0, vy >= 0), z3.And(vx <= 0, vy <= 0)), v >= 0),
                    z3.Implies(z3.Or(z3.And(vx >= 0, vy <= 0), z3.And(vx <= 0, vy >= 0)), v <= 0))))
                for i in (0, 1):
                    # products with a common operand are ordered like their other operands
                    k = (a[i].id if type(a[i]) is T else a[i], s)
                    ow = (vx, vy)[1 - i]
                    for oid, o_other, ov, onn in self.byop.setdefault(k, [])[-200:]:
                        if oid == t.id:
                            continue
                        q = (vx, vy)[i]
                        le = z3.Implies(z3.And(nn, onn), z3.And(z3.Implies(z3.And(q >= 0, ow <= o_other), v <= ov), z3.Implies(z3.And(q >= 0, ow >= o_other), v >= ov),
                                                               z3.Implies(z3.And(q <= 0, ow <= o_other), v >= ov), z3.Implies(z3.And(q <= 0, ow >= o_other), v <= ov)))
                        L.pairs.setdefault(t.id, []).append((oid, le))
                        L.pairs.setdefault(oid, []).append((t.id, le))
                    self.byop[k].append((t.id, ow, v, nn))
                for i in (0, 1):
                    c = a[i]
                    if type(c) is float and 0 < c < math.inf:
                        w = (vx, vy)[1 - i]
                        if pow2(c) and c <= 1:
                            wc, m = w * rat(c), rat(2.0 ** -1000 if s == 'd' else 2.0 ** -120)
                            L.append(z3.Implies(z3.And(nn, w < self.B, w > -self.B, z3.Or(wc >= m, wc <= -m)), v == wc))
                            L.append(z3.Implies(nn, z3.And(z3.Implies(w >= 0, v <= w), z3.Implies(w <= 0, v >= w))))
                        elif pow2(c) and c > 1:
                            M = 1 << (1023 if s == 'd' else 127)
                            wc = w * rat(c)
                            L.append(z3.Implies(nn, z3.And(z3.Implies(z3.And(wc < M, wc > -M), v == wc), z3.Implies(wc >= M, v >= M), z3.Implies(wc <= -M, v <= -M))))
                        L.append(z3.Implies(z3.And(nn, w >= 1), v >= rat(c)))
                        L.append(z3.Implies(z3.And(nn, w <= -1), v <= -rat(c)))
            else:
                c = a[1]
                if type(c) is float and c == 0:
                    p = B if math.copysign(1, c) > 0 else -B
                    L.append(z3.And(nn == z3.And(z3.Not(nx), vx != 0), z3.Implies(nn, z3.And(z3.Implies(vx > 0, v == p), z3.Implies(vx < 0, v == -p)))))
                if type(c) is float and 1 <= c < math.inf:
                    L.append(z3.Implies(nn, z3.And(z3.Implies(vx >= 0, v <= vx), z3.Implies(vx <= 0, v >= vx))))
                    if pow2(c):
                        wc, m = vx * rat(1 / c), rat(2.0 ** -1000 if s == 'd' else 2.0 ** -120)
                        L.append(z3.Implies(z3.And(nn, vx < self.B, vx > -self.B, z3.Or(wc >= m, wc <= -m)), v == wc))
                L.append(z3.Implies(z3.And(z3.Not(nn), z3.Not(nx), z3.Not(ny)), z3.Or(z3.And(vx == 0, vy == 0), z3.And(z3.Or(vx == B, vx == -B), z3.Or(vy == B, vy == -B)))))
                L.append(z3.Implies(z3.And(nn, z3.Or(vx == B, vx == -B)), z3.Or(v == B, v == -B)))
                L.append(z3.Implies(nn, z3.And(
                    z3.Implies(z3.Or(z3.And(vx >= 0, vy > 0), z3.And(vx <= 0, vy < 0)), v >= 0),
                    z3.Implies(z3.Or(z3.And(vx >= 0, vy < 0), z3.And(vx <= 0, vy > 0)), v <= 0))))
        elif op == 'fneg':
            L.append(self.nan[s](r) == self.nan[s](vals[0]))
            L.append(v == -self.val[s](vals[0]))
        elif op == 'fabs':
            L.append(self.nan[s](r) == self.nan[s](vals[0]))
            x = self.val[s](vals[0])
            L.append(v == z3.If(x < 0, -x, x))
        elif op == 'fpext':
            L.append(self.nan['d'](r) == self.nan['f'](vals[0]))
            L.append(v == self.val['f'](vals[0]))
        elif op == 'fptrunc':
            L.append(self.nan['f'](r) == self.nan['d'](vals[0]))
            x = self.val['d'](vals[0])
            L.append(z3.And(z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)))
            L.append(z3.And(*[z3.And(z3.Implies(x >= k, v >= k), z3.Implies(x <= k, v <= k), z3.Implies(x >= -k, v >= -k), z3.Implies(x <= -k, v <= -k)) for k in (rat(2.0 ** -98), 1, 65536, rat(3.4028234663852886e38))]))
            if pow2term(a[0]):
                L.append(z3.Implies(z3.And(x >= rat(2.0 ** -126), x < rat(2.0 ** 128)), v == x))
        elif op in ('sitofp', 'uitofp'):
            L.append(nn)
            x = self.bb(a[0], a[0].s)
            if op == 'sitofp':
                L.append((v < 0) == (x < 0))
            else:
                L.append(v >= 0)
            L.append((v == 0) == (x == 0))
            L.append(z3.Or(v == 0, z3.And(v >= 1, v <= 1 << 65), z3.And(v <= -1, v >= -(1 << 65))))
        elif op == 'fsqrt':
            L.append(z3.Implies(nn, v >= 0))
        elif op == 'frombits':
            pass
        return r


class Real(Base):
    """FP values are exact reals (no NaN, no rounding)."""
    def fsort(self, s):
        return z3.RealSort()

    def fp(self, v, s):
        if type(v) is float:
            return rat(v)
        return self.tr(v)

    def fpop(self, t):
        op, a, s = t.op, t.args, t.s
        fp = self.fp
        if op == 'fadd':
            return fp(a[0], s) + fp(a[1], s)
        if op == 'fmul':
            return fp(a[0], s) * fp(a[1], s)
        if op == 'fdiv':
            r = z3.Real('div!%d' % t.id)
            x, y = fp(a[0], s), fp(a[1], s)
            self.lem.append(z3.Implies(y != 0, r * y == x))
            return r
        if op == 'fneg':
            return -fp(a[0], s)
        if op == 'fabs':
            x = fp(a[0], s)
            return z3.If(x < 0, -x, x)
        if op == 'fsqrt':
            r = z3.Real('sqrt!%d' % t.id)
            x = fp(a[0], s)
            self.lem.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            return r
        if op == 'fpext' or op == 'fptrunc':
            return fp(a[0], s)
        if op in ('flt', 'fle', 'feq'):
            k = None
            for i in (0, 1):
                q, o = a[i], a[1 - i]
                if type(q) is T and q.op == 'fdiv' and not (type(o) is T and o.op == 'fdiv'):
                    k = i
            if k is not None:
                # compare a quotient without the quotient: multiply out by the sign of the denominator
                q, o = a[k], fp(a[1 - k], s)
                x, y = fp(q.args[0], s), fp(q.args[1], s)
                r = fp(q, s)
                cmp = {'flt': lambda p, q: p < q, 'fle': lambda p, q: p <= q, 'feq': lambda p, q: p == q}[op]
                if k == 0:
                    return z3.If(y > 0, cmp(x, o * y), z3.If(y < 0, cmp(o * y, x), cmp(r, o)))
                return z3.If(y > 0, cmp(o * y, x), z3.If(y < 0, cmp(x, o * y), cmp(o, r)))
            if op == 'flt':
                return fp(a[0], s) < fp(a[1], s)
            if op == 'fle':
                return fp(a[0], s) <= fp(a[1], s)
            return fp(a[0], s) == fp(a[1], s)
        if op == 'isnan':
            return z3.BoolVal(False)
        if op in ('sitofp', 'uitofp'):
            r = z3.Real('i2r!%d' % t.id)
            return r
        if op in ('fptosi', 'fptoui', 'tobits'):
            return self.uffun(op + str(s), ['d'], s)(fp(a[0], a[0].s))
        if op == 'frombits':
            return z3.Real('fb!%d' % t.id)
        raise Exception('R: ' + op)
