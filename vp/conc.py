"""Concrete evaluation of terms (nominal-path guidance; also used to validate the engine)."""
import ctypes, math
from . import terms as t
from .terms import T

LM = ctypes.CDLL('libm.so.6')
BIN = {'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv, 'srem': t.srem, 'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr,
       'mul': t.mul, 'add': t.add, 'addt': t.add, 'andc': t.and_, 'bvand': t.and_, 'bvor': t.or_, 'bvxor': t.xor_}
FBIN = {'fadd': t.fadd, 'fmul': t.fmul, 'fdiv': t.fdiv, 'frem': t.frem}


def _w(x, d):
    return x.s if type(x) is T else d


class Conc:
    """inputs: function var-name -> value (float for FP sorts, int otherwise); ufs: name -> function"""

    def __init__(self, inputs, ufs=None):
        self.inputs = inputs
        self.ufs = ufs or {}
        self.memo = {}

    def __call__(self, x):
        if type(x) is not T:
            return x
        memo = self.memo
        st = [x]
        while st:
            y = st[-1]
            if y.id in memo:
                st.pop()
                continue
            need = [a for a in y.args if type(a) is T and a.id not in memo]
            if need:
                st.extend(need)
                continue
            memo[y.id] = self.ev(y)
            st.pop()
        return memo[x.id]

    def ev(self, x):
        a = [self.memo[v.id] if type(v) is T else v for v in x.args]
        o, s = x.op, x.s
        if o == 'var':
            return self.inputs(x.args[0], s)
        if o == 'not':
            return a[0] ^ 1
        if o == 'and':
            return a[0] & a[1]
        if o == 'xorb':
            return a[0] ^ a[1]
        if o == 'ite':
            return a[1] if a[0] else a[2]
        if o == 'neg':
            return t.neg(a[0], s)
        if o in BIN:
            return BIN[o](a[0], a[1], s)
        if o == 'cat':
            v = 0
            for i in range(0, len(a), 2):
                v = (v << a[i + 1]) | a[i]
            return v
        if o == 'ext':
            return (a[0] >> a[2]) & t.MASK[a[1] - a[2] + 1] if False else (a[0] >> a[2]) & ((1 << (a[1] - a[2] + 1)) - 1)
        if o == 'sext':
            return t.sx(a[0], x.args[0].s) & ((1 << s) - 1)
        if o in ('eq',):
            return 1 if a[0] == a[1] else 0
        if o == 'ult':
            return 1 if a[0] < a[1] else 0
        if o == 'slt':
            return 1 if t.sx(a[0], a[2]) < t.sx(a[1], a[2]) else 0
        if o == 'fneg':
            return t.fneg(a[0], s)
        if o in FBIN:
            return FBIN[o](a[0], a[1], s)
        if o == 'fabs':
            return t.fabs_(a[0], s)
        if o == 'fsqrt':
            return t.fsqrt(a[0], s)
        if o == 'fpext':
            return a[0]
        if o == 'fptrunc':
            return t.f32(a[0])
        if o == 'sitofp':
            return t.sitofp(a[0], x.args[0].s, s)
        if o == 'uitofp':
            return t.fconst(float(a[0]), s)
        if o == 'fptosi':
            return t.fptosi(a[0], 'd', s)
        if o == 'fptoui':
            return t.fptoui(a[0], 'd', s)
        if o in ('flt', 'fle', 'feq'):
            p, q = a[0], a[1]
            return 1 if (p < q if o == 'flt' else p <= q if o == 'fle' else p == q) else 0
        if o == 'fsame':
            return 1 if a[0] == a[1] and t.fpack(a[0], 'd') == t.fpack(a[1], 'd') or (a[0] != a[0] and a[1] != a[1]) else 0
        if o == 'isnan':
            return 1 if a[0] != a[0] else 0
        if o == 'tobits':
            return t.fpack(a[0], x.args[0].s)
        if o == 'frombits':
            return t.funpack(a[0], s)
        if o == 'uf':
            return self.uf(a[0], a[1:], s)
        raise Exception('conc: ' + o)

    def uf(self, name, args, s):
        f = self.ufs.get(name)
        if f:
            return f(*args)
        b = name[:-2] if name.endswith(('_d', '_f')) else name
        if name.startswith('vp_'):
            f = self.ufs.get('*')
            return f(name, args) if f else 0.0
        g = getattr(LM, b + ('f' if s == 'f' else ''))
        ct = ctypes.c_float if s == 'f' else ctypes.c_double
        g.restype = ct
        g.argtypes = [ct] * len(args)
        return g(*args)
