"""Shared job builders for the 2D critical-point compressors."""
import copy, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
from vp.terms import *
VAR = {'online': 0, 'abs': 1, 'log': 2, 'relax': 3, 'sz3': 4, 'bilin': 5}
HUFF = {r'Huffman_encode_tree_and_data': 'vp_henc', r'Huffman_decode_tree_and_data': 'vp_hdec'}
BOUND, LIMIT, INPUT, VERIFY = 1, 2, 4, 8


def dbl(x, s):
    return x if s == 'd' or type(x) is float else fpext(x)


def derive_stub(name, s, withc):
    def f(E, u0, u1, u2, v0, v1, v2, *c):
        a = [dbl(x, s) for x in (u0, u1, u2, v0, v1, v2)]
        if withc:
            w = 4 if s == 'f' else 8
            a += [dbl(E.load(add(c[0], i * w, 64), w, s), s) for i in range(4)]
        r = uf('vp_' + name, tuple(a), 'd')
        E.add_pc(bnot(fisnan(r, 'd')))
        return r
    f.pure = f.join = True
    return f


def check_cp_stub(s):
    def f(E, v):
        w = 4 if s == 'f' else 8
        a = [dbl(E.load(add(v, i * w, 64), w, s), s) for i in range(6)]
        return ite_s(uf('vp_checkcp', tuple(a), 1), 1, MASK[32], 32)
    return f


def bilin_derive(E, *a):
    r = uf('vp_bilin', tuple(a[:8]), 'd')
    E.add_pc(bnot(fisnan(r, 'd')))
    return r


bilin_derive.pure = bilin_derive.join = True


def bilin_roots(E, *a):
    n = uf('vp_roots', tuple(a[:8]), 2)
    for i in range(8):
        E.store(add(a[8], 8 * i, 64), 8, 'd', uf('vp_root%d' % i, tuple(a[:8]), 'd'))
    return zext(n, 2, 32)


def bilin_verify(E, n, J, J_, *a):
    x = [E.load(add(p, 8 * i, 64), 8, 'd') for p in (J, J_) for i in range(8)]
    return uf('vp_verify', (n,) + tuple(x), 1)


def nominal(n, s):
    k = int(n.split('#')[1]) if '#' in n else 0
    if s in ('f', 'd'):
        b = n.split('#')[0]
        v = 0.1 if b == 'eb' else (1.0 if b == 'u' else 2.0) + 0.004 * k + 0.0007 * k * k
        return f32(v) if s == 'f' else v
    return 0


UFS = {'*': lambda n, a: 0.05, 'vp_checkcp': lambda *a: 0, 'vp_roots': lambda *a: 0, 'vp_verify': lambda *a: 1}


def stubs(var, T):
    s = 'f' if T == 'float' else 'd'
    d = dict(HUFF)
    if var == 'bilin':
        d[r'derive_cp_eb_bilinear_online'] = bilin_derive
        d[r'bilinear_extract_critical_point'] = bilin_roots
        d[r'bilinear_verify_critical_point'] = bilin_verify
        return d
    d[r'derive_cp_eb_for_positions_online'] = derive_stub('rel', s, True)
    d[r'derive_cp_eb_for_positions_online_abs'] = derive_stub('abs', s, False)
    d[r'check_cp'] = check_cp_stub(s)
    return d


def job(var, T, r1, r2, chk, devs=None, **kw):
    o = {'merge': True, 'ufs': UFS}
    if devs is not None:
        o.update(devs=devs, nominal=nominal)
    src = 'sz_compress_cp_preserve_2d%s.cpp' % ('_bilinear' if var == 'bilin' else '')
    kw.setdefault('weight', r1 * r2 * (2 + (devs or 0)))
    kw.setdefault('limits', {'time': 200})
    return Job('%s_%s_%dx%d%s' % (var, T, r1, r2, '' if devs is None else '_d%d' % devs), H('cp2d.cpp'),
               included=(src,), params={'r1': r1, 'r2': r2, 'chk': chk}, defs=('VT=' + T, 'VAR=%d' % VAR[var]),
               stubs=stubs(var, T), opts=o, **kw)


def pos_stub(s):
    def f(E, *a):
        r = uf('vp_both', tuple(dbl(x, s) for x in a), 'd')
        E.add_pc(fle(0.0, r, 'd'))
        return r
    f.pure = f.join = True
    return f


BLK = {r'sz_compress_2d_with_eb': 'vp_benc', r'sz_decompress_2d_with_eb': 'vp_bdec'}


def offjob(log, T, r1, r2, chk, devs=None, **kw):
    s = 'f' if T == 'float' else 'd'
    d = dict(HUFF)
    d.update(BLK)
    d[r'max_eb_to_keep_position_and_type'] = pos_stub(s)
    o = {'merge': True, 'ufs': UFS}
    if devs is not None:
        o.update(devs=devs, nominal=nominal)
    kw.setdefault('weight', r1 * r2 * (2 + (devs or 0)))
    kw.setdefault('limits', {'time': 200})
    return Job('offline%s_%s_%dx%d%s' % ('_log' if log else '', T, r1, r2, '' if devs is None else '_d%d' % devs), H('cp2doff.cpp'),
               included=('sz_compress_cp_preserve_2d.cpp',), params={'r1': r1, 'r2': r2, 'chk': chk}, defs=('VT=' + T,) + (('LOG',) if log else ()),
               stubs=d, opts=o, **kw)


def suite(vars_, chk, off=(), offchk=None, small=False):
    """the standard sets of shapes: exhaustive on the smallest grids, bounded numbers of deviations on larger ones"""
    js = []
    for T in ('float', 'double'):
        F = T == 'float'
        for v in vars_:
            js.append(job(v, T, 1, 1, chk))
            if THOROUGH:
                js += [job(v, T, 1, 2, chk), job(v, T, 2, 1, chk)] + split(job(v, T, 2, 2, chk, 2), 6)
                js += split([job(v, T, 2, 3, chk, 1), job(v, T, 3, 2, chk, 1)], 4) + split(job(v, T, 3, 3, chk, 1), 10)
                if v == 'sz3':
                    js += [job(v, T, 5, 2, chk, 1), job(v, T, 2, 5, chk, 0), job(v, T, 4, 4, chk, 0)]
                continue
            full = v in ('abs', 'relax')
            js.append(job(v, T, 1, 2, chk, None if full and F else 1))
            if F:
                js.append(job(v, T, 2, 1, chk, None if full else 1))
                js += split(job(v, T, 2, 2, chk, 1), 2)
                js.append(job(v, T, 3, 3, chk, 0))
                if v == 'sz3':
                    js.append(job(v, T, 5, 2, chk, 0))
            elif not small:
                js.append(job(v, T, 2, 2, chk, 0))
            js.append(job(v, T, 2, 3, chk, 0))
        for lg in off:
            c = offchk or chk
            js += [offjob(lg, T, 1, 1, c), offjob(lg, T, 2, 2, c, 2 if THOROUGH else 1), offjob(lg, T, 2, 3, c, 1 if THOROUGH else 0)]
            if F or THOROUGH:
                js += [offjob(lg, T, 1, 2, c, None if THOROUGH else 2), offjob(lg, T, 3, 3, c, 1 if THOROUGH else 0)]
    if THOROUGH:
        for j in js:
            j.limits['time'] = 1500
    return js


def split(js, n):
    """the same exploration as n jobs (each repeats the first path and takes every n-th of the branches open after it)"""
    out = []
    for j in js if type(js) is list else [js]:
        for k in range(n):
            c = copy.copy(j)
            c.opts = dict(j.opts, part=(k, n))
            c.name = '%s_p%d' % (j.name, k)
            out.append(c)
    return out


TECH = 'symbolic execution of the real compressor and decompressor in one run, every assertion decided by SMT over all field values and bounds'
BOUNDS = ('1x1 fields with every path; 1x2 and 2x1 with every path (absolute bound) or one deviation; 2x2 with one deviation, 2x3, 3x3 (interpolation based: also 5x2) on the nominal control path; float and double'
          if QUICK else '1x1, 1x2 and 2x1 fields with every path; 2x2 with two deviations; 2x3, 3x2, 3x3 (interpolation based: also 5x2, 2x5, 4x4) with one; float and double') + (
          '. A deviation is a branch outcome other than that of one fixed nominal run; all field values and bounds in the stated domain on each path')
ASSUME = ['the entropy coder is replaced by a side table of its worst-case size (P12 and P15 decide the real one)',
          'the preservation limits and the critical-point tests are arbitrary functions of their arguments, not NaN (P08, P09, P10 decide what they compute; products of components are assumed not to overflow)',
          'pow is exact on powers of two, log2 is monotone and exact on powers of two, exp2 is positive for exponents of -126 and more']
