from cp2d import *
jobs = []
st = dict(HUFF)
st[r'derive_cp_eb_for_positions_online_abs'] = lambda E, *a: 0.05


def add(T, r1, lo, hi):
    jobs.append(Job('%s_%dx%d..%d' % (T, r1, lo, hi), H('sz3order.cpp'), included=('sz_compress_cp_preserve_2d.cpp', 'sz_decompress_cp_preserve_2d.cpp'),
                    params={'r1': r1, 'lo': lo, 'hi': hi}, defs=('VT=' + T,), stubs=st, need=('shape',), weight=r1 * hi, limits={'time': 400}))


for T in ('float', 'double'):
    for r1 in range(1, 9):
        add(T, r1, 1, 8)
    for r1, r2 in ((1, 33), (33, 1), (2, 17), (17, 3), (9, 9), (10, 5), (11, 10)) + (() if QUICK else ((17, 17), (33, 6), (6, 33), (20, 13))):
        add(T, r1, r2, r2)
    if not QUICK:
        for r1 in range(9, 14):
            add(T, r1, 1, 13)
main('P16', jobs, 'symbolic execution of the real compressor and decompressor with a recording quantiser: decoded values are symbolic, predictions of both sides compared by the solver',
     'all shapes up to 8x8 (thorough: 13x13) and selected shapes up to 33 points per side; both value types',
     ['the quantiser is a recorder (P25 decides it), the entropy coder a side table, preservation limits one constant (P07 decides how they are applied)'])
