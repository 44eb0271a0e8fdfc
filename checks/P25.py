import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
jobs = []
for T in ('float', 'double'):
    for EB in (('float', 'double') if T == 'float' else ('double',)):
        for R in (2, 37, 32768) if QUICK else (2, 3, 37, 512, 32768, 1 << 20):
            for op in (0, 1):
                for n in (1, 2) if QUICK else (1, 2, 3):
                    jobs.append(Job('%s_%s_R%d_op%d_n%d' % (T, EB, R, op, n), H('quant25.cpp'), defs=('VT=' + T, 'VE=' + EB), params={'R': R, 'op': op, 'n': n}, weight=n))
main('P25', jobs, 'symbolic execution of the real quantiser with SMT-decided assertions over all floating-point inputs',
     '1..%d values in sequence, radii %s, both entry points, float/double data and bounds' % (2 if QUICK else 3, [2, 37, 32768]),
     ['original values finite, bound finite and non-negative, prediction arbitrary (including infinities and NaN)'])
