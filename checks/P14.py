import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
jobs = [Job('base%d_k%d' % (b, k), H('ebq.cpp'), params={'base': b, 'k': k}, need=('<end>', 'lossy', 'lossless'))
        for b in ((2, 4) if QUICK else (2, 3, 4, 8, 10)) for k in ((0, 52) if QUICK else (0, 10, 23, 52, 60))]
main('P14', jobs, 'symbolic execution of the real quantiser with SMT-decided assertions over all bounds',
     'all non-negative finite bounds; bases 2 and 4 with thresholds 2^-23 (default argument) and 2^-52, as the compressors use them (thorough: more)',
     ['log2 is an arbitrary deterministic function and pow an arbitrary deterministic function that is at least one for base and exponent at least one: the claim must survive any rounding of both'])
