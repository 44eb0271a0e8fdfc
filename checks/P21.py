import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
top = 40 if QUICK else 47
R = [(-1, 0), (0, 7)] + [(k, k + 1) for k in range(7, top)]
jobs = [Job('compress_%d_%d' % r, H('lossless.cpp'), included=('sz_lossless.cpp',), params={'op': 0, 'lo': r[0], 'hi': r[1]}, limits={'ems': 60000}, weight=r[1]) for r in R]
jobs += [Job('decompress_%d' % op, H('lossless.cpp'), included=('sz_lossless.cpp',), params={'op': op, 'lo': 7, 'hi': 40}) for op in (1, 2)]
main('P21', jobs, 'symbolic execution of the real wrapper against a recording back end; the capacity inequality is decided bit-precisely for all lengths',
     'all lengths from 1 to 2^%d - 1, all levels, all back-end results' % top,
     ['the worst case of the byte compressor is the input stored as raw blocks: 14 bytes of frame header and 3 bytes per 128 KiB block', 'malloc does not fail'])
