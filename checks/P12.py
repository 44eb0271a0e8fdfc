import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
jobs = []
J = lambda nm, w=1, **p: jobs.append(Job(nm, H('huff.cpp'), params=p, weight=w))
for S, n in ((2, 4), (3, 4), (5, 3)) if QUICK else ((2, 6), (3, 5), (4, 5), (5, 4), (8, 4)):
    for m in range(0, n + 1):
        J('all_S%d_n%d' % (S, m), w=m, op=0, S=S, n=m)
J('all_S65536_n2', op=0, S=65536, n=2, lo=65532, w=3)
for d in (6, 8) if QUICK else (6, 9, 11, 13):
    J('deep_%d' % d, w=5 + d, op=1, S=32, depth=d, w_=0)
for k in (1, 2, 3, 127, 128, 129, 130, 300) if QUICK else (1, 2, 3, 4, 5, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 32768, 32769):
    for sh in (0, 1, 2):
        if sh == 0 or k <= 300:
            J('tree_k%d_s%d' % (k, sh), w=k / 100, op=2, k=k, shape=sh)
lens = [1, 2, 7, 8, 9, 15, 16, 31, 33, 56, 57, 63, 64] if QUICK else list(range(1, 65))
for l0 in lens:
    for l1 in ([1, 3, 8, 13] if QUICK else [1, 2, 3, 5, 7, 8, 9, 13, 31, 57, 64]):
        J('words_%d_%d' % (l0, l1), w=0.1, op=3, l0=l0, l1=l1, l2=(l0 * 7 + l1) % 23 + 1, l3=5, w_=0)
for j in jobs:
    if 'w_' in j.params:
        del j.params['w_']
        j.params['w'] = 4 if j.params['op'] == 3 else 2
main('P12', jobs, 'symbolic execution of the real entropy coder with SMT-decided round trip',
     'all sequences up to length %d over small alphabets; deep codes (Fibonacci frequencies) with two free symbols; every leaf symbol for trees of every size class (up to %d leaves); every code word of lengths 1..64 concatenated at varying bit offsets' % (4 if QUICK else 6, 300 if QUICK else 32769),
     ['code words longer than 64 bits need more than 10^13 symbols and are outside the bounds', 'buffers have the size of the documented worst case'])
