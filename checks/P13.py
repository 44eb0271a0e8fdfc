import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.runner import *
top = 33 if QUICK else 80
jobs = [Job('n%d_x%d' % (n, x), H('bitmap.cpp'), params={'n': n, 'extra': x}, weight=n) for n in range(1, top + 1) for x in (0, 2) if x == 0 or n % 7 == 1]
main('P13', jobs, 'symbolic execution of the real packer and unpacker, SMT-decided for all flag values per length',
     'lengths 1..%d, all flag values' % top, ['flags are 0 or 1', 'length at least 1 (no caller packs an empty map)'])
