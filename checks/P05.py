from cp2d import *
jobs = suite(('log', 'bilin'), BOUND, (True,))
main('P05', jobs, TECH, BOUNDS, ASSUME + ['magnitudes are zero or in [2^-98, FLT_MAX], relative bound at most 0.5'])
