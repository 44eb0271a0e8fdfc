from cp2d import *
jobs = suite(('online',), BOUND, (False,))
main('P04', jobs, TECH, BOUNDS, ASSUME)
