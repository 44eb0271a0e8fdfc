from cp2d import *
jobs = suite(('online', 'abs', 'log', 'sz3'), LIMIT, (False, True))
main('P07', jobs, TECH, BOUNDS, ASSUME)
