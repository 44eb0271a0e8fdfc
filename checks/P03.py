from cp2d import *
jobs = suite(('abs', 'relax', 'sz3'), BOUND)
main('P03', jobs, TECH, BOUNDS, ASSUME)
