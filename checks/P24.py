from cp2d import *
jobs = suite(('relax',), VERIFY)
main('P24', jobs, TECH, BOUNDS, ASSUME)
