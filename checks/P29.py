from cp2d import *
jobs = suite(('bilin',), VERIFY)
main('P29', jobs, TECH, BOUNDS, ASSUME)
