from cp2d import *
jobs = suite(('online', 'abs', 'log', 'relax', 'sz3', 'bilin'), INPUT, (False, True), small=True)
main('P20', jobs, TECH, BOUNDS, ASSUME)
