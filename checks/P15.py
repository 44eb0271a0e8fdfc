from cp2d import *
jobs = suite(('online', 'abs', 'log', 'relax', 'sz3', 'bilin'), 0, (False, True), small=True)
main('P15', jobs, TECH + '; every load, store, free and copy of the real code is checked against its object', BOUNDS, ASSUME)
