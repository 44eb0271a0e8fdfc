#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (claims) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
SE = 'symbolic execution of the real code (LLVM IR of the working tree), SMT-decided (z3)'
CP = SE + ', floating point abstracted with IEEE-valid lemmas'
CLAIMS = {
    'P12': (SE, 'bounded: short sequences over small alphabets, deep codes, all tree size classes, code words up to 64 bits'),
    'P13': (SE, 'bounded: every flag array of each length up to the bound'),
    'P14': (SE + ', log2/pow uninterpreted', 'all bounds; the bases and thresholds the compressors use'),
    'P21': (SE + ', bit-precise capacity inequality', 'all lengths up to the bound, back end recorded'),
    'P25': (SE + ', floating point abstracted with IEEE-valid lemmas, bit-precise fallback', 'bounded: up to two (thorough: three) values in sequence'),
    'P03': (CP, 'bounded: small grids, bounded numbers of deviations from a nominal control path on the larger ones'),
    'P04': (CP, 'bounded: small grids; the block compressor inside the two-phase form replaced by its contract (P02)'),
    'P05': (CP, 'bounded: small grids; libm functions uninterpreted with monotonicity and exactness facts'),
    'P07': (CP, 'bounded: small grids; limits are arbitrary functions of the corner values'),
    'P15': (CP + ', memory model with object bounds', 'bounded: small grids; entropy coder replaced by its worst-case size'),
    'P16': (SE, 'every shape up to the bound, decoded values symbolic'),
    'P20': (CP, 'bounded: small grids'),
    'P24': (CP, 'bounded: small grids; the detector is an arbitrary function'),
    'P29': (CP, 'bounded: small grids; extraction and verification are arbitrary functions'),
}
NA = {
    'P27': 'the claim is about the rounding error of the platform log2/exp2, which are table-driven library routines outside the repository; an encoding of them in the FP theory is out of reach of the solvers here (P05 and P26 decide everything up to those two calls)',
    'P28': 'the subject is file-system I/O through iostream, whose code is in the C++ library and the kernel, not encodable here; the repository adds only calls to it',
}
checks = []
na = []
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt checks/%s.py' % i, thorough_cmd='VERIF_TIER=thorough python3-vt checks/%s.py' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='mkdir -p evidence && python3-vt -c "import z3"', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Everything is rebuilt from /repo on every run in a temporary directory.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
