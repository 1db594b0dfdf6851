#!/usr/bin/env python3
"""Writes harness/powtab.h: the powers of ten the model of pow() in h_float.c returns, rounded by the compiler."""
import os
out = ['/* powers of ten of each floating point type, as cases of a switch; written by tools/mkpow.py */']
def cases(name, suf, a, b):
    cs = ['case %d: return 1e%d%s;' % (k, k, suf) for k in range(a, b + 1)]
    out.append('#define %s \\\n\t' % name + ' \\\n\t'.join(' '.join(cs[i:i+8]) for i in range(0, len(cs), 8)))
V_LO, V_HI = -26, 26
for n, suf in (('F', 'f'), ('', ''), ('L', 'L')):
    cases('V_POW%s_CORE' % n, suf, V_LO, V_HI)
cases('V_POWF_REST', 'f', -45, -27)
cases('V_POWF_REST2', 'f', 27, 38)
cases('V_POW_REST', '', -323, -300)
cases('V_POW_REST2', '', 290, 308)
cases('V_POWL_REST', 'L', -4940, -4925)
cases('V_POWL_REST2', 'L', 4920, 4932)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'powtab.h'), 'w').write('\n'.join(out) + '\n')
