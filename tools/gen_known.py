#!/usr/bin/env python3
"""Writes the list of repaired defects to known_findings.txt (by hand, never by a check); keeps the finding lines."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [('edge iterators','C03'),('single point','C09'),('register alignment','C03'),('trading with a fixed buffer','C02'),('Surround','C10'),('Center clears','C10'),
 ('zero_interleave','C10'),('split_into and merge','C11'),('diff of empty','C12'),('mul and div of complex','C03'),('smaller operand','C04'),('resize within','C02'),
 ('split_into reports','C11'),('sum and sum_sq','C13'),('map_inplace','C16'),('dot products','C14'),('unwrap must','C28'),('get_magnitude and','C15'),('get_real_imag and','C15'),
 ('statistics_split_prec','C13'),('set_real_imag','C15'),('failed to_complex','C15'),('rededicate_from','C29'),('same distance to the center','C06'),('empty array can be divided','C06'),
 ('inverse transformations','C17'),('sifft scales','C18'),('symmetric FFTs','C18'),('mirror checks','C18'),('fft_shift and','C09'),('apply_window and','C19')]
import json
if os.path.exists(ROOT + '/tools/fixmap.json'):
    P = json.load(open(ROOT + '/tools/fixmap.json')) + P
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip().split('\n')
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [p for k, p in P if k in s]
    assert m, s
    out.append('fixed: property=%s %s %s' % (m[0], h, s[5:]))
path = ROOT + '/known_findings.txt'
keep = [l for l in open(path).read().split('\n') if l.startswith('finding:')] if os.path.exists(path) else []
open(path, 'w').write('\n'.join(out + keep) + '\n')
print(len(out), 'fixed', len(keep), 'findings')
