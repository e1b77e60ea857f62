#!/usr/bin/env python3
"""Lists the repairs in /repo (commits whose message starts with fix:) in /verif/KNOWN_FINDINGS.txt, by property."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = dict(line.split() for line in '''
fc34042 C06
79002f9 C26
b7e1977 C02
bfae9ff C08
d66da5d C19
294673c C14
4d4e170 C14
bd9f20d C13
8b22dc4 C11
77d10dd C16
19c3bf5 C12
f0bab5c C12
49865a1 C14
dcb3ba9 C14
52d3110 C14
410fb86 C14
c52b3ba C17
aef945b C17
00f7193 C15
e862837 C15
d3579b3 C15
0fa630a C28
42406cd C11
a4211a4 C29
40a6921 C30
13e8375 C27
976cdfa C16
7ccf59a C08
29f103d C04
cf8c194 C16
ba1260c C21
b783ef1 C21
be6dadf C23
990b1b2 C23
5ad9ceb C26
06e1102 C26
9ae13cb C27
3668b99 C27
7bd18a3 C27
d6eef82 C03
4c97e5a C09
c22eeb4 C10
9844469 C08
49f11d8 C22
1448e24 C24
9d5985c C22
edaa5b3 C14
2ddbf3f C31
eba71de C31
34af804 C31
73571af C31
d16446a C05
'''.split('\n') if line)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
keep = [line for line in open(path) if line.startswith('known:')] if os.path.exists(path) else []
with open(path, 'w') as f:
    f.write('# Known findings and repaired defects.\n'
            '#   known: property=<id> <section> | <case> :: <what fails>   reported as KNOWN-FINDING, not as VIOLATION\n'
            '#   fixed: property=<id> <commit> <what failed>               for the record, suppresses nothing\n')
    f.writelines(keep)
    for line in log:
        commit, _, subject = line.partition(' ')
        if subject.startswith('fix: '):
            f.write('fixed: property=%s %s %s\n' % (PROPS[commit], commit, subject[5:]))
