#!/usr/bin/env python3
"""Writes spec/signals.json: GDB's signal numbers, from the order in which the installed GDB lists its signals (`info signals` goes through
signals.def by number and leaves out 0, UNKNOWN = 143 and DEFAULT = 144)."""
import json, os, subprocess
o = subprocess.run(['gdb', '-batch', '-ex', 'info signals'], stdout=subprocess.PIPE).stdout.decode().splitlines()
names = [l.split()[0] for l in o if l.count('\t') >= 3 and not l.startswith('Signal')]
t, n = {'SIGZERO': 0, 'UNKNOWN': 143, 'INTERNAL_DEFAULT': 144}, 1
for x in names:
    while n in (143, 144):
        n += 1
    t[x] = n
    n += 1
assert t['SIGTRAP'] == 5 and t['SIG32'] == 77 and t['SIGINFO'] == 142 and t['EXC_BAD_ACCESS'] == 145 and t['SIGLIBRT'] == 151, t
json.dump(t, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'signals.json'), 'w'), indent=0)
print(len(t))
