#!/usr/bin/env python3
"""spec/sysregs.json: AArch64 system register encodings according to LLVM's assembler (llvm-mc), for every register name known to it among the names the library
uses. Only used to (re)generate the committed reference table; no check runs it."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import env
c = env.crate('arch', 'gdbstub_arch')
names = sorted({k.split('::')[-1] for k in c.consts if '::AArch64RegId::' in k})
out = {}


def enc(ins):
    r = subprocess.run(['llvm-mc', '--triple=aarch64', '-mattr=+all', '-show-encoding'], input=ins, capture_output=True, text=True)
    m = re.search(r'encoding: \[(.*?)\]', r.stdout)
    if not m:
        return None
    b = bytes(int(x, 16) for x in m.group(1).split(','))
    return int.from_bytes(b, 'little')


for n in names:
    w = enc('mrs x0, %s\n' % n)
    if w is None:
        w = enc('msr %s, x0\n' % n)
    if w is None:
        continue
    # op0 (bit 19 selects 2/3), op1 18:16, CRn 15:12, CRm 11:8, op2 7:5
    out[n] = (2 + ((w >> 19) & 1)) << 14 | ((w >> 16) & 7) << 11 | ((w >> 12) & 15) << 7 | ((w >> 8) & 15) << 3 | ((w >> 5) & 7)
json.dump(out, open(V + '/spec/sysregs.json', 'w'), indent=0, sort_keys=True)
print(len(names), len(out))
bad = []
for n in names:
    v = c.consts['aarch64::reg::id::AArch64RegId::' + n]['value']['fields'][0]['int']
    if n in out and out[n] != v:
        bad.append((n, v, out[n]))
print('differ', bad)
print('unknown to LLVM', [n for n in names if n not in out])
by = {}
for n in names:
    by.setdefault(c.consts['aarch64::reg::id::AArch64RegId::' + n]['value']['fields'][0]['int'], []).append(n)
print('shared', [x for x in by.values() if len(x) > 1])
