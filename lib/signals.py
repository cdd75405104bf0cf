"""C43: GDB's signal numbering."""
import json
import os
import re
import env
import funcs
from absint import *


def strings(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'b' and isinstance(t[1], bytes):
            try:
                s = t[1].decode('ascii')
            except UnicodeDecodeError:
                return
            out.append(s)
            return
        for x in t:
            strings(x, out)


def c43(ctx):
    ctx.rule('every named Signal constant (as evaluated by the compiler) has the number GDB assigns to the name and no number has two names; on every path of its '
             'Display the text written for a number starts with the name of that number')
    ref = json.load(open(os.path.join(env.VERIF, 'spec', 'signals.json')))
    c = env.crate('std', 'gdbstub')
    byn = {}
    for k, v in c.consts.items():
        m = re.match(r'(.*::)?Signal::(\w+)$', k)
        if not m or not v['pub']:
            continue
        name = m.group(2)
        try:
            n = v['value']['fields'][0]['int']
        except (KeyError, IndexError, TypeError):
            ctx.undecided('Signal::%s is not a plain number' % name)
            continue
        ctx.count('named signals')
        if name not in ref:
            ctx.undecided('Signal::%s is not a signal of the reference' % name)
        elif ref[name] != n:
            ctx.violation('Signal::' + name, 'Signal::%s is %d, GDB\'s number is %d' % (name, n, ref[name]))
        elif n in byn:
            ctx.violation('dup:%d' % n, 'Signal::%s and Signal::%s share the number %d' % (byn[n], name, n))
        byn.setdefault(n, name)
    for name in ref:
        if ref[name] not in byn:
            ctx.violation('missing:' + name, 'there is no Signal constant for %s (%d)' % (name, ref[name]))
    ctx.floor('named signals', len(ref))
    fs = [f for k, f in c.fns.items() if f.local and re.match(r'<.*\bSignal as (std|core)::fmt::Display>::fmt$', k)]
    if not fs:
        ctx.violation('missing:Display', 'Signal has no Display implementation')
        return
    f = fs[0]
    st = State()
    N = ('arg', 'n')
    st.store[('T', 's')] = ('adt', 'common::signal::Signal', 0, 'Signal', (N,))
    I, outs = funcs.run(c, f, [('ref', ('T', 's'), (), None), ('arg', 'f')], st=st, merge=False)
    names = {v: k for k, v in ref.items()}
    seen = {}
    import summ
    for k, s, v in outs:
        for tr in summ.flatten(s.trace) if any(x[0] == 'alt' for x in s.trace) else [s.trace]:
            dom = [i for i in range(256) if all(any(a <= i <= b for a, b in x[2]) for x in tr if x[0] == 'c' and x[1] == N)]
            if any(x[0] == 'c' and x[1] != N and not (x[1][0] in ('res', 'vf', 'app')) for x in tr):
                raise Undecided('Display depends on more than the number')
            ss = []
            strings(tuple(x for x in tr if x[0] != 'c'), ss)
            words = {w for t in ss for w in re.findall(r'[A-Z][A-Z0-9_]{2,}', t.split(' - ')[0])} & set(ref)
            for i in dom:
                seen.setdefault(i, set()).add(frozenset(words))
    for i in range(256):
        ctx.count('displayed numbers')
        w = seen.get(i, set())
        if i in names:
            if not w or any(not x for x in w):
                ctx.undecided('the text of signal %d' % i)
            elif any(names[i] not in x for x in w):
                ctx.violation('Display:%d' % i, 'signal %d (%s) is displayed as %s' % (i, names[i], sorted(set().union(*w))))
        elif any(w):
            ctx.violation('Display:%d' % i, 'number %d, which has no name, is displayed as %s' % (i, sorted(set().union(*w))))
