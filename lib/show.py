from absint import INF


def P(t, phi=None):
    if not isinstance(t, tuple) or not t:
        if isinstance(t, frozenset):
            return '{' + ', '.join(sorted(str(x) for x in t)) + '}'
        return str(t)
    k = t[0]
    if not isinstance(k, str):
        return '<' + ', '.join(P(x) for x in t) + '>'
    p = lambda x: P(x, phi)
    if k == 'i':
        return str(t[1])
    if k == 'b':
        return repr(t[1])
    if k in ('sym', 'arg'):
        return ':'.join(x if isinstance(x, str) else p(x) for x in t[1:])
    if k == 'lin':
        s = ''
        for x, c in t[1]:
            s += ('+' if c > 0 else '-') + ('' if abs(c) == 1 else str(abs(c)) + '*') + p(x)
        return '(' + s.lstrip('+') + ('%+d' % t[2] if t[2] else '') + ')'
    if k == 'adt':
        fs = t[-1]
        n = t[1].split('::')[-1]
        v = t[2] if isinstance(t[2], str) else t[3]
        return (n + '::' + v if n != v and v not in ('Some', 'None', 'Ok', 'Err') else v) + ('(' + ', '.join(p(x) for x in fs) + ')' if fs else '')
    if k == 'tup':
        return '(' + ', '.join(p(x) for x in t[1]) + ')'
    if k == 'arr':
        return '[' + ', '.join(p(x) for x in t[1]) + ']'
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(p(x) for x in t[2])) + (str(t[3]) if len(t) > 3 else '')
    if k == 'gate':
        return t[1] + '()'
    if k == 'res':
        return '%s#%s' % (t[1], t[2])
    if k == 'fld':
        return p(t[1]) + '.' + str(t[2])
    if k == 'vf':
        return '%s.%s.%s' % (p(t[1]), t[2], t[3])
    if k == 'as':
        return '(%s as %s)' % (p(t[1]), t[2])
    if k == 'at':
        return '%s[%s]' % (p(t[1]), p(t[2]))
    if k == 'slice':
        return '%s[%s;+%s]' % (p(t[1]), p(t[2]), p(t[3]))
    if k == 'len':
        return 'len(%s)' % p(t[1])
    if k == 'mut':
        return 'mut<%s>' % ','.join(p(x) if isinstance(x, tuple) else str(x) for x in t[1:])
    if k == 'phi':
        return 'φ%s' % (t[1],)
    if k == 'cmp':
        return '(%s in %s)' % (p(t[1]), R(t[2]))
    if k == 'isv':
        return '(%s is %s)' % (p(t[1]), t[2])
    if k == 'deref':
        return '*' + p(t[1])
    if k == 'in':
        return p(t[1])
    return k + '(' + ', '.join(p(x) if isinstance(x, tuple) else P(x) for x in t[1:]) + ')'


def R(r):
    def f(x):
        return '∞' if x == INF else '-∞' if x == -INF else str(x)
    return '∪'.join('%s..%s' % (f(a), f(b)) if a != b else f(a) for a, b in r)


def C(it):
    _, t, v = it
    if isinstance(v, bool):
        return ('' if v else '!') + P(t)
    if isinstance(v, frozenset):
        return '%s is %s' % (P(t), '|'.join(sorted(v)))
    return '%s in %s' % (P(t), R(v))


def trace(tr, ind='    ', out=None):
    out = [] if out is None else out
    for it in tr:
        if it[0] == 'c':
            out.append(ind + '? ' + C(it))
        elif it[0] in ('e', 'e!'):
            out.append(ind + it[0].upper() + ' %s#%s(%s)' % (it[1], it[3], ', '.join(P(x) for x in it[2])))
        elif it[0] in ('t', 't!'):
            out.append(ind + '> ' + it[0] + ' ' + it[1] + ' ' + ', '.join(P(x) for x in it[2]))
        elif it[0] == 'alt':
            out.append(ind + 'ALT')
            for i, b in enumerate(sorted(it[1], key=repr)):
                out.append(ind + ' |%d' % i)
                trace(b, ind + ' |  ', out)
        elif it[0] == 'loop':
            out.append(ind + 'LOOP phis ' + ' '.join(P(x) for x in it[2]))
            for i, b in enumerate(sorted(it[1], key=repr)):
                out.append(ind + ' *%d' % i)
                trace(b, ind + ' *  ', out)
        else:
            out.append(ind + str(it))
    return out
