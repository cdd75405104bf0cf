"""Hash-consed JSON form of terms and summaries (the committed specifications in /verif/spec)."""
import json
from absint import INF
import summ


class Enc:
    def __init__(self):
        self.tab = []
        self.ix = {}

    def __call__(self, t):
        k = (type(t).__name__, t)
        if k in self.ix:
            return self.ix[k]
        if isinstance(t, frozenset):
            r = ['f'] + sorted(self(x) for x in t)
        elif isinstance(t, tuple):
            r = ['t'] + [self(x) for x in t]
        elif isinstance(t, bytes):
            r = ['b', t.decode('latin1')]
        elif isinstance(t, bool) or t is None or isinstance(t, str):
            r = t
        elif isinstance(t, float):
            r = ['inf', 1 if t > 0 else -1]
        elif isinstance(t, int):
            r = t if abs(t) < 2**53 else ['n', str(t)]
        else:
            raise TypeError(type(t))
        self.tab.append(r)
        self.ix[k] = len(self.tab) - 1
        return len(self.tab) - 1


def decode(tab):
    out = []
    for r in tab:
        if isinstance(r, list):
            h = r[0]
            if h == 'f':
                out.append(frozenset(out[i] for i in r[1:]))
            elif h == 't':
                out.append(tuple(out[i] for i in r[1:]))
            elif h == 'b':
                out.append(r[1].encode('latin1'))
            elif h == 'inf':
                out.append(INF if r[1] > 0 else -INF)
            else:
                out.append(int(r[1]))
        else:
            out.append(r)
    return out


def freeze(S):
    """Summary -> plain term"""
    def path(p):
        return (frozenset(p.c.items()), frozenset(frozenset(frozenset(x.items()) for x in d) for d in p.d))
    return (frozenset((k, frozenset(path(p) for p in ps)) for k, ps in S.beh.items()),
            frozenset((u, i, n, m) for u, (i, n, m) in S.phis.items()))


def thaw(t):
    S = summ.Summary()
    for u, i, n, m in t[1]:
        S.phis[u] = (i, n, m)
    for k, ps in t[0]:
        for c, ds in ps:
            S.add(k, summ.Path(dict(c), [tuple(dict(x) for x in d) for d in ds], ()))
    return S


def save(path, d):
    e = Enc()
    idx = {k: e(v) for k, v in sorted(d.items())}
    with open(path, 'w') as f:
        f.write('{"index":' + json.dumps(idx, sort_keys=True) + ',\n"terms":[\n')
        f.write(',\n'.join(json.dumps(r, separators=(',', ':')) for r in e.tab))
        f.write('\n]}\n')


def load(path):
    j = json.load(open(path))
    t = decode(j['terms'])
    return {k: t[i] for k, i in j['index'].items()}
