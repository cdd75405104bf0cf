"""Comparison of the current per-packet summaries with the reviewed ones in /verif/spec/packets.json."""
import os
import re
import env
import extract
import show
import specio
import summ
from absint import Undecided

SPEC = os.path.join(env.VERIF, 'spec', 'packets.json')
NEST = ('qRegisterInfo',)
TOKENWISE = ('qSupported',)


def current(crate, name):
    """{view name: Summary} of the packet `name` in the current tree, plus the interpreter"""
    I, paths = extract.extract(crate, name)
    if name in TOKENWISE:
        paths = [(k, pieces(st), v) for k, st, v in paths]
        toks = set()
        for k, st, v in paths:
            literals(st.trace, toks)
        views = {}
        for t in sorted(toks, key=repr):
            views[name + ' token ' + repr(t)] = summ.build(I, paths, only=lambda it, t=t: it[0] == 't' and t == itemtext(it))
        views[name + ' effects'] = summ.build(I, paths, only=lambda it: it[0] == 'e')
        return I, views
    return I, {str(name): summ.build(I, paths, nest=name in NEST)}


class Traced:
    """a path's final state with its reply literals cut into the features they announce"""
    def __init__(self, st, trace):
        self._st = st
        self.trace = trace

    def __getattr__(self, n):
        return getattr(self._st, n)


def pieces(st):
    return Traced(st, cut(st.trace))


def cut(tr):
    """adjacent literals are one text, which is then cut before every ';'"""
    out, buf = [], b''

    def flush():
        nonlocal buf
        for x in re.findall(rb'[^;]+|;[^;]*', buf):
            out.append(('t', 'str', (('b', x),)))
        buf = b''
    for it in tr:
        if it[0] == 't':
            x = summ.tok(it[1], it[2])
            if x[0] == 'lit':
                buf += x[1]
                continue
        flush()
        if it[0] in ('alt', 'loop'):
            it = (it[0], frozenset(cut(b) for b in it[1])) + tuple(it[2:])
        out.append(it)
    flush()
    return tuple(out)


def itemtext(it):
    t = summ.tok(it[1], it[2])
    return t[1] if t[0] == 'lit' else t


def literals(tr, out):
    for it in tr:
        if it[0] == 't':
            out.add(itemtext(it))
        elif it[0] in ('alt', 'loop'):
            for b in it[1]:
                literals(b, out)


_gold = None
_fgold = None
_base = None
FSPEC = os.path.join(env.VERIF, 'spec', 'functions.json')


def fgold():
    global _fgold
    if _fgold is None:
        _fgold = specio.load(FSPEC) if os.path.exists(FSPEC) else {}
    return _fgold


def gold():
    global _gold
    if _gold is None:
        _gold = specio.load(SPEC)
    return _gold


def base_vocab():
    """names every reviewed summary may mention"""
    global _base
    if _base is None:
        out = set()
        for G in (gold(), fgold()):
            for v in G.values():
                out |= {x for x in summ.vocab(v) if x[0] in ('op', 'fld')}
        _base = frozenset(out)
    return _base


KEY = {'event': 'call', 'args': 'call', 'reply': 'reply', 'outcome': 'outcome', 'state': 'state', 'loop': 'loop', 'structure': 'structure'}


def where(I, d):
    """source locations related to a difference"""
    names = []
    for o in (d.a, d.b):
        if isinstance(o, tuple) and o:
            if o[0] in ('e', 'e!'):
                names.append(o[1])
            elif o[0] == 'lit' or isinstance(o[0], str) and 'reply ' + o[0] in I.locs:
                pass
    ls = sorted({l for n in names for l in I.locs.get(n, ())})
    return ls


def dkey(name, d):
    def nm(o):
        if isinstance(o, tuple) and o and o[0] in ('e', 'e!'):
            return o[1]
        if isinstance(o, tuple) and o and o[0] == 'lit':
            return repr(o[1][:20])
        if isinstance(o, tuple) and o and isinstance(o[0], str):
            return o[0]
        return '-'
    return '%s:%s:%s/%s' % (name, d.kind, nm(d.a), nm(d.b))


def check(ctx, names, kinds=None, proj=None, crate=None):
    """compare packets `names`; only differences of `kinds` count for this property"""
    c = crate or env.crate('std')
    G = gold()
    ctx.rule('Every path of parsing and handling each listed packet was enumerated by abstract interpretation of the compiled MIR (calls '
             'inlined, loops widened to fixpoints); each path\'s condition, target calls with argument origins, reply bytes, outcome and session-state '
             'update is compared with the reviewed summary of that packet, pairing paths whose conditions are jointly satisfiable.')
    for name in names:
        try:
            I, views = current(c, name)
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('packet %s: %s' % (name, e))
            continue
        ctx.count('packets')
        ctx.count('interpreted_states', I.nstates)
        ctx.count('target_call_sites', len([n for n in I.locs if not n.startswith('reply ')]))
        judged, open_ = 0, 0
        gviews = {k for k in G if k == str(name) or k.startswith(str(name) + ' ')}
        for k in sorted(set(views) | gviews):
            g = specio.thaw(G[k]) if k in G else None
            s = views.get(k)
            if g is None or s is None:
                if name in TOKENWISE and s is None and any(v not in gviews and ' token ' in v and not v.endswith(("+'", "-'")) for v in views):
                    ctx.undecided('packet %s: replies put together in a way this analysis does not follow (%s)' % (name, k))
                    continue
                # a token that no longer/newly exists: compare with "never emitted"
                s, g = tokenless(s, g)
            ctx.count('behaviours', len(s.beh))
            ctx.count('path_conditions', sum(len(p) for p in s.beh.values()))
            kw = {} if proj is None else {'proj': proj}
            fs = summ.compare(s, g, base_vocab=base_vocab(), **kw)
            for f in fs:
                if kinds is not None and f.diff.kind not in kinds:
                    continue
                loc = where(I, f.diff)
                text = 'packet `%s`: %s' % (name, f.text()) + (' at ' + '; '.join(loc[:4]) if loc else '')
                if f.certain:
                    judged += 1
                    ctx.violation(dkey(k, f.diff), text)
                else:
                    open_ += 1
                    ctx.undecided(text[:300] + ' -- ' + f.why)
        if open_ and not judged and crate is None:
            import fviews
            for k, text in fviews.parts(ctx, str(name)):
                ctx.violation(k, text)
        ctx.sample('packet %s: %s' % (name, '; '.join(sorted(' '.join(summ.name_of(o) for o in k[0])[:120] for v in views.values() for k in v.beh)[:3])[:400]))


def tokenless(s, g):
    """stand-in for a view that exists on one side only: the same paths without the token"""
    src = s or g
    o = summ.Summary()
    for (obs, out, upd), ps in src.beh.items():
        for p in ps:
            o.add(((), out, upd), p)
    return (s, o) if g is None else (o, g)
