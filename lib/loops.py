"""C54: every loop of the library other than the event loop ends: no turn of a loop can leave everything its conditions depend on unchanged."""
from concurrent.futures import ProcessPoolExecutor
import absint
import env
import extract
import fviews
import models
import poly
import show
import summ
from absint import Undecided, T0, T1

# operations that wait for something outside the library; a loop turning on them is an event loop
WAITS = {'read', 'wait_for_stop_reason', 'on_interrupt', 'next'}


def phis(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('phi',) and len(t) == 2:
            out.add(t)
        else:
            for x in t:
                phis(x, out)
    elif isinstance(t, frozenset):
        for x in t:
            phis(x, out)
    return out


def events(tr, conds, effs):
    """the conditions and effects of one turn, of all the alternatives it was merged from"""
    for e in tr:
        if e[0] == 'c':
            conds.append((e[1], e[2]))
        elif e[0] == 'e':
            effs.append((e[1], e[2]))
        elif e[0] == 'alt':
            for x in e[1:]:
                for y in (x if isinstance(x, (frozenset, tuple)) else ()):
                    if isinstance(y, tuple):
                        events(y, conds, effs)
        elif e[0] == 'loop':
            for y in e[1]:
                events(y, [], effs)


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        if t[:1] == ('lin',) and len(t) == 3:
            r = ('i', t[2])
            for x, k in t[1]:
                r = absint.add(r, absint.scale(subst(x, m), k))
            return r
        return tuple(subst(x, m) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    return t


class Seen:
    def __init__(self):
        self.loops = {}     # (function, head) -> {'span', 'backs', 'proved', 'still': text or None}
        self.own = {}       # (function, head) -> the loop's variables

    def hook(self, I, fr, h, g, backs):
        t = fr.fn.bbs[h]['t']
        span = next((x for x in reversed(t) if isinstance(x, str) and '.rs:' in x), None) or first_span(fr.fn, h)
        r = self.loops.setdefault((fr.fn.path, span), {'backs': 0, 'proved': 0, 'still': None, 'local': fr.fn.local})
        n = len(g.trace)
        own = self.own.setdefault((fr.fn.key, h), set())
        for per in I.per_back:
            own |= {l for l, nx in per}
        for b, per in zip(backs, I.per_back):
            r['backs'] += 1
            conds, effs = [], []
            events(b.trace[n:], conds, effs)
            if any(waits(e) for e, a in effs):
                r['proved'] += 1
                r['event'] = True
                continue
            if any(self.progress(I, b, l, nx) for l, nx in moves(I, per).items()):
                r['proved'] += 1
                continue
            # what changes within the turn has no one value to compare
            inner = set().union(*(phis(c, set()) for c, k in conds), *(phis(a, set()) for e, a in effs)) & self.others(fr, h)
            if inner:
                continue
            m = moves(I, per)
            if all(same(I, b, c, m) for c, k in conds) and all(same(I, b, located(a), m) for e, a in effs):
                r['still'] = 'when it goes on because of %s' % reason(conds)
                continue
            # a turn that only moves by what an operation of the target reported, which may be nothing
            z = {a: T0 for a in answers(I, b, m)}
            if z:
                m0 = {l: subst(nx, z) for l, nx in m.items()}
                m0 = {l: nx for l, nx in ((l, I.canon(b, nx)) for l, nx in m0.items()) if l != nx}
                e0 = [located(subst(a, z)) for e, a in effs]
                c0 = [(subst(c, z), k) for c, k in conds]
                if all(same(I, b, c, m0) for c, k in c0) and all(same(I, b, a, m0) for a in e0):
                    r['still'] = 'when %s is 0 and it goes on because of %s' % (', '.join(show.P(a) for a in z), reason(conds))

    def others(self, fr, h):
        return set().union(*(v for k, v in self.own.items() if k != (fr.fn.key, h)))

    def progress(self, I, b, l, nx):
        if nx == l:
            return False
        try:
            d = models.sub(nx, l)
            return models.entails(I, b, models.sub(d, T1)) or models.entails(I, b, models.sub(models.sub(l, nx), T1))
        except Exception:
            return False


def waits(e):
    """waiting for data, for the target, or whatever the standard library's own operations do"""
    e = e[7:] if e.startswith('opaque:') else e
    return e.split('::')[-1].split('.')[-1] in WAITS or e.startswith(('std::', 'core::', 'alloc::'))


def moves(I, per):
    """what a turn does to the loop's variables; structures field by field"""
    m = {}
    for l, nx in per:
        if l == nx:
            continue
        m[l] = nx
        if isinstance(nx, tuple) and nx[:1] == ('adt',) and len(nx) == 4:
            for v in (I.adts.get(nx[1]) or {}).get('variants', ()):
                if v['name'] == nx[2] and len(v['fields']) == len(nx[3]):
                    for f, x in zip(v['fields'], nx[3]):
                        m[('fld', l, f[0])] = x
    return m


def located(a):
    """arguments of an operation; of a buffer it fills, where it is"""
    if isinstance(a, tuple):
        if a[:1] == ('slice',) and len(a) == 4 and a[1][:1] == ('phi',):
            return ('slice', ('_',), a[2], a[3])
        return tuple(located(x) for x in a)
    return a


def reason(conds):
    return ', '.join('%s %s' % (show.P(c)[:100], k) for c, k in conds[:4])[:300]


def answers(I, b, m):
    """numbers reported by operations among the amounts by which the loop's variables move"""
    out = set()
    for l, nx in m.items():
        d, c = absint.lin(absint.sub(nx, l))
        if c == 0:
            out |= {a for a in d if operation(a)}
    return {a for a in out if I.assume(b, ('cmp', a, ((0, 0),), True), True) is not None
            and not any(d.get(a, 0) > 0 and (len(d) > 1 or c < 0) for d, c in poly.facts_of(b, [a]))}


def operation(a):
    """a is what an operation outside the library reported, as it is"""
    while isinstance(a, tuple) and a[:1] in (('fld',), ('vf',)):
        a = a[1]
    return isinstance(a, tuple) and a[:1] == ('res',)


def same(I, b, c, m):
    if not phis(c, set()) & set(m):
        return True
    x = subst(c, m)
    return I.canon(b, x) == I.canon(b, c)


def first_span(fn, h):
    for s in fn.bbs[h]['s']:
        for x in reversed(s):
            if isinstance(x, str) and '.rs:' in x:
                return x
    for b in sorted(fn.loops[h]):
        for x in reversed(fn.bbs[b]['t']):
            if isinstance(x, str) and '.rs:' in x:
                return x
    return '?'


def work(job):
    kind, name = job
    s = Seen()
    absint.ON_LOOP = s.hook
    try:
        if kind == 'packet':
            extract.extract(env.crate('std'), name)
        else:
            fviews.summarise(name)
    except (Undecided, summ.TooBig, KeyError) as e:
        return s.loops, '%s %s: %s' % (kind, name, e)
    finally:
        absint.ON_LOOP = None
    return s.loops, None


def jobs():
    return [('packet', n) for n in extract.NAMES] + [('function', v) for v in fviews.VIEWS if not v.startswith('none')]


def c54(ctx):
    ctx.rule('For every loop of the library, and every way through its body back to its head (fixpoint of the abstract interpretation of the MIR, all inputs and all answers of the target): '
             'progress is shown when one of the loop\'s variables strictly grows or shrinks (linear inequalities entailed by the facts), or when the turn waits for data or for the target. '
             'Violation: everything the turn\'s conditions and operations depend on is the same after the turn as before it - also when an operation reports 0 for a length it moves by - so '
             'that, given the same answers, the loop goes on for ever.')
    env.crate('std')
    loops = {}
    with ProcessPoolExecutor(7) as ex:
        for l, err in ex.map(work, jobs(), chunksize=4):
            if err:
                ctx.undecided(err[:300])
            for k, r in l.items():
                o = loops.setdefault(k, dict(r, backs=0, proved=0))
                o['backs'] += r['backs']
                o['proved'] += r['proved']
                o['still'] = o['still'] or r['still']
                o['event'] = o.get('event') or r.get('event')
    for (fn, span), r in sorted(loops.items()):
        ctx.count('loops')
        ctx.count('ways back to a loop head', r['backs'])
        if r['still']:
            ctx.violation('loop:%s' % fn, 'the loop at %s in %s goes round for ever %s: nothing that decides whether it goes on has changed' % (span, fn, r['still']))
        elif r.get('event'):
            ctx.count('event loops')
            ctx.sample('%s: waits for the target or for data' % span)
        elif r['proved'] == r['backs']:
            ctx.count('loops shown to make progress')
            ctx.sample('%s (%s): a variable strictly grows or shrinks on %d ways' % (span, fn[:100], r['backs']))
        else:
            ctx.undecided('%s (%s): progress not shown on %d of %d ways, none of which leaves its conditions unchanged' % (span, fn[:100], r['backs'] - r['proved'], r['backs']))
    ctx.floor('loops', 25)
    ctx.floor('ways back to a loop head', 50)
