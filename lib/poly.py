"""Entailment of linear inequalities over the integers (rational Fourier-Motzkin elimination on the facts of one abstract state)."""
from fractions import Fraction
from absint import *


def linear(t):
    """term -> ({atom: coefficient}, constant)"""
    if t[0] == 'i':
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def add_(a, b, k=1):
    d = dict(a[0])
    for x, c in b[0].items():
        d[x] = d.get(x, 0) + k * c
        if not d[x]:
            del d[x]
    return d, a[1] + k * b[1]


def atoms_of(t, out):
    if isinstance(t, tuple) and t:
        if t[0] == 'op' and len(t) == 4 and t[1] in ('Div', 'Rem') and t[3][0] == 'i' and t[3][1] > 0:
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                atoms_of(x, out)


def splits_of(t, out):
    """pieces of slice::split in a term: {(split term): highest index known to exist}"""
    if isinstance(t, tuple) and t:
        if t[0] == 'item' and len(t) == 3 and isinstance(t[1], tuple) and t[1][:1] == ('split',) and t[2][:1] == ('i',):
            out.setdefault(t[1], 0)
        for x in t:
            if isinstance(x, tuple):
                splits_of(x, out)


def found(t):
    """(lower bound, exclusive upper bound) of the index an enumerate().find(..) or position(..) returned, None for other terms"""
    if t[:1] == ('fld',) and t[2:] == ('0',) and t[1][:1] == ('vf',) and t[1][2:] == ('Some', '0') and t[1][1][:2] == ('app', 'iter::find'):
        it = t[1][1][2][0]
        if it[:2] == ('it', 'enum') and it[2][:2] == ('it', 'slice'):
            return it[3], linear_sum(it[3], it[2][4], it[2][3])
    if t[:1] == ('vf',) and t[2:] == ('Some', '0') and t[1][:2] == ('app', 'iter::position'):
        it = t[1][2][0]
        if it[:2] == ('it', 'slice'):
            return T0, linear_sum(T0, it[4], it[3])
    return None


def linear_sum(a, b, c):
    return add_(add_(linear(a), linear(b)), linear(c), -1)


def facts_of(st, terms):
    """inequalities e >= 0 known in st, with the axioms of division and of lengths"""
    out = []
    ats = set()
    for t, v in st.facts.items():
        if not (isinstance(v, tuple) and v and v[0] == 'R' and v[1]):
            continue
        if isinstance(t, tuple) and t[0] in ('discr', 'cmp', 'eq', 'isv'):
            continue
        e = linear(t)
        lo, hi = v[1][0][0], v[1][-1][1]
        if lo != -INF:
            out.append(add_(e, ({}, lo), -1))
        if hi != INF:
            out.append(add_(({}, hi), e, -1))
        atoms_of(t, ats)
    for t in terms:
        atoms_of(t, ats)
    sps = {}
    for t in list(st.facts) + list(terms):
        if isinstance(t, tuple) and t and t[0] in ('len', 'more', 'lin'):
            splits_of(t, sps)
    for s in sps:
        whole = s[:3] + (T0,)
        for t, v in st.facts.items():
            if t[:1] == ('more',) and v == ('B', True) and t[1][:1] == ('item',) and t[1][1] in (s, whole) and t[1][2][:1] == ('i',):
                sps[s] = max(sps[s], t[1][2][1])
        if s != whole:
            sps[s] = min(sps[s], s[3][1] - 1) if s[3][0] == 'i' else 0
        e = add_(linear(length(s[1])), ({}, sps[s]), -1)
        for j in range(sps[s] + 1):
            piece = ('item', whole if s != whole and s[3][0] == 'i' and j < s[3][1] - 1 else s, ('i', j))
            e = add_(e, ({('len', piece): 1}, 0), -1)
            out.append(({('len', piece): 1}, 0))
        out.append(e)
    todo, done = list(ats), set()
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        k = a[3][1]
        q, r = ('op', 'Div', a[2], a[3]), ('op', 'Rem', a[2], a[3])
        x = linear(a[2])
        e = add_(add_(x, ({q: 1}, 0), -k), ({r: 1}, 0), -1)
        out += [e, add_(({}, 0), e, -1), ({r: 1}, 0), ({r: -1}, k - 1), ({q: 1}, 0)]
    for e in list(out) + [linear(t) for t in terms]:
        for a in e[0]:
            if a[0] in ('len', 'op'):
                out.append(({a: 1}, 0))
            f = found(a)
            if f:
                out.append(add_(({a: 1}, 0), linear(f[0]), -1))
                out.append(add_(add_(f[1], ({a: 1}, 0), -1), ({}, -1)))
    return out


def length(t):
    """length of a slice term"""
    if t[0] == 'slice' and len(t) >= 4:
        return t[3]
    return ('len', t)


def related(fs, goal):
    rel = set(goal[0])
    use = []
    for _ in range(3):
        for f in fs:
            if f not in use and set(f[0]) & rel:
                use.append(f)
        for f in use:
            rel |= set(f[0])
    return use


class Box:
    """a conjunction of conditions seen as a state"""
    def __init__(self, facts):
        self.facts = facts


def box(c):
    return Box({t: v if v and isinstance(v, tuple) and v[0] in ('R', 'B', 'V') else ('R', v) if isinstance(v, tuple) else ('B', v) for t, v in c.items()})


def implies(c, e):
    """do the conditions in {term: constraint} imply e >= 0 ?"""
    return entails(box(c), e)


def divides(c):
    def has(t):
        return isinstance(t, tuple) and bool(t) and (t[0] == 'op' and len(t) == 4 and t[1] in ('Div', 'Rem') or t[:2] in (('app', 'iter::find'), ('app', 'iter::position')) or any(has(x) for x in t if isinstance(x, tuple)))
    return any(has(t) for t in c)


def infeasible(c):
    """are the linear conditions in {term: constraint} contradictory?"""
    st = box(c)
    for t in list(st.facts):
        if t[0] == 'lin':
            for a, k in t[1]:
                if a[0] == 'phi':
                    st.facts.setdefault(a, ('R', ((0, INF),)))      # counters of loops over indices
    fs = facts_of(st, [])
    done = set()
    for f in fs:
        a = frozenset(f[0])
        if not a or a & done:
            continue
        done |= a
        if entails(st, None, goal=({x: 0 for x in a}, -1)):
            return True
    return False


def witness(st, e, limit=9, exact=lambda a: True):
    """a small integer point of the facts of st with e < 0: {atom: value}, or None"""
    import itertools
    goal = linear(e)
    use = related(facts_of(st, [e]), goal)
    ats = set(goal[0])
    for d, c in use:
        ats |= set(d)
    dep = {a for a in ats if a[0] == 'op' and a[1] in ('Div', 'Rem')}
    free = set(ats - dep)
    for a in dep:
        free |= set(linear(a[2])[0])
    free = sorted(free, key=repr)
    if any(a[0] == 'op' for a in free) or len(free) > 4 or not all(exact(a) for a in free):
        return None

    def val(e, m):
        return sum(k * m[a] for a, k in e[0].items()) + e[1]
    for pt in sorted(itertools.product(range(limit), repeat=len(free)), key=sum):
        m = dict(zip(free, pt))
        for a in dep:
            x = val(linear(a[2]), m)
            m[a] = x // a[3][1] if a[1] == 'Div' else x % a[3][1]
        if val(goal, m) < 0 and all(val(f, m) >= 0 for f in use):
            return m
    return None


def entails(st, e, more=(), goal=None):
    """st |= e >= 0 ?  (sound: True only if proven)"""
    goal = goal or linear(e)
    if not goal[0]:
        return goal[1] >= 0
    # the facts connected to the goal
    use = related(facts_of(st, ([] if e is None else [e]) + list(more)) + [add_(({}, -1), goal, -1)], goal)
    rows = {}
    for d, c in use:
        k = tuple(sorted(d.items(), key=repr))
        rows[k] = min(c, rows.get(k, c))
    if len(rows) > 60:
        return False
    rows = [({a: Fraction(x) for a, x in k}, Fraction(c)) for k, c in rows.items()]
    while True:
        if any(not d and c < 0 for d, c in rows):
            return True
        vs = {a for d, c in rows for a in d}
        if not vs:
            return False
        best = min(sorted(vs, key=repr), key=lambda a: sum(1 for d, c in rows if d.get(a, 0) > 0) * sum(1 for d, c in rows if d.get(a, 0) < 0))
        pos = [r for r in rows if r[0].get(best, 0) > 0]
        neg = [r for r in rows if r[0].get(best, 0) < 0]
        if len(pos) * len(neg) > 1500:
            return False
        new = [r for r in rows if not r[0].get(best, 0)]
        for p in pos:
            for n in neg:
                a, b = p[0][best], -n[0][best]
                d = {}
                for x, c in p[0].items():
                    d[x] = d.get(x, 0) + c * b
                for x, c in n[0].items():
                    d[x] = d.get(x, 0) + c * a
                d = {x: c for x, c in d.items() if c}
                new.append((d, p[1] * b + n[1] * a))
        uniq = {}
        for d, c in new:
            if not d and c >= 0:
                continue
            s = sum(abs(x) for x in d.values()) or 1
            k = tuple(sorted(((a, x / s) for a, x in d.items()), key=repr))
            c = c / s
            uniq[k] = min(c, uniq.get(k, c))
        rows = [(dict(k), c) for k, c in uniq.items()]
        if len(rows) > 400:
            return False
