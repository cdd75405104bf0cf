"""Normal form of behavioural summaries, and comparison of a current summary with a reviewed one.

A summary is a set of behaviours; each behaviour = (observables, outcome, state updates) with the cubes
(conjunctions of branch conditions over inputs) under which it happens."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from absint import INF, r_and, r_or, FULL
import show
import poly
import absint

BIG = 200000


class TooBig(Exception):
    pass


def c_and(a, b):
    """intersection of two constraints; None if empty; raises TypeError when not comparable"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else None
        return a
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        r = a & b
        return r or None
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = r_and(a, b)
        return r or None
    return a


def implied(t, out, depth=0):
    """variant facts implied by the mere meaningfulness of a term"""
    if not isinstance(t, tuple) or depth > 12:
        return
    if t and t[0] == 'vf':
        out.setdefault(t[1], frozenset([t[2]]))
    for x in t[1:] if t and isinstance(t[0], str) else t:
        if isinstance(x, tuple):
            implied(x, out, depth + 1)


class Path:
    __slots__ = ('c', 'd', 'o')

    def __init__(self, c, d, o):
        self.c = c      # dict term -> constraint
        self.d = d      # list of dnfs (each a tuple of cubes (dict))
        self.o = o      # tuple of observables


def addc(c, t, v):
    """add condition to dict copy; None if contradictory"""
    if t in c:
        r = c_and(c[t], v)
        if r is None:
            return None
        if r == c[t]:
            return c
        n = dict(c)
        n[t] = r
        return n
    n = dict(c)
    n[t] = v
    return n


def merge_c(a, b):
    for t, v in b.items():
        a = addc(a, t, v)
        if a is None:
            return None
    return a


def pure(tr):
    for it in tr:
        if it[0] == 'c':
            continue
        if it[0] == 'alt' and all(pure(b) for b in it[1]):
            continue
        return False
    return True


def dnf(tr, lim=4000):
    """cubes of an event-free trace"""
    cubes = [{}]
    for it in tr:
        if it[0] == 'c':
            cubes = [x for x in (addc(c, it[1], it[2]) for c in cubes) if x is not None]
        else:
            alts = [y for b in it[1] for y in dnf(b, lim)]
            cubes = [x for x in (merge_c(c, a) for c in cubes for a in alts) if x is not None]
        if len(cubes) > lim:
            raise TooBig()
    return uniq(cubes)


def uniq(cubes):
    seen = {}
    for c in cubes:
        seen.setdefault(frozenset(c.items()), c)
    return list(seen.values())


def reduce_dnfs(c, ds):
    """propagate: drop cubes contradicting c, fold singletons into c. None if contradictory"""
    ds = list(ds)
    ch = True
    while ch:
        ch = False
        out = []
        for d in ds:
            n = [x for x in d if merge_c(c, x) is not None]
            if not n:
                return None
            if any(all(k in c and c_and(c[k], v) == c[k] for k, v in x.items()) for x in n):
                ch = ch or False
                continue        # already satisfied
            if len(n) == 1:
                c = merge_c(c, n[0])
                ch = True
                continue
            out.append(tuple(n))
        if len(out) != len(ds):
            ch = ch and True
        ds = out
    return c, ds


def flatten(tr, on_item, nest=False):
    cur = [Path({}, [], ())]
    for it in tr:
        nx = []
        if it[0] == 'c':
            for p in cur:
                c = addc(p.c, it[1], it[2])
                if c is not None:
                    nx.append(Path(c, p.d, p.o))
        elif it[0] == 'alt' and pure((it,)):
            cubes = dnf((it,))
            for p in cur:
                r = reduce_dnfs(p.c, [tuple(cubes)])
                if r is not None:
                    nx.append(Path(r[0], p.d + r[1], p.o))
        elif it[0] == 'alt' and nest:
            qs = [q for b in it[1] for q in flatten(b, on_item, True)]
            beh = loop_body(qs)
            if len(beh) == 1 and len(next(iter(beh))[0]) == 0:
                continue
            cur = [Path(p.c, p.d, p.o + (('alt', beh),)) for p in cur]
            continue
        elif it[0] == 'alt':
            subs = [q for b in it[1] for q in flatten(b, on_item)]
            for p in cur:
                for q in subs:
                    c = merge_c(p.c, q.c)
                    if c is not None:
                        nx.append(Path(c, p.d + q.d, p.o + q.o))
        else:
            o = on_item(it)
            if o is None:
                nx = cur
            else:
                nx = [Path(p.c, p.d, p.o + o) for p in cur]
        cur = nx
        if len(cur) > BIG:
            raise TooBig()
    return cur


def strip_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 'in' and len(t) == 2:
            return strip_in(t[1])
        return tuple(strip_in(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip_in(x) for x in t)
    return t


class Canon:
    """renaming of loop variables to structural names, stripping of bookkeeping tags"""

    def __init__(self, I):
        self.I = I
        self.memo = {}
        self.pname = {}
        keys = {}
        for u, d in I.phi.items():
            keys[u] = None
        # structural signature with two refinement rounds
        sig = {u: 'φ' for u in I.phi}
        for _ in range(2):
            ns = {}
            for u, d in I.phi.items():
                def sub(t):
                    if isinstance(t, tuple):
                        if len(t) == 2 and t[0] == 'phi':
                            return ('phi', '*' if t[1] == u else sig.get(t[1], '?'))
                        return tuple(sub(x) for x in t)
                    return t
                nx = d.get('next')
                ns[u] = (repr(strip_in(sub(d['init']))), tuple(sorted(repr(strip_in(sub(x))) for x in (nx or ()))))
            import hashlib
            sig = {u: hashlib.md5(repr(s).encode()).hexdigest()[:10] for u, s in ns.items()}
        self.sig = sig

    def __call__(self, t):
        if isinstance(t, frozenset):
            return frozenset(self(x) for x in t)
        if not isinstance(t, tuple):
            return t
        m = self.memo.get(t)
        if m is None:
            if len(t) == 2 and t[0] == 'phi':
                m = ('phi', self.sig.get(t[1], '?'))
            elif len(t) == 2 and t[0] == 'in':
                m = self(t[1])
            else:
                m = tuple(self(x) for x in t)
            self.memo[t] = m
        return m


def hexlit(n):
    return ('%x' % n).encode()


def tok(kind, args):
    """reply token; constants are turned into the literal bytes they print as"""
    if kind == 'str':
        v = args[0]
        if v[0] == 'b':
            return ('lit', v[1])
        return ('str', v)
    if kind == 'byte' and args[0][0] == 'i':
        return ('lit', bytes([args[0][1]]))
    if kind == 'hex' and args[0][0] == 'i':
        return ('lit', b'%02x' % args[0][1])
    if kind == 'num' and args[0][0] == 'i' and args[0][1] >= 0:
        h = '%x' % args[0][1]
        return ('lit', ('0' * (len(h) % 2) + h).encode())
    if kind == 'dec' and args[0][0] == 'i' and args[0][1] >= 0:
        return ('lit', b'%d' % args[0][1])
    if kind == 'hexbuf' and args[0][0] == 'b':
        return ('lit', args[0][1].hex().encode())
    if kind == 'hexbuf' and args[0][0] == 'arr':
        return tuple(['seq'] + [tok('hex', (x,)) for x in args[0][1]])
    if kind == 'binary' and args[0][0] == 'b' and not any(x in b'#$}*' for x in args[0][1]):
        return ('lit', args[0][1])
    if kind == 'flush':
        return ('flush',)
    return (kind,) + tuple(args)


def push(o, t):
    if t[0] == 'seq':
        for x in t[1:]:
            o = push(o, x)
        return o
    if t[0] == 'lit':
        if not t[1]:
            return o
        if o and o[-1][0] == 'lit':
            return o[:-1] + (('lit', o[-1][1] + t[1]),)
    return o + (t,)


def norm_obs(o):
    out = ()
    for t in o:
        out = push(out, t)
    return out


def loop_body(paths):
    """bodies with no observable part are irrelevant; grouped like summaries"""
    beh = group([(p, norm_obs(p.o)) for p in paths])
    return beh


def group(items):
    """items: (Path, key) -> frozenset of (key, frozenset of cubes)"""
    g = {}
    for p, k in items:
        g.setdefault(k, []).append(p)
    return frozenset((k, frozenset((frozenset(p.c.items()), frozenset(frozenset(frozenset(x.items()) for x in d) for d in p.d)) for p in ps)) for k, ps in g.items())


class Summary:
    """behaviours: list of (key=(obs, out, upd), [Path])"""

    def __init__(self):
        self.beh = {}
        self.phis = {}

    def add(self, key, p):
        self.beh.setdefault(key, []).append(p)


def items_fn(keep_ack=False, nest=False):
    def on_item(it):
        k = it[0]
        if k in ('e', 'e!'):
            if not keep_ack and it[1] == 'conn.write' and it[2] == (('i', 43),):
                return None
            return ((k, it[1], it[2], it[3]),)
        if k in ('t', 't!'):
            t = tok(it[1], it[2])
            return (t,) if k == 't' else (('t!', t),)
        if k == 'loop':
            ps = []
            for b in it[1]:
                ps += flatten(b, on_item, nest)
            beh = loop_body(ps)
            if all(not any(o[0] != 'cbret' or o[1][0] == 'yield' for o in k2) for k2, _ in beh):
                return None
            return (('loop', beh),)
        if k == 'cbret':
            return (('cbret', it[1]),)
        if k == 'next':
            return None
        if k == 'panic':
            return (('panic',),)
        return (it,)
    return on_item


def root_syms(t):
    """the inputs a term mentions; loop variables stand for memory of the packet unless they mention something else"""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ('sym', 'arg', 'res', 'cb'):
                out.add(x[:2])
            else:
                stack.extend(y for y in x if isinstance(y, tuple))
    return out


def state_updates(I, st, canon, roles):
    out = []
    for cell, v in st.store.items():
        if cell[0] != 'H':
            continue
        base = canon(cell[1])
        val = canon(I.canon(st, v))
        if base == ('arg', 'self') and val[0] == 'adt':
            # per-field
            names = roles.get('fields') or []
            for nm, role, f in zip(names, roles.get('roles', names), val[3]):
                old = ('fld', base, nm)
                if f != old:
                    out.append((role, f))
        elif base == ('arg', 'self') and val == base:
            continue
        elif root_syms(base) <= {('sym', 'pkt'), ('sym', 'end')} and roles:
            continue            # scratch space of the packet buffer: only what reaches the target or the wire matters
        else:
            out.append((base, val))
    return tuple(sorted(out, key=repr))


ROLE_BY_TYPE = [('NonZero', 'mem_tid'), ('SpecificIdKind', 'resume_tid'), ('ProtocolFeatures', 'features'), ('PhantomData', None)]


def self_roles(I):
    """fields of the stub's state by type: name -> role"""
    for r in I.T:
        if r and r['k'] == 'adt' and r['path'].endswith('core_impl::GdbStubImpl'):
            fs = r['variants'][0]['fields']
            names = [f[0] for f in fs]
            roles = []
            for f in fs:
                s = I.ty(f[1])['s']
                role = f[0]
                for pat, rl in ROLE_BY_TYPE:
                    if pat in s:
                        role = rl or f[0]
                        break
                roles.append(role)
            return {'fields': names, 'roles': roles}
    return {}


def rename_self(t, mp, memo):
    if isinstance(t, frozenset):
        return frozenset(rename_self(x, mp, memo) for x in t)
    if not isinstance(t, tuple):
        return t
    m = memo.get(t)
    if m is None:
        if len(t) == 3 and t[0] == 'fld' and t[1] == ('arg', 'self') and t[2] in mp:
            m = ('fld', t[1], mp[t[2]])
        else:
            m = tuple(rename_self(x, mp, memo) for x in t)
        memo[t] = m
    return m


def is_ack_cond(t):
    return t[0] == 'op' and t[1] == 'BitAnd' and t[3] == ('i', 1) and 'features' in repr(t[2])


def build(I, paths, keep_ack=False, nest=False, only=None):
    roles = self_roles(I)
    mp = dict(zip(roles.get('fields', []), roles.get('roles', [])))
    cn = Canon(I)
    memo = {}
    canon = lambda t: rename_self(cn(t), mp, memo)
    S = Summary()
    allv = {}
    for t, v in I.allv.items():
        allv[canon(t)] = v
    from absint import EMPTY

    def dom(t, k):
        if k == 'v':
            return allv.get(t)
        return I.range_of(EMPTY, t)
    tmemo = {}

    def is_taut(d):
        k = frozenset(frozenset(x.items()) for x in d)
        if k not in tmemo:
            tmemo[k] = taut([x for x in d], dom)
        return tmemo[k]
    on = items_fn(keep_ack, nest)
    for kind, st, v in paths:
        out = (kind,) if v is None else (kind, canon(I.canon(st, v)))
        upd = state_updates(I, st, cn, roles)
        upd = tuple((a, rename_self(b, mp, memo)) for a, b in upd)
        tr = canon(st.trace)
        if only is not None:
            tr = prune(tr, only, is_taut)
        for p in flatten(tr, on, nest):
            r = reduce_dnfs(p.c, p.d)
            if r is None:
                continue
            c, d = r
            d = [x for x in d if not is_taut(x)]
            if poly.divides(c) and poly.infeasible(c):
                continue
            if not keep_ack:
                c = {k: x for k, x in c.items() if not is_ack_cond(k)}
            S.add((norm_obs(p.o), out, upd), Path(c, d, ()))
    for k in S.beh:
        S.beh[k] = dedup(S.beh[k])
    used = set()
    phis_in((tuple(S.beh), [[(tuple(p.c), p.d) for p in ps] for ps in S.beh.values()]), used)
    allp = {}
    for u, d in I.phi.items():
        if d.get('next') is not None:
            k = cn.sig[u]
            m = phi_map(d, canon)
            if k in allp and not (m and allp[k][2]):
                m = frozenset()         # one of several loops with such a variable is not comparable
            allp[k] = (canon(d['init']), frozenset(canon(x) for x in d['next']), m | (allp[k][2] if k in allp and m else frozenset()))
    work = list(used)
    while work:
        u = work.pop()
        if u in S.phis or u not in allp:
            continue
        S.phis[u] = allp[u]
        more = set()
        phis_in(allp[u], more)
        work += list(more)
    return S


def phi_map(d, canon):
    """how a loop variable advances: frozenset of (conditions of one pass through the body, next value)"""
    out = set()
    m = d.get('map') or ()
    if len(m) > 64:
        return frozenset()
    for tr, v in m:
        try:
            ps = flatten(canon(tr), lambda it: None)
        except TooBig:
            return frozenset()
        for p in ps:
            r = reduce_dnfs(p.c, p.d)
            if r is None:
                continue
            cubes = [r[0]]
            for dd in r[1]:        # spelled out: an entry has to carry the exact condition of its value
                cubes = [y for y in (merge_c(x, z) for x in cubes for z in dd) if y is not None]
                if len(cubes) > 64:
                    return frozenset()
            for x in cubes:
                out.add((frozenset((k, y) for k, y in x.items() if not is_ack_cond(k)), canon(v)))
            if len(out) > 64:
                return frozenset()
    return frozenset(out)


def value_under(t, c):
    """constant value of t when the conditions c hold (t itself when not determined)"""
    if t in c:
        v = c[t]
        if isinstance(v, bool):
            return ('i', int(v))
        if isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1]:
            return ('i', v[0][0])
        if isinstance(v, frozenset) and len(v) == 1:
            return ('variant', next(iter(v)))
    if t[0] == 'not':
        x = value_under(t[1], c)
        if x[0] == 'i' and x[1] in (0, 1):
            return ('i', 1 - x[1])
    return t


def has_choice(t, memo={}):
    """does the term contain min/max?"""
    if not isinstance(t, (tuple, frozenset)):
        return False
    r = memo.get(t)
    if r is None:
        r = (isinstance(t, tuple) and len(t) == 3 and t[0] in ('min', 'max')) or any(has_choice(x) for x in t)
        if len(memo) > 300000:
            memo.clear()
        memo[t] = r
    return r


def settle(t, w):
    """t with every min/max replaced by the side that the conditions w select"""
    if not isinstance(t, tuple) or not has_choice(t):
        return t
    if t[0] == 'lin' and len(t) == 3:
        r = ('i', t[2])
        for a, k in t[1]:
            r = absint.add(r, absint.scale(settle(a, w), k))
        return r
    n = tuple(settle(x, w) for x in t)
    if len(n) == 3 and n[0] in ('min', 'max'):
        d = absint.lin(absint.sub(n[2], n[1]))
        lo = d[1] if not d[0] else None
        if lo is not None and lo >= 0 or lo is None and poly.implies(w, absint.sub(n[2], n[1])):
            return n[1] if n[0] == 'min' else n[2]
        if lo is not None and lo < 0 or lo is None and poly.implies(w, absint.sub(n[1], n[2])):
            return n[2] if n[0] == 'min' else n[1]
    return n


def equal_under(x, y, w):
    """the same value once the conditions w have settled every min/max"""
    if w is None:
        return False
    if (has_choice(x) or has_choice(y)) and settle(x, w) == settle(y, w):
        return True
    ps = pins(w)
    return bool(ps) and pin(noderef(settle(x, w)), ps, {}) == pin(noderef(settle(y, w)), ps, {})


def pins(w):
    """terms that the conditions w leave a single value"""
    out = {}
    for t, v in w.items():
        if isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1] and t[0] != 'lin':
            out[noderef(t)] = ('i', v[0][0])
    return out


def noderef(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == 'deref':
        return noderef(t[1])
    return tuple(noderef(x) for x in t)


def pin(t, ps, memo):
    if not isinstance(t, tuple):
        return t
    r = memo.get(t)
    if r is None:
        if t in ps:
            r = ps[t]
        elif t and t[0] == 'lin' and len(t) == 3:
            r = ('i', t[2])
            for a, k in t[1]:
                r = absint.add(r, absint.scale(pin(a, ps, memo), k))
        else:
            r = tuple(pin(x, ps, memo) for x in t)
        memo[t] = r
    return r


def distinct(a, b):
    """provably different values"""
    if a[0] == b[0] == 'i':
        return a[1] != b[1]
    if a[0] == b[0] == 'b':
        return a[1] != b[1]
    va, vb = ctor(a), ctor(b)
    if va is not None and vb is not None:
        if va != vb:
            return True
        if a[0] == b[0] == 'adt' and len(a[3]) == len(b[3]):
            return any(distinct(x, y) for x, y in zip(a[3], b[3]))
    return False


def ctor(a):
    if a[0] == 'adt' and len(a) == 4:
        return a[2]
    if a[0] == 'variant':
        return a[1]
    return None


def phis_in(t, out):
    if isinstance(t, dict):
        for k, v in t.items():
            phis_in(k, out)
            phis_in(v, out)
    elif isinstance(t, (tuple, list, frozenset)):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'phi':
            out.add(t[1])
            return
        for x in t:
            if isinstance(x, (tuple, list, frozenset, dict)):
                phis_in(x, out)


def prune(tr, keep, taut=None):
    """keep only tokens/effects selected by keep(item), and the conditions of the path"""
    out = ()
    for it in tr:
        if it[0] == 'c':
            out += (it,)
        elif it[0] == 'alt':
            if pure((it,)):
                out += (it,)
            else:
                bs = frozenset(prune(b, keep, taut) for b in it[1])
                if all(pure(b) for b in bs) and taut is not None and taut(dnf((('alt', bs),))):
                    continue
                out += (('alt', bs),)
        elif it[0] == 'loop':
            bs = tuple(prune(b, keep, taut) for b in it[1])
            if not all(pure(b) for b in bs):
                out += (('loop', bs) + it[2:],)
        elif keep(it):
            out += (it,)
    return out


def dedup(ps):
    seen = {}
    for p in ps:
        k = (frozenset(p.c.items()), frozenset(frozenset(frozenset(x.items()) for x in d) for d in p.d))
        seen.setdefault(k, p)
    return list(seen.values())


# ---------------------------------------------------------------------------------- comparison

WIDTHS = ('u8', 'u16', 'u32', 'u64')


def imp(c):
    out = {}
    for t in c:
        implied(t, out)
    for src in (c, dict(out)):
        for t, v in src.items():
            # a hex number that fits a narrow integer fits a wider one
            if t[:2] == ('app', 'decode_hex') and len(t[2]) == 2 and t[2][1][1] in WIDTHS and v in (frozenset(['Ok']), frozenset(['Err'])):
                i = WIDTHS.index(t[2][1][1])
                for w in WIDTHS[i + 1:] if 'Ok' in v else WIDTHS[:i]:
                    out.setdefault(('app', 'decode_hex', (t[2][0], ('ty', w))), v)
            if v is True and t[:2] == ('app', 'starts_with'):
                for b, a in prefix_bytes(t):
                    out.setdefault(a, ((b, b),))
    return out


def prefix_bytes(t):
    """(byte, element) for every byte of the literal a text is asked to start with"""
    if len(t[2]) != 2 or t[2][1][0] != 'b':
        return []
    x, k = t[2][0], 0
    if x[0] == 'slice' and x[2][0] == 'i':
        x, k = x[1], x[2][1]
    if x[0] == 'sym':
        x = ('deref', x)
    return [(b, ('at', x, ('i', k + i))) for i, b in enumerate(t[2][1][1])]


def contradicts_prefix(c):
    """a text said not to start with a literal although all of the literal's bytes are there (those of the packet's name by itself)"""
    for t, v in c.items():
        if v is False and t[:2] == ('app', 'starts_with'):
            bs = prefix_bytes(t)
            tail = list(bs)
            while tail and tail[0][1] not in c:
                tail = tail[1:]
            if tail and all(c.get(a) == ((b, b),) for b, a in tail) and (len(tail) == len(bs) or tail[0][1][1] == ('deref', ('sym', 'pkt'))):
                return True
    return False


def anywidth(t, memo=None):
    """t with hex numbers read at any width"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[:2] == ('app', 'decode_hex') and len(t) > 2 and len(t[2]) == 2:
        return ('app', 'decode_hex', (anywidth(t[2][0]),))
    return tuple(anywidth(x) for x in t)


def compat(p, q, budget=2000):
    """a common assignment of the conditions of p and q, or None"""
    c = merge_c(p.c, q.c)
    if c is None:
        return None
    c = merge_c(c, imp(p.c))
    if c is None:
        return None
    c = merge_c(c, imp(q.c))
    if c is None:
        return None
    ds = sorted(p.d + q.d, key=len)
    n = [0]

    def go(c, i):
        n[0] += 1
        if n[0] > budget:
            raise OutOfBudget
        if i == len(ds):
            return None if poly.divides(c) and poly.infeasible(c) or contradicts_prefix(c) or bytes_conflict(c) else c
        for x in ds[i]:
            m = merge_c(c, x)
            for y, v in x.items():
                if m is not None and v is True and y[:2] == ('app', 'starts_with'):
                    m = merge_c(m, {e: ((b, b),) for b, e in prefix_bytes(y)})
            if m is not None:
                r = go(m, i + 1)
                if r is not None:
                    return r
        return None
    try:
        return go(c, 0)
    except OutOfBudget:
        return propagate(c, ds)


def byte_eval(t, leaf, b):
    """the value of a term whose only unknown is the byte `leaf`, or None"""
    if t == leaf:
        return b
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'lin':
        r = t[2]
        for x, n in t[1]:
            v = byte_eval(x, leaf, b)
            if v is None:
                return None
            r += n * v
        return r
    if k == 'op' and len(t) == 4 and t[1] in ARITH:
        x, y = byte_eval(t[2], leaf, b), byte_eval(t[3], leaf, b)
        return None if x is None or y is None or x < 0 or y < 0 else ARITH[t[1]](x, y)
    if k == 'b2i' or k == 'not':
        v = byte_eval(t[1], leaf, b)
        return None if v is None else int(v) if k == 'b2i' else int(not v)
    if k == 'cmp' and len(t) == 4:
        v = byte_eval(t[1], leaf, b)
        return None if v is None else int(any(lo <= v <= hi for lo, hi in t[2]))
    return None


def byte_leaves(t, out):
    if isinstance(t, tuple) and t:
        if t[0] == 'at':
            out.add(t)
        elif t[0] in ('lin', 'op', 'b2i', 'not', 'cmp'):
            for x in ([y for y, _ in t[1]] if t[0] == 'lin' else t[1:]):
                byte_leaves(x, out)


def bytes_conflict(c):
    """conditions on computations with one byte that no value of the byte satisfies"""
    todo = {}
    for t in c:
        if t[0] in ('op', 'lin', 'cmp', 'not'):
            ls = set()
            byte_leaves(t, ls)
            if len(ls) == 1:
                todo.setdefault(ls.pop(), []).append(t)
    for leaf, ts in todo.items():
        if not any(t[0] == 'op' or t[0] == 'lin' and any(x[0] in ('op', 'b2i') for x, _ in t[1]) for t in ts):
            continue
        ts = ts + [leaf] if leaf in c else ts
        for b in range(256):
            for t in ts:
                v, want = byte_eval(t, leaf, b), c[t]
                if v is not None and (isinstance(want, bool) and bool(v) != want or isinstance(want, tuple) and not any(lo <= v <= hi for lo, hi in want)):
                    break
            else:
                break
        else:
            return True
    return False


class OutOfBudget(Exception):
    pass


def propagate(c, ds, budget=300):
    """as compat's search, but always continuing with the disjunction that leaves the fewest choices"""
    n = [0]

    def with_(c, x):
        m = merge_c(c, x)
        for y, v in x.items():
            if m is not None and v is True and y[:2] == ('app', 'starts_with'):
                m = merge_c(m, {e: ((b, b),) for b, e in prefix_bytes(y)})
        return m

    def go(c, ds):
        n[0] += 1
        if n[0] > budget:
            raise OutOfBudget
        best = None
        rest = []
        for d in ds:
            ms = [m for m in (with_(c, x) for x in d) if m is not None]
            if not ms:
                return None
            if any(m == c for m in ms):
                continue            # already decided
            rest.append(d)
            if best is None or len(ms) < len(best[0]):
                best = (ms, d)
        if best is None:
            return None if poly.divides(c) and poly.infeasible(c) or contradicts_prefix(c) else c
        rest = [d for d in rest if d is not best[1]]
        for m in best[0]:
            r = go(m, rest)
            if r is not None:
                return r
        return None
    try:
        return go(c, ds)
    except OutOfBudget:
        return c


def terms_of(S):
    out = set()
    for k, ps in S.beh.items():
        for p in ps:
            out.update(p.c)
            for d in p.d:
                for x in d:
                    out.update(x)
        loop_terms(k[0], out)
    return out


def loop_terms(obs, out):
    for o in obs:
        if o[0] in ('loop', 'alt'):
            for k, ps in o[1]:
                loop_terms(k, out)
                for c, ds in ps:
                    out.update(t for t, _ in c)
                    for d in ds:
                        for x in d:
                            out.update(t for t, _ in x)


STRUCT = {'phi', 'mut', 'upd', 'upds', 'lam', 'lamr', 'clo', 'it'}


def vocab(t, out=None):
    """function names and structure-dependent subterms of a term"""
    if out is None:
        out = set()
    stack = [t]
    seen = set()
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        if isinstance(t, frozenset):
            stack.extend(t)
        elif isinstance(t, tuple) and t:
            seen.add(id(t))
            if t[0] == 'app' and len(t) > 2:
                out.add(('app', t[1]))
                stack.extend(t[2:])
                continue
            if t[0] == 'op' and len(t) > 2:
                out.add(('op', t[1]))
            if t[0] == 'fld' and len(t) == 3:
                out.add(('fld', t[2]))
            if t[0] == 'phi':
                out.add(t)
                continue
            if t[0] == 'sym' and len(t) == 2:
                out.add(t)
                continue
            if isinstance(t[0], str) and t[0] in STRUCT:
                out.add((t[0],))
            stack.extend(x for x in t if isinstance(x, (tuple, frozenset)))
    return out


def summary_vocab(S):
    out = set()
    for k, ps in S.beh.items():
        vocab(k, out)
        for p in ps:
            vocab(tuple(p.c), out)
            for d in p.d:
                for x in d:
                    vocab(tuple(x), out)
    return out


class Diff:
    def __init__(self, kind, what, a=None, b=None):
        self.kind, self.what, self.a, self.b = kind, what, a, b


def name_of(o):
    if o is None:
        return 'nothing'
    if o[0] in ('e', 'e!'):
        return 'call %s(%s)' % (o[1], ', '.join(show.P(x) for x in o[2]))
    if o[0] == 'lit':
        return 'reply text %r' % (o[1],)
    if o[0] == 'flush':
        return 'end of packet'
    if o[0] in ('loop', 'alt'):
        return ('repeated' if o[0] == 'loop' else 'one of') + ': {' + '; '.join(sorted(' '.join(name_of(x) for x in k) for k, _ in o[1]))[:300] + '}'
    if o[0] == 't!':
        return 'failing write of ' + name_of(o[1])
    return 'reply %s(%s)' % (o[0], ', '.join(show.P(x) for x in o[1:]))


def obs_diff(a, b, outer=None):
    """first difference between two observable sequences (None if equal)"""
    i = j = 0
    ra, rb = b'', b''
    a, b = list(a), list(b)
    while True:
        # literal bytes are compared bytewise
        x = a[0] if a else None
        y = b[0] if b else None
        if x is None and y is None:
            return None
        if x is not None and y is not None and x[0] == 'lit' and y[0] == 'lit':
            u, v = x[1], y[1]
            n = 0
            while n < len(u) and n < len(v) and u[n] == v[n]:
                n += 1
            if n < len(u) and n < len(v) or n == 0:
                return Diff('reply', '%s instead of %s' % (name_of(x), name_of(y)), x, y)
            a = ([('lit', u[n:])] if n < len(u) else []) + a[1:]
            b = ([('lit', v[n:])] if n < len(v) else []) + b[1:]
            continue
        if x == y or x is not None and y is not None and x[0] == y[0] and x[0] not in ('loop', 'alt') and equal_under(x, y, outer):
            a, b = a[1:], b[1:]
            continue
        if x is not None and y is not None and x[0] == y[0] and x[0] in ('loop', 'alt'):
            d = loop_diff(x[1], y[1], outer)
            if d is None:
                a, b = a[1:], b[1:]
                continue
            return d
        if (x and x[0] in ('loop', 'alt')) or (y and y[0] in ('loop', 'alt')):
            return Diff('structure', '%s instead of %s' % (name_of(x), name_of(y)), x, y)
        if x and y and x[0] == y[0] == 'e' and x[1] == y[1]:
            return Diff('args', '%s instead of %s' % (name_of(x), name_of(y)), x, y)
        if x and x[0] == 'e' or y and y[0] == 'e':
            return Diff('event', '%s instead of %s' % (name_of(x), name_of(y)), x, y)
        return Diff('reply', '%s instead of %s' % (name_of(x), name_of(y)), x, y)


def thaw_path(t):
    c, ds = t
    return Path(dict(c), [tuple(dict(x) for x in d) for d in ds], ())


def loop_diff(x, y, outer=None):
    if x == y:
        return None
    if outer is not None:
        # what holds of a loop variable where the path ends does not hold during the loop
        own = set()
        phis_in((x, y), own)
        outer = {t: v for t, v in outer.items() if not phi_names(t) & own}
    for k1, p1 in x:
        for k2, p2 in y:
            if k1 == k2:
                continue
            d = d0 = obs_diff(k1, k2, outer)
            if d is None:
                continue
            for p in p1:
                for q in p2:
                    w = compat(thaw_path(p), thaw_path(q))
                    if w is not None and outer is not None:
                        w = merge_c(outer, w)
                    if w is not None and (has_choice(k1) or has_choice(k2)):
                        d = obs_diff(k1, k2, w)
                        if d is None:
                            d = d0
                            continue
                    if w is not None:
                        d.witness = w
                        d.loopp, d.loopq = thaw_path(p), thaw_path(q)
                        return d
    return None


def key_diff(k1, k2, outer=None):
    d = obs_diff(k1[0], k2[0], outer)
    if d is not None:
        return d
    if k1[1] != k2[1] and not equal_under(k1[1], k2[1], outer):
        return Diff('outcome', 'outcome %s instead of %s' % (outs(k1[1]), outs(k2[1])), k1[1], k2[1])
    if k1[2] != k2[2] and not equal_under(k1[2], k2[2], outer):
        return Diff('state', 'session state becomes {%s} instead of {%s}' % (upds(k1[2]), upds(k2[2])), k1[2], k2[2])
    return None


def outs(o):
    return o[0] + (' ' + show.P(o[1]) if len(o) > 1 else '')


def upds(u):
    return ', '.join('%s := %s' % (a if isinstance(a, str) else show.P(a), show.P(v)) for a, v in u)


def same(x, y):
    f = lambda l: frozenset((frozenset(p.c.items()), frozenset(frozenset(frozenset(z.items()) for z in d) for d in p.d)) for _, p in l)
    return f(x) == f(y)


class Finding:
    def __init__(self, diff, k1, p, k2, q, w, certain, why):
        self.diff, self.k1, self.p, self.k2, self.q, self.w, self.certain, self.why = diff, k1, p, k2, q, w, certain, why

    def text(self):
        cs = sorted(show.C(('c', t, v)) for t, v in self.w.items())
        return '%s [when %s]' % (self.diff.what, ' & '.join(cs)[:1500])


def project(S, proj):
    out = {}
    for k, ps in S.beh.items():
        pk = proj(k)
        if pk is not None:
            out.setdefault(pk, []).extend(ps)
    return out


def compare(cur, gold, proj=lambda k: k, limit=40, base_vocab=frozenset()):
    """findings: pairs of jointly possible paths of `cur` and `gold` with different (projected) behaviour"""
    out = compare_paths(cur, gold, proj, limit, base_vocab)
    if out and not any(f.certain for f in out):
        for what, f in replacements(cur, gold, out):
            s = rewrite(cur, f)
            if s is not None and not compare_paths(s, gold, proj, 1, base_vocab):
                out[0].certain, out[0].diff.what = True, out[0].diff.what + ' -- the behaviour is the reviewed one with ' + what
                break
    return out


def term_map(f):
    """apply f to every subterm (bottom up, sums kept in normal form)"""
    memo = {}

    def go(t):
        if isinstance(t, frozenset):
            return frozenset(go(x) for x in t)
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(t)
        if r is None:
            if t[0] == 'lin' and len(t) == 3:
                r = ('i', t[2])
                for a, k in t[1]:
                    r = absint.add(r, absint.scale(go(a), k))
            else:
                r = tuple(go(x) for x in t)
                if t[0] in ('min', 'max') and len(t) == 3:
                    r = r[:1] + tuple(sorted(r[1:], key=repr))
            r = f(r)
            memo[t] = r
        return r
    return go


def rewrite(S, f):
    g = term_map(f)

    def cube(c):
        out = {}
        for t, v in c.items():
            t2 = g(t)
            if t2 in out:
                v = c_and(out[t2], v)
                if v is None:
                    return None
            out[t2] = v
        return out
    R = Summary()
    for k, ps in S.beh.items():
        for p in ps:
            c = cube(p.c)
            ds = [tuple(y for y in map(cube, d) if y is not None) for d in p.d]
            if c is not None and all(ds) and possible(c):
                R.add(g(k), Path(c, ds, ()))
    R.phis = {u: (g(i), g(n), g(m)) for u, (i, n, m) in S.phis.items()}
    return R


def possible(c):
    """no sum that subtracts a minimum is below what it is with either side of the minimum"""
    more = dict(c)
    for t, v in c.items():
        if t[0] != 'lin' or not isinstance(v, tuple) or v[-1][1] == INF:
            continue
        for m, k in t[1]:
            if k < 0 and m[0] == 'min' and len(m) == 3:
                for x in m[1:]:
                    alt = absint.add(t, absint.add(absint.scale(m, -k), absint.scale(x, k)))
                    if alt[0] == 'i':
                        if alt[1] > v[-1][1]:
                            return False
                    else:
                        more = addc(more, alt, ((-INF, v[-1][1]),))
                        if more is None:
                            return False
    return more == c or not poly.infeasible(more)


def all_terms(S):
    out = set()
    for k, ps in S.beh.items():
        subterms(k, out)
        for p in ps:
            for t in p.c:
                subterms(t, out)
            for d in p.d:
                for x in d:
                    for t in x:
                        subterms(t, out)
    for d in S.phis.values():
        subterms(d, out)
    return out


def byte_set(t):
    """the bytes that a predicate accepts"""
    if t[:1] == ('lamr',) and len(t) == 2 and t[1][:1] == ('cmp',) and t[1][1] == ('lam', 0) and t[1][3] is True:
        return {b for lo, hi in t[1][2] for b in range(int(max(lo, 0)), int(min(hi, 255)) + 1)}
    if t in (('lamr', ('i', 0)), ('lamr', ('i', 1))):
        return set(range(256)) if t[1][1] else set()
    return None


def pieces(S):
    """(limit, index) of the pieces of split / splitn whose contents matter"""
    out, seen = set(), set()
    stack = [S.phis] + [(k, [(p.c, p.d) for p in ps]) for k, ps in S.beh.items()]
    while stack:
        t = stack.pop()
        if isinstance(t, dict):
            stack += list(t) + [x for x in t.values() if isinstance(x, (tuple, list, dict, frozenset))]
        elif isinstance(t, (list, frozenset)):
            stack += list(t)
        elif isinstance(t, tuple) and t and not (hashable(t) and t in seen):
            if hashable(t):
                seen.add(t)
            if t[:1] == ('more',) and t[1][:1] == ('item',):
                t = t[1][1]
            elif t[:1] == ('item',) and len(t) == 3 and t[1][:1] == ('split',) and len(t[1]) == 4:
                out.add((t[1][3], t[2]))
            stack += list(t)
    return out


def hashable(t):
    try:
        hash(t)
        return True
    except TypeError:
        return False


def replacements(cur, gold, findings):
    """(description, rewriting) pairs that replace one value by a provably different one"""
    ct, gt = all_terms(cur), all_terms(gold)
    one = lambda x, y: lambda t: y if t == x else t
    # predicates over bytes
    lc, lg = [{t for t in ts if byte_set(t) is not None} for ts in (ct, gt)]
    for x in sorted(lc - lg, key=repr):
        for y in sorted(lg, key=lambda y: (y in lc, repr(y))):
            if byte_set(x) != byte_set(y):
                yield 'bytes selected by %s instead of %s' % (show.P(x), show.P(y)), one(x, y)
    # pieces of split / splitn
    pc, pg = [pieces(S) for S in (cur, gold)]
    more = {('more', t[1][2][1]) for t in ct | gt if t[:1] == ('more',) and t[1][:1] == ('item',) and t[1][1][:1] == ('split',) and t[1][2][:1] == ('i',)}
    for (n, k) in sorted(pc - pg, key=repr):
        for (m, j) in sorted(pg - pc, key=repr):
            if k != j or k[0] != 'i' or ('more', k[1] + 1) in more:
                continue
            yield 'piece %s up to the %s' % (show.P(k), 'next separator' if n == ('i', 0) else 'end'), lambda t: \
                ('item', t[1][:3] + (m,), t[2]) if t[:1] == ('item',) and t[2] == k and t[1][:1] == ('split',) and t[1][3] == n else \
                ('more', ('item', t[1][1][:3] + (n,), k)) if t[:1] == ('more',) and t[1][:1] == ('item',) and t[1][2] == k and t[1][1][:1] == ('split',) and \
                t[1][1][3] == m and t not in gt else t
    # one split of one text, one piece of it
    sc, sg = [{t for t in ts if t[:1] == ('split',) and len(t) == 4} for ts in (ct - gt, gt - ct)]
    for x in sorted(sc, key=repr):
        for y in sorted(sg, key=repr):
            if x[1] == y[1] and x[3] == y[3] and byte_set(x[2]) is not None and byte_set(y[2]) is not None and byte_set(x[2]) != byte_set(y[2]):
                yield 'split at %s instead of %s' % (show.P(x[2]), show.P(y[2])), one(x, y)
    ic, ig = [{t for t in ts if t[:1] == ('item',) and len(t) == 3 and t[1][:1] == ('split',) and t[2][:1] == ('i',)} for ts in (ct - gt, gt - ct)]
    for x in sorted(ic, key=repr):
        for y in sorted(ig, key=repr):
            if x[1][1:3] == y[1][1:3]:
                yield 'piece %s instead of %s' % (show.P(x), show.P(y)), lambda t: y if t == x else \
                    ('more', y) if t[:1] == ('more',) and t[1][:1] == ('item',) and t[1][1][1:3] == x[1][1:3] and t[1][2] == x[2] else t
    # arithmetic
    seen = set()
    for f in findings:
        mm = []
        if f.diff.a is not None and f.diff.b is not None:
            mm.append((f.diff.a, f.diff.b))
        if f.p is not None:
            mm += [(t, u) for t in path_terms(f.p, f.w) if t not in gt for u in path_terms(f.q, f.w) if u not in ct]
        for x, y in mm:
            for x, y in leaves(x, y):
                if (x, y) in seen or len(seen) > 60:
                    continue
                seen.add((x, y))
                if arith_compare(x, y, {}) == 'differ' or shorter(x, y):
                    yield '%s instead of %s' % (show.P(x)[:150], show.P(y)[:150]), one(x, y)


def shorter(x, y):
    """one is the minimum of the other, a number that is free (decoded from the packet), and something else"""
    for a, b in ((x, y), (y, x)):
        if a[0] == 'min' and b in a[1:] and b[:1] == ('vf',) and b[1][:2] == ('app', 'decode_hex') and b[3:] == ('0',):
            o = a[1] if a[2] == b else a[2]
            if b not in parts_of(o):
                return True
    return False


def leaves(x, y):
    """the smallest pairs of different subterms of two terms, sums and minima compared without regard to order"""
    if x == y or not (isinstance(x, tuple) and isinstance(y, tuple) and x and y):
        return
    if x[0] == y[0] == 'lin' and len(x) == len(y) == 3 and x[2] == y[2]:
        a, b = [t for t in x[1] if t not in y[1]], [t for t in y[1] if t not in x[1]]
        if len(a) == len(b) == 1 and a[0][1] == b[0][1]:
            yield from leaves(a[0][0], b[0][0])
    elif x[0] == y[0] and x[0] in ('min', 'max') and len(x) == len(y) == 3:
        a, b = [t for t in x[1:] if t not in y[1:]], [t for t in y[1:] if t not in x[1:]]
        if len(a) == len(b) == 1:
            yield from leaves(a[0], b[0])
        elif len(a) == len(b) == 2:
            for p in ((0, 1), (1, 0)):
                r = list(leaves(a[0], b[p[0]])) + list(leaves(a[1], b[p[1]]))
                yield from r
    elif len(x) == len(y) and x[0] == y[0] and x[0] not in ('phi', 'i', 'b'):
        for a, b in zip(x[1:], y[1:]):
            yield from leaves(a, b) if isinstance(a, tuple) and a and isinstance(a[0], str) else \
                (z for c, d in zip(a, b) for z in leaves(c, d)) if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) else ()
    if x[0] != y[0] or x[0] in ('op', 'min', 'max', 'lin', 'cast'):
        yield x, y


def compare_paths(cur, gold, proj=lambda k: k, limit=40, base_vocab=frozenset()):
    cur, out0 = align(cur, gold)
    a, b = project(cur, proj), project(gold, proj)
    if any(f.certain for f in out0):
        return out0
    if a.keys() == b.keys() and all(dset(a[k]) == dset(b[k]) for k in a):
        return out0
    gv, gt = summary_vocab(gold) | base_vocab, terms_of(gold)
    cv, ct = summary_vocab(cur), terms_of(cur)
    out = list(out0)
    npairs = 0
    for ka, pa in a.items():
        for kb, pb in b.items():
            if ka == kb:
                continue
            d = key_diff(ka, kb)
            if d is None:
                continue
            hit = False
            for p in pa:
                for q in pb:
                    npairs += 1
                    w = compat(p, q)
                    if w is None:
                        continue
                    dd = key_diff(ka, kb, w)
                    if dd is None:
                        continue
                    certain, why = judge(dd, p, q, w, gv, gt, cv, ct)
                    if not certain and dd.kind in ('args', 'reply') and phi_escapes(dd, p, cur, gold, gt):
                        certain = True
                    out.append(Finding(dd, ka, p, kb, q, w, certain, why))
                    hit = hit or certain
                    if hit:
                        break
                if hit:
                    break
            if len(out) > limit:
                return out
    return out


def rename_phi(t, mp, memo):
    if isinstance(t, frozenset):
        return frozenset(rename_phi(x, mp, memo) for x in t)
    if not isinstance(t, tuple):
        return t
    m = memo.get(t)
    if m is None:
        if len(t) == 2 and t[0] == 'phi':
            m = ('phi', mp.get(t[1], t[1]))
        else:
            m = tuple(rename_phi(x, mp, memo) for x in t)
        memo[t] = m
    return m


def subterms(t, out):
    stack = [t]
    while stack:
        t = stack.pop()
        if isinstance(t, frozenset):
            stack.extend(t)
        elif isinstance(t, tuple):
            if t in out:
                continue
            out.add(t)
            stack.extend(x for x in t if isinstance(x, (tuple, frozenset)))
    return out


def align(cur, gold):
    """rename loop variables of `cur` that correspond to loop variables of `gold`; report those which start with the
    same value but advance differently"""
    uc = {u: d for u, d in cur.phis.items() if u not in gold.phis}
    ug = {u: d for u, d in gold.phis.items() if u not in cur.phis}
    mp, findings = {}, []
    gsub = None
    changed = bool(uc and ug)
    while changed and uc:
        changed = False
        memo = {}
        for u, (ini, nx, mx) in list(uc.items()):
            for g, (gi, gn, gm) in list(ug.items()):
                m2 = dict(mp)
                m2[u] = g
                mm = {}
                if rename_phi(ini, m2, mm) == gi and frozenset(rename_phi(x, m2, mm) for x in nx) == gn:
                    mp[u] = g
                    del uc[u], ug[g]
                    changed = True
                    break
        if changed:
            continue
        # same start, unique partner: a differently advancing variable
        for u, (ini, nx, mx) in list(uc.items()):
            part = [g for g, (gi, gn, gm) in ug.items() if rename_phi(ini, mp, memo) == gi]
            rivals = [v for v, (i2, _, _) in uc.items() if rename_phi(i2, mp, memo) == rename_phi(ini, mp, memo)]
            if len(part) == 1 and len(rivals) == 1:
                g = part[0]
                m2 = dict(mp)
                m2[u] = g
                mm = {}
                n2 = frozenset(rename_phi(x, m2, mm) for x in nx)
                gn = ug[g][1]
                if any(v != u and v in uc for x in nx for v in phi_names(x)):
                    # mentions other unmatched variables: pair it, undecided unless those resolve
                    mp[u] = g
                    del uc[u], ug[g]
                    changed = True
                    break
                if gsub is None:
                    gsub = set()
                    for k, ps in gold.beh.items():
                        subterms(k, gsub)
                        for p in ps:
                            subterms(tuple(p.c), gsub)
                    for d in gold.phis.values():
                        subterms(d, gsub)
                if len(n2) == 1 and len(gn) == 1 and linear_known(next(iter(n2)), gsub):
                    d = Diff('loop', 'loop variable starting at %s advances to %s instead of %s' % (
                        show.P(ini), ' | '.join(show.P(x) for x in nx), ' | '.join(show.P(x) for x in gn)))
                    findings.append(Finding(d, None, None, None, None, {}, True, ''))
                else:
                    findings.append(map_diff(ini, rename_phi(mx, m2, mm), ug[g][2], gold, g))
                mp[u] = g
                del uc[u], ug[g]
                changed = True
                break
    if mp:
        memo = {}
        r = lambda t: rename_phi(t, mp, memo)
        S = Summary()
        for k, ps in cur.beh.items():
            for p in ps:
                S.add(r(k), Path({r(t): r(v) for t, v in p.c.items()}, [tuple({r(t): r(v) for t, v in x.items()} for x in d) for d in p.d], ()))
        S.phis = {mp.get(u, u): (r(i), r(n), r(m)) for u, (i, n, m) in cur.phis.items()}
        cur = S
    for u in cur.phis:
        if u in gold.phis and cur.phis[u][2] != gold.phis[u][2]:
            findings.append(map_diff(cur.phis[u][0], cur.phis[u][2], gold.phis[u][2], gold, u))
            findings.append(domain_diff(cur.phis[u], gold.phis[u], cur, gold))
    return cur, [f for f in findings if f is not None]


def cond_terms(S):
    out = terms_of(S)
    for i, n, m in S.phis.values():
        for c, v in m:
            out |= {t for t, _ in c}
    return out


def variants(S):
    out = {}

    def see(t, v):
        if isinstance(v, frozenset):
            out[t] = out.get(t, frozenset()) | v
    for ps in S.beh.values():
        for p in ps:
            for t, v in p.c.items():
                see(t, v)
            for d in p.d:
                for x in d:
                    for t, v in x.items():
                        see(t, v)
    for i, n, m in S.phis.values():
        for c, v in m:
            for t, x in c:
                see(t, x)
    return out


def uncovered(c, cubes, lim=600):
    """a point of the cube c that lies in none of the cubes, or None"""
    cubes = [x for x in cubes if merge_c(c, x) is not None]
    pts = [dict(c)]
    for x in cubes:
        nx = []
        for p in pts:
            if merge_c(p, x) is None:
                nx.append(p)
                continue
            # split p along the constraints of x; the part inside x is covered
            cur = p
            for t, v in x.items():
                if t not in cur:
                    cells = partition(t, [v], lambda t, k: FULL if k == 'r' else None)
                    if cells is None:
                        return None
                    rest = [y for y in cells if c_and(y, v) is None]
                elif isinstance(v, bool):
                    rest = []
                elif isinstance(v, frozenset):
                    rest = [cur[t] - v] if isinstance(cur[t], frozenset) and cur[t] - v else []
                else:
                    r = r_and(cur[t], absint.r_compl(v)) if isinstance(cur[t], tuple) else ()
                    rest = [r] if r else []
                for y in rest:
                    q = dict(cur)
                    q[t] = y
                    nx.append(q)
                cur = merge_c(cur, {t: v})
                if cur is None:
                    break
        pts = nx
        if len(pts) > lim:
            return None
        if not pts:
            return None
    return pts[0] if pts else None


def domain_diff(dc, dg, cur, gold):
    """does a loop go on in a situation in which the reviewed one does not, or the other way round?"""
    mc, mg = dc[2], dg[2]
    if not mc or not mg:
        return None
    for m1, m2, v1, v2, what, S1, S2 in ((mc, mg, dc, dg, 'goes on', cur, gold), (mg, mc, dg, dc, 'stops', gold, cur)):
        kt = cond_terms(S2)
        known = variants(S2)
        for c, v in sorted(m1, key=repr):
            if any(isinstance(x, frozenset) and t in known and not x & known[t] for t, x in c):
                continue            # a variant the other configuration does not have
            if any(t not in kt for t, _ in c):
                # conditions the other summary does not know: certain only when the known ones alone rule it out there
                w = {t: v for t, v in c if t in kt}
                if any(merge_c(w, dict(x)) is not None for x, _ in m2) or not any(compat(Path(w, [], ()), p) for ps in S2.beh.values() for p in ps):
                    continue
                d = Diff('loop', 'a loop (variable starting at %s) %s' % (show.P(dc[0])[:100], what))
                return Finding(d, None, None, None, None, w, True, '')
            w = uncovered(dict(c), [dict(x) for x, _ in m2])
            if w is None or any(t not in kt for t in w) or poly.divides(w) and poly.infeasible(w):
                continue
            if any(isinstance(x, frozenset) and t in known and not x & known[t] for t, x in w.items()):
                continue
            d = Diff('loop', 'a loop (variable starting at %s, advancing to %s) %s' % (show.P(dc[0])[:100], ' | '.join(sorted(show.P(x) for x in dc[1]))[:150], what))
            return Finding(d, None, None, None, None, w, True, '')
    return None


def map_diff(ini, mx, gm, gold, own):
    """two loop variables that start equal: do they ever advance to provably different values under the same conditions?"""
    gt = terms_of(gold)
    for c, v in gm:
        gt |= {t for t, _ in c}
    unc = None
    for c1, v1 in sorted(mx, key=repr):
        for c2, v2 in sorted(gm, key=repr):
            w = compat(Path(dict(c1), [], ()), Path(dict(c2), [], ()))
            if w is None:
                continue
            a, b = settle(value_under(v1, w), w), settle(value_under(v2, w), w)
            if a == b:
                continue
            d = Diff('loop', 'loop variable starting at %s advances to %s instead of %s' % (show.P(ini), show.P(a), show.P(b)))
            ea, eb = (a[3], b[3]) if a[0] == b[0] == 'upd' and len(a) == len(b) == 4 and a[1:3] == b[1:3] else (a, b)    # the same element of the same buffer
            ac = arith_compare(ea, eb, w)
            if ac == 'equal':
                continue
            if ac != 'differ' and 'adt' in (a[0], b[0]) and any(arith_compare(x, y, w) == 'differ' for x, y in field_pairs(a, b)):
                ac = 'differ'
            if ac != 'differ' and (stays(v1, v2, ini, own, w) or stays(v2, v1, ini, own, w)):
                ac = 'differ'
            if (distinct(ea, eb) or ac == 'differ') and all(t in gt for t, _ in c1):
                return Finding(d, None, None, None, None, w, True, '')
            unc = unc or Finding(d, None, None, None, None, w, False, 'loop variable advances differently')
    if unc is None and not (mx and gm):
        return Finding(Diff('loop', 'loop variable starting at %s advances differently' % show.P(ini)), None, None, None, None, {}, False, 'not comparable')
    return unc


def stays(old, new, ini, own, w):
    """old leaves the loop variable as it is, new gives it a value that it does not have: a constant other than its first one (in the first
    round), or what a callback was just given (which may be anything)"""
    if old != ('phi', own):
        return False
    if not any(own in phi_names(t) for t in w) and distinct(new, ini):
        return True
    fresh = [new] if new[0] == 'cb' else list(new[3]) if new[0] == 'adt' and len(new) == 4 else []
    if not fresh or any(x[0] != 'cb' for x in fresh):
        return False
    return all(isinstance(v, frozenset) or not any(x in parts_of(t) for x in fresh) for t, v in w.items())


def field_pairs(a, b):
    """the arithmetic parts in which a loop variable that stays as it is and one that gets new fields differ"""
    out = []
    if a[0] == b[0] == 'adt' and a[:3] == b[:3] and len(a[3]) == len(b[3]):
        for x, y in zip(a[3], b[3]):
            out += field_pairs(x, y)
        return out
    if a == b or (a[0] == 'adt') == (b[0] == 'adt'):
        return [] if a == b else [(a, b)]
    flip = a[0] == 'adt'
    base, new = (b, a) if flip else (a, b)

    def go(t, depth):
        if t[0] == 'adt':
            for x in t[3]:
                go(x, depth + 1)
            return
        at = set()
        if t[0] == 'fld' or not arith_atoms(t, at):
            return
        for x in at:
            r, n = x, 0
            while r[0] == 'fld' and r != base:
                r, n = r[1], n + 1
            if r == base and n == depth:
                out.append((t, x) if flip else (x, t))
    go(new, 0)
    return out


def phi_names(t):
    o = set()
    phis_in(t, o)
    return o


def linear_known(t, gsub):
    """a linear combination of terms that occur in the reviewed summary (so an inequality is a real one)"""
    if t[0] == 'lin':
        return all(x in gsub for x, c in t[1])
    return t[0] == 'i' or t in gsub


def mismatches(a, b, out):
    if a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and b and (a[0] == b[0] or not isinstance(a[0], str)) and \
            a[0] not in ('phi', 'i', 'b'):
        if a[0] == 'adt' and a[2] != b[2]:
            out.append((a, b))
            return
        if a[0] in ('op', 'lin') or generic(a) and generic(b) or a[0] == 'app' and (a[1] in SAT or b[1] in SAT):
            ax, ay = set(), set()
            if arith_atoms(a, ax) and arith_atoms(b, ay) and ax == ay:
                out.append((a, b))          # compared as a whole
                return
        for x, y in zip(a, b):
            mismatches(x, y, out)
        return
    out.append((a, b))


def phi_escapes(d, p, cur, gold, gt):
    """the current value is a loop variable unknown to the reviewed summary where that has a fixed value; certain when the variable can
    hold a provably different value there"""
    if d.a is None or d.b is None:
        return False
    mm = []
    mismatches(d.a, d.b, mm)
    conds = set(p.c)
    if hasattr(d, 'loopp'):
        conds |= set(d.loopp.c)
    new = set(cur.phis) - set(gold.phis)
    if any(phi_names(t) & new for t in conds) or not all(t in gt for t in conds):
        return False
    for a, b in mm:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'phi' and a[1] in new and isinstance(b, tuple) and not phi_names(b):
            ini, nx, mp = cur.phis[a[1]]
            if distinct(ini, b):
                return True
            for c, v in mp:
                if distinct(v, b) and not any(phi_names(t) & new for t, _ in c) and all(t in gt for t, _ in c):
                    return True
    return False


def dset(ps):
    return frozenset((frozenset(p.c.items()), frozenset(frozenset(frozenset(z.items()) for z in d) for d in p.d)) for p in ps)


def path_terms(p, w):
    """the conditions of p that the witness w relies on"""
    out = list(p.c)
    for d in p.d:
        for x in d:
            out += [t for t in x if t in w and t not in p.c]
    return sorted(set(out), key=repr)


def judge(d, p, q, w, gv, gt, cv, ct):
    """is this difference certainly a behavioural difference (rather than an unrecognised rephrasing)?"""
    if d.kind == 'structure':
        return False, 'loop structure differs'
    up = [t for t in path_terms(p, w) if t not in gt]
    uq = [t for t in path_terms(q, w) if t not in ct]
    for t in up:
        f = vocab(t) - gv
        if f:
            return False, 'condition outside the reviewed vocabulary: ' + show.P(t)[:200]
        if any(x not in gt for x in searches(t)):
            return False, 'condition on a search the reviewed code does not make: ' + show.P(t)[:200]
    widths = up and uq and {anywidth(t) for t in up} == {anywidth(t) for t in uq}
    if up and uq and not widths and not jointly_possible(up, uq, p, q, w):
        return False, 'conditions phrased differently: %s / %s' % (show.P(up[0])[:150], show.P(uq[0])[:150])
    if hasattr(d, 'loopp'):
        up = [t for t in d.loopp.c if t not in gt]
        uq = [t for t in d.loopq.c if t not in ct]
        if up and uq or any(vocab(t) - gv for t in up):
            return False, 'loop conditions phrased differently'
    if d.kind in ('args', 'reply', 'outcome', 'state') and d.a is not None and d.b is not None:
        mm = []
        mismatches(d.a, d.b, mm)
        if anywidth(d.a) == anywidth(d.b):
            return False, 'hex numbers of another width'
        if mm and all(soft(x, y) for x, y in mm):
            return False, 'iterators or closures phrased differently'
        rs = [arith_compare(x, y, w) if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and
              isinstance(y[0], str) else None for x, y in mm]
        if rs and all(r == 'equal' for r in rs):
            return False, 'the same value in different words'
        if rs and all(r is not None for r in rs):
            return True, ''
    if d.kind in ('args', 'reply', 'outcome', 'state'):
        va, vb = vocab(d.a) if d.a is not None else set(), vocab(d.b) if d.b is not None else set()
        fa = va - gv
        if fa:
            # an unknown function or loop variable: only certain when nothing in the reviewed value corresponds
            if vb - cv or vb & {x for x in vb if x[0] in STRUCT or x[0] == 'app'}:
                return False, 'value phrased differently: ' + ', '.join(str(x) for x in sorted(fa, key=str))[:200]
            if any(x[0] in ('app', 'sym', 'phi') for x in fa):
                return False, 'value outside the reviewed vocabulary: ' + ', '.join(str(x) for x in sorted(fa, key=str))[:200]
    return True, ''


def searches(t):
    return [x for x in parts_of(t) if isinstance(x, tuple) and x[:1] == ('app',) and str(x[1]).startswith('iter::')]


def jointly_possible(up, uq, p, q, w):
    """two arithmetic conditions over the same inputs, phrased differently: are there values of the inputs that satisfy both paths?"""
    if not any("'op'" in repr(t) for t in up):
        return sampled(p, q, w, [atoms_in(t) for t in list(up) + list(uq)])
    ats = None
    for t in list(up) + list(uq):
        a = set()
        if not arith_atoms(t, a) or t in a or not 1 <= len(a) <= 2 or ats is not None and a != ats:
            return False
        ats = a
    if any(x != y and x in parts_of(y) for x in ats for y in ats):
        return False
    cs = []
    for t, c in list(p.c.items()) + list(q.c.items()) + list(w.items()):
        a = set()
        if isinstance(c, tuple) and arith_atoms(t, a) and a <= ats:
            cs.append((t, c))
        elif ats & parts_of(t):
            return False
    import itertools
    for vs in itertools.product(*[range(256) if len(ats) == 1 else SAMPLES] * len(ats)):
        env = dict(zip(sorted(ats, key=repr), vs))
        if all(any(lo <= v <= hi for lo, hi in c) for v, c in ((arith_eval(t, env), c) for t, c in cs) if v is not None):
            return True
    return False


def atoms_in(t):
    a = set()
    return a if arith_atoms(t, a) and t not in a | {('i', 0)} or t in a and free_input(t) else None


def free_input(t):
    """a number that may be anything its type allows: read from the packet, or given by the target"""
    while t[0] in ('fld', 'vf'):
        t = t[1]
    return t[:2] == ('app', 'decode_hex') or t[0] == 'res'


def sampled(p, q, w, groups):
    """linear conditions over numbers from the packet or the target: values that satisfy all conditions on them"""
    if any(g is None for g in groups):
        return False
    ats = set().union(*groups)
    cs = []
    todo = [(t, c) for t, c in list(p.c.items()) + list(q.c.items()) + list(w.items())]
    size = -1
    while size != len(ats):
        size = len(ats)
        for t, c in todo:
            a = set()
            if isinstance(c, tuple) and arith_atoms(t, a):
                if a & ats:
                    ats |= a
    ends = {t for t in ats if t[0] in ('len', 'sym') or show.P(t) == 'end'}
    frees = ats - ends
    if not frees or len(ats) > 5 or not all(free_input(t) for t in frees) or any(show.P(t) not in ('end', 'len(pkt)') for t in ends):
        return False
    for t, c in todo:
        a = set()
        if isinstance(c, tuple) and arith_atoms(t, a) and a <= ats:
            cs.append((t, c))
        elif frees & parts_of(t):
            return False
    if ends:
        srt = sorted(ends, key=show.P)       # end, len(pkt)
        if len(srt) == 2:
            cs.append((absint.sub(srt[1], srt[0]), ((0, INF),)))
    import random
    rng = random.Random(1)
    names = sorted(ats, key=repr)
    doms = [SAMPLES + (wide(t) if t in frees else (300, 4096)) for t in names]
    for n in range(20000):
        env = dict(zip(names, (rng.choice(d) for d in doms)))
        if all(any(lo <= v <= hi for lo, hi in c) for v, c in ((arith_eval(t, env), c) for t, c in cs) if v is not None):
            return True
    return False


def parts_of(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x not in out:
            out.add(x)
            todo += [y for y in x if isinstance(y, tuple)]
    return out


def iterish(t):
    """contains an iterator or closure the analysis keeps as it is written"""
    if isinstance(t, frozenset):
        return any(iterish(x) for x in t)
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('it', 'clo') or t[0] == 'k' and len(t) == 3 or t[0] == 'adt' and isinstance(t[1], str) and '::iter::' in t[1]:
        return True
    return any(iterish(x) for x in t)


def soft(x, y):
    return iterish(x) and iterish(y)


ARITH = {
    'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Shl': lambda a, b: a << (b % 128),
    'Shr': lambda a, b: a >> (b % 128), 'wrapping_add': lambda a, b: a + b, 'wrapping_sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
    'Div': lambda a, b: a // b if b else None, 'Rem': lambda a, b: a % b if b else None, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
}


ARITHH = ('lin', 'op', 'min', 'max', 'cast')
# arithmetic of a generic number type
GENERIC = {'std::ops::%s::%s' % (n, n.lower()): f for n, f in (
    ('Add', lambda a, b: a + b), ('Sub', lambda a, b: a - b), ('Mul', lambda a, b: a * b), ('Div', lambda a, b: a // b if b else None),
    ('Rem', lambda a, b: a % b if b else None), ('Shl', lambda a, b: a << b if b < 64 else None), ('Shr', lambda a, b: a >> b),
    ('BitAnd', lambda a, b: a & b), ('BitOr', lambda a, b: a | b), ('BitXor', lambda a, b: a ^ b))}


def generic(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'app' and t[1] in GENERIC and len(t[2]) == 2


CASTS = {'u8': 1 << 8, 'u16': 1 << 16, 'u32': 1 << 32, 'u64': 1 << 64, 'usize': 1 << 64}
SAT = {'std::intrinsics::saturating_add': lambda a, b: min(a + b, (1 << 64) - 1), 'std::intrinsics::saturating_sub': lambda a, b: max(a - b, 0)}
SAT.update({'std::intrinsics::saturating_add:u8': lambda a, b: min(a + b, 255), 'std::intrinsics::saturating_sub:u8': lambda a, b: max(a - b, 0)})


def arith_atoms(t, out):
    """input terms of an arithmetic expression; False when t is not arithmetic"""
    if t[0] == 'i':
        return True
    if t[0] == 'lin':
        return all(arith_atoms(x, out) for x, c in t[1])
    if t[0] == 'op' and len(t) == 4 and t[1] in ARITH:
        return arith_atoms(t[2], out) and arith_atoms(t[3], out)
    if t[0] in ('min', 'max') and len(t) == 3:
        return arith_atoms(t[1], out) and arith_atoms(t[2], out)
    if t[0] == 'cast' and t[1] in CASTS:
        return arith_atoms(t[2], out)
    if t[:1] == ('app',) and t[1] in SAT and len(t[2]) == 2:
        return all(arith_atoms(x, out) for x in t[2])
    if generic(t):
        return all(arith_atoms(x, out) for x in t[2])
    if t[0] in ('b', 'adt', 'tup', 'arr', 'clo', 'str', 'ref'):
        return False
    if phi_names(t) and t[0] != 'phi':
        pass
    out.add(t)
    return True


def arith_eval(t, env):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'lin':
        r = t[2]
        for x, c in t[1]:
            v = arith_eval(x, env)
            if v is None:
                return None
            r += c * v
        return r
    if t[0] == 'op' and len(t) == 4 and t[1] in ARITH and t not in env:
        a, b = arith_eval(t[2], env), arith_eval(t[3], env)
        return None if a is None or b is None else ARITH[t[1]](a, b)
    if t in env:
        return env[t]
    if generic(t):
        a, b = (arith_eval(x, env) for x in t[2])
        return None if a is None or b is None or a < 0 or b < 0 else GENERIC[t[1]](a, b)
    xs = [arith_eval(x, env) for x in (t[2] if t[0] == 'app' else t[2:] if t[0] == 'cast' else t[1:])]
    if None in xs or min(xs) < 0:
        return None
    if t[0] == 'app':
        return SAT[t[1]](*xs)
    return xs[0] % CASTS[t[1]] if t[0] == 'cast' else min(xs) if t[0] == 'min' else max(xs)


SAMPLES = (0, 1, 2, 3, 7, 9, 10, 15, 16, 31, 33, 48, 57, 65, 97, 100, 127, 128, 170, 200, 240, 254, 255)


def wide(t):
    """more values that an input may have: a hex number fills the type it is read into"""
    if t[0] == 'vf' and t[1][:2] == ('app', 'decode_hex') and len(t[1][2]) == 2 and t[1][2][1][1] in CASTS:
        n = CASTS[t[1][2][1][1]]
        return tuple(v for v in (256, 300, 4096, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 63, (1 << 64) - 1) if v < n)
    return 256, 300, 4096


def arith_compare(x, y, w):
    """'equal' / 'differ' / None for two arithmetic expressions over the same inputs, by evaluating the expressions on values of the
    inputs allowed by the conditions w (all 256 values for a single byte-sized input)"""
    ax, ay = set(), set()
    if not (arith_atoms(x, ax) and arith_atoms(y, ay)) or not (x[0] in ARITHH or y[0] in ARITHH or generic(x) or generic(y)):
        return None
    atoms = sorted(ax | ay, key=repr)
    if len(atoms) > 6 or not atoms or ax != ay:
        return None
    casts = any(t[0] in ('cast', 'min', 'max', 'app') for e in (x, y) for t in parts_of(e) if t and isinstance(t[0], str) and t not in ax and not generic(t) and not (t[0] == 'app' and t[1][-3:] == ':u8'))
    wraps = any(t[:1] == ('op',) and t[1].startswith('wrapping') for e in (x, y) for t in parts_of(e) if t)
    if len(atoms) > 3 and not casts or casts and wraps:
        return None

    def ok(t, v):
        c = w.get(t)
        return not isinstance(c, tuple) or any(lo <= v <= hi for lo, hi in c)
    import itertools
    doms = [[v for v in (range(256) if len(atoms) == 1 and not casts else SAMPLES + (wide(t) if casts else ())) if ok(t, v)] for t in atoms]
    mod = 1 << 64 if casts else 256
    points = itertools.product(*doms)
    if casts and len(atoms) > 2:
        import random
        rng = random.Random(1)
        points = ([rng.choice(d) for d in doms] for _ in range(20000)) if all(doms) else ()
    more = []
    for t, c in w.items():
        if isinstance(c, tuple) and t[0] in ('lin', 'op'):
            at = set()
            if arith_atoms(t, at) and at <= ax:
                more.append((t, c))
    n = 0
    for vs in points:
        env = dict(zip(atoms, vs))
        if any(v is not None and not any(lo <= v <= hi for lo, hi in c) for v, c in ((arith_eval(t, env), c) for t, c in more)):
            continue
        a, b = arith_eval(x, env), arith_eval(y, env)
        if a is None or b is None or a < 0 or b < 0:
            continue
        n += 1
        if (a - b) % mod:
            return 'differ'
    return 'equal' if n else None


def taut(cubes, dom, depth=0):
    """is the disjunction of cubes true for every assignment?"""
    if any(not c for c in cubes):
        return True
    if not cubes or depth > 14:
        return False
    cnt = {}
    for c in cubes:
        for t in c:
            cnt[t] = cnt.get(t, 0) + 1
    t = max(cnt, key=lambda x: cnt[x])
    vals = [c[t] for c in cubes if t in c]
    parts = partition(t, vals, dom)
    if parts is None:
        return False
    for v in parts:
        sub = []
        for c in cubes:
            if t not in c:
                sub.append(c)
            elif c_and(c[t], v) == v:
                sub.append({k: x for k, x in c.items() if k != t})
        if not taut(sub, dom, depth + 1):
            return False
    return True


def partition(t, vals, dom):
    v0 = vals[0]
    if isinstance(v0, bool):
        return [True, False]
    if isinstance(v0, frozenset):
        if any(not isinstance(v, frozenset) for v in vals):
            return None
        allv = dom(t, 'v')
        if allv is None:
            return None
        cells = {}
        for x in allv:
            cells.setdefault(tuple(x in v for v in vals), set()).add(x)
        return [frozenset(c) for c in cells.values()]
    full = dom(t, 'r')
    pts = set()
    for v in vals:
        for lo, hi in v:
            if lo != -INF:
                pts.add(lo)
            if hi != INF:
                pts.add(hi + 1)
    out = []
    for lo, hi in full:
        cur = lo
        for x in sorted(pts):
            if cur < x <= hi:
                out.append(((cur, x - 1),))
                cur = x
        out.append(((cur, hi),))
    return out
