"""Rules decided directly on the enumerated paths of every packet (no reference summary): acknowledgement, reply structure, fault propagation."""
import env
import extract
import show
import summ
from absint import Undecided, State

ALL = extract.NAMES + [None]


def nm(name):
    return 'unrecognised' if name is None else name


class RP:
    """one linear path of a packet: conditions, dnf conditions, raw items, outcome, state updates"""
    __slots__ = ('c', 'd', 'items', 'kind', 'val', 'upd')

    def __init__(self, c, d, items, kind, val, upd):
        self.c, self.d, self.items, self.kind, self.val, self.upd = c, d, items, kind, val, upd


def raw_items(it):
    """observable items kept as they are; loops as ('loop', [Path], phis)"""
    k = it[0]
    if k in ('e', 'e!', 't', 't!', 'panic'):
        return (it,)
    if k == 'loop':
        ps = []
        for b in it[1]:
            ps += summ.flatten(b, raw_items)
        return (('loop', tuple(ps), it[2] if len(it) > 2 else ()),)
    if k == 'cbret':
        return (it,)
    return None


def self_deref(t):
    if isinstance(t, tuple):
        if t == ('deref', ('arg', 'self')):
            return ('arg', 'self')
        return tuple(self_deref(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(self_deref(x) for x in t)
    return t


def prune_conditions(tr, keep):
    """the trace without the conditions `keep` rejects; alternatives that become equal are merged"""
    out = []
    for it in tr:
        if it[0] == 'c':
            if keep(it[1]):
                out.append(it)
        elif it[0] == 'alt':
            bs = {prune_conditions(b, keep) for b in it[1]}
            if len(bs) == 1:
                out += next(iter(bs))
            else:
                out.append(('alt', frozenset(bs)))
        elif it[0] == 'loop':
            out.append(('loop', frozenset(prune_conditions(b, keep) for b in it[1])) + it[2:])
        else:
            out.append(it)
    return tuple(out)


def nest_alts(tr):
    """alternatives that neither send nor acknowledge anything become nested items ('loop') instead of being multiplied out"""
    out = []
    for it in tr:
        if it[0] == 'alt' and not summ.pure((it,)) and not any(has_boundary(b) for b in it[1]):
            out.append(('loop', frozenset(nest_alts(b) for b in it[1]), ()))
        elif it[0] == 'alt' and not summ.pure((it,)):
            out.append(('alt', frozenset(nest_alts(b) for b in it[1])))
        elif it[0] == 'loop':
            out.append(('loop', frozenset(nest_alts(b) for b in it[1])) + it[2:])
        else:
            out.append(it)
    return tuple(out)


def has_boundary(tr):
    for it in tr:
        if it[0] == 't' and it[1] == 'flush' or it[0] in ('t!', 'e!') or it[0] == 'e' and it[1].startswith('conn.'):
            return True
        if it[0] in ('alt', 'loop') and any(has_boundary(b) for b in it[1]):
            return True
    return False


def linear(I, paths, keep=None):
    roles = summ.self_roles(I)
    mp = dict(zip(roles.get('fields', []), roles.get('roles', [])))
    memo = {}

    class Id:
        def __call__(self, t):
            return t
    strip = summ.strip_in
    out = []
    for kind, st, v in paths:
        val = None if v is None else summ.rename_self(self_deref(strip(I.canon(st, v))), mp, memo)
        upd = [(a, summ.rename_self(self_deref(strip(b)), mp, memo)) for a, b in summ.state_updates(I, st, Id(), roles)]
        tr = summ.rename_self(self_deref(strip(st.trace)), mp, memo)
        if keep is not None:
            tr = prune_conditions(tr, keep)
        try:
            fl = flat(tr)
        except summ.TooBig:
            try:
                fl = flat(nest_alts(tr))
            except summ.TooBig:
                fl = flat(nest_alts(prune_conditions(tr, lambda t: 'features' in repr(t))))
        for p in fl:
            r = summ.reduce_dnfs(p.c, p.d)
            if r is None:
                continue
            out.append(RP(r[0], r[1], p.o, kind, val, upd))
    return out


def flat(tr):
    lim = summ.BIG
    summ.BIG = 3000
    try:
        ps = summ.flatten(tr, raw_items)
    finally:
        summ.BIG = lim
    seen = {}
    for p in ps:
        k = (frozenset(p.c.items()), p.o, repr(p.d) if p.d else '')
        seen.setdefault(k, p)
    return list(seen.values())


_cache = {}


def packet_paths(ctx, name, fault=False, keep=None):
    try:
        c = env.crate('std')
        I, paths = extract.extract(c, name, fault=fault)
        ls = linear(I, paths, keep)
    except (Undecided, summ.TooBig) as e:
        ctx.undecided('packet %s: %s' % (nm(name), e))
        return None, []
    ctx.count('packets')
    ctx.count('interpreted_states', I.nstates)
    ctx.count('paths', len(ls))
    return I, ls


def describe(p, n=300):
    its = []
    for it in p.items:
        its.append(desc_item(it))
    o = p.kind if p.val is None else 'returns ' + show.P(p.val)
    return ('; '.join(its)[:n] or 'no reply') + '; ' + o[:200]


def desc_item(it):
    if it[0] in ('e', 'e!'):
        return ('failing ' if it[0] == 'e!' else '') + 'call %s(%s)' % (it[1], ', '.join(show.P(x) for x in it[2]))
    if it[0] in ('t', 't!'):
        return ('failing ' if it[0] == 't!' else '') + 'reply %s %s' % (it[1], ', '.join(show.P(x) for x in it[2]))
    if it[0] == 'loop':
        return 'repeat{' + ' | '.join(sorted({', '.join(desc_item(x) for x in p.o) for p in it[1]})) + '}'
    return str(it[0])


def walk(items, depth=0):
    for it in items:
        yield depth, it
        if it[0] == 'loop':
            for p in it[1]:
                for x in walk(p.o, depth + 1):
                    yield x


# ---------------------------------------------------------------- C06
def feature_atoms(t, out):
    """maximal terms that are a part of the stored protocol features"""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == 'fld':
        b = t
        while b[0] == 'fld' and b[1][0] == 'fld':
            b = b[1]
        if b == ('fld', ('arg', 'self'), 'features'):
            out.add(t)
            return
    for x in t:
        if isinstance(x, tuple):
            feature_atoms(x, out)


def in_range(v, c):
    if isinstance(c, tuple):
        return any(lo <= v <= hi for lo, hi in c)
    return None


def sat_values(p, atom):
    """feature values allowed by the path's conditions, or None when a condition on them cannot be evaluated"""
    out = []
    conds = []
    for t, c in p.c.items():
        s = set()
        feature_atoms(t, s)
        if not s:
            continue
        at = set()
        if s != {atom} or not summ.arith_atoms(t, at) or at != {atom} or not isinstance(c, tuple):
            return None
        conds.append((t, c))
    alts = []
    for d in p.d:
        s = set()
        feature_atoms(d_terms(d), s)
        if not s:
            continue
        # alternatives that differ in nothing but the feature bits
        for cube in d:
            for t, c in cube.items():
                at = set()
                if p.c.get(t) != c and not (summ.arith_atoms(t, at) and at == {atom} and isinstance(c, tuple)):
                    return None
        alts.append([[(t, c) for t, c in cube.items() if p.c.get(t) != c] for cube in d])

    def holds(v, cs):
        return all(in_range(summ.arith_eval(t, {atom: v}), c) for t, c in cs)
    for v in range(256):
        if holds(v, conds) and all(any(holds(v, cube) for cube in d) for d in alts):
            out.append(v)
    return out


def d_terms(d):
    return tuple(t for cube in d for t in cube)


def bits_of(upd, atom):
    """old feature byte -> new feature byte, or None"""
    new = dict(upd).get('features')
    if new is None or new == ('fld', ('arg', 'self'), 'features'):
        return lambda v: v
    while new[0] == 'adt' and len(new[-1]) == 1:
        new = new[-1][0]
    at = set()
    if not summ.arith_atoms(new, at) or not at <= {atom}:
        return None
    return lambda v: summ.arith_eval(new, {atom: v})


def loop_updates(I, atom):
    """updates of the stored feature byte inside loops over packet contents: (the byte before as a term, update or None, value)"""
    for u, p in I.phi.items():
        me = replace(atom, ('arg', 'self'), ('phi', u))
        base = me
        while base[0] == 'fld' and base[1][0] == 'fld':
            base = base[1]
        for v in p['next'] or ():
            if v[0] != 'adt' or not any(x[0] == 'fld' and x[1] == ('phi', u) for x in v[3]):
                continue
            for x in v[3]:
                new = x
                while new[0] == 'adt' and len(new[3]) == 1:
                    new = new[3][0]
                if new == me or new == base:
                    continue
                at = set()
                if not summ.arith_atoms(new, at) or not at <= {me}:
                    if base in subterms(new):
                        yield me, None, new
                    continue
                if me in at or x[0] == 'adt':
                    yield me, (lambda v, new=new, me=me: summ.arith_eval(new, {me: v})), new


def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x not in out:
            out.add(x)
            todo += [y for y in x if isinstance(y, tuple)]
    return out


def is_ack(it):
    return it[0] == 'e' and it[1] == 'conn.write' and it[2] == (('i', 43),)


def about_features(t):
    if t[0] == 'gate':
        return t[1].endswith('use_no_ack_mode')
    s = set()
    feature_atoms(t, s)
    return bool(s)


def c06(ctx):
    ctx.rule('On every enumerated path of receiving and handling each packet: exactly one direct write of \'+\' to the connection, before anything else is '
             'sent, for every value of the stored feature bits in which no-ack mode is off, and none in which it is on (the bit QStartNoAckMode sets); that '
             'bit changes on no other packet\'s paths; nothing else is written directly to the connection; acks, nacks and interrupts write nothing.')
    c = env.crate('std')
    I, ls = packet_paths(ctx, 'QStartNoAckMode', keep=about_features)
    atoms = set()
    for p in ls:
        feature_atoms(tuple(p.c), atoms)
        feature_atoms(tuple(p.upd), atoms)
    if len(atoms) != 1:
        ctx.undecided('the stored protocol features are not a single value the rule recognises: %s' % ', '.join(show.P(a) for a in atoms))
        return
    atom = next(iter(atoms))
    sets = set()
    for p in ls:
        f = bits_of(p.upd, atom)
        if f is None:
            ctx.undecided('feature update of QStartNoAckMode: %s' % (p.upd,))
            return
        ok = any(it[0] == 't' and it[1] == 'str' and it[2] == (('b', b'OK'),) for it in p.items)
        sets.add((ok, f(0), f(255) & 255))
    on = {x for k, x, y in sets if k}
    if len(on) != 1 or next(iter(on)) == 0:
        ctx.violation('QStartNoAckMode:not-set', 'QStartNoAckMode does not switch no-ack mode on whenever it is answered OK (feature bits set: %s)' % sorted(on))
        return
    bit = next(iter(on))
    if any(x or y != 255 for k, x, y in sets if not k) or any(y != 255 for k, x, y in sets):
        ctx.violation('QStartNoAckMode:changes', 'QStartNoAckMode changes the protocol features on a path that does not answer OK')
    ctx.sample('no-ack mode is feature bit %d of %s' % (bit, show.P(atom)))
    gate = [t for p in ls for t in p.c if t[0] == 'gate' and t[1].endswith('use_no_ack_mode')]
    for p in ls:
        if dict(p.upd).get('features') is not None and not any(t[0] == 'gate' and t[1].endswith('use_no_ack_mode') and v is True for t, v in p.c.items()):
            ctx.violation('QStartNoAckMode:ungated', 'no-ack mode is switched on without use_no_ack_mode() having answered true: %s' % describe(p))
    for name in ALL:
        if name != 'QStartNoAckMode':
            I, ls = packet_paths(ctx, name, keep=about_features)
            for me, f, new in loop_updates(I, atom) if I else ():
                ctx.count('loop_feature_updates')
                if f is None:
                    ctx.undecided('packet %s: feature update %s' % (nm(name), show.P(new)[:200]))
                elif any((f(v) ^ v) & bit for v in range(256)):
                    ctx.violation('%s:no-ack-changed' % nm(name), 'handling `%s` changes the no-ack mode flag: in a loop over its contents the protocol '
                                  'features become %s' % (nm(name), show.P(new)[:300]))
        for p in ls:
            if p.kind in ('malformed', 'panic'):
                for d, it in walk(p.items):
                    if p.kind == 'malformed' and it[0] == 'e' and it[1].startswith('conn.'):
                        ctx.violation('%s:malformed-write' % nm(name), 'a malformed `%s` packet writes to the connection: %s' % (nm(name), describe(p)))
                continue
            acks = [i for i, it in enumerate(p.items) if is_ack(it)]
            nested = [it for d, it in walk(p.items) if d and is_ack(it)]
            other = [it for d, it in walk(p.items) if it[0] == 'e' and it[1].startswith('conn.') and not is_ack(it)]
            if other:
                ctx.violation('%s:direct-write' % nm(name), 'handling `%s` writes to the connection outside a reply packet: %s at %s' % (
                    nm(name), desc_item(other[0]), '; '.join(sorted(I.locs.get(other[0][1], ())))))
            if nested:
                ctx.violation('%s:ack-in-loop' % nm(name), 'handling `%s` writes an acknowledgement inside a loop' % nm(name))
                continue
            vals = sat_values(p, atom)
            if vals is None:
                ctx.undecided('packet %s: a condition on the protocol features cannot be evaluated' % nm(name))
                continue
            ctx.count('ack_obligations')
            if not vals:
                continue
            need = {0 if v & bit else 1 for v in vals}
            if need != {len(acks)}:
                ctx.violation('%s:ack-count:%d' % (nm(name), len(acks)), 'handling `%s` sends %d acknowledgements on a path possible with no-ack mode %s: %s' % (
                    nm(name), len(acks), 'on' if 0 in need and (len(acks) or len(need) == 1) else 'off', describe(p)))
                continue
            if acks:
                before = [it for it in p.items[:acks[0]] if it[0] in ('t', 'loop')]
                if any(it[0] == 't' or any(x[0] == 't' for d, x in walk((it,))) for it in before):
                    ctx.violation('%s:ack-late' % nm(name), 'the acknowledgement of `%s` is sent after part of its reply: %s' % (nm(name), describe(p)))
            if name != 'QStartNoAckMode':
                f = bits_of(p.upd, atom)
                if f is None:
                    ctx.undecided('packet %s: feature update %s' % (nm(name), show.P(dict(p.upd)['features'])[:200]))
                elif any((f(v) ^ v) & bit for v in vals):
                    ctx.violation('%s:no-ack-changed' % nm(name), 'handling `%s` changes the no-ack mode flag: %s' % (nm(name), describe(p)))
    # the other kinds of input
    hp = c.fns.get('stub::core_impl::GdbStubImpl::<T, C>::handle_packet')
    if hp is None:
        ctx.undecided('handle_packet not found')
        return
    import gdbsem
    for kind in ('Ack', 'Nack', 'Interrupt'):
        I = gdbsem.make(c)
        vi = [i for i, x in enumerate(I.ty(hp.locals[4][0])['variants']) if x['name'] == kind]
        if not vi:
            ctx.undecided('no packet kind %s' % kind)
            continue
        outs = I.run_fn(hp, [('arg', 'self'), ('arg', 'target'), ('sym', 'conn'), I.mkadt(hp.locals[4][0], vi[0], [])], State(), 0)
        ctx.count('other_inputs')
        for p in linear(I, outs):
            w = [it for d, it in walk(p.items) if it[0] in ('e', 'e!') and it[1].startswith('conn.') or it[0] == 't']
            if w:
                ctx.violation('%s:writes' % kind, 'an incoming %s is answered: %s' % (kind, describe(p)))
    ctx.floor('packets', len(ALL))
    ctx.floor('ack_obligations', 250)


# ---------------------------------------------------------------- C07
def toks(items):
    return [it for it in items if it[0] == 't' or it[0] == 'loop' and any(x[0] == 't' for d, x in walk((it,)))]


def deferred(p):
    return p.val is not None and 'DeferredStopReason' in repr(p.val)


def failed(p):
    return p.val is not None and p.val[0] == 'adt' and p.val[2] == 'Err'


def disconnects(p):
    return p.val is not None and 'Disconnect' in repr(p.val)


def is_o_packet(path):
    """a loop body that sends complete console packets only"""
    ts = [it for it in path.o if it[0] in ('t', 'loop')]
    open_ = False
    for it in ts:
        if it[0] == 'loop':
            if any(x[0] == 't' and x[1] == 'flush' for d, x in walk((it,))):
                if open_ or not all(is_o_packet(q) for q in it[1]):
                    return False
            continue
        if it[1] == 'flush':
            open_ = False
        elif not open_:
            if it[1] not in ('str', 'byte') or it[2][0] not in (('b', b'O'), ('i', 79)):
                return False
            open_ = True
    return not open_


def lit_of(it):
    t = summ.tok(it[1], it[2])
    return t[1] if t[0] == 'lit' else None


def c07(ctx):
    ctx.rule('On every enumerated path of handling each packet: the tokens written between flushes are grouped into reply packets; a path that resumes '
             'the target writes nothing; any other successful path ends with exactly one flush outside loops (none only for the kill command outside '
             'extended mode); packets sent from callbacks are complete console (\'O\') packets and nothing of the final reply precedes them; an OK or E '
             'reply follows no other content of the same packet.')
    for name in ALL:
        I, ls = packet_paths(ctx, name)
        for p in ls:
            if p.kind in ('malformed', 'panic'):
                continue
            its = p.items
            top = [i for i, it in enumerate(its) if it[0] == 't' and it[1] == 'flush']
            t = toks(its)
            key = nm(name)
            if deferred(p):
                ctx.count('resuming_paths')
                if t:
                    ctx.violation('%s:resume-reply' % key, 'a path of `%s` that resumes the target writes a reply of its own: %s' % (key, describe(p)))
                continue
            if failed(p):
                # the session ends; what was written so far must not have been completed twice
                ctx.count('failing_paths')
                if len(top) > 1:
                    ctx.violation('%s:double-reply' % key, '`%s` sends %d replies before the session fails: %s' % (key, len(top), describe(p)))
                continue
            ctx.count('answered_paths')
            if not top:
                if name in ('k', 'vKill') and disconnects(p) and not t:
                    e = ext_mode(p)
                    if e is None:
                        ctx.undecided('packet %s: cannot tell whether extended mode is on when no reply is sent' % key)
                    elif e:
                        ctx.violation('%s:no-reply' % key, '`%s` goes unanswered although the target may support extended mode: %s' % (key, describe(p)))
                    continue
                ctx.violation('%s:%s' % (key, 'unflushed' if t else 'no-reply'), 'a path of `%s` %s: %s' % (
                    key, 'does not finish its reply with a flush' if t else 'sends no reply at all', describe(p)))
                continue
            if toks(its[top[-1] + 1:]):
                ctx.violation('%s:after-reply' % key, 'a path of `%s` writes after having finished its reply: %s' % (key, describe(p)))
                continue
            # split into packets; everything before the last one must be console output
            content, console = [], False
            for i, it in enumerate(its[:top[-1] + 1]):
                if it[0] == 'loop':
                    if any(x[0] == 't' and x[1] == 'flush' for d, x in walk((it,))):
                        ctx.count('console_loops')
                        if not all(is_o_packet(q) for q in it[1]):
                            ctx.violation('%s:console' % key, 'a callback of `%s` sends something other than complete console packets: %s' % (key, desc_item(it)))
                        if content:
                            ctx.violation('%s:before-console' % key, 'part of the final reply of `%s` is written before console output: %s' % (key, describe(p)))
                    elif any(x[0] == 't' for d, x in walk((it,))):
                        content.append(it)
                elif it[0] == 't' and it[1] == 'flush':
                    if i == top[-1]:
                        break
                    if not content or content[0][0] != 't' or lit_of(content[0]) != b'O' or len(content) < 2:
                        ctx.violation('%s:double-reply' % key, 'a path of `%s` sends %d replies: %s' % (key, len(top), describe(p)))
                    content = []
                elif it[0] == 't':
                    content.append(it)
            final(ctx, I, key, p, content)
    ctx.floor('packets', len(ALL))
    ctx.floor('resuming_paths', 8)
    ctx.floor('answered_paths', 200)
    ctx.floor('console_loops', 1)


def ext_mode(p):
    """may the target support extended mode on this path? None when that is not decided by plain conditions"""
    for t, v in p.c.items():
        if t[0] == 'gate' and t[1].endswith('support_extended_mode'):
            return v != frozenset(['None'])
    return None if 'support_extended_mode' in repr(p.d) else True


def never_ran(I, p, loop):
    """do the path's conditions say that the loop was left before its first iteration? True / False / None (cannot tell)"""
    res = False
    for ph in loop[2]:
        u = ph[1]
        d = I.phi.get(u)
        if d is None or d.get('next') is None:
            continue
        c = p.c.get(ph)
        if c is None:
            continue
        ini = d['init']
        if isinstance(c, tuple) and ini[0] == 'i' and in_range(ini[1], c):
            ok = True
            for nx in d['next']:
                if nx[0] == 'i':
                    ok = ok and not in_range(nx[1], c)
                elif c == ((ini[1], ini[1]),):
                    # advancing from the initial value: returning to it is not expected but not excluded either
                    res = None if res is False else res
                    ok = ok and nx[0] == 'lin' and dict(nx[1]).get(ph) == 1 and all(k > 0 for x, k in nx[1]) and nx[2] >= 0
                else:
                    ok = False
            if ok:
                return True
    return res


def final(ctx, I, key, p, content):
    """an OK / error reply is the whole packet"""
    for i, it in enumerate(content):
        if it[0] != 't':
            continue
        l = lit_of(it)
        err = l == b'E' and i == len(content) - 2 and content[i + 1][0] == 't' and content[i + 1][1] in ('num', 'dec', 'hex')
        ok = l == b'OK' and i == len(content) - 1
        if not err and not ok:
            continue
        pre = []
        unsure = False
        for x in content[:i]:
            if x[0] == 'loop':
                r = never_ran(I, p, x)
                if r is None:
                    unsure = True
                elif not r:
                    pre.append(x)
            elif lit_of(x) != b'':
                pre.append(x)
        if not pre:
            if unsure:
                ctx.undecided('packet %s: whether content precedes the status reply' % key)
            ctx.count('status_replies')
            return
        op = [x[1] for x in p.items if x[0] == 'e' and not x[1].startswith('conn.')]
        ctx.violation('%s:%s-after-content:%s' % (key, 'error' if err else 'ok', op[-1] if op else '-'), 'a path of `%s` appends %s to reply content already produced: %s' % (
            key, 'an error code' if err else 'OK', describe(p)))
        return


# ---------------------------------------------------------------- C19
def conn_err(t):
    """does the term carry an error of the connection, with the kind given?"""
    def is_raw(x):
        return isinstance(x, tuple) and (x[:1] == ('sym',) and len(x) > 1 and isinstance(x[1], str) and x[1].startswith(('write-error', 'conn-error'))
                                         or any(is_raw(y) for y in x))
    return is_raw(t)


def write_error(v):
    """Err(Connection(<raw error>, Write))"""
    def find(x):
        if not isinstance(x, tuple):
            return False
        if x[:1] == ('adt',) and len(x) == 4 and x[2] == 'Connection':
            return conn_err(x[3]) and "'Write'" in repr(x[3])
        return any(find(y) for y in x)
    return v is not None and v[0] == 'adt' and v[2] == 'Err' and find(v)


def carries_write_error(t):
    """a stored error: the writer's own, or already wrapped as a connection error of kind write"""
    def wrong(x):
        if not isinstance(x, tuple):
            return False
        if x[:1] == ('adt',) and len(x) == 4 and x[2] == 'Connection':
            return "'Write'" not in repr(x[3])
        return any(wrong(y) for y in x)
    return conn_err(t) and not wrong(t)


def returns_latched(v, ph, raw):
    """Err(...) of the error stored in ph, wrapped as Connection(_, Write) unless it was stored that way"""
    if v is None or variant(v) != 'Err':
        return False
    mark = "('vf', %r, " % (ph,)

    def find(x):
        if not isinstance(x, tuple):
            return False
        if x[:1] == ('adt',) and len(x) == 4 and x[2] == 'Connection':
            return mark in repr(x[3]) and "'Write'" in repr(x[3])
        return any(find(y) for y in x)
    return find(v) or not raw and v[3][0][0] == 'vf' and v[3][0][1] == ph


def faults(items):
    return [it for d, it in walk(items) if it[0] in ('t!', 'e!')]


def trace_faults(tr):
    for it in tr:
        if it[0] in ('t!', 'e!'):
            return True
        if it[0] in ('alt', 'loop') and any(trace_faults(b) for b in it[1]):
            return True
    return False


def variant(t):
    return t[2] if t[0] == 'adt' and len(t) == 4 else None


def latches(I, loop, seen):
    """loop variables that keep the first connection error of a pass until the loop is left: {phi: variant meaning 'no error'}"""
    out = {}
    for ph in loop[2]:
        d = I.phi.get(ph[1])
        if d is None or d.get('next') is None:
            continue
        ok = variant(d['init'])
        m = d.get('map')
        if ok is None or not m:
            continue
        good = True
        bad = False
        for tr, nx in m:
            if trace_faults(tr):
                bad = True
                if not carries_write_error(nx):
                    good = False
            elif nx != ph and not carries_write_error(nx):
                # another value: only if the variable is known not to hold an error
                if not any(it[0] == 'c' and it[1] == ph and it[2] == frozenset([ok]) for it in tr):
                    good = False
        if bad and good:
            out[ph] = (ok, any(conn_err(nx) and "'Connection'" not in repr(nx) for tr, nx in m))
    return out


def canon_phi(I, t):
    return t


def c19(ctx):
    ctx.rule('Every reply write, reply flush and acknowledgement on every enumerated path of every packet is additionally allowed to fail once (at each '
             'place in turn). A failure outside a callback must be the last thing done on its path, which must return Err(Connection(that error, Write)); a '
             'failure inside a callback or loop must be stored in a variable that no later pass overwrites, and every continuation must either know that '
             'variable holds no error or return the stored error (or the fatal error of the very target call that was writing).')
    nph = 0
    for name in ALL:
        I, ls = packet_paths(ctx, name, fault=True, keep=lambda t: t[0] == 'phi' or t[0] == 'res' or t[0] == 'vf' and t[1][0] == 'phi')
        key = nm(name)
        for p in ls:
            if p.kind == 'panic':
                continue
            its = p.items
            top = [i for i, it in enumerate(its) if it[0] in ('t!', 'e!')]
            if top:
                ctx.count('failing_writes')
                it = its[top[0]]
                loc = '; '.join(sorted(I.locs.get(it[1] if it[0] == 'e!' else 'reply ' + it[1], ()))[:3])
                later = [x for x in its[top[0] + 1:] if x[0] in ('t', 't!', 'e', 'e!', 'loop')]
                if not write_error(p.val):
                    ctx.violation('%s:dropped:%s' % (key, it[1]), 'a failing %s while handling `%s` does not end the session with that connection error (kind '
                                  'write): %s at %s' % (desc_item(it)[8:], key, describe(p), loc))
                elif [x for x in later if x[0] != 'loop']:
                    ctx.violation('%s:continues:%s' % (key, it[1]), 'after a failing %s, handling `%s` goes on: %s at %s' % (
                        desc_item(it)[8:], key, describe(p), loc))
                continue
            for i, it in enumerate(its):
                if it[0] != 'loop' or not faults((it,)):
                    continue
                ctx.count('failing_callback_paths')
                la = latches(I, it, None)
                ops = [x[1] for x in its[:i] if x[0] == 'e']
                who = ops[-1] if ops else '-'
                if not la:
                    if not it[2] or any(I.phi.get(ph[1], {}).get('map') is None for ph in it[2]):
                        ctx.undecided('packet %s: what happens to errors in the callback of %s' % (key, who))
                        continue
                    ctx.violation('%s:callback:%s' % (key, who), 'a connection error inside the callback passed to %s (`%s`) is dropped or can be overwritten: %s at %s' % (
                        who, key, desc_item(it)[:300], '; '.join(sorted(I.locs.get(who, ())))))
                    continue
                nph += 1
                okay = False
                for ph, (okv, raw) in la.items():
                    if p.c.get(ph) == frozenset([okv]) or returns_latched(p.val, ph, raw):
                        okay = True
                    if not raw and any(t[0] == 'vf' and t[1] == ph and isinstance(v, frozenset) and 'Connection' not in v for t, v in p.c.items()):
                        okay = True     # the stored error is a connection error, so this path is not taken
                if not okay and p.val is not None and variant(p.val) == 'Err' and p.val[3][0][:3] == ('adt', p.val[3][0][1], 'TargetError') \
                        and repr(('res', who))[:-1] in repr(p.val):
                    okay = True
                if not okay:
                    ctx.violation('%s:callback-lost:%s' % (key, who), 'a connection error stored by the callback passed to %s (`%s`) is not returned: %s at %s' % (
                        who, key, describe(p, 600), '; '.join(sorted(I.locs.get(who, ())))))
    ctx.floor('packets', len(ALL))
    ctx.floor('failing_writes', 300)
    ctx.floor('failing_callback_paths', 20)
