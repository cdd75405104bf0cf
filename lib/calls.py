"""C51: no process-global state or effects.  C52: bounded call depth.  Both are decided on the call graph of the MIR dump."""
import re
import env

CFGS = (('std', 'gdbstub'), ('alloc', 'gdbstub'), ('none', 'gdbstub'), ('arch', 'gdbstub_arch'))


# ---------------------------------------------------------------- C52
def consts_of(x, out):
    """function items and closures mentioned by a statement or terminator"""
    if isinstance(x, dict):
        f = x.get('fn')
        if isinstance(f, dict) and 'path' in f:
            out.append(('fn', f))
        for v in x.values():
            consts_of(v, out)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], str):
            out.append(('closure', x[1]))
        for v in x:
            consts_of(v, out)


def types_in(c, tyid, seen=None):
    """ids of the types a type is made of"""
    seen = set() if seen is None else seen
    if tyid in seen or not isinstance(tyid, int) or tyid >= len(c.types) or c.types[tyid] is None:
        return seen
    seen.add(tyid)
    r = c.types[tyid]
    if r.get('k') in ('ref', 'ptr', 'slice', 'array') and isinstance(r.get('of'), int):
        types_in(c, r['of'], seen)
    return seen


def node(f):
    return f.path if f.local else f.key


class Graph:
    def __init__(self, c):
        self.c = c
        self.edges = {}      # node -> {node: span}
        self.fmt = {}        # (trait, type text) -> node of a local formatting impl
        for f in c.fns.values():
            t = f.d.get('impl_trait')
            if f.local and f.d.get('name') == 'fmt' and f.d.get('self') is not None:
                tr = str(t).split('<')[0].split('::')[-1]
                self.fmt.setdefault((tr, generic(c.tys(f.d['self']) if isinstance(f.d['self'], int) else str(f.d['self']))), node(f))
        self.defaults = {}
        for f in c.fns.values():
            if f.local and f.d.get('trait') and not f.d.get('impl_trait'):
                self.defaults[(f.d['trait'], f.d['name'])] = node(f)
        for f in c.fns.values():
            self.add(f)

    def add(self, f):
        c, a = self.c, node(f)
        out = self.edges.setdefault(a, {})
        bodies = [f.bbs] + [p.get('bbs', []) if isinstance(p, dict) else [] for p in (f.promoted or [])]
        for bbs in bodies:
            for b in bbs:
                if b is None:
                    continue
                for s in list(b['s']) + [b['t']]:
                    got = []
                    consts_of(s, got)
                    if not got:
                        continue
                    sp = next((x for x in reversed(s) if isinstance(x, str) and re.search(r'\.rs:\d+', x)), f.d['span'])
                    for k, x in got:
                        if k == 'closure':
                            if x in c.fns:
                                out.setdefault(node(c.fns[x]), sp)
                            continue
                        if x['key'] in c.fns:
                            out.setdefault(node(c.fns[x['key']]), sp)
                        elif x.get('local') and (x.get('rpath') or x['path']) in c.by_path:
                            out.setdefault(x.get('rpath') or x['path'], sp)
                        if x.get('trait') and x['kind'] == 'none' and f.d.get('trait') == x['trait'] and not f.d.get('impl_trait'):
                            # a provided method calling a method of its own trait on Self
                            d = self.defaults.get((x['trait'], x['name']))
                            if d:
                                out.setdefault(d, sp)
                        m = re.search(r'fmt::rt::Argument.*::new_(\w+)', x['path'])
                        if m:
                            tr = {'display': 'Display', 'debug': 'Debug', 'lower_hex': 'LowerHex', 'upper_hex': 'UpperHex'}.get(m.group(1))
                            t = re.search(r'new_\w+::<(.*)>$', x['key'] or '')
                            if t:
                                d = self.fmt.get((tr, generic(re.sub(r"^(&('\w+ )?(mut )?)+", '', t.group(1)))))
                                if d:
                                    out.setdefault(d, sp)

    def cycles(self):
        """strongly connected components with a cycle"""
        idx, low, st, on, out, n = {}, {}, [], set(), [], 0
        for root in sorted(self.edges):
            if root in idx:
                continue
            work = [(root, iter(sorted(self.edges[root])))]
            idx[root] = low[root] = n
            n += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in self.edges:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n
                        n += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.edges[w]))))
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in self.edges[v]:
                            out.append(comp)
        return out

    def path_in(self, comp):
        """one cycle of the component, as (node, span, node)"""
        comp = set(comp)
        start = min(comp)
        seen, q = {start: None}, [start]
        while q:
            v = q.pop(0)
            for w in sorted(self.edges[v]):
                if w == start:
                    out = [(v, self.edges[v][w], w)]
                    while seen[v] is not None:
                        u = seen[v]
                        out.insert(0, (u, self.edges[u][v], v))
                        v = u
                    return out
                if w in comp and w not in seen:
                    seen[w] = v
                    q.append(w)
        return []


def generic(s):
    return re.sub(r'<.*', '', s)


def c52(ctx):
    ctx.rule('Call graph over the MIR of gdbstub (three feature configurations) and gdbstub_arch: an edge for every call resolved to a body, every function or closure used as a value, '
             'every provided trait method called on the same Self, and every formatting implementation reached through a format argument. Calls on the user\'s own types (target, connection, '
             'architecture, event loop) leave the library. A cycle through a function of the library is a violation: the depth of the stack must be bounded by the length of the longest path.')
    for cfg, n in CFGS:
        c = env.crate(cfg, n)
        g = Graph(c)
        loc = {f.path for f in c.fns.values() if f.local}
        ctx.count('functions', len(loc))
        ctx.count('call_edges', sum(len(v) for k, v in g.edges.items()))
        for comp in g.cycles():
            if not any(x in loc for x in comp):
                continue
            p = g.path_in(comp)
            mine = sorted(x for x in comp if x in loc)
            ctx.violation('cycle:' + mine[0], 'the call graph of %s (%s) has a cycle, so the stack depth is not bounded by the program: %s' % (
                n, cfg, ', '.join('`%s` calls `%s` at %s' % (short(a), short(b), sp) for a, sp, b in p)))
        if cfg == 'std':
            ctx.sample('longest acyclic call chain: %d functions' % longest(g))
    ctx.floor('functions', 2000)
    ctx.floor('call_edges', 5000)


def short(k):
    return k if len(k) < 120 else k[:117] + '...'


def longest(g):
    memo = {}
    comp = {x for c in g.cycles() for x in c}

    def go(v):
        if v not in memo:
            memo[v] = 0
            memo[v] = 1 + max([go(w) for w in g.edges.get(v, {}) if w not in comp] or [0])
        return memo[v]
    import sys
    sys.setrecursionlimit(20000)
    return max(go(v) for v in g.edges)


# ---------------------------------------------------------------- C51
GLOBAL = [
    (r'^std::env::', 'the process environment'),
    (r'^std::process::', 'the process'),
    (r'^(core|std)::intrinsics::abort', 'the process'),
    (r'^std::fs::', 'the file system'),
    (r'^std::thread::', 'threads'),
    (r'^(std|core)::panic::(set_hook|take_hook|update_hook|catch_unwind|resume_unwind)', 'the panic machinery'),
    (r'^std::panicking::(set_hook|take_hook|update_hook|catch_unwind)', 'the panic machinery'),
    (r'^std::time::(Instant|SystemTime)\b', 'the clock'),
    (r'^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|set_output_capture)\b', 'the standard streams'),
    (r'\bstd::io::(stdio::)?(Stdin|Stdout|Stderr)', 'the standard streams'),
    (r'^std::alloc::(alloc|dealloc|realloc|set_alloc_error_hook|take_alloc_error_hook|handle_alloc_error)', 'the allocator'),
    (r'::(net|unix::net)(::\w+)*::(TcpStream|UnixStream|TcpListener|UdpSocket|UnixListener|UnixDatagram)::(connect|bind|pair|connect_timeout|accept|incoming)', 'new connections'),
    (r'^log::(set_|__private_api::set)', 'the global logger'),
]
FOREIGN = {'recv'}


def effect(path):
    for rx, what in GLOBAL:
        if re.search(rx, path):
            return what
    return None


def c51(ctx):
    ctx.rule('Statics: every static item of gdbstub and gdbstub_arch (each feature configuration), including those hidden in function bodies and macros, must be immutable: not `static mut`, '
             'not thread-local, and of a type without interior mutability. Effects: no call, in any function, to a library function acting on the process (environment, standard streams, '
             'files, threads, clock, panic hook, new sockets); foreign functions are limited to `recv`. Together: two sessions can influence each other only through a target or '
             'connection the user shares between them.')
    for cfg, n in CFGS + (('paranoid', 'gdbstub'),):
        c = env.crate(cfg, n)
        for s in c.statics:
            ctx.count('statics')
            why = 'is `static mut`' if s['mut'] else 'is thread-local' if s['thread_local'] else None if s['freeze'] else 'has interior mutability'
            if why:
                ctx.violation('static:' + s['path'], '%s (%s): the static `%s: %s` %s: it is shared by every session of the process' % (s['span'], cfg, s['path'], s['ty'], why))
        for f in c.fns.values():
            if not f.local:
                continue
            ctx.count('functions')
            for b in f.bbs:
                if b is None:
                    continue
                t = b['t']
                if t[0] == 'call':
                    ctx.count('calls')
                for s in list(b['s']) + [t]:
                    got = []
                    consts_of(s, got)
                    for k, x in got:
                        if k != 'fn':
                            continue
                        p = x.get('rpath') or x['path']
                        w = effect(p) or effect(x['path']) or effect((x['key'] or '').lstrip('<'))
                        sp = next((y for y in reversed(s) if isinstance(y, str) and re.search(r'\.rs:\d+', y)), f.d['span'])
                        if w:
                            ctx.violation('effect:%s:%s' % (f.path, p), '%s (%s): `%s` calls `%s`, which acts on %s, outside the session\'s target and connection' % (
                                sp, cfg, f.path, p, w))
                        elif x.get('local') and x['kind'] == 'item' and x['key'] not in c.fns and p not in c.by_path and p.split('::')[-1] not in FOREIGN \
                                and not tuple_ctor(p):
                            ctx.violation('foreign:%s' % p.split('::')[-1], '%s (%s): `%s` calls the foreign function `%s`' % (sp, cfg, f.path, p))
    ctx.floor('functions', 4000)
    ctx.floor('calls', 20000)


def tuple_ctor(p):
    return bool(re.match(r'[A-Z]', p.split('::')[-1]))
