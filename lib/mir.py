"""Loader for the JSON written by the MIR driver + CFG utilities (RPO, natural loops, liveness)."""
import json
import re


class Fn:
    __slots__ = ('d', 'key', 'bbs', 'argc', 'locals', 'rpo', 'order', 'heads', 'loops', '_live', 'taken', 'promoted', 'path', 'local')

    def __init__(self, d, is_body=True):
        self.d = d
        self.key = d.get('key')
        self.path = d.get('path')
        self.local = d.get('local', True)
        self.bbs = d['bbs']
        self.argc = d['argc']
        self.locals = d['locals']
        self.promoted = d.get('promoted', [])
        self.rpo = None
        self._live = None

    def succs(self, b):
        t = self.bbs[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        if k == 'drop':
            return [t[2]]
        return []

    def cfg(self):
        if self.rpo is not None:
            return
        seen = set()
        post = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        onst = {0}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if self.bbs[s] is None:
                    continue
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
                elif s in onst:
                    back.append((b, s))
            else:
                stack.pop()
                onst.discard(b)
                post.append(b)
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        preds = {}
        for b in seen:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds.get(x, []))
        self.loops = loops

    def live(self):
        """locals live at block entry; address-taken locals are kept alive until StorageDead"""
        if self._live is not None:
            return self._live
        self.cfg()
        taken = set()

        def opu(o, use):
            for k in ('c', 'm'):
                if k in o:
                    plu(o[k], use)

        def plu(p, use):
            use.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    use.add(e[1])

        def stmt(s):
            use, de = set(), set()
            if s[0] == '=':
                p, r = s[1], s[2]
                if len(p) == 1:
                    de.add(p[0])
                else:
                    plu(p, use)
                k = r[0]
                if k in ('use',):
                    opu(r[1], use)
                elif k == 'repeat':
                    opu(r[1], use)
                elif k == 'ref':
                    plu(r[2], use)
                    if '*' not in r[2][1:]:
                        taken.add(r[2][0])
                elif k == 'raw':
                    plu(r[1], use)
                    if '*' not in r[1][1:]:
                        taken.add(r[1][0])
                elif k == 'cast':
                    opu(r[2], use)
                elif k == 'bin':
                    opu(r[2], use)
                    opu(r[3], use)
                elif k == 'un':
                    opu(r[2], use)
                elif k == 'discr':
                    plu(r[1], use)
                elif k == 'agg':
                    for o in r[2]:
                        opu(o, use)
            elif s[0] == 'setd':
                plu(s[1], use)
            elif s[0] == 'dead':
                de.add(s[1])
            return use, de

        gen, kill = {}, {}
        for b in self.rpo:
            g, kl = set(), set()
            for s in self.bbs[b]['s']:
                u, d = stmt(s)
                g |= u - kl
                kl |= d
            t = self.bbs[b]['t']
            u, d = set(), set()
            if t[0] == 'switch':
                opu(t[1], u)
            elif t[0] == 'call':
                opu(t[1], u)
                for a in t[2]:
                    opu(a, u)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    plu(t[3], u)
            elif t[0] == 'assert':
                opu(t[1], u)
                for o in t[4]:
                    opu(o, u)
            elif t[0] == 'drop':
                plu(t[1], u)
            elif t[0] == 'return':
                u.add(0)
            g |= u - kl
            kl |= d
            gen[b], kill[b] = g, kl
        live = {b: set(gen[b]) for b in self.rpo}
        ch = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in self.succs(b):
                    out |= live.get(s, set())
                n = gen[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.taken = taken
        self._live = live
        return live


NAME = re.compile(r'\b(core|alloc)(::\w+)+')


def rename_like(text, std):
    """a no_std build names library items through core and alloc: use the names the same items have in the std build"""
    known = {m.group(0) for m in re.finditer(r'\b(core|alloc|std)(::\w+)+', std)}
    memo = {}

    def new(m):
        t = m.group(0)
        if t not in memo:
            memo[t] = t
            seg = t.split('::')
            for n in range(len(seg), 1, -1):
                if '::'.join(seg[:n]) in known:
                    break
                if '::'.join(['std'] + seg[1:n]) in known:
                    memo[t] = '::'.join(['std'] + seg[1:])
                    break
        return memo[t]
    return NAME.sub(new, text)


class Crate:
    def __init__(self, path, std=False, like=None):
        text = open(path).read()
        if like:
            text = rename_like(text, open(like).read())
        if std:     # a no_std crate names library items through core: use the names the models have
            text = re.sub(r'\bcore::((ops|iter|option|result|convert|cmp|mem|clone|default|fmt|marker|intrinsics)::|num::NonZero)', r'std::\1', text)
        d = json.loads(text)
        self.name = d['crate']
        self.types = d['types']
        self.traits = {t['path']: t for t in d['traits']}
        self.impls = d['impls']
        self.consts = {c['path']: c for c in d['consts']}
        self.unsafe = d.get('unsafe', [])
        self.crates = d.get('crates', [])
        self.statics = d.get('statics', [])
        self.fns = {f['key']: Fn(f) for f in d['fns']}
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)

    def tys(self, i):
        return self.types[i]['s']

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def loc_of(self, key):
        f = self.fns.get(key)
        return f.d['span'] if f else '?'
