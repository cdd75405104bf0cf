"""C24: no call into the panic machinery is left in the optimised code of a no_std session over a target with every extension."""
import json
import os
import re
import shutil
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import env
import extract
import fviews
import summ
from absint import Undecided

SRC = os.path.join(env.VERIF, 'panicfree')
SLOTS = 8
ALL = (1 << 51) - 1
# accesses the optimiser is known to handle when written with care (fixed in eadd12b): the optimised code itself must be free of panics there
STRICT = (('_vFile_readlink.rs', 'from_packet'), ('_qTBuffer.rs', 'from_packet'), ('tracepoints.rs', 'parse_raw_actions'))


def names():
    """capability of each bit, from the harness source"""
    out, cur = {}, None
    for l in open(os.path.join(SRC, 'src', 'lib.rs')):
        m = re.match(r'impl (\S+) for T', l)
        if m:
            cur = m.group(1)
        m = re.search(r'fn (\w+)\(.*\bon\((\d+)\)', l)
        if m and cur:
            out[int(m.group(2))] = '%s::%s' % (cur, m.group(1))
    return out


def configs():
    n = names()
    out = [('everything, multi-threaded, 32 bit', ALL, 'u32', '3'), ('everything, single-threaded, 32 bit', ALL & ~1, 'u32', '3'),
           ('everything, multi-threaded, 64 bit, optimised for size', ALL, 'u64', 's'), ('everything, single-threaded, 64 bit, optimised for size', ALL & ~1, 'u64', 's')]
    for b, name in sorted(n.items()):
        if b:
            base = ALL & ~1 if 'SingleThread' in name or b % 2 else ALL
            if 'MultiThread' in name:
                base = ALL
            out.append(('all but ' + name, base & ~(1 << b), 'u64' if b % 3 else 'u32', '3'))
    return out


def build(slot, cfg, where='panic', features=()):
    """the optimised LLVM IR of one configuration"""
    name, on, u, opt = cfg
    d = os.path.join(env.BUILD, where, str(slot))
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    text = open(os.path.join(SRC, 'Cargo.toml.in')).read().replace('@REPO@', env.REPO)
    if features:
        text = text.replace('default-features = false', 'default-features = false, features = %s' % json.dumps(list(features)), 1)
    for f, t in (('Cargo.toml', text), ('src/lib.rs', open(os.path.join(SRC, 'src', 'lib.rs')).read()), ('src/config.rs', 'pub const ON: u64 = %d;\npub type U = %s;\n' % (on, u)),
                 ('Cargo.lock', open(os.path.join(SRC, 'Cargo.lock')).read())):
        with open(os.path.join(d, f), 'w') as o:
            o.write(t)
    deps = os.path.join(d, 'target', 'release', 'deps')
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(('everything', 'libeverything')):
                os.remove(os.path.join(deps, f))
    rc, o = env.sh(['cargo', 'rustc', '--release', '--offline', '--target-dir', os.path.join(d, 'target'), '--message-format', 'short', '--', '--emit', 'llvm-ir'], cwd=d,
                   env={'CARGO_INCREMENTAL': '0', 'CARGO_PROFILE_RELEASE_OPT_LEVEL': opt, 'RUSTFLAGS': ''})
    if rc:
        return None, '\n'.join([l for l in o.splitlines() if 'error' in l][:4])
    ll = [f for f in os.listdir(deps) if f.startswith('everything') and f.endswith('.ll')]
    return os.path.join(deps, ll[0]), None


class IR:
    def __init__(self, path):
        self.md, self.fns = {}, {}
        cur = None
        for l in open(path, errors='replace'):
            if l.startswith('!'):
                m = re.match(r'^(!\d+) = (?:distinct )?(.*)', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif l.startswith('define'):
                cur = re.search(r'@("[^"]+"|[\w.$]+)\(', l).group(1)
                self.fns[cur] = []
            elif l.startswith('}'):
                cur = None
            elif cur:
                m = re.search(r'\b(?:call|invoke)\b.*?@("[^"]+"|[\w.$]+)\(', l)
                d = re.search(r'!dbg (!\d+)', l)
                if m:
                    self.fns[cur].append((m.group(1), d and d.group(1)))
                for x in re.findall(r'@("[^"]+"|[\w.$]+)', l[m.end():] if m else l):
                    self.fns[cur].append((x, d and d.group(1)))

    def panicking(self):
        """functions that certainly lead to the panic handler: those of core whose calls include it, transitively, and never return"""
        bad = {'__panicked', 'llvm.trap', 'abort'}
        while True:
            new = {f for f, cs in self.fns.items() if f not in bad and any(c in bad for c, _ in cs) and self.core(f)}
            if not new:
                return bad
            bad |= new

    def core(self, f):
        return bool(re.match(r'^_RN[a-zA-Z0-9_]*?Cs\w+?_4core', f)) or 'rust_begin_unwind' in f or 'panic_handler' in f or 'begin_unwind' in f

    def chain(self, d):
        """[(file, line, function)] from the innermost inlined frame outwards"""
        out = []
        while d and d in self.md:
            s = self.md[d]
            line = re.search(r'line: (\d+)', s)
            sc = re.search(r'scope: (!\d+)', s)
            ia = re.search(r'inlinedAt: (!\d+)', s)
            name = f = '?'
            x = sc and sc.group(1)
            while x:
                y = self.md[x]
                n = re.search(r'DISubprogram\(name: "([^"]*)"', y)
                ff = re.search(r'file: (!\d+)', y)
                if ff and f == '?':
                    z = self.md[ff.group(1)]
                    f = re.search(r'filename: "([^"]*)"', z).group(1)
                    dr = re.search(r'directory: "([^"]*)"', z)
                    if dr and not f.startswith('/'):
                        f = os.path.join(dr.group(1), f)
                if n:
                    name = n.group(1)
                    break
                z = re.search(r'scope: (!\d+)', y)
                x = z and z.group(1)
            out.append((f, int(line.group(1)) if line else 0, name))
            d = ia and ia.group(1)
        return out


def residual(path):
    """[(function, inline chain)] of the calls into the panic machinery outside core"""
    ir = IR(path)
    bad = ir.panicking()
    out = []
    for f, cs in ir.fns.items():
        if f in bad:
            continue
        for c, d in cs:
            if c in bad:
                out.append((f, ir.chain(d)))
    return out, len(ir.fns)


def all_configs():
    key = env.file_hash(env.repo_files(('src', 'Cargo.toml')) + [os.path.join(SRC, 'src', 'lib.rs'), os.path.join(SRC, 'Cargo.toml.in'), __file__])
    out = os.path.join(env.BUILD, 'panic.json')
    with env.Lock('panic'):
        if os.path.exists(out):
            d = json.load(open(out))
            if d['key'] == key:
                return d['res']
        todo = configs()
        res = [None] * len(todo)

        def work(slot):
            for i in range(slot, len(todo), SLOTS):
                p, err = build(slot, todo[i])
                res[i] = [todo[i][0], None, 0, err] if p is None else [todo[i][0]] + list(residual(p)) + [None]
        with ThreadPoolExecutor(SLOTS) as ex:
            for f in [ex.submit(work, s) for s in range(SLOTS)]:
                f.result()
        json.dump({'key': key, 'res': res}, open(out, 'w'))
        return res


def obligations(name):
    """{file:line: is every bounds obligation there proven} over the abstract paths of one packet"""
    out = {}
    try:
        I, _ = extract.extract(env.crate('std'), name)
    except (Undecided, summ.TooBig, KeyError):
        return out
    for k, o in I.oblig.items():
        s = str(o['span'])
        out[s] = out.get(s, True) and bool(o['proven'])
    return out


def proven():
    """lines of the library whose bounds obligations all hold on every abstract path of every packet"""
    tot = {}
    env.crate('std')
    with ProcessPoolExecutor(SLOTS) as ex:
        for d in ex.map(obligations, extract.NAMES):
            for s, ok in d.items():
                tot[s] = tot.get(s, True) and ok
    return {s for s, ok in tot.items() if ok}


def c24(ctx):
    ctx.rule('A no_std session over a target that implements every extension (all its methods, the connection and the event loop being opaque external code) is compiled with optimisation '
             'and whole-program linking; in the resulting LLVM IR no function outside core may call anything that leads to the panic handler. Done with every extension enabled (multi- and '
             'single-threaded, 32 and 64 bit addresses) and once with each capability disabled.')
    found = {}
    for name, calls, n, err in all_configs():
        if calls is None:
            ctx.undecided('%s: the harness does not build: %s' % (name, err))
            continue
        if not any(f == 'control' for f, _ in calls):
            raise env.CheckError('%s: the control panic was not found in the optimised code' % name)
        ctx.count('configurations')
        ctx.count('functions', n)
        for f, ch in calls:
            if f == 'control':
                continue
            ch = [tuple(x) for x in ch]
            lib = next((x for x in ch if x[0].startswith(env.REPO.rstrip('/') + '/')), None)
            found.setdefault(lib or (f, 0, f), []).append((name, ch))
    safe = proven() if found else ()
    for (f, line, fn), xs in sorted(found.items()):
        f = f.replace(env.REPO.rstrip('/') + '/', '')
        fn = fn.split('<')[0]
        if '%s:%d' % (f, line) in safe and (os.path.basename(f), fn) not in STRICT:
            ctx.undecided('%s:%d: the optimiser keeps a bounds check in `%s`, but the access is within bounds on every abstract path' % (f, line, fn))
            continue
        ctx.violation('panic:%s:%s' % (f, fn), '%s:%d: `%s` keeps a call into the panic machinery in the optimised code (%s; %d configurations), through %s' % (
            f, line, fn, xs[0][0], len(xs), ' <- '.join('%s:%d %s' % (os.path.basename(a), b, c) for a, b, c in xs[0][1])))
    ctx.floor('configurations', 50)
