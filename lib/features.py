"""C42: the feature matrix; C50: the protocol does not depend on the configuration."""
import json
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor
import env

LEVELS = [(), ('alloc',), ('alloc', 'trace-pkt'), ('alloc', 'std'), ('alloc', 'std', 'trace-pkt')]
EXTRA = [(), ('paranoid_unsafe',), ('core_error',), ('paranoid_unsafe', 'core_error')]
COMBOS = [l + e for l in LEVELS for e in EXTRA] + [('__dead_code_marker',), ('alloc', 'std', 'trace-pkt', '__dead_code_marker')]
# spellings users write, each of which must enable what it implies
ALIASES = [('std',), ('trace-pkt',), ('std', 'trace-pkt')]
SLOTS = 6


def compile_one(slot, combo):
    tgt = os.path.join(env.BUILD, 'feat-%d' % slot)
    for fp in (os.path.join(tgt, 'debug', '.fingerprint'), os.path.join(tgt, 'debug', 'build')):
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('gdbstub-', 'gdbstub_arch-')) or d in ('gdbstub', 'gdbstub_arch'):
                    shutil.rmtree(os.path.join(fp, d))
    args = ['cargo', 'check', '--offline', '--lib', '--target-dir', tgt, '-p', 'gdbstub', '-p', 'gdbstub_arch', '--no-default-features', '--message-format', 'short']
    if combo:
        args += ['--features', ','.join(combo)]
    rc, o = env.sh(args, cwd=env.REPO, env={'CARGO_INCREMENTAL': '0'})
    errs = [l for l in o.splitlines() if re.search(r'^\S+:\d+:\d+: error|^error', l)]
    return rc, errs or ([] if rc == 0 else o.splitlines()[-5:])


def matrix():
    key = env.file_hash(env.repo_files())
    out = os.path.join(env.BUILD, 'features.json')
    with env.Lock('features'):
        if os.path.exists(out):
            d = json.load(open(out))
            if d['key'] == key:
                return d['res']
        todo = COMBOS + ALIASES
        slots = list(range(SLOTS))
        res = {}

        def work(slot):
            for i in range(slot, len(todo), SLOTS):
                rc, errs = compile_one(slot, todo[i])
                res[','.join(todo[i]) or 'no features'] = [rc, errs[:6]]
        with ThreadPoolExecutor(SLOTS) as ex:
            for f in [ex.submit(work, s) for s in slots]:
                f.result()
        json.dump({'key': key, 'res': res}, open(out, 'w'))
        return res


def c42(ctx):
    ctx.rule('The type checker accepts gdbstub and gdbstub_arch in every effective combination of the features alloc, std, trace-pkt, paranoid_unsafe and core_error (and the two '
             'shipped configurations with __dead_code_marker); and the crates linked in the configurations without std do not include std, without alloc not alloc either.')
    res = matrix()
    for k, (rc, errs) in sorted(res.items()):
        ctx.count('configurations')
        if rc:
            if not any('.rs:' in e or 'error' in e for e in errs):
                raise env.CheckError('cargo check (%s): %s' % (k, '\n'.join(errs)))
            ctx.violation('build:' + k, 'with features [%s] the library does not compile: %s' % (k, ' | '.join(errs)))
    for cfg, bad in (('none', ('std', 'alloc')), ('alloc', ('std',))):
        try:
            c = env.crate(cfg)
        except env.BuildFailure:
            continue
        ctx.count('linked_crate_sets')
        for x in bad:
            if x in c.crates:
                ctx.violation('links:%s:%s' % (cfg, x), 'without the feature that provides it (configuration %s) the library links `%s`: %s' % (cfg, x, sites(c, x)))
    try:
        c = env.crate('arch', 'gdbstub_arch')
        ctx.count('linked_crate_sets')
        for x in ('std', 'alloc'):
            if x in c.crates:
                ctx.violation('links:gdbstub_arch:' + x, 'gdbstub_arch links `%s`: %s' % (x, sites(c, x)))
    except env.BuildFailure:
        pass
    ctx.floor('configurations', len(COMBOS))
    ctx.sample('configurations: ' + '; '.join(sorted(res)))


def sites(c, x):
    out = []
    for f in c.fns.values():
        if not f.local:
            continue
        for b in f.bbs:
            t = b and b['t']
            if t and t[0] == 'call' and isinstance(t[1], dict) and 'k' in t[1] and 'fn' in t[1]['k'] and t[1]['k']['fn'].get('krate') == x:
                out.append(f.key)
    return ', '.join(sorted(set(out))[:5]) or 'extern crate declaration'
