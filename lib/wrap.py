"""C27: targets behind `Box<dyn Target>` / `&mut dyn Target`; C48: what an unimplemented optional method answers."""
import re
import env
import funcs
from absint import *

TR = 'target::Target'
NAMES = re.compile(r'^(support_|use_|guard_rail_|base_ops$)')


def calls(f):
    for b in f.bbs:
        if b and b['t'][0] == 'call' and isinstance(b['t'][1], dict) and 'k' in b['t'][1] and 'fn' in b['t'][1]['k']:
            yield b['t'][1]['k']['fn'], b['t'][5]


def returned(v):
    """the name of the Target query whose result v is, or None"""
    if isinstance(v, tuple) and v[0] == 'gate':
        return v[1]
    if isinstance(v, tuple) and v[0] == 'res':
        return v[1]
    return None


def c27(ctx):
    ctx.rule('for every method of the Target trait and every wrapper of a dyn Target in the library (each feature configuration): the wrapper overrides the method, '
             'never calls itself, and on every path returns the result of the wrapped target\'s method of the same name without doing anything else')
    for cfg, want in (('std', ('Box', '&mut')), ('alloc', ('Box', '&mut')), ('none', ('&mut',))):
        c = env.crate(cfg)
        methods = [(i[0], i[2]) for i in c.traits[TR]['items'] if i[1] == 'Fn'] if TR in c.traits else []
        if not methods:
            ctx.violation('missing:Target', 'there is no public trait target::Target (%s)' % cfg)
            return
        imps = [i for i in c.impls if i['trait_path'] == TR]
        got = []
        for i in imps:
            ty = c.types[i['self']]
            s = ty['s']
            kind = '&mut' if s.startswith('&mut ') else 'Box' if re.match(r'(std|alloc)::boxed::Box<', s) else None
            if kind is None:
                ctx.undecided('another wrapper: %s' % s)
                continue
            got.append(kind)
            ctx.count('wrappers')
            items = {x[0]: x for x in i['items'] if x[1] == 'Fn'}
            for m, dflt in methods:
                key = '%s:%s:%s' % (cfg, kind, m)
                ctx.count('obligations')
                if m not in items:
                    if NAMES.match(m):
                        ctx.violation(key, '`%s` (%s) does not forward `%s`: the trait\'s default answers instead of the wrapped target' % (s, cfg, m))
                    else:
                        ctx.undecided('%s does not override %s' % (s, m))
                    continue
                f = c.fns.get(items[m][2])
                if f is None:
                    ctx.undecided('no body of %s' % items[m][2])
                    continue
                if any(cal.get('trait') == TR and cal['name'] == m and (cal.get('key') == f.key or cal['targs'] and cal['targs'][0] == i['self']) for cal, sp in calls(f)):
                    ctx.violation(key, '`%s` (%s): `%s` calls itself for ever instead of the wrapped target (%s)' % (s, cfg, m, f.d['span']))
                    continue
                try:
                    I, outs = funcs.run(c, f, [('arg', 'a%d' % n) for n in range(f.argc)])
                except Undecided as e:
                    ctx.undecided('%s: %s' % (key, e))
                    continue
                for k, st, v in outs:
                    ctx.count('paths')
                    r = None if k == 'panic' else returned(v)
                    other = [t for t in st.trace if t[0] == 'e' and t[1] != 'Target.' + m]
                    if r == 'Target.' + m and not other:
                        continue
                    if k == 'panic':
                        ctx.violation(key, '`%s` (%s): `%s` may panic (%s)' % (s, cfg, m, f.d['span']))
                    elif r is not None or isinstance(v, tuple) and v[0] == 'i' or isinstance(v, tuple) and v[0] == 'adt' and not any(t[0] == 'c' for t in st.trace):
                        ctx.violation(key, '`%s` (%s): `%s` returns %s instead of the wrapped target\'s `%s` (%s)' % (s, cfg, m, r or str(v)[:80], m, f.d['span']))
                    elif other:
                        ctx.violation(key, '`%s` (%s): `%s` also does %s (%s)' % (s, cfg, m, [t[1] for t in other], f.d['span']))
                    else:
                        ctx.undecided('%s returns %s' % (key, str(v)[:100]))
            ctx.sample('%s %s: %d methods' % (cfg, s[:60], len(methods)))
        for w in want:
            if w not in got:
                ctx.violation('%s:missing:%s' % (cfg, w), 'no implementation of Target for `%s dyn Target` (%s)' % (w, cfg))
    ctx.floor('obligations', 21 * 5)


# documented default of the methods of Target which are not capability objects
BOOL = {'guard_rail_implicit_sw_breakpoints': 0, 'use_no_ack_mode': 1, 'use_x_upcase_packet': 1, 'use_resume_stub': 1, 'use_rle': 1,
        'use_target_description_xml': 1, 'use_lldb_register_info': 1}


def c48(ctx):
    ctx.rule('for every provided `support_*` method of every target trait: its only outcome is None and it calls nothing of the user; for the boolean settings: '
             'the documented default')
    for cfg in ('std', 'none'):
        c = env.crate(cfg)
        for tp, t in sorted(c.traits.items()):
            if not tp.startswith('target::'):
                continue
            for name, kind, dflt in [i[:3] for i in t['items']]:
                if kind != 'Fn' or not dflt or not (name.startswith('support_') or name in BOOL):
                    continue
                f = c.fns.get('<Self as %s>::%s' % (tp, name))
                if f is None:
                    ctx.undecided('no body of %s::%s' % (tp, name))
                    continue
                key = '%s:%s::%s' % (cfg, tp, name)
                ctx.count('defaults')
                try:
                    I, outs = funcs.run(c, f, [('arg', 'a%d' % n) for n in range(f.argc)])
                except Undecided as e:
                    ctx.undecided('%s: %s' % (key, e))
                    continue
                for k, st, v in outs:
                    if k == 'panic' or any(x[0] == 'e' for x in st.trace):
                        ctx.violation(key, 'the default of `%s::%s` panics or calls the target (%s)' % (tp, name, f.d['span']))
                        continue
                    cv = I.canon(st, v)
                    if name in BOOL:
                        if cv == ('i', BOOL[name]):
                            continue
                        (ctx.violation if cv[0] in ('i', 'gate') else lambda k, t: ctx.undecided(t))(
                            key, '`%s::%s` answers %s by default, documented is %s (%s)' % (tp, name, cv, bool(BOOL[name]), f.d['span']))
                    elif cv[0] == 'adt' and cv[2] == 'None':
                        continue
                    elif cv[0] in ('adt', 'gate'):
                        ctx.violation(key, 'the optional `%s::%s` is not None when a target does not implement it: %s (%s)' % (tp, name, str(cv)[:80], f.d['span']))
                    else:
                        ctx.undecided('%s is %s' % (key, str(cv)[:80]))
        for n, b in BOOL.items():
            if not any(i[0] == n and i[2] for i in c.traits.get(TR, {'items': []})['items']):
                ctx.violation('%s:missing:%s' % (cfg, n), 'the setting Target::%s has no default any more' % n)
    ctx.floor('defaults', 2 * 44)


HIO = 'target::ext::host_io::'
ERRNO = dict(EPERM=1, ENOENT=2, EINTR=4, EBADF=9, EACCES=13, EFAULT=14, EBUSY=16, EEXIST=17, ENODEV=19, ENOTDIR=20, EISDIR=21, EINVAL=22, ENFILE=23, EMFILE=24,
             EFBIG=27, ENOSPC=28, ESPIPE=29, EROFS=30, ENOSYS=88, ENAMETOOLONG=91, EUNKNOWN=9999)
FLAGS = {'HostIoOpenFlags': dict(O_RDONLY=0, O_WRONLY=1, O_RDWR=2, O_APPEND=8, O_CREAT=0x200, O_TRUNC=0x400, O_EXCL=0x800, O_NONBLOCK=1 << 28,
                                 O_DONT_FOLLOW_SYMLINKS=1 << 29, O_CLOSE_ON_EXEC=1 << 30, O_INVALID=1 << 31),
         'HostIoOpenMode': dict(S_IFREG=0o100000, S_IFDIR=0o40000, S_IFCHR=0o20000, S_IRUSR=0o400, S_IWUSR=0o200, S_IXUSR=0o100, S_IRGRP=0o40, S_IWGRP=0o20,
                                S_IXGRP=0o10, S_IROTH=4, S_IWOTH=2, S_IXOTH=1)}
OPTIONAL = {'ENOSYS', 'S_IFCHR'}


def c49(ctx):
    ctx.rule('the discriminant of every HostIoErrno variant and the compiled value of every HostIoOpenFlags / HostIoOpenMode constant is the number of the File-I/O '
             'protocol; the set of all flags accepted from the client is exactly the named ones; io::Error kinds map as reviewed')
    c = env.crate('std')
    ty = [t for t in c.types if t['k'] == 'adt' and t['path'] == HIO + 'HostIoErrno']
    if not ty:
        ctx.violation('missing:HostIoErrno', 'there is no public HostIoErrno')
    else:
        got = {v['name']: int(v['discr']) for v in ty[0]['variants']}
        for n in set(got) | set(ERRNO):
            ctx.count('numbers')
            if n not in ERRNO:
                ctx.undecided('errno %s is not in the reference' % n)
            elif n not in got:
                if n not in OPTIONAL:
                    ctx.violation('missing:' + n, 'HostIoErrno::%s does not exist' % n)
            elif got[n] != ERRNO[n]:
                ctx.violation('HostIoErrno::' + n, 'HostIoErrno::%s is %d, the protocol\'s number is %d' % (n, got[n], ERRNO[n]))
    for tn, ref in FLAGS.items():
        all_ = 0
        seen = {}
        for k, v in c.consts.items():
            m = re.match(re.escape(HIO + tn) + r'::([A-Z_]+)$', k)
            if not m or not v['pub']:
                continue
            try:
                n = v['value']['fields'][0]['int']
            except (KeyError, IndexError, TypeError):
                ctx.undecided('%s is not a plain number' % k)
                continue
            seen[m.group(1)] = n
            all_ |= n
        for n in set(seen) | set(ref):
            ctx.count('numbers')
            if n not in ref:
                ctx.undecided('%s::%s is not in the reference' % (tn, n))
            elif n not in seen:
                if n not in OPTIONAL:
                    ctx.violation('missing:' + n, '%s::%s does not exist' % (tn, n))
            elif seen[n] != ref[n]:
                ctx.violation(tn + '::' + n, '%s::%s is 0x%x, the protocol\'s value is 0x%x' % (tn, n, seen[n], ref[n]))
        for k, v in c.consts.items():
            if tn in k and k.endswith('::ALL') and 'fields' in v['value']:
                ctx.count('numbers')
                if v['value']['fields'][0].get('int') != all_:
                    ctx.violation(tn + '::all', 'the accepted bits of %s (0x%x) are not the named ones (0x%x)' % (tn, v['value']['fields'][0].get('int'), all_))
    ctx.floor('numbers', 20 + 11 + 11)
