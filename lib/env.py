"""Driver build, MIR dumps of /repo's current tree (cached by content hash), check context and reporting."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
DRIVER = os.path.join(VERIF, 'build', 'driver', 'debug', 'mirdump')


class CheckError(Exception):
    """the check itself could not run"""


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf8', 'replace')


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def repo_files(sub=('src', 'gdbstub_arch', 'Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo', 'rust-toolchain', 'rust-toolchain.toml')):
    out = []
    for s in sub:
        p = os.path.join(REPO, s)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in ('target', '.git')]
            out += [os.path.join(d, f) for f in fs if os.path.isfile(os.path.join(d, f))]
    return out


_sysroot = None


def libpath():
    global _sysroot
    if _sysroot is None:
        rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'])
        if rc:
            raise CheckError('no nightly toolchain: ' + o)
        _sysroot = o.strip().splitlines()[-1]
    return os.path.join(_sysroot, 'lib')


def build_driver():
    src = os.path.join(VERIF, 'driver')
    files = [os.path.join(d, f) for d, ds, fs in os.walk(src) for f in fs if 'target' not in d]
    h = file_hash(files)
    stamp = os.path.join(VERIF, 'build', 'driver.stamp')
    with Lock('driver'):
        if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        rc, o = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(VERIF, 'build', 'driver')], cwd=src, timeout=800)
        if rc:
            raise CheckError('MIR driver does not build:\n' + o[-3000:])
        with open(stamp, 'w') as f:
            f.write(h)


CONFIGS = {
    'std': dict(args=[], crates=['gdbstub']),
    'arch': dict(args=[], crates=['gdbstub', 'gdbstub_arch']),
    'paranoid': dict(args=['--features', 'paranoid_unsafe'], crates=['gdbstub']),
    'alloc': dict(args=['--no-default-features', '--features', 'alloc'], crates=['gdbstub']),
    'none': dict(args=['--no-default-features'], crates=['gdbstub']),
}


class BuildFailure(CheckError):
    """/repo itself does not compile in that configuration"""


def dump(cfg='std'):
    """path of the directory with the MIR dumps of /repo's current tree in configuration cfg"""
    build_driver()
    c = CONFIGS[cfg]
    with open(DRIVER, 'rb') as f:
        dh = hashlib.sha256(f.read()).hexdigest()[:8]
    key = file_hash(repo_files()) + dh
    root = os.path.join(BUILD, 'dump-' + cfg)
    out = os.path.join(root, key)
    with Lock('dump-' + cfg):
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, 'tgt-' + cfg)
        for fp in (os.path.join(tgt, 'debug', '.fingerprint'), os.path.join(tgt, 'debug', 'build')):     # old and new cargo layouts
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('gdbstub-', 'gdbstub_arch-')) or d in ('gdbstub', 'gdbstub_arch'):
                        shutil.rmtree(os.path.join(fp, d))
        args = ['cargo', '+nightly', 'check', '--offline', '--lib', '--target-dir', tgt]
        for p in c['crates']:
            args += ['-p', p]
        args += c['args']
        rc, o = sh(args, cwd=REPO, env={'RUSTFLAGS': '-Zmir-opt-level=0', 'MIRDUMP_CRATES': ','.join(c['crates']), 'MIRDUMP_OUT': out,
                                        'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'LD_LIBRARY_PATH': libpath(), 'CARGO_INCREMENTAL': '0'})
        if rc:
            raise BuildFailure('cargo check (%s) failed:\n%s' % (cfg, o[-3000:]))
        for p in c['crates']:
            if not os.path.exists(os.path.join(out, p + '.json')):
                raise CheckError('no MIR dump of %s (%s):\n%s' % (p, cfg, o[-2000:]))
        open(os.path.join(out, 'ok'), 'w').close()
    return out


_crates = {}


def crate(cfg='std', name='gdbstub'):
    import mir
    k = (cfg, name)
    if k not in _crates:
        _crates[k] = mir.Crate(os.path.join(dump(cfg), name + '.json'), std=name == 'gdbstub_arch',
                               like=os.path.join(dump('std'), 'gdbstub.json') if cfg in ('alloc', 'none') else None)
    return _crates[k]


def known_findings():
    """{(property, key): text} of accepted findings; `fixed:` lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                parts = [x.strip() for x in l[len('finding: '):].split('|', 2)]
                prop = parts[0].replace('property=', '')
                out[(prop, parts[1])] = parts[2]
    return out


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = []          # (key, text)
        self.undec = []
        self.cov = {}
        self.samples = []
        self.assume = []
        self.rules = []
        self.t0 = time.time()

    def violation(self, key, text):
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def undecided(self, text):
        self.undec.append(text)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def floor(self, name, n):
        """fail closed when fewer instances than counted by hand were analysed"""
        if self.cov.get(name, 0) < n and self.undec:
            self.undecided('only %d of at least %d %s were analysed' % (self.cov.get(name, 0), n, name))
        elif self.cov.get(name, 0) < n:
            self.violation('floor:' + name, 'the analysis matched only %d %s (at least %d exist in the reviewed tree): the code the rule is '
                           'anchored to is gone or no longer recognised' % (self.cov.get(name, 0), name, n))

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        known = known_findings()
        new, old = [], []
        for k, t in self.viol:
            (old if (self.prop, k) in known else new).append((k, t))
        rep = os.path.join(ev, self.prop + '.report.txt')
        with open(rep, 'w') as f:
            for k, t in new:
                f.write('VIOLATION %s [%s]\n  %s\n\n' % (self.prop, k, t.replace('\n', '\n  ')))
            for k, t in old:
                f.write('KNOWN %s [%s]\n  %s\n\n' % (self.prop, k, t))
            for t in self.undec:
                f.write('undecided: %s\n' % t)
        for k, t in old:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[(self.prop, k)]))
        cov = {'explanation': 'Static decision on /repo\'s current sources (nothing of gdbstub is executed). ' + ' '.join(self.rules),
               'counts': self.cov, 'samples': self.samples, 'undecided_differences': len(self.undec), 'undecided': self.undec[:20]}
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
                   'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)},
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for k, t in new[:10]:
            print('%s: %s' % (k, t[:1500]))
        for t in self.undec[:10]:
            print('undecided: ' + t[:400])
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('property %s holds on everything analysed: %s' % (self.prop, json.dumps(self.cov, sort_keys=True)))
        return 0
