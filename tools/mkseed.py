#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: turns seed descriptions into /verif/seeded/<id>/ after confirming each one in a scratch copy:
the change compiles, the repository's tests still pass, the demo passes without and fails with it. Prints what the checks say."""
import os, shutil, subprocess, sys, json, runpy
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SC = os.environ.get('SEED_SCRATCH', '/tmp/sc/repo')


def sh(c, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    if not os.path.exists(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        sh(['cp', '-a', '/repo', SC])
    for s in specs:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SC)
        ok = True
        for f, a, b in s['edits']:
            p = os.path.join(SC, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'EDIT does not apply (%d matches)' % t.count(a), f, a[:60]); ok = False; break
            open(p, 'w').write(t.replace(a, b))
        if not ok:
            continue
        rc, diff = sh('git diff', cwd=SC)
        d = os.path.join(V, 'seeded', s['id'])
        tmp = '/tmp/sc/seed-' + s['id']
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        shutil.copy(os.path.join(V, 'tools', 'demo', 'demo.sh'), tmp)
        shutil.copy(os.path.join(V, 'tools', 'demo', 'harness.rs'), tmp)
        open(tmp + '/main.rs', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        rc, o = sh('cargo test --workspace --features=std --offline 2>&1', cwd=SC)
        if rc:
            print(s['id'], 'TESTS FAIL', o[-800:]); continue
        if 'nopanic' in s:
            rc, o = sh('CARGO_INCREMENTAL=0 bash example_no_std/dump_asm.sh', cwd=SC)
            if rc or 'no panics in example_no_std' not in o:
                print(s['id'], 'PANIC TEST FAILS', o[-500:]); continue
        rc1, o1 = sh(['sh', tmp + '/demo.sh'], cwd=SC)
        rc0, o0 = sh(['sh', tmp + '/demo.sh'], cwd='/repo')
        if rc0 != 0 or rc1 == 0:
            print(s['id'], 'DEMO wrong: clean', rc0, 'patched', rc1, (o0 if rc0 else o1)[-1500:]); continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
        rc, o = sh(['./check', s['property']], cwd=V, env={'VERIF_REPO': SC, 'VERIF_BUILD': os.path.join(os.path.dirname(SC), 'build')})
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(s['id'], s['property'], 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, '|', (o.splitlines() or [''])[0][:300])
    sh('git checkout -q -- .', cwd=SC)


main()
