#!/usr/bin/env python3
"""Confirm planted bugs: seed.py ID...   (all of /verif/seeded without arguments)

For each: in a scratch copy of /repo, the demo passes unpatched and fails patched; then this property's check
is run against the patched copy (VERIF_REPO). The build and the stable tests, which are tied to /repo itself, are
run there with --build (the patch is applied to /repo and undone again)."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf, tempfile, time
V = '/verif'

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build(i):
    d = f'{V}/seeded/{i}'
    a = run(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'])
    if a.returncode: return 'patch does not apply: ' + a.stdout[-200:]
    try:
        r = run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'])
        o = open('/tmp/seedtest.json').read()
        return 'tests pass' if r.returncode == 0 and '"failed": []' in o.replace('\n', '') or 'passed' in o and r.returncode == 0 else 'TESTS FAIL ' + r.stdout[-300:] + o
    finally:
        run(['git', '-C', '/repo', 'checkout', '--', '.'])

def one(i, checks=None):
    d = f'{V}/seeded/{i}'; meta = json.load(open(f'{d}/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-' + i + '-', dir='/tmp')
    try:
        repo = w + '/repo'
        run(['git', 'clone', '-q', '/repo', repo])
        demo = w + '/demo'; shutil.copytree(d, demo)
        r0 = run(['bash', demo + '/demo.sh'], cwd=repo)
        a = run(['git', '-C', repo, 'apply', d + '/patch.diff'])
        if a.returncode: return i, 'PATCH DOES NOT APPLY ' + a.stdout
        r1 = run(['bash', demo + '/demo.sh'], cwd=repo)
        s = f'demo {r0.returncode}/{r1.returncode}'
        if r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 3: s = 'BAD DEMO ' + s + r0.stdout[-300:] + r1.stdout[-300:]
        for p in checks or [meta['property']]:
            t = time.time()
            # a copy of /verif, so that evidence and replays of concurrent runs do not mix
            v = w + '/verif'; shutil.rmtree(v, ignore_errors=True)
            run(['git', 'clone', '-q', V, v])
            run(f'cd {V} && tar cf - --exclude=./.git --exclude=./.build --exclude=./seeded --exclude=./evidence --exclude=./.replays . | tar xf - -C {v}', shell=True)
            c = run([sys.executable, 'check.py', p], cwd=v, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            vio = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            caught = c.returncode == 1 and any(f'property={p}' in l for l in vio)
            s += f'  {p}: ' + ('caught' if caught else f'MISSED rc={c.returncode} ' + c.stdout[-400:]) + f' {time.time()-t:.0f}s'
        return i, s
    finally:
        shutil.rmtree(w)

if __name__ == '__main__':
    args = sys.argv[1:]
    b = '--build' in args; args = [a for a in args if a != '--build']
    checks = [a for a in args if len(a) == 3 and a[0] == 'C' and a[1:].isdigit()]; args = [a for a in args if a not in checks]
    ids = args or sorted(os.listdir(V + '/seeded'))
    if b:
        for i in ids: print(i, build(i), flush=True)
    else:
        with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
            for i, s in ex.map(lambda i: one(i, checks), ids): print(i, s, flush=True)
