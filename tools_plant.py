#!/usr/bin/env python3
"""Plant bugs: tools_plant.py SPEC.py ...   (SPEC defines a list BUGS of dicts)

For each: id, property, edits=[(file, old, new), ...], demo (python source), needs, what_it_breaks.
A scratch copy of /repo is made, the change is applied there, the stable tests and the demonstration are run
with and without it, and only a change that passes the tests and fails the demonstration is kept as seeded/<id>/.
Then the property's check (or those given with --checks) is run against the scratch copy.  Never touches /repo.
"""
import sys, os, json, subprocess, shutil, runpy, textwrap
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
DEMO_SH = '''#!/bin/bash
# run with cwd at the root of the tree under test
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    cmd = 'timeout 900 ' + cmd if not cmd.startswith('git') else cmd
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(b, detect=True):
    i = b['id']
    scratch = '/tmp/plant/' + i
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, symlinks=True)
    out = []
    try:
        for f, old, new in b['edits']:
            p = os.path.join(scratch, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, 'edit text occurs %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C %s diff' % scratch).stdout
        d = scratch + '.seed'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(textwrap.dedent(b['demo']).lstrip())
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh('timeout 100 bash %s/demo.sh' % d, cwd='/repo')
        bad = sh('timeout 100 bash %s/demo.sh' % d, cwd=scratch)
        if good.returncode != 0:
            return i, 'demo fails on the unchanged tree: ' + (good.stdout + good.stderr)[-400:]
        if bad.returncode == 0:
            return i, 'demo passes with the change'
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', scratch + '.env').replace('/repo', scratch)
        e = open('/opt/vp/env.sh').read().replace('/repo', scratch) + '\nexport PYTHONPATH=%s\n' % scratch
        open(scratch + '.env', 'w').write(e)
        open(scratch + '.test', 'w').write(t)
        sh('bash %s.test %s.json' % (scratch, scratch))
        o = json.load(open(scratch + '.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('passed') or base.get('stable') or [v for v in base.values() if isinstance(v, list)][0]
        missing = sorted(set(stable) - set(o['passed']))
        if missing:
            return i, 'existing tests fail: %s' % missing[:5]
        dest = os.path.join(V, 'seeded', i)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        out.append('kept (demo: %s)' % (bad.stderr.strip().split('\n')[-1][:120]))
        if detect:
            for c in b.get('checks', [b['property']]):
                if not os.path.exists(V + '/mc/%s.py' % c.lower()):
                    out.append('%s no check' % c)
                    continue
                env = dict(os.environ, VERIF_REPO=scratch, VERIF_EVIDENCE='/tmp/plant/ev', VERIF_PROCS='4')
                r = sh('python3 %s/check.py %s' % (V, c), env=env)
                out.append('%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode)))
        return i, '; '.join(out)
    finally:
        for suf in ('', '.seed'):
            shutil.rmtree(scratch + suf, ignore_errors=True)
        for suf in ('.env', '.test', '.json'):
            if os.path.exists(scratch + suf):
                os.remove(scratch + suf)


if __name__ == '__main__':
    a = sys.argv[1:]
    only = None
    if '--only' in a:
        k = a.index('--only')
        only = a[k + 1].split(',')
        del a[k:k + 2]
    bugs = [b for s in a for b in runpy.run_path(s)['BUGS'] if only is None or b['id'] in only]
    with ThreadPoolExecutor(3) as ex:
        for i, msg in ex.map(one, bugs):
            print(i, '::', msg, flush=True)
