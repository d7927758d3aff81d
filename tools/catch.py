"""tools/catch.py [names]: runs each planted bug's check (quick) on a scratch copy of /repo's HEAD with the bug."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SEEDED = os.environ.get('SEEDED', os.path.join(V, 'seeded'))
for n in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, n)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git apply %s/patch.diff' % (w, w, d), shell=True, check=True)
        r = subprocess.run(['timeout', '900', 'python3', V + '/run_check.py', prop, os.environ.get('TIER', 'quick')], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('OK')]
        print(n, prop, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, v[:1], flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(w)
