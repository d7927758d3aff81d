"""tools/plant.py SPECDIR   (SPECDIR/meta.json, demo.py, edit.py|patch.diff) -> seeded/<name>
Confirms a planted bug in a scratch copy of /repo: demo passes without it, fails with it, tests still pass."""
import json, os, shutil, subprocess, sys, tempfile
WT = '/tmp/x/wt'
DEMO = '''#!/bin/bash
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    subprocess.run(['rm', '-rf', WT])
    os.makedirs(WT)
    sh(f'git -C /repo archive HEAD | tar -x -C {WT} && cd {WT} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x')


def main(spec):
    name = os.path.basename(spec.rstrip('/'))
    fresh()
    if os.path.exists(f'{spec}/edit.py'):
        ns = {}
        exec(open(f'{spec}/edit.py').read(), ns)
        for path, old, new in ns['EDITS']:
            p = f'{WT}/{path}'
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {WT} diff').stdout
    else:
        diff = open(f'{spec}/patch.diff').read()
        open('/tmp/x/p.diff', 'w').write(diff)
        r = sh(f'git -C {WT} apply /tmp/x/p.diff')
        assert r.returncode == 0, r.stderr
    out = tempfile.mkdtemp()
    for f in os.listdir(spec):
        if f not in ('edit.py', 'patch.diff', 'meta.json') and not f.startswith('__'):
            shutil.copy(f'{spec}/{f}', out)
    if not os.path.exists(f'{out}/demo.sh'):
        open(f'{out}/demo.sh', 'w').write(DEMO)
    os.chmod(f'{out}/demo.sh', 0o755)
    r1 = sh(f'bash {out}/demo.sh', cwd=WT)
    sh(f'git -C {WT} checkout -- .')
    r0 = sh(f'bash {out}/demo.sh', cwd=WT)
    print('demo unpatched', r0.returncode, 'patched', r1.returncode, (r1.stdout + r1.stderr).strip().split('\n')[-1][:200])
    if r0.returncode != 0 or r1.returncode == 0:
        print((r0.stdout + r0.stderr)[-2000:]); return 1
    open('/tmp/x/p.diff', 'w').write(diff)
    assert sh(f'git -C {WT} apply /tmp/x/p.diff').returncode == 0
    t = open('/opt/vp/test.sh').read().replace('/repo', WT).replace('PYTHONPATH=/opt/vp/pyplugin', f'PYTHONPATH=/opt/vp/pyplugin:{WT}')
    open('/tmp/x/wt_test.sh', 'w').write(t)
    sh('bash /tmp/x/wt_test.sh /tmp/x/wt_out.json')
    res = json.load(open('/tmp/x/wt_out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    missing = [x for x in stable if x not in set(res['passed'])]
    print('tests', len(res['passed']), 'missing', missing[:5])
    if missing:
        return 1
    dst = os.environ.get('SEEDED', '/verif/seeded') + '/' + name
    subprocess.run(['rm', '-rf', dst])
    shutil.copytree(out, dst)
    open(f'{dst}/patch.diff', 'w').write(diff)
    shutil.copy(f'{spec}/meta.json', dst)
    r = sh(f'git -C /repo apply --check {dst}/patch.diff')
    print('planted', name, 'applies', r.returncode == 0)
    subprocess.run(['rm', '-rf', out, WT])


def catch(names, tier='quick', seed='1'):
    for n in names:
        d = f'/verif/seeded/{n}'
        props = json.load(open(f'{d}/meta.json'))['property']
        r = sh(f'git -C /repo apply {d}/patch.diff')
        assert r.returncode == 0, r.stderr
        try:
            r = sh(f'cd /verif && VERIF_SEED={seed} timeout 900 python3 run_check.py {props} {tier}')
        finally:
            sh('git -C /repo checkout -- .')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(n, props, 'rc', r.returncode, v[:1], '' if r.returncode == 1 else (r.stdout + r.stderr)[-500:], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'catch':
        catch(sys.argv[2:] or sorted(os.listdir('/verif/seeded')))
    else:
        for s in sys.argv[1:]:
            main(s)
