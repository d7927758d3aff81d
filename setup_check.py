"""setup_cmd: nothing has to be compiled; parse every specification module once."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp()
try:
    for f in os.listdir(os.path.join(V, 'spec')):
        shutil.copy(os.path.join(V, 'spec', f), tmp)
    bad = 0
    for f in sorted(os.listdir(tmp)):
        if f.endswith('.tla'):
            p = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
                                'tla2sany.SANY', f], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or 'Could not' in p.stdout or '*** Errors' in p.stdout:
                print(f, p.stdout[-1500:]); bad = 1
    sys.exit(bad)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
