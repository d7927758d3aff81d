#!/usr/bin/env python
"""run_check.py <property> : runs checks/<property>.py against /repo's working tree."""
import importlib, os, sys, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if os.environ.get('VP_INNER') != '1':
        env = dict(os.environ, VP_INNER='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_TIER=tier, PYTHONWARNINGS='ignore',
                   PATH='/opt/venv/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
        env.setdefault('VERIF_SEED', '1')
        os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__), prop, tier], env)
    repo = os.environ.get('VP_REPO', '/repo')
    sys.path[:0] = [repo, os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
    sys.setrecursionlimit(20000)
    scratch = tempfile.mkdtemp(prefix='vpcwd_')   # ast_tools writes .ast_tools/ in the cwd
    os.chdir(scratch)
    rc = 2
    try:
        import vp
        import peak
        assert os.path.realpath(peak.__file__).startswith(os.path.realpath(repo) + '/'), peak.__file__
        ck = vp.Check(prop, tier)
        mod = importlib.import_module(prop.lower())
        try:
            rc_ = mod.run(ck)
        except vp.MachineryError:
            raise
        except Exception as e:
            if vp.from_repo(sys.exc_info()[2]):
                traceback.print_exc()
                ck.crash('driver', e)
            elif isinstance(e, (TypeError, AttributeError, LookupError, ValueError, AssertionError, NotImplementedError)):
                # what the code gave cannot be written down as an event of the specification
                traceback.print_exc()
                ck.crash('record', e)
            else:
                raise
        rc = ck.finish(getattr(mod, 'LEVEL', 'model_checking'))
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)


main()
