"""C02: validity of opcodes; order of assembler creation varied over forked processes."""
import json, os, random
import adt, asmdrive
from c01 import types


def in_child(fn):
    """run fn in a forked process (fresh library caches), return its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        rc = 0
        try:
            data = json.dumps(dict(ok=fn()))
        except BaseException as e:
            import traceback, sys, vp
            data = json.dumps(dict(err=repr(e)[:300], tb=traceback.format_exc()[-3000:], repo=vp.from_repo(sys.exc_info()[2])))
        with os.fdopen(w, 'w') as f:
            f.write(data)
        os._exit(rc)
    os.close(w)
    return r, pid


def collect(h):
    r, pid = h
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s)


def run(ck):
    ts = types(ck, 1000 if ck.thorough else 120, maxw=16)
    rounds = 12 if ck.thorough else 6
    handles = []
    per = len(ts) // (2 if not ck.thorough else 1)
    for r in range(rounds):
        seed = ck.rng.randrange(1 << 30)

        def job(seed=seed, r=r):
            rng = random.Random(seed)
            mine = rng.sample(ts, min(per, len(ts))) if r else list(ts)
            if r == 1:
                mine.sort(key=lambda t: adt.width(t[0]))
            elif r == 2:
                mine.sort(key=lambda t: -adt.width(t[0]))
            else:
                rng.shuffle(mine)
            cap = 4096 if ck.thorough else (128 if r == 0 else 64)
            return [asmdrive.valid_event(rng, d, cap=cap, style=s, sym=(r < 3), order=rng.choice([(0, 1), (1, 0)])) for d, s in mine]
        handles.append(in_child(job))
    n = 0
    evs = []
    for h in handles:
        res = collect(h)
        if 'err' in res:
            if res['repo']:
                ck.fail('crash:assembler', res)
                continue
            raise RuntimeError(res['tb'])
        evs.append(res['ok'])
    flat = [e for es in evs for e in es]
    ck.notes['patterns'] = sum(len(e['ops']) for e in flat)
    ck.notes['process_histories'] = len(evs)
    if flat:
        ck.validate('AsmTrace', flat, label='valid', chunk=max(20, len(flat) // 6 + 1))
