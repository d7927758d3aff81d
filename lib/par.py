"""Fork-based map over independent work items; each worker has its own scratch cwd."""
import multiprocessing as mp, os, tempfile, traceback, shutil


def _fresh(f, items, q, base):
    """as _work, but every item has a process of its own (magma and coreir keep global state)"""
    for i, it in items:
        pid = os.fork()
        if pid == 0:
            _work(f, [(i, it)], q, base, last=False)
        os.waitpid(pid, 0)
    q.put((None, 'end', None))
    q.close(); q.join_thread()
    os._exit(0)


def _work(f, items, q, base, last=True):
    d = tempfile.mkdtemp(dir=base)
    os.chdir(d)
    for i, it in items:
        try:
            q.put((i, 'ok', f(it)))
        except Exception as e:
            q.put((i, 'exc', (repr(e)[:500], traceback.format_exc()[-4000:])))
    if last:
        q.put((None, 'end', None))
    q.close(); q.join_thread()
    os._exit(0)


def pmap(f, items, procs=7, base=None, timeout=700, fresh=False):
    """results in order; ('ok', r) or ('exc', (repr, traceback))"""
    items = list(enumerate(items))
    procs = max(1, min(procs, len(items)))
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    tmp = tempfile.mkdtemp(prefix='vppar', dir=base)
    ps = [ctx.Process(target=_fresh if fresh else _work, args=(f, items[k::procs], q, tmp)) for k in range(procs)]
    for p in ps:
        p.start()
    res = [('exc', ('no result', ''))] * len(items)
    left = procs
    import queue, time
    t0 = time.time()
    try:
        while left:
            try:
                i, s, r = q.get(timeout=5)
            except queue.Empty:
                if time.time() - t0 > timeout or not any(p.is_alive() for p in ps):
                    break
                continue
            if i is None:
                left -= 1
            else:
                res[i] = (s, r)
    finally:
        for p in ps:
            if p.is_alive():
                p.terminate()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)
    return res
