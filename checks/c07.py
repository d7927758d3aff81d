"""C07: histories of several memories, against spec/Storage."""
import random
import adt, par
import peaklang as pl
from hwtypes import BitVector, SIntVector, UIntVector, Bit
from peak.family import PyFamily
from peak import RAM, ROM, Memory
from peak.memory import RAM as RAM2, ROM as ROM2
from vp import outcome

FAM = PyFamily()


def rtype(r):
    x = r.random()
    if x < .15:
        return dict(k='bit')
    if x < .65:
        return dict(k='bv', w=r.choice([1, 2, 4, 8, 16, 30]), **({} if r.random() < .6 else dict(s=r.choice('su'))))
    while True:
        d = adt.rand_type(r, r.choice([1, 2]))
        if 0 < adt.width(d) <= 12 and d['k'] not in ('bv', 'bit'):
            return d


def address(r, n):
    """(presented address, word it names or 0)"""
    x = r.random()
    i = r.randrange(n) if x < .85 else r.choice([n, n + 1, 2 * n, n + r.randrange(64), -1, -n, -n - 1, -r.randrange(1, n + 3)])
    if i < 0:
        k = r.random()
        if k < .6:
            return i, 0
        w = max(2, (-i).bit_length() + 1 + r.randrange(3))
        u = i % (1 << w)
        return SIntVector[w](i), u + 1 if u < n else 0
    a = i + 1 if i < n else 0
    k = r.random()
    w = max(1, i.bit_length()) + r.choice([0, 0, 1, 4])
    if k < .3:
        return i, a
    return (BitVector if k < .65 else UIntVector if k < .8 else SIntVector)[w](i), a


def history(seed):
    r = random.Random(seed)
    t, evs, mems, o = pl.Types(), [], [], 0
    for _ in range(r.choice([1, 2, 3])):
        d = rtype(r)
        T = FAM.get_adt_t(t.built(d).py) if not pl.isleaf(d) else t.built(d).py
        n = r.choice([1, 2, 3, 4, 5, 8, 13, 16, 33, 64])
        given = [adt.rand_value(r, d) for _ in range(r.choice([0, n // 2, n, n, n + 2]))]
        words = [pl.present(t, d, v, FAM, True) for v in given]
        if r.random() < .2:
            words = tuple(words)
        iv = adt.rand_value(r, d)
        kw = {}
        if len(given) < n:
            # the default initial word is the integer 0: only where that is a value of the type
            if not pl.isleaf(d) or r.random() < .6:
                kw = dict(init=pl.present(t, d, iv, FAM, True))
            else:
                iv = [0]
        for _ in range(r.choice([1, 2, 3])):       # several memories from the same list
            kind = r.choice(['ram', 'ram', 'rom'])
            cls = r.choice([RAM, Memory, RAM2]) if kind == 'ram' else r.choice([ROM, ROM2])
            x = outcome(lambda: r.choice([lambda: cls(T, n, words, **kw), lambda: cls(type=T, n=n, mem=words, **kw)])())
            if x[0] != 'ok':
                raise RuntimeError('/peak/ memory refused %r' % (x,))
            o += 1
            evs.append(dict(ev='new', o=o, kind=kind, w=[given[j] if j < len(given) else iv for j in range(n)]))
            mems.append((o, kind, x[1], n, d, max(1, len(given))))
        if isinstance(words, list):                # the list belongs to the caller
            for j in range(len(words)):
                if r.random() < .4:
                    words[j] = pl.present(t, d, adt.rand_value(r, d), FAM, True)
            if r.random() < .3:
                words.clear()
    def seen(d, x):
        if x[0] != 'ok':
            return [] if x[1] == 'IndexError' else [[-1]]
        y = outcome(lambda: [int(x[1])] if pl.isleaf(d) and not isinstance(x[1], (BitVector, Bit)) else pl.observe(t, d, x[1]))
        return [y[1]] if y[0] == 'ok' else [[-1]]
    focus = {m[0]: [r.randrange(m[3]) for _ in range(3)] for m in mems}
    for _ in range(r.choice([10, 30, 80])):
        o, kind, m, n, d, g = r.choice(mems)
        if r.random() < .5:        # keep coming back to the same few words
            i = r.choice(focus[o])
            addr, a = (i, i + 1) if r.random() < .5 else (BitVector[8](i), i + 1)
        else:
            addr, a = address(r, n)
        v, en = adt.rand_value(r, d), r.randrange(2)
        if kind == 'ram':
            w = r.choice([en, bool(en), Bit(en), BitVector[1](en)])
            val = pl.present(t, d, v, FAM, True)
            x = outcome(r.choice([lambda: m(addr, val, w), lambda: m(addr=addr, data=val, wen=w)]))
        else:
            en = 0
            x = outcome(lambda: m(addr))
        evs.append(dict(ev='acc', o=o, a=a, v=v, en=en, out=seen(d, x)))
    for o, kind, m, n, d, g in mems:        # every word at the end
        v = adt.rand_value(r, d)
        for i in range(n):
            x = outcome(lambda: m(i, pl.present(t, d, v, FAM, True), 0) if kind == 'ram' else m(i))
            evs.append(dict(ev='read', o=o, a=i + 1, out=seen(d, x)))
    return evs


def run(ck):
    ck.model_check('Storage', workers=6, cfg=None if not ck.thorough else 'StorageDeep.cfg')
    jobs = [ck.rng.randrange(1 << 40) for _ in range(4000 if ck.thorough else 350)]
    parts = []
    for (st, x), j in zip(par.pmap(history, jobs, base=ck.tmp), jobs):
        if st != 'ok':
            ck.fail('crash:history', dict(job=j, error=x))
            continue
        base = len(parts) * 100
        for e in x:
            e['o'] += base
        parts.append(x)
    ck.validate_parts('StorageTrace', parts, label='memory', info=jobs)
    ck.notes.update(histories=len(parts), accesses=sum(e['ev'] == 'acc' for p in parts for e in p))
