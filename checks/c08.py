"""C08: Python execution (plain and rewritten) of generated programs against PeakLang."""
import random, os
import adt, par
import peaklang as pl
from peak.family import PyFamily, PyXFamily
from vp import outcome

FEATS = ['adt', 'outadt', 'sub', 'creg', 'attr', 'plain', 'early', 'signed']
FAMS = {'Py': PyFamily, 'PyX': PyXFamily}


def feats(rng):
    f = {x for x in FEATS if rng.random() < .75}
    return f or set(FEATS)


def histories(rng, P, n_inst, n_calls):
    """calls of interleaved instances: [('new', o)] | [('call', o, inputs)]"""
    h = []
    live = []
    total = 1
    for i in P['ins']:
        total *= adt.n_values(i['T'])
    if total <= 24 and not P['regs'] and not P['subs']:
        h.append(('new', 1))
        from itertools import product
        for vs in product(*(adt.enum_values(i['T']) for i in P['ins'])):
            h.append(('call', 1, list(vs)))
        return h
    for o in range(1, n_inst + 1):
        live.append(o); h.append(('new', o))
    for _ in range(n_calls * n_inst):
        o = rng.choice(live)
        if P['attrs'] and rng.random() < .15:
            n = rng.choice(sorted(P['attrs']))
            if rng.random() < .5:
                h.append(('poke', o, n, adt.rand_value(rng, P['attrs'][n])))
            h.append(('peek', o, n))
        h.append(('call', o, [adt.rand_value(rng, i['T']) for i in P['ins']]))
    # a late instance is fresh, whatever the others have done
    h.append(('new', n_inst + 1))
    for _ in range(3):
        h.append(('call', rng.choice([1, n_inst + 1]), [adt.rand_value(rng, i['T']) for i in P['ins']]))
    return h


def run_family(types, cls, P, fam, famname, hist):
    evs = []
    objs = {}
    for e in hist:
        if e[0] == 'new':
            r = outcome(cls)
            objs[e[1]] = r[1] if r[0] == 'ok' else None
            evs.append(dict(ev='new', o=e[1]))
            continue
        if e[0] == 'poke':
            outcome(lambda: setattr(objs[e[1]], e[2], pl.present(types, P['attrs'][e[2]], e[3], fam, famname == 'Py')))
            evs.append(dict(ev='poke', o=e[1], n=e[2], v=e[3]))
            continue
        if e[0] == 'peek':
            r = outcome(lambda: pl.observe(types, P['attrs'][e[2]], getattr(objs[e[1]], e[2])))
            evs.append(dict(ev='peek', o=e[1], n=e[2], v=r[1] if r[0] == 'ok' else []))
            continue
        _, o, ins = e
        def call():
            args = [pl.present(types, i['T'], v, fam, famname == 'Py') for i, v in zip(P['ins'], ins)]
            res = objs[o](*args)
            if len(P['outs']) == 1:
                res = (res,)
            assert len(res) == len(P['outs'])
            return [pl.observe(types, d, x) for d, x in zip(P['outs'], res)]
        r = outcome(call)
        evs.append(dict(ev='call', o=o, out=r[1] if r[0] == 'ok' else [], how='ok' if r[0] == 'ok' else '%s: %s' % r[1:], **{'in': ins}))
    return evs


def one(args):
    seed, n_inst, n_calls, size, fams = args
    rng = random.Random(seed)
    while True:
        f = feats(rng)
        g = pl.Gen(rng, pl.Types(rng.choice([0, 1])), f, size=rng.randint(2, size), depth=2)
        name, P = g.program(1)
        if len('\n'.join(g.mod)) < 3500:
            break
    mod = pl.load(g, '.')
    evs = []
    hist = histories(rng, P, n_inst, n_calls)
    err = []
    for fn in fams:
        fam = FAMS[fn]()
        evs.append(dict(ev='prog', P=pl.public(P), fam=fn, seed=seed))
        r = outcome(lambda: getattr(mod, name + '_fc')(fam))
        if r[0] != 'ok':
            err.append((fn, r))
            evs.pop()
            continue
        evs += run_family(g.t, r[1], P, fam, fn, hist)
    return evs, g.source(), err


def drive(ck, n, n_inst, n_calls, size, fams=('Py', 'PyX'), work=one):
    seeds = [(ck.rng.randrange(1 << 40), n_inst, n_calls, size, fams) for _ in range(n)]
    evs, srcs, parts = [], {}, []
    for (st, r), s in zip(par.pmap(work, seeds, base=ck.tmp), seeds):
        if st != 'ok':
            ck.fail('crash:generated program', dict(seed=s[0], error=r))
            continue
        e, src, err = r
        for x in err:
            ck.fail('crash:family %s' % x[0], dict(seed=s[0], error=x[1], source=src))
        srcs[s[0]] = src
        parts.append(e)
    return parts, srcs


def chunks(parts, k):
    """split whole programs into k balanced lists of events"""
    bins = [[] for _ in range(k)]
    for p in sorted(parts, key=len, reverse=True):
        min(bins, key=len).extend(p)
    return [b for b in bins if b]


def judge(ck, parts, srcs, label):
    from concurrent.futures import ThreadPoolExecutor
    bins = chunks(parts, 6)
    with ThreadPoolExecutor(6) as ex:
        for b, fs in zip(bins, ex.map(lambda b: ck.judge_trace('PeakTrace', b), bins)):
            for f, ev in fs:
                pe = b[f.get('pi', 1) - 1]
                ck.fail('%s:%s' % (label, f['clause']), dict(verdict=f, event=ev, program=srcs.get(pe.get('seed')), fam=pe.get('fam')))
    ck.sample(label, parts[0][:3])


def run(ck):
    if ck.thorough:
        parts, srcs = drive(ck, 420, 2, 20, 6)
    else:
        parts, srcs = drive(ck, 200, 2, 12, 4)
    judge(ck, parts, srcs, 'call')
    ck.notes['programs'] = len(parts)
