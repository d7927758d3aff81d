"""C09: symbolic execution of generated programs, evaluated at concrete inputs, against PeakLang."""
import random
import adt, par
import peaklang as pl
import c08
from peak.family import SMTFamily
from vp import outcome


def symbolic_run(rng, types, cls, P, fam, hist):
    """Execute the history once with symbolic inputs (some of them constants)."""
    S = pl.Sym(types, fam)
    objs, steps = {}, []
    for e in hist:
        if e[0] == 'new':
            r = outcome(cls)
            objs[e[1]] = r[1] if r[0] == 'ok' else None
            steps.append(('new', e[1]))
        elif e[0] == 'poke':
            v, h = S.var(P['attrs'][e[2]])
            r = outcome(lambda: setattr(objs[e[1]], e[2], v))
            steps.append(('poke', e[1], e[2], h, P['attrs'][e[2]]))
        elif e[0] == 'peek':
            r = outcome(lambda: getattr(objs[e[1]], e[2]))
            steps.append(('peek', e[1], e[2], r))
        else:
            args, hs = [], []
            for i, v in zip(P['ins'], e[2]):
                if rng.random() < .12:
                    a = outcome(lambda: pl.present(types, i['T'], v, fam))
                    args.append(a[1]); hs.append(('const', v))
                else:
                    a, h = S.var(i['T'])
                    args.append(a); hs.append(h)
            r = outcome(lambda: objs[e[1]](*args))
            if r[0] == 'ok' and len(P['outs']) == 1:
                r = ('ok', (r[1],))
            if r[0] == 'ok' and not (isinstance(r[1], tuple) and len(r[1]) == len(P['outs'])):
                r = ('exc', 'arity', repr(r[1])[:200])
            steps.append(('call', e[1], hs, r))
    return S, steps


def evaluate(rng, S, steps, P):
    """One concrete history through the symbolic one."""
    sub, evs = {}, []
    for s in steps:
        if s[0] == 'new':
            evs.append(dict(ev='new', o=s[1]))
        elif s[0] == 'poke':
            v = adt.rand_value(rng, s[4])
            S.bind(sub, s[3], v)
            evs.append(dict(ev='poke', o=s[1], n=s[2], v=v))
        elif s[0] == 'peek':
            r = outcome(lambda: S.observe(P['attrs'][s[2]], s[3][1], sub)) if s[3][0] == 'ok' else s[3]
            evs.append(dict(ev='peek', o=s[1], n=s[2], v=r[1] if r[0] == 'ok' else []))
        else:
            ins = []
            for i, h in zip(P['ins'], s[2]):
                if h[0] == 'const':
                    ins.append(h[1])
                else:
                    v = adt.rand_value(rng, i['T'])
                    S.bind(sub, h, v)
                    ins.append(v)
            r = s[3]
            if r[0] == 'ok':
                r = outcome(lambda: [S.observe(d, x, sub) for d, x in zip(P['outs'], s[3][1])])
            evs.append(dict(ev='call', o=s[1], out=r[1] if r[0] == 'ok' else [], how='ok' if r[0] == 'ok' else '%s: %s' % r[1:], **{'in': ins}))
    return evs


def one(args):
    seed, n_inst, n_calls, size, n_eval = args
    rng = random.Random(seed)
    while True:
        g = pl.Gen(rng, pl.Types(rng.choice([0, 1])), c08.feats(rng), size=rng.randint(2, size), depth=2)
        name, P = g.program(1)
        if len('\n'.join(g.mod)) < 3500:
            break
    mod = pl.load(g, '.')
    fam = SMTFamily()
    evs = [dict(ev='prog', P=pl.public(P), fam='SMT', seed=seed)]
    r = outcome(lambda: getattr(mod, name + '_fc')(fam))
    if r[0] != 'ok':
        return [], g.source(), [('SMT', r)]
    hist = c08.histories(rng, P, n_inst, n_calls)
    if len(hist) > 20 and not P['regs'] and not P['subs']:
        hist = hist[:3]
    S, steps = symbolic_run(rng, g.t, r[1], P, fam, hist)
    for _ in range(n_eval):
        evs += evaluate(rng, S, steps, P)
    return evs, g.source(), []


def run(ck):
    if ck.thorough:
        parts, srcs = c08.drive(ck, 400, 2, 6, 6, 20, work=one)
    else:
        parts, srcs = c08.drive(ck, 260, 1, 4, 4, 8, work=one)
    parts = [p for p in parts if p]
    c08.judge(ck, parts, srcs, 'formula')
    ck.notes['programs'] = len(parts)
