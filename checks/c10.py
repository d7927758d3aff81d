"""C10: circuits generated from peak programs, simulated cycle by cycle, against PeakLang."""
import os, random
import adt, par, hw
import peaklang as pl
import c08
from peak.family import MagmaFamily
from peak.rtl_utils import wrap_with_disassembler
from peak.assembler.assembler import Assembler
from hwtypes import BitVector
from vp import outcome

FEATS = ['adt', 'outadt', 'sub', 'creg', 'attr', 'early', 'signed']


def to_port(types, d, v):
    if pl.isleaf(d):
        return v[0]
    b = types.built(d)
    return int(Assembler(b.py).assemble(adt.value(b, v)))


def from_port(types, d, x):
    if pl.isleaf(d):
        return [x]
    b = types.built(d)
    return adt.flat(b, Assembler(b.py).disassemble(BitVector[Assembler(b.py).width](x)))


def generate(rng, prefix, size):
    while True:
        f = {x for x in FEATS if rng.random() < .75} | {'magma'}
        g = pl.Gen(rng, pl.Types(rng.choice([0, 1])), f, size=rng.randint(2, size), depth=2)
        g.prefix = prefix
        name, P = g.program(1)
        if len('\n'.join(g.mod)) < 3500 and not any(adt.width(i['T']) == 0 for i in P['ins']) and not any(adt.width(d) == 0 for d in P['outs']):
            return g, name, P


def ports_ok(C, P):
    ps = hw.ports(C)
    ins = [n for n, i, w in ps if i]
    return ins == [i['n'] for i in P['ins']]


class Layout(dict):
    __hash__ = object.__hash__


def wrapped(rng, g, P, C, name):
    """the circuit behind a wrapper that takes the opcode of an instruction apart"""
    ins = [i for i in P['ins'] if i['T']['k'] == 'prod' and all(adt.width(t) for t in i['T']['ts'])]
    if not ins or rng.random() < .5:
        return C
    i = rng.choice(ins)
    asm = Assembler(g.t.built(i['T']).py)
    return wrap_with_disassembler(C, asm.disassemble, asm.width, Layout(asm.layout), type(C.interface.ports[i['n']]), wrapped_name=name + '_wrapped')


def batch(args):
    seed, n, cycles, size = args
    rng = random.Random(seed)
    items, err, evs = [], [], []
    for k in range(n):
        g, name, P = generate(rng, 'B%dN%d' % (os.getpid(), k), size)
        mod = pl.load(g, '.')
        r = outcome(lambda: getattr(mod, name + '_fc')(MagmaFamily()))
        if r[0] != 'ok':
            err.append((name, r, g.source()))
            continue
        if not ports_ok(r[1], P):
            err.append((name, 'ports %r' % hw.ports(r[1]), g.source()))
            continue
        w = outcome(lambda: wrapped(rng, g, P, r[1], name))
        if w[0] != 'ok':
            err.append((name + ' wrapped', w, g.source()))
            continue
        items.append((str(k), g, P, w[1]))
    sim = hw.Sim([(k, C) for k, g, P, C in items], 'hw')
    sim.build()
    stim, log = [], {k: [] for k, *_ in items}
    for c in range(cycles):
        if c == 0 or rng.random() < .06:
            stim.append('reset')
            for k in log:
                log[k].append(None)
        s = {}
        for k, g, P, C in items:
            vs = [adt.rand_value(rng, i['T']) for i in P['ins']]
            log[k].append(vs)
            s[k] = [to_port(g.t, i['T'], v) for i, v in zip(P['ins'], vs)]
        stim.append(s)
    res = sim.run(stim)
    parts = []
    for k, g, P, C in items:
        e = [dict(ev='prog', P=pl.public(P), fam='Magma', seed='%d/%s' % (seed, k))]
        j = 0
        for vs in log[k]:
            if vs is None:
                e.append(dict(ev='new', o=1)); continue
            def obs():
                outs = res[j][k]
                assert len(outs) == len(P['outs'])
                return [from_port(g.t, d, x) for d, x in zip(P['outs'], outs)]
            r = outcome(obs)
            e.append(dict(ev='call', o=1, out=r[1] if r[0] == 'ok' else [], how='cycle', **{'in': vs}))
            j += 1
        parts.append((e, '%d/%s' % (seed, k), g.source()))
    return parts, err


def run(ck):
    nb, n, cycles, size = (42, 8, 40, 5) if ck.thorough else (14, 10, 20, 4)
    args = [(ck.rng.randrange(1 << 40), n, cycles, size) for _ in range(nb)]
    parts, srcs = [], {}
    for (st, r), a in zip(par.pmap(batch, args, base=ck.tmp, fresh=True), args):
        if st != 'ok':
            ck.fail('crash:batch', dict(seed=a[0], error=r))
            continue
        for x in r[1]:
            ck.fail('crash:circuit generation', dict(seed=a[0], error=x))
        for e, key, src in r[0]:
            parts.append(e); srcs[key] = src
    c08.judge(ck, parts, srcs, 'cycle')
    ck.notes['circuits'] = len(parts)
