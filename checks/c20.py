"""C20: libraries of IR instructions, against spec/IRLib."""
import random
import adt, par, hw
import peaklang as pl
import magma as m
import hwtypes
from hwtypes import Bit, BitVector
from hwtypes.adt import Product
from peak import Peak, family_closure, name_outputs
from peak.ir import IR
from peak.family import PyFamily, PyXFamily, SMTFamily, MagmaFamily
from vp import outcome

FAMS = dict(Py=PyFamily, PyX=PyXFamily, SMT=SMTFamily, Magma=MagmaFamily)
BIT = dict(k='bit')


# -- functions: expressions of PeakLang, evaluated on whatever the family's values are -----------
def expr(r, env, d, depth):
    """a random expression of leaf type d over env {name: type}"""
    vs = [n for n, t in env.items() if t == d]
    if depth == 0 or r.random() < .15:
        if vs:
            return dict(o='var', n=r.choice(vs), a=[])
        if d['k'] != 'bit' and r.random() < .6:
            wide = [n for n, t in env.items() if t['k'] == 'bv' and t['w'] > d['w']]
            if wide:
                n = r.choice(wide)
                lo = r.randrange(env[n]['w'] - d['w'] + 1)
                return dict(o='slice', a=[dict(o='var', n=n, a=[])], lo=lo, hi=lo + d['w'], w=env[n]['w'])
        return dict(o='c', v=adt.rand_value(r, d), a=[], d=d)
    sub = lambda t: expr(r, env, t, depth - 1)
    if d['k'] == 'bit':
        x = r.random()
        if x < .35:
            w = dict(k='bv', w=r.choice([t['w'] for t in env.values() if t['k'] == 'bv'] or [3]))
            return dict(o=r.choice(['eq', 'ne', 'ult', 'ule', 'ugt', 'uge']), a=[sub(w), sub(w)], w=w['w'])
        if x < .6:
            return dict(o=r.choice(['and', 'or', 'xor']), a=[sub(BIT), sub(BIT)], w=1)
        if x < .7:
            return dict(o='bnot', a=[sub(BIT)], w=1)
        return dict(o='ite', a=[sub(BIT), sub(BIT), sub(BIT)], w=1)
    w = d['w']
    x = r.random()
    if x < .3:
        return dict(o=r.choice(['add', 'sub', 'mul']), a=[sub(d), sub(d)], w=w)
    if x < .5:
        return dict(o=r.choice(['and', 'or', 'xor']), a=[sub(d), sub(d)], w=w)
    if x < .6:
        return dict(o=r.choice(['shl', 'lshr']), a=[sub(d), sub(d)], w=w)
    if x < .7:
        return dict(o='inv', a=[sub(d)], w=w)
    if x < .8 and w > 1:
        k = r.randrange(1, w)
        return dict(o='concat', a=[sub(dict(k='bv', w=k)), sub(dict(k='bv', w=w - k))], w=k)
    return dict(o='ite', a=[sub(BIT), sub(d), sub(d)], w=w)


def ev(e, env, fam):
    o = e['o']
    if o == 'var':
        return env[e['n']]
    if o == 'c':
        return fam.Bit(bool(e['v'][0])) if e['d']['k'] == 'bit' else fam.BitVector[e['d']['w']](e['v'][0])
    a = [ev(x, env, fam) for x in e['a']]
    return {
        'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'inv': lambda x: ~x, 'bnot': lambda x: ~x,
        'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
        'shl': lambda x, y: x << y, 'lshr': lambda x, y: x >> y,
        'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y,
        'ult': lambda x, y: x.bvult(y), 'ule': lambda x, y: x.bvule(y), 'ugt': lambda x, y: x.bvugt(y), 'uge': lambda x, y: x.bvuge(y),
        'slice': lambda x: x[e['lo']:e['hi']], 'concat': lambda x, y: x.concat(y), 'ite': lambda c, x, y: c.ite(x, y)}[o](*a)


def strip(e):
    """the expression without what only the harness needs"""
    return {k: [strip(x) for x in v] if k == 'a' else v for k, v in e.items() if k != 'd'}


FIELDS = ['a', 'b', 'in0', 'in1', 'x', 'data', 'family', 'Peak', '_fun_', 'fun', 't0', '_t0', '_t1', 'name_outputs', 'out', 'zz',
          'ins', 'peak_fc', '_ir_', '_ir_family', 'family_closure', 'b_', 'C']
NAMES = ['Add', 'Sub', 'Mux', 'i', 'Peak', 'family', 't0', '_t0', 'name_outputs', 'peak_fc', 'Fun', '_fun_', 'add', 'Instr', 'self', '_ir_self', 'Q7']
ODD = ['corebit.and', 'add 1', '1st', 'class', '', 'x-y']


def rand_leaf(r):
    return BIT if r.random() < .3 else dict(k='bv', w=r.choice([1, 2, 3, 4, 8, 12]))


class Lib:
    def __init__(self, r, t):
        self.r, self.t, self.ir, self.defs, self.ids, self.keep = r, t, IR(), {}, {}, []


def definition(r, t, name, adts):
    k = r.choice([1, 1, 2, 2, 3, 4])
    names = r.sample(FIELDS, k)
    ins = []
    for n in names:
        d = rand_leaf(r) if not ins or r.random() < .6 else ins[-1]['T']
        if adts and r.random() < (.5 if adt.TWINS else .2):
            while True:
                d = adt.rand_type(r, 1)
                if 0 < adt.width(d) <= 8:
                    break
        ins.append(dict(n=n, T=d))
    env = {i['n']: i['T'] for i in ins}
    leafs = {n: d for n, d in env.items() if d['k'] == 'bit' or d['k'] == 'bv' and not d.get('s')}
    outs, es = [], []
    for n in r.sample(FIELDS, r.choice([1, 1, 2, 3])):
        whole = [(m_, d) for m_, d in env.items() if m_ not in leafs]
        if whole and r.random() < .3:
            m_, d = r.choice(whole)
            e = dict(o='var', n=m_, a=[])
        else:
            d = rand_leaf(r)
            e = expr(r, leafs, d, r.choice([0, 1, 2, 3]))
        outs.append(dict(n=n, T=d))
        es.append(e)
    return dict(n=name, ins=ins, outs=outs, es=es)


def build(t, d):
    return t.built(d).py


def python_fun(d):
    order = [i['n'] for i in d['ins']]

    def fun(family, *args):
        env = dict(zip(order, args))
        res = tuple(ev(e, env, family) for e in d['es'])
        return res if len(res) > 1 else res[0]
    return fun


def register(r, L, d):
    """one of the ways of adding an instruction"""
    t = L.t
    I = Product.from_fields(adt.uid('In'), {i['n']: build(t, i['T']) for i in d['ins']})
    O = Product.from_fields(adt.uid('Out'), {o['n']: build(t, o['T']) for o in d['outs']})
    fun = python_fun(d)
    x = r.random()
    if x < .75:
        kw = {}
        if d['n'] in ODD or r.random() < .2:
            kw = dict(cls_name=r.choice(NAMES))
        return outcome(lambda: L.ir.add_peak_instruction(d['n'], I, O, fun, **kw) if r.random() < .6 else
                       L.ir.add_peak_instruction(name=d['n'], input_interface=I, output_interface=O, fun=fun, **kw))
    # a closure of one's own: taken from another library
    other = IR()
    other.add_peak_instruction('Other', I, O, fun)
    fc = other.instructions['Other']
    return outcome(lambda: L.ir.add_instruction(d['n'], fc))


def history(job):
    seed, magma = job
    r = random.Random(seed)
    evs = [dict(ev='begin')]
    adt.TWINS = not magma and r.random() < .3
    t = pl.Types()
    libs = [Lib(r, t) for _ in range(r.choice([1, 1, 2]))]
    ids, keep, circuits = {}, [], []

    def tdesc(T, want):
        """the descriptor of a type found in an interface"""
        if T is build(t, want):
            return want
        return dict(k=repr(T))

    def look(k, n):
        fc = libs[k].ir.instructions[n]
        keep.append(fc)
        evs.append(dict(ev='look', l=k, n=n, o=ids.setdefault(id(fc), len(ids) + 1)))
        return fc

    for _ in range(40 if magma else r.choice([6, 15, 30])):
        k = r.randrange(len(libs))
        L = libs[k]
        x = r.random()
        if x < .35 or not L.defs:
            n = r.choice(NAMES + ODD if r.random() < .5 or not L.defs else list(L.defs))
            d = definition(r, t, n, not magma)
            y = register(r, L, d)
            pub = dict(d, es=[strip(e) for e in d['es']])
            if y[0] != 'ok' and y[1] != 'ValueError':
                raise RuntimeError('/peak/ registration of %r failed %r' % (pub, y))
            evs.append(dict(ev='add', l=k, d=pub, ok=y[0] == 'ok'))
            if y[0] == 'ok' and n not in L.defs:
                L.defs[n] = d
            elif y[0] == 'ok':
                L.defs[n] = d
        elif x < .45:
            evs.append(dict(ev='list', l=k, names=list(L.ir.instructions)))
        else:
            n = r.choice(list(L.defs))
            d = L.defs[n]
            fc = look(k, n)
            f = r.choice(['Magma', 'Magma', 'Py', 'PyX', 'SMT']) if magma else r.choice(['Py', 'PyX', 'SMT'])
            fam = FAMS[f]()
            C = outcome(lambda: fc(fam))
            if C[0] != 'ok':
                raise RuntimeError('/peak/ %s for %s: %r' % (n, f, C))
            C = C[1]
            it = C.input_t.field_dict if C.input_t is not None else {}
            di = {i['n']: i['T'] for i in d['ins']}
            do = {i['n']: i['T'] for i in d['outs']}
            evs.append(dict(ev='sig', l=k, n=n, fam=f, ins=[dict(n=a, T=tdesc(T, di.get(a, BIT))) for a, T in it.items()],
                            outs=[dict(n=a, T=tdesc(T, do.get(a, BIT))) for a, T in C.output_t.field_dict.items()]))
            if f == 'Magma':
                if all(pl.isleaf(q['T']) for q in d['ins'] + d['outs']) and d['ins']:
                    circuits.append((k, n, d, C, len(evs)))
                continue
            inst = outcome(C)
            args_kw = r.random() < .4
            for _ in range(3):
                ins = [adt.rand_value(r, i['T']) for i in d['ins']]
                if f == 'SMT':
                    S = pl.Sym(t, fam)
                    vh = [S.var(i['T']) for i in d['ins']]
                    vals, sub = [v for v, _ in vh], {}
                    for (v, h), x_ in zip(vh, ins):
                        S.bind(sub, h, x_)
                    obs = lambda q, y: S.observe(q, y, sub)
                else:
                    vals = [pl.present(t, i['T'], v, fam, f == 'Py') for i, v in zip(d['ins'], ins)]
                    obs = lambda q, y: pl.observe(t, q, y)

                def call():
                    if args_kw:
                        kw = list(zip([i['n'] for i in d['ins']], vals))
                        r.shuffle(kw)
                        res = inst[1](**dict(kw))
                    else:
                        res = inst[1](*vals)
                    res = (res,) if len(d['outs']) == 1 else res
                    assert len(res) == len(d['outs'])
                    return [obs(q['T'], y) for q, y in zip(d['outs'], res)]
                y = outcome(call)
                evs.append({'ev': 'call', 'l': k, 'n': n, 'fam': f, 'in': ins, 'out': y[1] if y[0] == 'ok' else [[-1]]})
    for k, L in enumerate(libs):
        evs.append(dict(ev='list', l=k, names=list(L.ir.instructions)))
        for n in L.ir.instructions:
            look(k, n)
    if circuits:
        evs += simulate(r, circuits)
    return evs


def wire(io, C, d):
    res = C()(*[getattr(io, 'I%d' % q) for q in range(len(d['ins']))])
    for q, y in enumerate((res,) if len(d['outs']) == 1 else res):
        p = getattr(io, 'O%d' % q)
        p @= y
    for q in range(len(d['ins'])):
        if not getattr(io, 'I%d' % q).driving():
            getattr(io, 'I%d' % q).unused()


def simulate(r, circuits):
    """the instructions of the magma family, each in a circuit"""
    items, evs = [], []
    for j, (k, n, d, C, at) in enumerate(circuits):
        def mt(q):
            return m.Bit if q['k'] == 'bit' else m.Bits[q['w']]
        def make():
            ports = {}
            for q, i in enumerate(d['ins']):
                ports['I%d' % q] = m.In(mt(i['T']))
            for q, o in enumerate(d['outs']):
                ports['O%d' % q] = m.Out(mt(o['T']))

            class Circ(m.Circuit):
                name = adt.uid('IrCirc')
                io = m.IO(**ports)
                wire(io, C, d)
            return Circ
        x = outcome(make)
        if x[0] != 'ok':
            evs.append({'ev': 'call', 'l': k, 'n': n, 'fam': 'Magma', 'in': [adt.rand_value(r, i['T']) for i in d['ins']], 'out': [[-1]], 'error': repr(x)})
            continue
        items.append((str(j), x[1], k, n, d))
    if not items:
        return evs
    sim = hw.Sim([(i[0], i[1]) for i in items], 'ir')
    sim.build()
    stim, log = [], []
    for _ in range(4):
        s, l = {}, {}
        for key, C, k, n, d in items:
            ins = [adt.rand_value(r, i['T']) for i in d['ins']]
            l[key] = ins
            vals = {'I%d' % q: v[0] for q, v in enumerate(ins)}
            s[key] = [vals[nm] for nm, i, w in hw.ports(C) if i]
        stim.append(s)
        log.append(l)
    res = sim.run(stim)
    for j, l in enumerate(log):
        for key, C, k, n, d in items:
            outs = res[j][key] if j < len(res) else []
            evs.append({'ev': 'call', 'l': k, 'n': n, 'fam': 'Magma', 'in': l[key], 'out': [[x] for x in outs]})
    return evs


def run(ck):
    ck.model_check('IRLib', workers=6, cfg=None if not ck.thorough else 'IRLibDeep.cfg')
    k = 10 if ck.thorough else 1
    jobs = [(ck.rng.randrange(1 << 40), j < 14 * k) for j in range(300 * k)]
    parts, info = [], []
    for (st, x), j in zip(par.pmap(history, jobs, base=ck.tmp, fresh=True), jobs):
        if st != 'ok':
            ck.fail('crash:history', dict(job=j, error=x))
            continue
        parts.append(x)
        info.append(j)
    ck.validate_parts('IRTrace', parts, label='ir', info=info)
    ck.notes.update(histories=len(parts), calls={f: sum(e['ev'] == 'call' and e['fam'] == f for p in parts for e in p) for f in FAMS})
