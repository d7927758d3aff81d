"""C22: the floating-point library, against spec/Float."""
import os, random, warnings
import par
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from peak import Peak, family_closure
from peak.family import PyFamily, PyXFamily, SMTFamily
from peak.float import float_lib_gen, RoundingMode, RoudningMode_utils
from vp import outcome

warnings.filterwarnings('ignore')
UN = ['Abs', 'Neg', 'Sqrt', 'Round_to_integral']
BIN = ['Add', 'Sub', 'Mul', 'Div', 'Rem', 'Min', 'Max', 'Leq', 'Lt', 'Geq', 'Gt', 'Eq']
PRED = ['Is_normal', 'Is_subnormal', 'Is_zero', 'Is_infinite', 'Is_nan', 'Is_negative', 'Is_positive']
ARITY = dict([(o, 1) for o in UN + PRED] + [(o, 2) for o in BIN] + [('Fma', 3)])
MODES = ['RNE', 'RTZ', 'RDN', 'RUP', 'RMM']
ROWS = 256


def fields(L):
    return {k[:-3]: v for k, v in vars(L).items() if k.endswith('_fc')}


class Lib:
    """the operations of one format, each built once (in a seeded order)"""
    def __init__(self, F):
        self.F = F
        self.L = float_lib_gen(F['e'], F['m'], F['ieee']) if F['ieee'] or F.get('spell') else float_lib_gen(F['e'], F['m'])
        self.W = 1 + F['e'] + F['m']
        self.cache = {}

    def op(self, name, mode, fixed):
        k = (name, mode if fixed else None)
        if k not in self.cache:
            fam = PyFamily()
            if fixed:
                f = fields(self.L.const_rm(getattr(RoundingMode, mode)))[name](fam)()
                self.cache[k] = f
            else:
                self.cache[k] = fields(self.L)[name](fam)()
        return self.cache[k]

    def ask(self, name, mode, fixed, ins):
        a = [BitVector[self.W](x) for x in ins]
        if not fixed:
            a = [PyFamily().get_constructor(RoundingMode)(getattr(RoundingMode, mode))] + a
        r = outcome(lambda: self.op(name, mode, fixed)(*a))
        if r[0] != 'ok':
            return -1
        r = r[1]
        if isinstance(r, BitVector):
            return int(r) if r.size == self.W else -1
        return int(bool(r)) if isinstance(r, Bit) else -1


def interesting(r, F):
    """operands at the edges of a format"""
    W, top = 1 + F['e'] + F['m'], (2 ** F['e'] - 1) << F['m']
    k = r.randrange(8)
    s = r.getrandbits(1) << (W - 1)
    one = ((2 ** (F['e'] - 1)) - 1) << F['m']
    if k == 0:
        return s + r.choice([0, 1, top, top - 1, 1 << F['m'], (1 << F['m']) - 1, one, one + 1, one - 1, top + 1])
    if k == 1:
        return s + r.randrange(1 << F['m'])                           # subnormal
    if k == 2:
        return s + max(0, min(top, one + r.randrange(-4 << F['m'], 5 << F['m'])))
    if k == 3:
        return s + top - 1 - r.randrange(2 << F['m'])
    if k == 4:
        return s + (r.randrange(2 ** F['e'] - 1) << F['m']) + r.choice([0, 1, (1 << F['m']) - 1, 1 << (F['m'] - 1)])
    return r.getrandbits(W)


def usable(F, x):
    e, f = (x >> F['m']) % (1 << F['e']), x % (1 << F['m'])
    return F['ieee'] or not ((e == 0 and f) or (e == (1 << F['e']) - 1 and f))


def tuples(r, F, n, cap):
    W = 1 + F['e'] + F['m']
    if 1 << (W * n) <= cap:
        xs = [tuple((i >> (W * k)) & ((1 << W) - 1) for k in range(n)) for i in range(1 << (W * n))]
    else:
        xs = []
        for _ in range(cap):
            t = [interesting(r, F) for _ in range(n)]
            if n > 1 and r.random() < .3:              # operands that nearly meet
                t[1] = (t[0] + r.randrange(-3, 4)) % (1 << W) ^ (r.getrandbits(1) << (W - 1))
            xs.append(tuple(t))
    return [x for x in xs if all(usable(F, y) for y in x)]


def job(j):
    F, seed, names, cap, cap3 = j
    r = random.Random(seed)
    lib = Lib(F)
    evs = []
    if 'Abs' in names:
        for m in [None] + MODES:
            L = lib.L if m is None else lib.L.const_rm(getattr(RoundingMode, m))
            evs.append(dict(ev='ops', have=sorted(fields(L))))
    plan = [(n, m) for n in names for m in MODES]
    r.shuffle(plan)
    for n, m in plan:
        xs = tuples(r, F, ARITY[n], cap3 if ARITY[n] == 3 else cap)
        r.shuffle(xs)
        for k in range(0, len(xs), ROWS):
            rows = []
            for x in xs[k:k + ROWS]:
                o = [None, None]
                for f in r.sample([0, 1], 2):
                    o[f] = lib.ask(n, m, bool(f), x)
                rows.append(list(x) + o)
            evs.append(dict(ev='op', F=dict(e=F['e'], m=F['m'], ieee=F['ieee']), op=n, mode=m, rows=rows))
    return evs


def unit_events(j):
    """library operations as components of a processing element: a product fed into a sum"""
    F, seed, n = j
    r = random.Random(seed)
    L = float_lib_gen(F['e'], F['m'], F['ieee'])
    Data = BitVector[1 + F['e'] + F['m']]
    evs = []
    for mode in MODES:
        C = L.const_rm(getattr(RoundingMode, mode))
        @family_closure
        def fixed(family):
            M, A = C.Mul_fc(family), C.Add_fc(family)
            @family.assemble(locals(), globals())
            class PE(Peak):
                def __init__(self):
                    self.mul = M()
                    self.add = A()

                def __call__(self, x: Data, y: Data, z: Data) -> (Data, Data):
                    t = self.mul(x, y)
                    return t, self.add(t, z)
            return PE

        @family_closure
        def chosen(family):
            M, A = L.Mul_fc(family), L.Add_fc(family)
            @family.assemble(locals(), globals())
            class PE(Peak):
                def __init__(self):
                    self.mul = M()
                    self.add = A()

                def __call__(self, rm: RoundingMode, x: Data, y: Data, z: Data) -> (Data, Data):
                    t = self.mul(rm, x, y)
                    return t, self.add(rm, t, z)
            return PE
        f, c = fixed(PyFamily())(), chosen(PyFamily())()
        mul, add = [], []
        for x in tuples(r, F, 3, n):
            a = [Data(v) for v in x]
            got = [outcome(lambda: f(*a)), outcome(lambda: c(getattr(RoundingMode, mode), *a))]
            t = [int(g[1][0]) if g[0] == 'ok' else -1 for g in got]
            o = [int(g[1][1]) if g[0] == 'ok' else -1 for g in got]
            mul.append([x[0], x[1], t[1], t[0]])
            for k in (0, 1):
                if t[k] >= 0:
                    add.append([t[k], x[2]] + [(o[k] if q != k else -2) for q in (0, 1)])
        fm = dict(e=F['e'], m=F['m'], ieee=F['ieee'])
        evs += [dict(ev='op', F=fm, op='Mul', mode=mode, rows=mul), dict(ev='op', F=fm, op='Add', mode=mode, rows=add)]
    return evs


def modes_event(_):
    """the codes of the modes, converted in both directions in the families that compute on enums"""
    evs = []
    ms = [getattr(RoundingMode, m) for m in MODES]
    for fam in (PyXFamily(), SMTFamily()):
        U = RoudningMode_utils(fam)
        eq = lambda a, m: str(a._value_) == str(U.RM_c(m)._value_)
        num = lambda v: int(v) if not isinstance(v, SMTBitVector) else int(v.value.constant_value())
        rows = []
        for c in range(8):
            rm = outcome(lambda: U.to_rm(fam.BitVector[3](c)))
            name = next((m for m, x in zip(MODES, ms) if rm[0] == 'ok' and outcome(eq, rm[1], x) == ('ok', True)), '?')
            b = outcome(lambda: num(U.from_rm(rm[1])))
            rows.append(dict(code=c, name=name, back=b[1] if b[0] == 'ok' else -1))
        rows += [dict(code=k, name=m, back=b[1] if b[0] == 'ok' else -1)
                 for k, m in enumerate(MODES) for b in [outcome(lambda: num(U.from_rm(U.RM_c(ms[k]))))]]
        rows += [dict(code=k, name=m, back=k if outcome(lambda: U.RM_hwtypes_to_RM(U.RM_to_RM_hwtypes(ms[k]))) == ('ok', ms[k]) else -1)
                 for k, m in enumerate(MODES)]
        evs.append(dict(ev='mode', rows=rows))
    return evs


QUICK = [(3, 1, True, 1024), (3, 2, True, 1500), (3, 2, False, 1200), (2, 3, True, 800), (4, 3, False, 300), (5, 10, True, 250), (5, 10, False, 300), (8, 7, False, 400), (8, 7, True, 250)]
DEEP = [(3, 3, True, 1 << 14), (3, 3, False, 1 << 14), (2, 4, True, 1 << 14), (3, 2, True, 1 << 18), (3, 2, False, 1 << 18), (4, 3, True, 1 << 16), (5, 10, True, 20000), (5, 10, False, 20000), (8, 7, False, 20000),
        (8, 7, True, 20000), (6, 5, True, 20000), (3, 8, False, 20000)]


def run(ck):
    ck.model_check('FloatModel', 'FloatModelDeep.cfg' if ck.thorough else None, workers=8)
    r = ck.rng
    jobs = []
    for e, m, ieee, cap in (DEEP if ck.thorough else QUICK):
        F = dict(e=e, m=m, ieee=ieee, spell=r.random() < .5)
        groups = [[o] for o in ['Add', 'Sub', 'Mul', 'Div', 'Rem']] + ([['Fma']] if m + 1 <= 8 else []) + [UN, ['Min', 'Max', 'Leq'], ['Lt', 'Geq', 'Gt', 'Eq'], PRED]
        for g in groups:
            jobs.append((F, r.randrange(1 << 30), g, cap, max(cap, 1 << 18 if ck.thorough and e + m <= 5 else cap)))
    r.shuffle(jobs)
    evs = []
    for f, js in ((job, jobs), (modes_event, [0]),
                  (unit_events, [(dict(e=e, m=m, ieee=i), r.randrange(1 << 30), 2000 if ck.thorough else 60) for e, m, i in ((3, 2, True), (8, 7, False), (5, 10, True))])):
        for (st, x), j in zip(par.pmap(f, js, base=ck.tmp), js):
            if st == 'ok':
                evs += x
            else:
                ck.fail('crash:%s' % f.__name__, dict(job=str(j), traceback=x[1]))
    ck.validate('FloatTrace', evs, label='float', chunk=max(60, len(evs) // 8 + 1), jobs=8, classify=lambda f, e: 'float:' + f['clause'])
    ck.notes.update(results=sum(2 * len(e.get('rows', ())) for e in evs if e['ev'] == 'op'))
