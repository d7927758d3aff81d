"""C11: histories of requests to family closures, against spec/Closure."""
import random, types as pytypes, itertools
import par, hw, adt
import magma as m
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector, AbstractBit, AbstractBitVector
from hwtypes.adt import Product, Enum, Tuple, Sum
from peak import Peak, family_closure, name_outputs, Const
from peak import family as peak_family
from peak.assembler.assembler import Assembler
from peak.features import family_closure as family_closure2
from vp import outcome


# -- families -----------------------------------------------------------------------------
class OwnBit(Bit):
    pass


class OwnBV(BitVector):
    pass


class OwnS(SIntVector):
    pass


class OwnU(UIntVector):
    pass


class SubPy(peak_family.PyFamily): pass
class SubSubPy(SubPy): pass
class SubPyX(peak_family.PyXFamily): pass
class SubSMT(peak_family.SMTFamily): pass
class SubMagma(peak_family.MagmaFamily): pass


class OwnPy(peak_family.PyFamily):
    """a user's family with bits of its own"""
    @property
    def Bit(self):
        return OwnBit

    @property
    def BitVector(self):
        return OwnBV

    @property
    def Signed(self):
        return OwnS

    @property
    def Unsigned(self):
        return OwnU


class Asm2(Assembler):
    pass


class NS1:      # a user's name space of families
    PyFamily, PyXFamily, SMTFamily, MagmaFamily = SubPy, SubPyX, SubSMT, SubMagma


class NS2:
    PyFamily, PyXFamily, SMTFamily, MagmaFamily = OwnPy, SubPyX, peak_family.SMTFamily, peak_family.MagmaFamily


PF = peak_family
FAMS = dict(
    Py=(PF.PyFamily, {}), SubPy=(SubPy, {}), SubSubPy=(SubSubPy, {}), OwnPy=(OwnPy, {}),
    PyX=(PF.PyXFamily, {}), PyX2=(PF.PyXFamily, dict(assembler=Asm2)), SubPyX=(SubPyX, {}),
    SMT=(PF.SMTFamily, {}), SMT2=(PF.SMTFamily, dict(assembler=Asm2)), SubSMT=(SubSMT, {}),
    Magma=(PF.MagmaFamily, {}), Magma2=(PF.MagmaFamily, dict(assembler=Asm2)), SubMagma=(SubMagma, {}))
KIND = dict(Py='hw', SubPy='hw', SubSubPy='hw', OwnPy='own', PyX='hw', PyX2='hw', SubPyX='hw', SMT='smt', SMT2='smt',
            SubSMT='smt', Magma='magma', Magma2='magma', SubMagma='magma')
STD = {n: dict(Py='Py', PyX='PyX', SMT='SMT', Magma='Magma')[n] for n in ('Py', 'PyX', 'SMT', 'Magma')}


def make(r, f, pool):
    """an object that is the family f: a new one or one made before; assembler given or left out"""
    if pool.get(f) and r.random() < .5:
        return r.choice(pool[f])
    cls, kw = FAMS[f]
    kw = dict(kw)
    if not kw and KIND[f] not in ('hw', 'own') or f in ('PyX', 'SubPyX'):
        if r.random() < .3:
            kw = r.choice([dict(assembler=Assembler), dict(assembler=None), dict(option=r.randrange(3))])
    elif f in ('Py', 'SubPy', 'OwnPy') and r.random() < .2:
        kw = dict(option=1)
    x = cls(**kw)
    pool.setdefault(f, []).append(x)
    return x


def name_of(x):
    for n, (cls, kw) in FAMS.items():
        if type(x) is cls and getattr(x, '_assembler', None) is (kw.get('assembler') or (Assembler if hasattr(x, '_assembler') else None)):
            return n
    return repr(x)


# -- closures --------------------------------------------------------------------------------
class Boom(Exception):
    pass


class World:
    def __init__(self, r):
        self.r, self.evs, self.objs, self.runs, self.closures, self.pool = r, [], {}, [], [], {}
        self.keep = []
        self.poison = set()

    def obj(self, x):
        self.keep.append(x)
        return self.objs.setdefault(id(x), len(self.objs) + 1)

    def request(self, c, f, args, path=()):
        """request closure c with family f and arguments args (full canonical tuple)"""
        r = self.r
        cl = self.closures[c]
        fam = make(r, f, self.pool)
        params = cl['params']
        given = dict(zip([p for p, _ in params], args))
        # leave out some of the defaults
        shown = {p: v for (p, dflt), v in zip(params, args) if dflt is NODEF or v != dflt or r.random() < .5}
        pos = [p for p, _ in params]
        kpos = 0
        while kpos < len(pos) and pos[kpos] in shown and pos[kpos] not in cl['kwonly']:
            kpos += 1
        npos = r.randrange(kpos + 1)
        a = [shown[p] for p in pos[:npos]]
        kws = [(p, shown[p]) for p in pos[npos:] if p in shown]
        if npos == 0 and r.random() < .3:
            kws.append(('family', fam))
        else:
            a = [fam] + a
        r.shuffle(kws)
        auto = f in STD and not a[1:] and not kws and r.random() < .4
        mine = [n for n in ('Py', 'PyX', 'SMT', 'Magma') if getattr(cl['ns'], n + 'Family') is FAMS[f][0] and not FAMS[f][1]]
        n0 = len(self.runs)
        self.runs.append([])
        mark = self.runs[-1]
        cl['stack'].append(mark)
        if auto and mine or (mine and not a[1:] and not kws and r.random() < .3):
            x = outcome(lambda: getattr(cl['fc'], mine[0]))
        else:
            x = outcome(lambda: cl['fc'](*a, **dict(kws)))
        cl['stack'].pop()
        o = 0 if x == ('exc', 'Boom', '') else self.obj(x[1]) if x[0] == 'ok' else -1
        gf, ga = mark[-1] if mark else ('', '')
        self.evs.append(dict(ev='call', c=c, f=f, a=repr(args), o=o, ran=len(mark), gf=gf, ga=ga))
        if o == -1:
            self.evs[-1]['gf'], self.evs[-1]['error'] = 'failed', repr(x)
        return x[1] if x[0] == 'ok' else None


class _N:
    def __repr__(self):
        return 'NODEF'


NODEF = _N()
ARGS = [0, 2, 3, 'x', 'yy', None, (1, 2), BitVector[4], Bit, SIntVector[4], UIntVector[4], SIntVector[8], -1]


def add_closure(w, c, shape):
    r = w.r
    ns = r.choice([PF, PF, NS1, NS2])
    deco = family_closure if ns is PF and r.random() < .8 else family_closure2(ns) if ns is not PF else family_closure
    cl = dict(ns=ns, stack=[], kwonly=())
    bad = set()

    def ran(fam, *args):
        if cl['stack']:
            cl['stack'][-1].append((name_of(fam), repr(args)))
        # sometimes ask another closure, sometimes fail
        if c and r.random() < .4:
            k = r.randrange(c)
            w.request(k, r.choice([name_of(fam), r.choice(list(FAMS))]), pick_args(r, w.closures[k]))
        if (c, name_of(fam), args) in w.poison:
            if r.random() < .5:
                w.poison.discard((c, name_of(fam), args))
            raise Boom
        v = r.randrange(4)
        return object() if v else type('Made%d' % c, (), {})

    if shape == 0:
        def fc(family): return ran(family)
        params = []
    elif shape == 1:
        def fc(family, n): return ran(family, n)
        params = [('n', NODEF)]
    elif shape == 2:
        def fc(family, n, k=2): return ran(family, n, k)
        params = [('n', NODEF), ('k', 2)]
    elif shape == 3:
        def fc(family, a=0, b='x', c=None): return ran(family, a, b, c)
        params = [('a', 0), ('b', 'x'), ('c', None)]
    else:
        def fc(family, a, *, b=3, c=Bit): return ran(family, a, b, c)
        params = [('a', NODEF), ('b', 3), ('c', Bit)]
        cl['kwonly'] = ('b', 'c')
    cl.update(fc=deco(fc), params=params)
    w.closures.append(cl)


def pick_args(r, cl):
    return tuple(dflt if dflt is not NODEF and r.random() < .5 else r.choice(ARGS[:6] if r.random() < .6 else ARGS) for _, dflt in cl['params'])


def history(seed):
    r = random.Random(seed)
    w = World(r)
    w.evs.append(dict(ev='begin'))
    for c in range(r.choice([1, 2, 3])):
        add_closure(w, c, r.randrange(5))
    fams = r.sample(list(FAMS), r.choice([2, 4, len(FAMS)]))
    if r.random() < .5:      # families that are close to one another
        fams = r.choice([['Py', 'SubPy', 'SubSubPy', 'OwnPy', 'PyX'], ['PyX', 'PyX2', 'SubPyX', 'Py'], ['SMT', 'SMT2', 'SubSMT', 'PyX'], ['Magma', 'Magma2', 'SubMagma', 'SMT']])
    menu = []
    for _ in range(r.choice([3, 6])):
        c = r.randrange(len(w.closures))
        menu.append((c, pick_args(r, w.closures[c])))
        if r.random() < .2:
            w.poison.add((menu[-1][0], r.choice(fams), menu[-1][1]))
    for _ in range(r.choice([10, 30, 60])):
        c, a = r.choice(menu)
        w.request(c, r.choice(fams), a)
    for _ in range(15):
        f, g = r.choice(fams), r.choice(fams)
        x, y = make(r, f, w.pool), make(r, g, w.pool)
        w.evs.append(dict(ev='eq', f=f, g=g, eq=outcome(lambda: x == y)[1] is True, ne=outcome(lambda: x != y)[1] is True, heq=hash(x) == hash(y)))
    return w.evs


# -- components: the types of what is made -----------------------------------------------------
class En(Enum):
    a, b, c = 0, 1, 2


@family_closure
def Leafs_fc(family, n=4):
    T, S, U, B = family.BitVector[n], family.Signed[n], family.Unsigned[n], family.Bit

    @family.assemble(locals(), globals())
    class Leafs(Peak):
        @name_outputs(o=T, s=S, u=U, b=B)
        def __call__(self, x: T, y: S, z: U, e: B) -> (T, S, U, B):
            if e:
                x = ~x
            return x, y, z, ~e
    return Leafs


@family_closure
def Consts_fc(family, n=4):
    T, B = family.BitVector[n], family.Bit

    @family.assemble(locals(), globals())
    class Consts(Peak):
        def __call__(self, x: Const(T), e: B) -> (T, B):
            if e:
                return x, ~e
            else:
                return x + 1, e
    return Consts


@family_closure
def Outer_fc(family, n=4):
    T, B = family.BitVector[n], family.Bit
    Inner = Leafs_fc(family, n)
    R = family.gen_register(T, 0)
    A = family.gen_attr_register(B, 0)

    @family.assemble(locals(), globals())
    class Outer(Peak):
        def __init__(self):
            self.i = Inner()
            self.r = R()
            self.a = A()

        @name_outputs(o=T, p=B)
        def __call__(self, x: T, y: family.Signed[n], z: family.Unsigned[n], e: B) -> (T, B):
            o, s, u, b = self.i(x, y, z, e)
            q = self.r(o, e)
            g = self.a
            self.a = b
            return q, g ^ b
    return Outer


def owner(T):
    """which kind of bits a leaf type is made of"""
    if hwtypes.is_adt_type(T):
        return 'adt'
    if issubclass(T, (m.Bits, m.Bit)):
        return 'magma'
    if issubclass(T, (hwtypes.SMTBit, hwtypes.SMTBitVector)):
        return 'smt'
    if issubclass(T, (OwnBit, OwnBV, OwnS, OwnU)):
        return 'own'
    if issubclass(T, (Bit, BitVector)):
        return 'hw'
    return repr(T)


def leaves(f, fam, C):
    if KIND[f] == 'magma':
        return [owner(type(p)) for n, p in C.interface.ports.items() if n not in ('CLK', 'ASYNCRESET', 'RESET')]
    res = []
    for t in (C.input_t, C.output_t):
        for T in t.field_dict.values():
            res.append(owner(hwtypes.modifiers.strip_modifiers(T)))
    return res


def values(r, f, fam, C, n, seq):
    """what it computes is made of the family's bits as well"""
    o = C()
    if KIND[f] == 'smt':
        args = [fam.BitVector[n](), fam.Signed[n](), fam.Unsigned[n](), fam.Bit()]
    else:
        args = [fam.BitVector[n](r.randrange(1 << n)), fam.Signed[n](r.randrange(1 << n)), fam.Unsigned[n](r.randrange(1 << n)), fam.Bit(r.randrange(2))]
    if len(C.input_t.field_dict) == 2:
        args = [args[0], args[3]]
    res = []
    for _ in range(seq):
        y = outcome(lambda: o(*args))
        res += [owner(type(v)) for v in y[1]] if y[0] == 'ok' else [repr(y)]
    return res


def purity(seed):
    r = random.Random(seed)
    w = World(r)
    w.evs.append(dict(ev='begin'))
    n = r.choice([1, 2, 3, 5])
    fams = list(FAMS)
    r.shuffle(fams)
    fcs = [Leafs_fc, Outer_fc, Consts_fc]
    r.shuffle(fcs)
    jobs = [(fc, f) for fc in fcs for f in fams]
    r.shuffle(jobs)
    for fc, f in jobs:
        if f == 'OwnPy' and fc is not Leafs_fc:
            continue        # its literals are of the python family
        fam = make(r, f, w.pool)
        x = outcome(lambda: fc(fam, n) if n != 4 else fc(fam))
        if x[0] != 'ok':
            w.evs.append(dict(ev='pure', f=KIND[f], leaves=[repr(x)]))
            continue
        C = x[1]
        first = {}
        y = outcome(lambda: leaves(f, fam, C))
        L = y[1] if y[0] == 'ok' else [repr(y)]
        if KIND[f] != 'magma':
            L = L + values(r, f, fam, C, n, 2)
        w.evs.append(dict(ev='pure', f=KIND[f], leaves=L, what='%s for %s' % (fc.fc.__name__, f)))
        w.evs.append(dict(ev='call', c=fcs.index(fc), f=f, a=str(n), o=w.obj(C), ran=1, gf=f, ga=str(n)))
    # once more, in another order
    seen = set()
    out = []
    for e in w.evs:
        if e['ev'] == 'call' and (e['c'], e['f']) not in seen:
            seen.add((e['c'], e['f']))
    r.shuffle(jobs)
    for fc, f in jobs[:20]:
        if (fcs.index(fc), f) in seen:
            x = outcome(lambda: fc(make(r, f, w.pool), n))
            w.evs.append(dict(ev='call', c=fcs.index(fc), f=f, a=str(n), o=w.obj(x[1]), ran=0, gf='', ga=''))
    # registers
    for _ in range(10):
        f = r.choice([f for f in fams if KIND[f] in ('hw', 'smt', 'own')])
        fam = make(r, f, w.pool)
        T = r.choice([fam.BitVector[n], fam.Signed[n], fam.Unsigned[n], fam.Bit])
        R = fam.gen_register(T, 0, has_enable=r.random() < .7)
        y = outcome(lambda: leaves(f, fam, R) + [owner(type(R().prev()))])
        w.evs.append(dict(ev='pure', f=KIND[f], leaves=y[1] if y[0] == 'ok' else [repr(y)], what='register for %s' % f))
    return w.evs


def one(job):
    return (history if job[0] == 'h' else purity)(job[1])


def run(ck):
    ck.model_check('Closure', workers=6, cfg=None if not ck.thorough else 'ClosureDeep.cfg')
    k = 12 if ck.thorough else 1
    jobs = [('p', ck.rng.randrange(1 << 40)) for _ in range(7 * (6 if ck.thorough else 1))]
    jobs += [('h', ck.rng.randrange(1 << 40)) for _ in range(400 * k)]
    parts, info = [], []
    for (st, x), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st != 'ok':
            ck.fail('crash:%s' % j[0], dict(job=j, error=x))
            continue
        parts.append(x)
        info.append(j)
    ck.validate_parts('ClosureTrace', parts, label='closure', info=info)
    ck.notes.update(histories=len(parts), requests=sum(e['ev'] == 'call' for p in parts for e in p))
