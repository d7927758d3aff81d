"""C21: declarations of components and calls, against spec/Iface."""
import random, os, sys, importlib.util, itertools
import adt, par
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from peak import Peak, Const, name_outputs
from peak.family import PyFamily, PyXFamily, SMTFamily, MagmaFamily
from vp import outcome


class E1(Enum):
    a, b = 0, 1


class E2(Enum):
    a, b = 0, 1


class P1(Product):
    f = BitVector[4]
    g = Bit


class P2(Product):
    f = BitVector[4]
    g = Bit


T1 = Tuple[BitVector[8], Bit]
S1 = Sum[BitVector[8], Bit]


class G1(TaggedUnion):
    u = BitVector[4]
    v = Bit


TYPES = dict(BV8=BitVector[8], BV4=BitVector[4], SInt8=SIntVector[8], UInt8=UIntVector[8], SInt4=SIntVector[4], Bit=Bit,
             E1=E1, E2=E2, P1=P1, P2=P2, T1=T1, S1=S1, G1=G1)
VALUES = dict(BV8=BitVector[8](3), BV4=BitVector[4](3), SInt8=SIntVector[8](3), UInt8=UIntVector[8](3), SInt4=SIntVector[4](3), Bit=Bit(1),
              E1=E1.a, E2=E2.a, P1=P1(BitVector[4](1), Bit(0)), P2=P2(BitVector[4](1), Bit(0)), T1=T1(BitVector[8](1), Bit(0)),
              S1=S1(Bit(1)), G1=G1(u=BitVector[4](2)), int=3, bool=True, **{'None': None, 'str': 'x'})
CONST = {'C_' + k: Const(T) for k, T in TYPES.items()}
ALL = dict(TYPES, **CONST)
NAME = {id(T): k for k, T in ALL.items()}
LEAF = ['BV8', 'BV4', 'SInt8', 'UInt8', 'Bit']


def source(d, cls, base, me='self', loc=False):
    """the declaration as a program text"""
    L = []
    fl = []
    if not d['gi'] or d.get('spell'):
        fl.append('gen_input_t=%s' % d['gi'])
    if not d['go'] or d.get('spell'):
        fl.append('gen_output_t=%s' % d['go'])
    if d['tc'] or d.get('spell'):
        fl.append('typecheck=%s' % d['tc'])
    L.append('class %s(%s):' % (cls, ', '.join([base] + fl)))
    if d['names']:
        L.append('    @name_outputs(%s)' % ', '.join('%s=%s' % (o['n'], o['t']) for o in d['names'][0]))
    ps = ', '.join([me] + [p['n'] + ('' if p['t'] == '-' else ': ' + p['t']) for p in d['params']])
    ts = d['ret']['ts']
    ret = {'-': '', 'none': ' -> None', 'some': ' -> %s' % ('(%s)' % ', '.join(ts) if len(ts) > 1 else ts[0] if ts and not d.get('tup') else '(%s,)' % ''.join(ts))}[d['ret']['k']]
    L.append('    def __call__(%s)%s:' % (ps, ret))
    L.append('        """what it computes"""')
    if loc:
        L.append('        a, q9 = RESULT[0], len(%s.__dict__)' % me if 'a' not in [p['n'] for p in d['params']] and me != 'a' else '        q9 = 0')
    L.append('        return RESULT[0]')
    return '\n'.join(L)


class World:
    def __init__(self, r, env, bases=()):
        self.r, self.env, self.evs, self.n, self.cls, self.decl = r, env, [dict(ev='begin')], 0, {0: Peak}, {}
        self.ns = dict(ALL, Peak=Peak, name_outputs=name_outputs, RESULT=[None], **{k: v for k, v in env.items()})

    def derive(self, parent, d):
        self.n += 1
        c = self.n
        base = 'Base%d' % parent
        self.ns[base] = self.cls[parent]
        pub = None if d is None else {k: v for k, v in d.items() if k not in ('spell', 'tup')}
        if d is None:
            src = 'class K(%s):\n    def other(self, x):\n        return x' % base
        else:
            src = source(d, 'K', base, self.r.choice(['self'] * 6 + ['this', '_', 'me', 'cls']), self.r.random() < .3)
        x = outcome(lambda: exec(src, self.ns))
        self.evs.append(dict(ev='decl', c=c, parent=parent, own=d is not None, d=pub or 0, ok=x[0] == 'ok', src=src, **({} if x[0] == 'ok' else dict(error=repr(x)))))
        if x[0] != 'ok':
            return 0
        self.cls[c] = self.ns['K']
        self.decl[c] = d or self.decl[parent]
        self.iface(c)
        return c

    def name(self, T):
        return NAME.get(id(T), repr(T))

    def one(self, f):
        x = outcome(f)
        if x[0] != 'ok':
            return dict(k='-' if x[1] == 'AttributeError' else repr(x), f=[])
        if x[1] is None:
            return dict(k='none', f=[])
        y = outcome(lambda: [dict(n=str(n), t=self.name(T)) for n, T in x[1].field_dict.items()])
        return dict(k='some', f=y[1]) if y[0] == 'ok' else dict(k=repr(y), f=[])

    def iface(self, c):
        K = self.cls[c]
        self.evs.append(dict(ev='iface', c=c, ins=self.one(lambda: K.input_t), outs=self.one(lambda: K.output_t)))

    def call(self, c, res, n=None, kw=False, one=True):
        """call an instance whose body returns values of types res"""
        K, d = self.cls[c], self.decl[c]
        vals = [VALUES[t] for t in res]
        v = (vals[0] if one else tuple(vals)) if len(vals) == 1 else tuple(vals) if vals else None if one else ()
        self.ns['RESULT'][0] = v
        names = [p['n'] for p in d['params']]
        n = len(names) if n is None else n
        args = [VALUES[self.r.choice(list(VALUES))] for _ in range(n)]
        o = K()
        if kw and n == len(names):
            k = self.r.randrange(n + 1)
            kws = list(zip(names, args))[k:]
            self.r.shuffle(kws)
            f = lambda: o(*args[:k], **dict(kws))
        elif kw and n > len(names):
            f = lambda: o(*args[:len(names)], **{self.r.choice(['zz', names[0] if names else 'q']): 1})
        else:
            f = lambda: o(*args)
        x = outcome(f)
        self.evs.append(dict(ev='call', c=c, n=n, res=res, ok=x[0] == 'ok', same=x[0] == 'ok' and x[1] is v, **({} if x[0] == 'ok' else dict(error=repr(x)))))

    def calls(self, c, k):
        r, d = self.r, self.decl[c]
        outs = d['names'][0] if d['names'] else None
        want = [o['t'] for o in outs] if outs is not None else d['ret']['ts']
        none = outs is None and d['ret']['k'] != 'some'
        for _ in range(k):
            x = r.random()
            res = list(want)
            if x < .35:
                pass
            elif x < .7:
                if res:
                    j = r.randrange(len(res))
                    res[j] = r.choice([t for t in VALUES if t != 'None'])
                else:
                    res = [r.choice([t for t in VALUES if t != 'None'])]
            elif x < .8:
                res = res + [r.choice([t for t in VALUES if t != 'None'])]
            elif x < .9:
                res = res[:-1] if len(res) > 1 else ['None'] if res else []
            else:
                r.shuffle(res)
            if none and len(res) > 0 and r.random() < .5:
                res = []
            one = True if none else r.random() < .7 if res else False
            if not res and not none and not d['tc']:
                one = r.random() < .5
            n = len(d['params'])
            y = r.random()
            self.call(c, res, n if y < .8 else n + 1 if y < .9 or n == 0 else n - 1, r.random() < .5, one)


# -- every small declaration ----------------------------------------------------------------
def small(job):
    seed, cases, k = job
    r = random.Random(seed)
    w = World(r, {})
    for d in cases:
        A, B = r.choice([('BV8', 'Bit'), ('Bit', 'BV4'), ('SInt8', 'BV8'), ('BV8', 'SInt8'), ('E1', 'E2'), ('P1', 'P2'), ('T1', 'G1'), ('S1', 'BV8'), ('C_BV8', 'BV8')])
        f = {'A': A, 'B': B, '-': '-'}
        out = lambda t: f[t][2:] if f[t].startswith('C_') else f[t]
        d = dict(d, params=[dict(p, t=f[p['t']]) for p in d['params']], ret=dict(k=d['ret']['k'], ts=[out(t) for t in d['ret']['ts']]),
                 names=[[dict(o, t=out(o['t'])) for o in n] for n in d['names']], spell=r.random() < .5, tup=r.random() < .3)
        c = w.derive(0, d)
        if c:
            w.calls(c, k)
    return w.evs


PN = ['a', 'b', 'c', 'in0', 'in1', 'zz', 'x', 'y', 'self_', 'Peak', 'O', 'O0', 'value', 'A', '_p', 'name']


def random_decl(r, types, outs=None):
    n = r.choice([0, 1, 2, 3, 4, 6])
    params = [dict(n=x, t=r.choice(types + ['C_' + r.choice(types)]) if r.random() < .97 else '-') for x in r.sample(PN, n)]
    ts = [r.choice(types) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    k = r.choice(['some'] * 8 + ['-', 'none'])
    names = []
    if r.random() < .5:
        nt = ts if r.random() < .7 else [r.choice(types) for _ in range(r.choice([1, 2, 3]))]
        names = [[dict(n=x, t=t) for x, t in zip(r.sample([x for x in PN if x not in ()], len(nt)), nt)]]
    return dict(params=params, ret=dict(k=k, ts=ts if k == 'some' else []), names=names, gi=r.random() < .9, go=r.random() < .9, tc=r.random() < .5,
                spell=r.random() < .3, tup=r.random() < .3)


def tree(seed):
    """classes derived from classes"""
    r = random.Random(seed)
    w = World(r, {})
    live = []
    for _ in range(r.choice([3, 6, 10])):
        p = r.choice([0] + live)
        c = w.derive(p, None if p and r.random() < .4 else random_decl(r, list(TYPES)))
        if c:
            live.append(c)
            w.calls(c, 3)
        for c in live:
            w.iface(c)
        if live:
            w.calls(r.choice(live), 3)
    return w.evs


# -- components of families -------------------------------------------------------------------
def family_source(r, name):
    types = LEAF
    while True:
        d = random_decl(r, types)
        d.update(gi=True, go=True, tc=False, spell=False, tup=False)
        d['params'] = [p for p in d['params'] if p['t'] != '-'] or [dict(n='a', t='BV8')]
        have = [p['t'][2:] if p['t'].startswith('C_') else p['t'] for p in d['params']]
        ts = [r.choice(have) for _ in range(r.choice([1, 1, 2, 3]))]
        d['ret'] = dict(k='some', ts=ts)
        taken = {p['n'] for p in d['params']}
        if d['names']:
            d['names'] = [[dict(n=x, t=t) for x, t in zip(r.sample([x for x in PN + ['o1', 'o2', 'q'] if x not in taken], len(ts)), ts)]]
        if not (taken & {'O', 'O0', 'Peak', 'A', 'name', 'value'}):
            break
    used = []
    for t in ts:
        used.append(r.choice([p['n'] for p, h in zip(d['params'], have) if h == t]))
    # the installed Magma cannot name output ports (tests.test_magma::test_basic[True-True] fails for that)
    named = not d['names'] and r.random() < .6
    lines = ['from peak import Peak, family_closure, name_outputs, Const', '@family_closure', 'def %s_fc(family):' % name]
    own = r.random() < .5      # the family's own types or the plain ones
    for t in sorted(set(have)):
        e = {'B': 'BitVector[%s]' % t[2:], 'S': 'Signed[%s]' % t[4:], 'U': 'Unsigned[%s]' % t[4:]}[t[0]] if t != 'Bit' else 'Bit'
        lines.append('    %s = %s' % (t, 'family.' + e if own else 'ALL[%r]' % t))
        lines.append('    C_%s = Const(%s)' % (t, t))
    lines.append('    @family.assemble(locals(), globals()%s)' % (', set_port_names=True' if named else ''))
    body = source(d, name, 'Peak').split('\n')
    body = body[:-2] + ['        return ' + ', '.join(used)]
    if '->' not in body[-2]:
        raise AssertionError(body)
    return d, named, own, '\n'.join(lines + ['    ' + b for b in body] + ['    return ' + name, ''])


def families(seed):
    r = random.Random(seed)
    evs = []
    for q in range(6):
        name = 'If%d_%d_%d' % (os.getpid(), seed % 100003, q)
        d, named, own, src = family_source(r, name)
        path = os.path.join('.', name + '.py')
        with open(path, 'w') as f:
            f.write(src)
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        mod.ALL = ALL
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        fc = getattr(mod, name + '_fc')
        pub = {k: v for k, v in d.items() if k not in ('spell', 'tup')}
        for F in (PyFamily, PyXFamily, SMTFamily):
            fam = F()
            C = fc(fam)
            types = {}
            for t in LEAF:
                e = ALL[t]
                if own and fam.Bit is not Bit:
                    e = {'B': lambda: fam.BitVector[int(t[2:])], 'S': lambda: fam.Signed[int(t[4:])], 'U': lambda: fam.Unsigned[int(t[4:])]}[t[0]]() if t != 'Bit' else fam.Bit
                types[id(e)] = t
                types[id(Const(e))] = 'C_' + t
            show = lambda T: dict(k='some', f=[dict(n=str(n), t=types.get(id(x), repr(x))) for n, x in T.field_dict.items()])
            evs += [dict(ev='begin'), dict(ev='decl', c=1, parent=0, own=True, d=pub, ok=True),
                    dict(ev='iface', c=1, ins=show(C.input_t), outs=show(C.output_t), fam=F.__name__, src=src)]
        M = outcome(lambda: fc(MagmaFamily()))
        if M[0] != 'ok':
            raise RuntimeError('/peak/ %r\n%s' % (M, src))
        ports = [str(n) for n in M[1].interface.ports if n not in ('CLK', 'ASYNCRESET', 'RESET')]
        evs.append(dict(ev='ports', d=pub, named=named, ports=ports, src=src))
    return evs


def one(job):
    return dict(small=small, tree=tree, families=families)[job[0]](*job[1:])


def run(ck):
    ck.model_check('Iface')
    cases = ck.generate('IfaceGen')
    if len(cases) < 5000:
        raise RuntimeError('generator')
    r = ck.rng
    r.shuffle(cases)
    k = 10 if ck.thorough else 1
    n = 28
    jobs = [('families', r.randrange(1 << 40)) for _ in range(14 * k)]
    jobs += [('small', (r.randrange(1 << 40), cases[j::n], 20 if ck.thorough else 3)) for j in range(n)]
    jobs += [('tree', r.randrange(1 << 40)) for _ in range(150 * k)]
    parts, info = [], []
    for (st, x), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st != 'ok':
            ck.fail('crash:%s' % j[0], dict(job=str(j)[:200], error=x))
            continue
        parts.append(x)
        info.append(str(j)[:200])
    ck.validate_parts('IfaceTrace', parts, label='interface', info=info)
    ck.notes.update(declarations_enumerated=len(cases), calls=sum(e['ev'] == 'call' for p in parts for e in p))
