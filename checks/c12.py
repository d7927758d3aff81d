"""C12: histories of black boxes and of component trees, against spec/BlackBox."""
import random, os, sys, importlib.util
import par
import hwtypes
from hwtypes import Bit, BitVector
from peak import Peak, family_closure, name_outputs
from peak.family import PyFamily, PyXFamily, SMTFamily, MagmaFamily
from peak.black_box import BlackBox, get_black_boxes, get_black_box
from vp import outcome


# -- kinds of black box: (closure, inputs in declared order, number of outputs) -----------------
@family_closure
def One_fc(family):
    T = BitVector[8]

    @family.assemble(locals(), globals())
    class One(Peak, BlackBox):
        def __call__(self, x: T) -> T:
            return x
    return One


@family_closure
def Two_fc(family):
    T = BitVector[8]

    @family.assemble(locals(), globals())
    class Two(Peak, BlackBox):
        @name_outputs(z=T, a=T)
        def __call__(self, q: T, p: T) -> (T, T):
            return p, q
    return Two


@family_closure
def Three_fc(family):
    T, B = BitVector[8], Bit

    @family.assemble(locals(), globals())
    class Three(Peak, BlackBox):
        def __call__(self, c: T, a: T, b: T) -> (T, T, T):
            return a, b, c
    return Three


@family_closure
def None_fc(family):
    T = BitVector[8]

    @family.assemble(locals(), globals())
    class Source(Peak, BlackBox):
        @name_outputs(v=T)
        def __call__(self) -> T:
            return family.BitVector[8](1)
    return Source


@family_closure
def Inner_fc(family):
    """a black box that has components of its own"""
    T = BitVector[8]
    One = One_fc(family)

    @family.assemble(locals(), globals())
    class Inner(Peak, BlackBox):
        def __init__(self):
            BlackBox.__init__(self)
            self.one = One()

        def __call__(self, x: T, k: T) -> T:
            return self.one(x)
    return Inner


KINDS = [(One_fc, ('x',), 1), (Two_fc, ('q', 'p'), 2), (Three_fc, ('c', 'a', 'b'), 3), (None_fc, (), 1), (Inner_fc, ('x', 'k'), 1)]


class OwnSMT(SMTFamily):
    pass


class Node(Peak):
    pass


class Node2(Peak):
    def __init__(self):
        self.count = 0
        self.label = 'n'


class World:
    def __init__(self, r, fam):
        self.r, self.fam, self.evs = r, fam, [dict(ev='begin')]
        self.objs, self.ids, self.kind, self.vals, self.keep = [], {}, {}, 0, []
        self.py = isinstance(fam, PyFamily)
        self.classes = {}

    def value(self):
        """a new value and its name"""
        self.vals += 1
        if self.py:
            x = BitVector[16](self.vals)
            return x, str(self.vals)
        x = self.fam.BitVector[8]()
        return x, str(x.value)

    def name(self, x):
        if self.py:
            return str(int(x)) if isinstance(x, BitVector) else repr(x)
        return str(x.value) if isinstance(x, hwtypes.SMTBitVector) else repr(x)

    def add(self, obj, kind=None):
        o = len(self.objs) + 1
        self.objs.append(obj)
        self.ids[id(obj)] = o
        self.kind[o] = kind
        self.evs.append(dict(ev='node', o=o, bb=kind is not None, n=len(kind[1]) if kind else 0, m=kind[2] if kind else 0))
        return o

    def box(self, kind):
        k = KINDS.index(kind)
        if k not in self.classes:
            if self.py:     # the protocol on a class of the python family
                base = kind[0](self.fam)
                C = type('%sBB' % base.__name__, (base,), {})
                C.create_call()
            else:
                C = kind[0](self.fam)
            self.classes[k] = C
        b = self.classes[k]()
        o = self.add(b, kind)
        if kind[0] is Inner_fc:
            i = self.add(b.one, KINDS[0])
            self.evs.append(dict(ev='put', o=o, f='one', x=i))
        return o

    def names(self, x):
        return [self.name(v) for v in (x if isinstance(x, tuple) else (x,))]

    def set(self, o):
        b, (fc, ins, m) = self.objs[o - 1], self.kind[o]
        n = m if self.r.random() < .9 else self.r.choice([m - 1, m + 1])
        vs = [self.value() for _ in range(n)]
        x = outcome(lambda: b._set_outputs(*[v for v, _ in vs]))
        self.evs.append(dict(ev='set', o=o, v=[s for _, s in vs], ok=x[0] == 'ok'))

    def call(self, o):
        b, (fc, ins, m) = self.objs[o - 1], self.kind[o]
        vs = [self.value() for _ in ins]
        form, names = True, [s for _, s in vs]
        x = self.r.random()
        vals = [v for v, _ in vs]
        if x < .45:
            f = lambda: b(*vals)
        elif x < .9:
            kw = list(zip(ins, vals))
            self.r.shuffle(kw)
            f = lambda: b(**dict(kw))
        elif x < .93 and ins:
            f = lambda: b(*vals[:-1])
            names = names[:-1]
        elif x < .96:
            v, s = self.value()
            f = lambda: b(*vals, v)
            names = names + [s]
        else:
            form = False
            kw = dict(zip(ins, vals))
            kw['other'] = self.value()[0]
            if ins and self.r.random() < .5:
                del kw[ins[0]]
            f = lambda: b(**kw)
        y = outcome(f)
        self.evs.append(dict(ev='call', o=o, a=names, form=form, out=[self.names(y[1])] if y[0] == 'ok' else []))

    def ins(self, o):
        y = outcome(lambda: self.objs[o - 1]._get_inputs())
        self.evs.append(dict(ev='ins', o=o, out=[self.names(tuple(y[1]))] if y[0] == 'ok' else []))

    def find(self, o):
        y = outcome(lambda: get_black_boxes(self.objs[o - 1]))
        L = [dict(path=[str(f) for f in p], o=self.ids.get(id(b), 0)) for p, b in y[1].items()] if y[0] == 'ok' else []
        self.evs.append(dict(ev='find', o=o, ok=y[0] == 'ok', list=L, **({} if y[0] == 'ok' else dict(error=repr(y)))))
        return [e['path'] for e in L]

    def get(self, o, path):
        y = outcome(lambda: get_black_box(self.objs[o - 1], self.r.choice([tuple, list])(path)))
        self.evs.append(dict(ev='get', o=o, path=list(path), out=self.ids.get(id(y[1]), -1) if y[0] == 'ok' else 0 if y[1] == 'ValueError' else -2))


FIELDS = ['a', 'b', 'aa', '_c', 'Z', 'add', 'm1']


def history(seed):
    r = random.Random(seed)
    w = World(r, r.choice([SMTFamily, SMTFamily, OwnSMT, PyFamily, PyXFamily])())
    nodes = [w.add(r.choice([Node, Node2])()) for _ in range(r.choice([1, 2, 4, 7]))]
    kinds = r.sample(KINDS, r.choice([1, 2, 4]))
    boxes = []
    paths = []
    tree = r.random() < .6       # no sharing, no cycles
    used = set()
    for _ in range(r.choice([10, 25, 60])):
        x = r.random()
        if x < .12 or not boxes:
            boxes.append(w.box(r.choice(kinds)))
        elif x < .35:
            o, f = r.choice(nodes), r.choice(FIELDS)
            y = r.random()
            if y < .12:
                if f in w.objs[o - 1].__dict__ and r.random() < .5:
                    delattr(w.objs[o - 1], f)
                else:
                    setattr(w.objs[o - 1], f, r.choice([None, 3, 'q', [w.objs[boxes[0] - 1]], Node, w.fam.Bit(1)]))
                w.evs.append(dict(ev='put', o=o, f=f, x=0))
                continue
            c = [b for b in boxes + [n for n in nodes if n > o] if b not in used] if tree else boxes + nodes
            if not c:
                continue
            z = r.choice(c)
            used.add(z)
            setattr(w.objs[o - 1], f, w.objs[z - 1])
            w.evs.append(dict(ev='put', o=o, f=f, x=z))
        elif x < .5:
            o = r.choice(nodes[:2] if r.random() < .6 else nodes + boxes)
            for p in w.find(o)[:3]:
                paths.append((o, p))
        elif x < .6:
            if paths and r.random() < .7:
                o, p = r.choice(paths)
                p = list(p)
                if r.random() < .3 and p:
                    p.pop() if r.random() < .5 else p.append(r.choice(FIELDS))
            else:
                o, p = r.choice(nodes), [r.choice(FIELDS) for _ in range(r.randrange(4))]
            w.get(o, p)
        else:
            o = r.choice(boxes)
            r.choice([w.set, w.set, w.call, w.call, w.ins])(o)
    for b in boxes:
        w.ins(b)
    w.find(nodes[0])
    return w.evs


# -- black boxes called by components --------------------------------------------------------
def program(seed):
    r = random.Random(seed)
    name = 'Prog%d_%d' % (os.getpid(), seed % 1000003)
    magic = {}
    n = r.choice([1, 2, 3, 5])
    boxes = [r.choice(KINDS) for _ in range(n)]
    tags = ['One', 'Two', 'Three', 'None', 'Inner']
    fields = r.sample(['u', 'f', 'B', 'add', '_k', 'zz', 'm0'], n)
    sub = [r.random() < .4 for _ in range(n)]        # in a component of its own
    L = ['from peak import Peak, family_closure, name_outputs', 'from hwtypes import BitVector', '']
    for j in range(n):
        if sub[j]:
            fc, ins, m = boxes[j]
            T = ', '.join(['T'] * m)
            args = list(ins)
            order = list(ins)
            r.shuffle(order)
            call = 'self.x(%s)' % (', '.join(args) if r.random() < .5 else ', '.join('%s=%s' % (a, a) for a in order))
            sig = ', '.join('%s: T' % a for a in ins)
            L += ['@family_closure', 'def Sub%d_fc(family):' % j, '    T = BitVector[8]', '    X = K%s_fc(family)' % tags[KINDS.index(boxes[j])],
                  '    @family.assemble(locals(), globals())', '    class Sub%d(Peak):' % j, '        def __init__(self):', '            self.x = X()',
                  '        def __call__(self%s) -> %s:' % (', ' + sig if sig else '', '(%s)' % T if m > 1 else 'T'),
                  '            return ' + call, '    return Sub%d' % j, '']
    L += ['@family_closure', 'def %s_fc(family):' % name, '    T = BitVector[8]']
    for j in range(n):
        L.append('    X%d = %s_fc(family)' % (j, 'Sub%d' % j if sub[j] else 'K' + tags[KINDS.index(boxes[j])]))
    L += ['    @family.assemble(locals(), globals())', '    class %s(Peak):' % name, '        def __init__(self):']
    order = list(range(n))
    r.shuffle(order)
    L += ['            self.%s = X%d()' % (fields[j], j) for j in order]
    L.append('        def __call__(self, i0: T, i1: T, i2: T) -> T:')
    avail = ['i0', 'i1', 'i2']
    calls = []
    for j in r.sample(range(n), n) + ([r.randrange(n)] if r.random() < .4 else []):
        fc, ins, m = boxes[j]
        args = [r.choice(avail) for _ in ins]
        kw = list(zip(ins, args))
        r.shuffle(kw)
        outs = ['t%d_%d' % (len(calls), k) for k in range(m)]
        text = ', '.join(args) if r.random() < .5 else ', '.join('%s=%s' % x for x in kw)
        L.append('            %s = self.%s(%s)' % (', '.join(outs), fields[j], text))
        calls.append((j, args, outs))
        avail += outs
    last = r.choice(avail)
    L += ['            return ' + last, '    return ' + name, '']
    src = '\n'.join(L)
    path = os.path.join('.', name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    for t, k in zip(tags, KINDS):
        mod.__dict__['K%s_fc' % t] = k[0]
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    w = World(r, r.choice([SMTFamily, OwnSMT])())
    C = getattr(mod, name + '_fc')(w.fam)
    tops = []
    for _ in range(r.choice([1, 2])):
        top = C()
        o = w.add(top)
        bs = []
        for j in range(n):
            x, host, f = getattr(top, fields[j]), o, fields[j]
            if sub[j]:
                h = w.add(x)
                w.evs.append(dict(ev='put', o=o, f=f, x=h))
                x, host, f = x.x, h, 'x'
            b = w.add(x, boxes[j])
            w.evs.append(dict(ev='put', o=host, f=f, x=b))
            if boxes[j][0] is Inner_fc:
                i = w.add(x.one, KINDS[0])
                w.evs.append(dict(ev='put', o=b, f='one', x=i))
            bs.append(b)
        tops.append((o, top, bs))
    for o, top, bs in tops:
        w.find(o)
    for _ in range(r.choice([1, 2, 4])):
        o, top, bs = r.choice(tops)
        env = {}
        outs = {}
        for b in bs:
            if r.random() < .6 or not outs.get(b) :
                vs = [w.value() for _ in range(w.kind[b][2])]
                w.objs[b - 1]._set_outputs(*[v for v, _ in vs])
                w.evs.append(dict(ev='set', o=b, v=[s for _, s in vs], ok=True))
                outs[b] = [s for _, s in vs]
        ins = [w.value() for _ in range(3)]
        for k, (v, s) in enumerate(ins):
            env['i%d' % k] = s
        y = outcome(lambda: top(*[v for v, _ in ins]))
        for j, args, res in calls:
            w.evs.append(dict(ev='call', o=bs[j], a=[env[a] for a in args], form=True, out=[outs[bs[j]]]))
            for t, s in zip(res, outs[bs[j]]):
                env[t] = s
        # what the component returned is what the box its result comes from was set to
        w.evs.append(dict(ev='result', got=w.names(y[1]) if y[0] == 'ok' else [repr(y)], want=[env[last]]))
        for b in r.sample(bs, len(bs)):
            w.ins(b)
        w.find(o)
    return w.evs


def one(job):
    return (history if job[0] == 'h' else program)(job[1])


def run(ck):
    ck.model_check('BlackBox', workers=6, cfg=None if not ck.thorough else 'BlackBoxDeep.cfg')
    k = 12 if ck.thorough else 1
    jobs = [('p', ck.rng.randrange(1 << 40)) for _ in range(100 * k)] + [('h', ck.rng.randrange(1 << 40)) for _ in range(400 * k)]
    parts, info = [], []
    for (st, x), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st != 'ok':
            ck.fail('crash:%s' % j[0], dict(job=j, error=x))
            continue
        parts.append(x)
        info.append(j)
    ck.validate_parts('BlackBoxTrace', parts, label='black box', info=info)
    ck.notes.update(histories=len(parts))
