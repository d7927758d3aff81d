"""C05: words of bit-field encoded instruction families."""
import random, types as pytypes
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes import new
from hwtypes.adt import Enum, Product, Sum
from peak.bitfield import encode, size, tag, bitfield
import adt, par
from vp import outcome


class Fam:
    """real types of a descriptor"""
    def __init__(self, r):
        self.r = r

    def name(self, p):
        return adt.uid('Bf' + p)

    def build(self, d):
        k = d['k']
        if k == 'bit':
            T = new(Bit, name=self.name('B')) if d['off'] else Bit
        elif k == 'bv':
            c = dict(s=SIntVector, u=UIntVector).get(d.get('s'), BitVector)
            T = new(c, d['w'], name=self.name('V')) if d['off'] or self.r.random() < .3 else c[d['w']]
        elif k == 'enum':
            T = pytypes.new_class(self.name('E'), (Enum,), {}, lambda ns: ns.update({'m%d' % i: c for i, c in enumerate(d['codes'])}))
        else:
            sub = [self.build(x) for x in d['ts']]
            if k == 'prod':
                T = pytypes.new_class(self.name('P'), (Product,), {}, lambda ns: ns.update({d['names'][i]: s[0] for i, s in enumerate(sub)}))
            else:
                base = Sum[tuple(s[0] for s in sub)]
                T = pytypes.new_class(self.name('S'), (base,), {}, lambda ns: None)
                if d['tags']:
                    T = tag({s[0]: t for s, t in zip(sub, d['tags'])})(T)
            if d['off']:
                T = bitfield(d['off'])(T)
            return T, sub
        if d['off']:
            T = bitfield(d['off'])(T)
        return T, []

    def value(self, d, t, v, p=0):
        T, sub = t
        k = d['k']
        if k == 'bit':
            return T(bool(v[p])), p + 1
        if k == 'bv':
            return T(v[p]), p + 1
        if k == 'enum':
            m = getattr(T, 'm%d' % (v[p] - 1))
            return m, p + 1
        if k == 'prod':
            a = []
            for x, s in zip(d['ts'], sub):
                y, p = self.value(x, s, v, p)
                a.append(y)
            return T(*a), p
        i = v[p] - 1
        y, p = self.value(d['ts'][i], sub[i], v, p + 1)
        return T(y), p


def rand(r, depth, top=True):
    off = r.choice([0, 0, 0, r.randrange(1, 9)])
    if depth == 0 or (not top and r.random() < .3):
        k = r.random()
        if k < .2:
            return dict(k='bit', off=off)
        if k < .7:
            d = dict(k='bv', w=r.randint(1, 6), off=off)
            if r.random() < .3:
                d['s'] = r.choice('su')
            return d
        codes = r.choice([[0, 1], [0, 1, 2], [0, 1, 2, 3], [1, 2, 4], [3], [5, 1], [0, 9, 2], r.sample(range(17), r.randint(1, 5))])
        return dict(k='enum', codes=list(codes), off=off)
    if r.random() < .55:
        n = r.choice([1, 2, 2, 3, 3, 4])
        names = r.sample(['ra', 'rb', 'imm', 'cond', 's', 'zz', 'aa'], n)
        return dict(k='prod', ts=[rand(r, depth - 1, False) for _ in range(n)], names=names, off=off)
    n = r.choice([2, 2, 3, 4, 5])
    ts = [rand(r, depth - 1, False) for _ in range(n)]
    # variants are told apart by their type
    u = []
    for t in ts:
        if t['k'] in ('bit', 'bv') and any(x['k'] in ('bit', 'bv') and x['k'] == t['k'] and x.get('w') == t.get('w') for x in u):
            continue
        u.append(t)
    tags = r.sample(range(r.choice([len(u), 8, 20])), len(u)) if r.random() < .7 and len(u) > 0 else []
    return dict(k='sum', ts=u, tags=tags, off=off)


def spec(d):
    return {k: ([spec(x) for x in v] if k == 'ts' else v) for k, v in d.items() if k not in ('names', 's')}


def strip_off(d, top=True):
    return dict(d, off=d['off'] if top else 0, **({'ts': [strip_off(x, False) for x in d['ts']]} if 'ts' in d else {}))


def word(f, v, d, t, rev):
    r = outcome(lambda: encode(f.value(d, t, v)[0], reverse=rev))
    if r[0] != 'ok' or int(r[1]) < 0:
        return [-1]
    w = int(r[1])
    return [k for k in range(w.bit_length()) if w >> k & 1]


def tag_size(d):
    return (max(d['tags']) if d['tags'] else len(d['ts']) - 1).bit_length()


def undeclared(f, d, t, path=()):
    """tags that the encoding gives to the variants of sums without declared tags"""
    res = []
    if d['k'] == 'sum' and not d['tags']:
        tags = []
        for i, x in enumerate(d['ts']):
            v = [i + 1] + [1 if y['k'] == 'enum' else 0 for y in ()]
            w = word(f, [i + 1] + adt.rand_value(f.r, x), d, t, False)
            tags.append(sum(1 << (b - d['off']) for b in w if 0 <= b - d['off'] < tag_size(d)))
        res.append(dict(path=list(path), tags=tags))
    for i, x in enumerate(d.get('ts', [])):
        res += undeclared(f, x, t[1][i], path + (i + 1,))
    return res


def words_event(args):
    d, seed, cap = args
    r = random.Random(seed)
    f = Fam(r)
    t = f.build(d)
    n = adt.n_values(d)
    vals = adt.enum_values(d) if n <= cap else [adt.rand_value(r, d) for _ in range(cap)]
    sz = outcome(lambda: int(size(t[0])))
    ev = dict(ev='words', T=spec(d), size=sz[1] if sz[0] == 'ok' else -1, tg=undeclared(f, d, t), ws=[])
    order = [(v, rev) for v in vals for rev in (False, True)]
    r.shuffle(order)
    for v, rev in order:
        ev['ws'].append(dict(v=v, rev=rev, word=word(f, v, d, t, rev)))
    return ev


def declare_events(seed):
    r = random.Random(seed)
    A, B, C = BitVector[r.randint(1, 4)], BitVector[r.randint(5, 8)], Bit
    S = lambda: pytypes.new_class('D%d' % seed, (Sum[A, B],), {}, lambda ns: None)
    cases = [(True, 'all variants', lambda: tag({A: 1, B: 0})(S())), (False, 'a variant missing', lambda: tag({A: 1})(S())),
             (False, 'not a variant', lambda: tag({A: 1, B: 0, C: 2})(S())), (False, 'other type', lambda: tag({A: 1, C: 2})(S())),
             (False, 'not a number', lambda: tag({A: 1, B: 'x'})(S())),
             (False, 'not a sum', lambda: tag({A: 1, B: 0})(pytypes.new_class('Q%d' % seed, (Product,), {}, lambda ns: ns.update(a=A, b=B))))]
    return [dict(ev='declare', ok=ok, accepted=outcome(f)[0] == 'ok', how=how) for ok, how, f in cases]


def one(j):
    return [words_event(j[1])] if j[0] == 'w' else declare_events(j[1])


def run(ck):
    ck.model_check('Bitfield', workers=4)
    r = ck.rng
    jobs, n = [], 3000 if ck.thorough else 350
    while len(jobs) < n:
        d = rand(r, r.choice([0, 1, 1, 2, 2, 3]))
        if d['k'] == 'sum' and len(d['ts']) < 2:
            continue
        if r.random() < .75:
            d = strip_off(d)
        jobs.append(('w', (d, r.randrange(1 << 30), 60 if ck.thorough else 20)))
    jobs += [('d', k) for k in range(5)]
    evs = []
    for (st, x), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st == 'ok':
            evs += x
        else:
            ck.fail('crash:%s' % j[0], dict(job=j, traceback=x[1]))
    ck.validate('BitfieldTrace', evs, label='bitfield', chunk=max(30, len(evs) // 6 + 1), classify=lambda f, e: f['clause'])
    ck.notes.update(words=sum(len(e.get('ws', ())) for e in evs))
