"""Building hwtypes ADTs from the type descriptors of spec/ADT.tla, and projecting real
values / layouts back onto the specification's vocabulary."""
import itertools, types as pytypes
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes import new
from hwtypes.adt import Enum, Product, Sum, TaggedUnion, Tuple, new_instruction

_ctr = itertools.count()


TWINS = False        # different types of one name


def tname(p):
    return p if TWINS else uid(p)


def uid(p='T'):
    return '%s%d' % (p, next(_ctr))


def fnames(n, style=0):
    if style == 1:
        return ['z%d' % (n - i) for i in range(n)]      # reverse alphabetical
    return ['f%d' % i for i in range(n)]


class Built:
    """desc, py (the hwtypes type), names (field / variant / member names), sub (Built list)"""
    def __init__(self, desc, py, names=None, sub=()):
        self.d, self.py, self.names, self.sub = desc, py, names, list(sub)

    @property
    def k(self):
        return self.d['k']

    @property
    def keys(self):
        """The keys the real field_dict / layout uses for sub-element i."""
        if self.k == 'tuple':
            return list(range(len(self.sub)))
        if self.k == 'sum':
            return [s.py for s in self.sub]
        return self.names


def mk_enum(codes, name=None):
    names = ['m%d' % i for i in range(len(codes))]
    ns = {n: (new_instruction() if c == -1 else c) for n, c in zip(names, codes)}
    cls = pytypes.new_class(name or tname('E'), (Enum,), {}, lambda d: d.update(ns))
    return cls, names


def build(d, style=0, fam=None, cache=None):
    BVc = fam.BitVector if fam else BitVector
    Bc = fam.Bit if fam else Bit
    k = d['k']
    if k == 'bv':
        s = d.get('s', '')
        if s == 's':
            return Built(d, (fam.Signed if fam else SIntVector)[d['w']])
        if s == 'u':
            return Built(d, (fam.Unsigned if fam else UIntVector)[d['w']])
        return Built(d, BVc[d['w']])
    if k == 'bit':
        return Built(d, Bc)
    if cache is None:
        cache = {}
    key = repr(sorted(d.items(), key=str))
    if key not in cache:        # equal descriptors denote the same type
        cache[key] = _build(d, style, fam, cache)
    return cache[key]


def _build(d, style, fam, cache):
    k = d['k']
    if k == 'enum':
        py, names = mk_enum(d['codes'])
        return Built(d, py, names)
    sub = [build(x, style, fam, cache) for x in d['ts']]
    n = len(sub)
    if k == 'prod':
        names = fnames(n, style)
        return Built(d, Product.from_fields(tname('P'), {a: b.py for a, b in zip(names, sub)}), names, sub)
    if k == 'tuple':
        return Built(d, Tuple[tuple(b.py for b in sub)], None, sub)
    if k == 'sum':
        return Built(d, Sum[tuple(b.py for b in sub)], None, sub)
    if k == 'tu':
        names = fnames(n, style)
        return Built(d, TaggedUnion.from_fields(tname('U'), {a: b.py for a, b in zip(names, sub)}), names, sub)
    raise ValueError(k)


def mk(b, v, p=0):
    """flat value (list) -> real plain value; returns (value, next position)"""
    k = b.k
    if k in ('bv', 'bit'):
        x = v[p]
        return (b.py(bool(x)) if k == 'bit' else leaf(b, x)), p + 1
    if k == 'enum':
        return getattr(b.py, b.names[v[p] - 1]), p + 1
    if k in ('prod', 'tuple'):
        args = []
        for s in b.sub:
            a, p = mk(s, v, p)
            args.append(a)
        return b.py(*args), p
    i = v[p] - 1
    a, p = mk(b.sub[i], v, p + 1)
    if k == 'sum':
        return b.py(a), p
    return b.py(**{b.names[i]: a}), p


def leaf(b, x):
    return b.py(x)


def value(b, v):
    return mk(b, v)[0]


def flat(b, val):
    """real plain value -> flat value; raises if it is not a value of that type"""
    k = b.k
    if not isinstance(val, b.py):
        raise TypeError('projection: %r is not a %r' % (val, b.py))
    if k == 'bit':
        return [int(bool(val))]
    if k == 'bv':
        return [val.as_uint()]
    if k == 'enum':
        for i, n in enumerate(b.names):
            if val is getattr(b.py, n):
                return [i + 1]
        for i, n in enumerate(b.names):
            if val == getattr(b.py, n):
                return [i + 1]
        raise TypeError('not a member: %r' % (val,))
    if k == 'prod':
        return [x for n, s in zip(b.names, b.sub) for x in flat(s, getattr(val, n))]
    if k == 'tuple':
        return [x for i, s in enumerate(b.sub) for x in flat(s, val[i])]
    if k == 'sum':
        for i, s in enumerate(b.sub):
            if val[s.py].match:
                return [i + 1] + flat(s, val[s.py].value)
    if k == 'tu':
        for i, (n, s) in enumerate(zip(b.names, b.sub)):
            if getattr(val, n).match:
                return [i + 1] + flat(s, getattr(val, n).value)
    raise TypeError('no variant matches: %r' % (val,))


def enum_values(d):
    """all flat values of a type descriptor"""
    k = d['k']
    if k in ('bv', 'bit'):
        return [[x] for x in range(1 << (d.get('w', 1) if k == 'bv' else 1))]
    if k == 'enum':
        return [[i + 1] for i in range(len(d['codes']))]
    if k in ('prod', 'tuple'):
        return [list(itertools.chain(*c)) for c in itertools.product(*(enum_values(x) for x in d['ts']))]
    return [[i + 1] + v for i, x in enumerate(d['ts']) for v in enum_values(x)]


def n_values(d):
    k = d['k']
    if k in ('bv', 'bit'):
        return 1 << (d.get('w', 1) if k == 'bv' else 1)
    if k == 'enum':
        return len(d['codes'])
    r = 1 if k in ('prod', 'tuple') else 0
    for x in d['ts']:
        r = r * n_values(x) if k in ('prod', 'tuple') else r + n_values(x)
    return r


def rand_value(rng, d):
    k = d['k']
    if k in ('bv', 'bit'):
        w = d.get('w', 1) if k == 'bv' else 1
        return [rng.choice([0, (1 << w) - 1, rng.randrange(1 << w), rng.randrange(1 << w)])]
    if k == 'enum':
        return [rng.randrange(len(d['codes'])) + 1]
    if k in ('prod', 'tuple'):
        return [y for x in d['ts'] for y in rand_value(rng, x)]
    i = rng.randrange(len(d['ts']))
    return [i + 1] + rand_value(rng, d['ts'][i])


def layout(b, Asm):
    """The coding the (first generation) assembler publishes for b, as in spec/ADT.tla."""
    asm = Asm(b.py)
    L = dict(w=asm.width)
    if b.k in ('bv', 'bit'):
        return L
    if b.k == 'enum':
        L['codes'] = [int(asm.assemble(getattr(b.py, n))) if asm.width else 0 for n in b.names]
        return L
    lay = asm.layout
    L['lo'] = [int(lay[k][0]) for k in b.keys]
    L['hi'] = [int(lay[k][1]) for k in b.keys]
    L['sub'] = [layout(s, Asm) for s in b.sub]
    if b.k in ('sum', 'tu'):
        L['tlo'], L['thi'] = map(int, asm.tag_layout)
        L['tags'] = [int(asm.assemble_tag(k, BitVector)) if asm.tag_width else 0 for k in b.keys]
    return L


ENUMS = [[0, 1, 2], [-1, -1, -1], [0, 1, 2, 5, 6, 7], [1, 2, 4], [0, 1, 2, 4], [3], [1], [1, 2, 3], [2, -1, 0], [0, 1],
         [3, 4, 5, 9, 10, 11], [1, 2, 4, 8, 16], [5, 1], [7, 6, 5, 3], [0, 1, 3, 4, 7], [1, 2, 3, 5, 6, 7, 9],
         [8, 9, 10, 11, 12, 13, 14, 15], [-1, -1, 7, -1, -1], [0, 15], [12, 3, 9, 6], [0, 1, 2, 8, 9, 10, 4, 5, 6],
         [1, 2, 4, 16], [2, 3, 4, 5, 6, 7]]


def rand_type(rng, depth, zero=False, signed=True, maxar=3, top=True):
    if depth == 0 or (not top and rng.random() < 0.35):
        r = rng.random()
        if r < .25:
            return dict(k='bit')
        if r < .7:
            d = dict(k='bv', w=rng.randint(1, 5))
            if signed and rng.random() < (.25 if signed is True else signed):
                d['s'] = rng.choice('su')
            return d
        if r < .85:
            return dict(k='enum', codes=list(rng.choice(ENUMS)))
        while True:
            n = rng.randint(1, 6)
            codes = rng.sample(range(12), n)
            for i in range(n):
                if rng.random() < .25:
                    codes[i] = -1
            if zero or max(codes) > 0 or n > 1:
                return dict(k='enum', codes=codes)
    k = rng.choice(['prod', 'prod', 'tuple', 'sum', 'tu', 'tu'])
    n = rng.randint(1 if (zero or k in ('prod', 'tuple')) else 2, maxar + (2 if k == 'tu' else 0))
    ts = [rand_type(rng, depth - 1, zero, signed, maxar, False) for _ in range(n)]
    if k == 'sum':
        u = []
        for t in ts:
            if t not in u and not any(same_leaf(t, x) for x in u):
                u.append(t)
        ts = u
        if len(ts) < 2 and not zero:
            ts = [dict(k='bit'), dict(k='bv', w=2)]
    if k == 'tu' and rng.random() < .4 and len(ts) > 1:
        ts[-1] = ts[0]
    return dict(k=k, ts=ts)


def same_leaf(a, b):
    """may one of the types be a subtype of the other (signed / plain vectors, a product
    and the tuple of its fields, a tagged union and the sum of its variants)?  Such types do not share a sum: hwtypes cannot tell which
    variant a value belongs to."""
    return unsigned(a) == unsigned(b)


def unsigned(d):
    if 'ts' not in d:
        return repr(sorted((k, v) for k, v in d.items() if k != 's'))
    ts = [unsigned(x) for x in d['ts']]
    return repr(('tuple', ts) if d['k'] in ('prod', 'tuple') else ('sum', sorted(set(ts))))


def width(d):
    """canonical width, only used to bound generation"""
    k = d['k']
    if k == 'bit':
        return 1
    if k == 'bv':
        return d['w']
    if k == 'enum':
        used = set(c for c in d['codes'] if c >= 0)
        m = max(used, default=0)
        free = sum(1 for c in d['codes'] if c < 0)
        c = 0
        while free:
            if c not in used:
                used.add(c); free -= 1
            c += 1
        return max(used).bit_length()
    if k in ('prod', 'tuple'):
        return sum(width(x) for x in d['ts'])
    return (len(d['ts']) - 1).bit_length() + max(width(x) for x in d['ts'])
