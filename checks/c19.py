"""C19: the forms of instruction types and the candidate bindings of interfaces."""
import random
import hwtypes
import pysmt.shortcuts as smt
from hwtypes import BitVector, Bit, SIntVector, UIntVector
from hwtypes.adt import Enum
from peak import Const
from peak.assembler import Assembler
from peak.family import SMTFamily
from peak.mapper.utils import SMTForms, Match, Unbound, create_bindings
from peak.assembler import _TAG
import adt, par
from c01 import types, zero_width

FAM = SMTFamily()


def n_forms(d):
    k = d['k']
    if k in ('prod', 'tuple'):
        r = 1
        for x in d['ts']:
            r *= n_forms(x)
        return r
    if k in ('sum', 'tu'):
        return sum(n_forms(x) for x in d['ts'])
    return 1


def no_info(d):
    """has a sub-element, or the tag of a sum, no bits?  (pysmt has no empty bit vectors)"""
    return zero_width(d) or (d['k'] in ('sum', 'tu') and len(d['ts']) < 2) or any(no_info(x) for x in d.get('ts', []))


def ipath(b, path):
    """real path -> (index path, Built)"""
    res = []
    for e in path:
        n = next(n for n, x in enumerate(b.keys) if x is e or (type(x) is type(e) and x == e))
        res.append(n + 1)
        b = b.sub[n]
    return res, b


def number(x, sub):
    c = x.value.substitute(sub).simplify()
    if not c.is_constant():
        raise ValueError('not determined by the variables: %s' % c)
    return int(c.constant_value())


def decode(b, aadt, sub):
    """flat value of an assembled value"""
    if b.k in ('bit', 'bv'):
        x = aadt if not hasattr(aadt, '_value_') else aadt._value_
        x = number(x, sub)
        return [x & ((1 << b.d['w']) - 1) if b.k == 'bv' else x]
    w = Assembler(b.py).width
    return adt.flat(b, Assembler(b.py).disassemble(BitVector[w](number(aadt._value_, sub))))


def leaf_bits(b, x):
    if b.k == 'enum':
        return int(Assembler(b.py).assemble(adt.value(b, x)))
    return x[0]


def var_of(x):
    x = x._value_ if hasattr(x, '_value_') else x
    return x.value


def const(v, x):
    return smt.BV(x, v.bv_width()) if v.get_type().is_bv_type() else smt.Bool(bool(x))


def matches(b, varmap, sub):
    ms = []
    for p, d in varmap.items():
        if p and p[-1] is Match:
            ip, sb = ipath(b, p[:-1])
            on = sorted(sb.keys.index(k) + 1 if not isinstance(k, type) else next(n for n, x in enumerate(sb.keys) if x is k) + 1
                        for k, c in d.items() if number(c, sub))
            ms.append(dict(p=ip, on=on))
    return ms


def forms_event(args):
    d, style, seed, cap = args
    r = random.Random(seed)
    b = adt.build(d, style)
    T = FAM.get_adt_t(b.py)
    forms, varmap, whole = SMTForms()(T)
    ev = dict(ev='forms', T=d, forms=[], vals=[])
    tags = {p[:-1]: t for p, t in varmap.items() if p and p[-1] is _TAG}
    for f in forms:
        ch = [[ipath(b, p)[0], ipath(b, p + (c,))[0][-1]] for p, c in f.path_dict.items()]
        rec = dict(ch=ch, ls=[ipath(b, p)[0] for p in f.varmap], s=[])
        for _ in range(cap):
            sub, a = {}, []
            for p, v in f.varmap.items():
                ip, lb = ipath(b, p)
                x = adt.rand_value(r, lb.d)
                a.append(dict(p=ip, v=x))
                sub[var_of(v)] = const(var_of(v), leaf_bits(lb, x))
            # inactive variables hold anything; tags make the choice's match conditions true
            for p, v in varmap.items():
                if p and p[-1] in (Match, _TAG):
                    continue
                if var_of(v) not in sub:
                    w = var_of(v).bv_width() if var_of(v).get_type().is_bv_type() else 1
                    sub[var_of(v)] = const(var_of(v), r.getrandbits(w))
            for t in tags.values():
                sub[t.value] = smt.BV(r.getrandbits(t.size), t.size)
            for p, c in f.path_dict.items():
                t = tags[p]
                ts = []
                for x in range(1 << t.size):
                    sub[t.value] = smt.BV(x, t.size)
                    if number(varmap[p + (Match,)][c], sub):
                        ts.append(x)
                if not ts:
                    raise ValueError('no tag selects %r' % (c,))
                sub[t.value] = smt.BV(r.choice(ts), t.size)
            rec['s'].append(dict(a=a, v=decode(b, f.value, sub), w=decode(b, whole, sub), m=matches(b, varmap, sub)))
        ev['forms'].append(rec)
    # forms of given values
    if d['k'] not in ('bit', 'bv'):
        w = Assembler(b.py).width
        for _ in range(cap):
            v = adt.rand_value(r, d)
            op = int(Assembler(b.py).assemble(adt.value(b, v)))
            x = FAM.BitVector[w]()
            forms, varmap, _ = SMTForms()(T, value=T(x))
            sub = {x.value: smt.BV(op, w)}
            ms = matches(b, varmap, sub)
            on = {tuple(m['p']): m['on'] for m in ms}
            a = []
            for f in forms:
                if all(on[tuple(ipath(b, p)[0])] == [ipath(b, p + (c,))[0][-1]] for p, c in f.path_dict.items()):
                    a += [dict(p=ipath(b, p)[0], v=leaf_of(ipath(b, p)[1], y, sub)) for p, y in f.varmap.items()]
            ev['vals'].append(dict(v=v, a=a, m=ms, n=len(forms)))
    return ev


def leaf_of(b, x, sub):
    n = number(x if not hasattr(x, '_value_') else x._value_, sub)
    if b.k == 'enum':
        return adt.flat(b, Assembler(b.py).disassemble(BitVector[Assembler(b.py).width](n)))
    return [n & ((1 << b.d['w']) - 1)] if b.k == 'bv' else [n]


class Color(Enum):
    red = 0
    blue = 1


class Shape(Enum):
    red = 0
    blue = 1


TYPES = [Bit, BitVector[8], BitVector[4], SIntVector[8], UIntVector[8], Const(Bit), Const(BitVector[8]), Color, Shape, Const(Color)]


def bind_event(args):
    seed, big = args
    r = random.Random(seed)
    pool = r.sample(range(len(TYPES)), r.choice([1, 1, 2, 3]))
    for _ in range(100):
        nA, nI = r.randrange(1, 7 if big else 6), r.randrange(0, 5 if big else 4)
        A = [r.choice(pool) for _ in range(nA)]
        I = [r.choice(A if r.random() < .85 else list(range(len(TYPES)))) for _ in range(nI)]
        if (len(I) + 1) ** len(A) <= 8000:
            break
    path = lambda p, k: (p + str(k),) if r.random() < .6 else (p, r.choice(['x', 0]), k)
    ap, ip = [path('a', k) for k in range(len(A))], [path('i', k) for k in range(len(I))]
    oa, oi = list(range(len(A))), list(range(len(I)))
    r.shuffle(oa); r.shuffle(oi)
    bs = create_bindings({ap[k]: TYPES[A[k]] for k in oa}, {ip[k]: TYPES[I[k]] for k in oi})
    res = []
    for b in bs:
        f = {}
        for src, q in b:
            if ap.index(q) in f:
                raise ValueError('architecture input twice in a binding: %r' % (b,))
            f[ap.index(q)] = 0 if src is Unbound else ip.index(src) + 1
        res.append([f.get(k, -1) for k in range(len(A))])
    return dict(ev='bind', A=A, I=I, b=res)


def one(j):
    return forms_event(j[1]) if j[0] == 'forms' else bind_event(j[1])


def run(ck):
    ck.model_check('FormsGen', workers=4)
    ts = [(d, s) for d, s in types(ck, 800 if ck.thorough else 150, enum_cap=None if ck.thorough else 250) if n_forms(d) <= (60 if ck.thorough else 24) and d['k'] not in ('bit', 'bv') and not no_info(d)]
    jobs = [('forms', (d, s, ck.seed * 1000 + k, 5 if ck.thorough else 2)) for k, (d, s) in enumerate(ts)]
    jobs += [('bind', (ck.seed * 100000 + k, ck.thorough)) for k in range(2500 if ck.thorough else 300)]
    evs = []
    for (st, r), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st == 'ok':
            evs.append(r)
        else:
            ck.fail('crash:%s' % j[0], dict(job=j, traceback=r[1]))
    ck.validate('FormsTrace', evs, label='forms', chunk=max(30, len(evs) // 6 + 1), classify=lambda f, e: f['clause'])
    ck.notes.update(forms=sum(len(e['forms']) for e in evs if e['ev'] == 'forms'), bindings=sum(len(e['b']) for e in evs if e['ev'] == 'bind'))
