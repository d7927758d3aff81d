"""C04: assembled values observed through every public operation."""
import pysmt.shortcuts as smt
import adt, asmdrive
from asmdrive import as_int, zero_info
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit, AbstractBit, AbstractBitVector
from peak.assembler import Assembler as A1, AssembledADT as AADT1, _TAG
from peak.assembler2.assembler import Assembler as A2
from peak.assembler2.assembled_adt import AssembledADT as AADT2
from vp import outcome
from c01 import types

GENS = {1: (A1, AADT1), 2: (A2, AADT2)}


def raw(x):
    """bit pattern of a leaf or of an assembled value, as a bit vector or bit"""
    return x if isinstance(x, (AbstractBit, AbstractBitVector)) else x._value_


class Env:
    """substitution for symbolic opcodes"""
    def __init__(self):
        self.s = {}

    def num(self, x):
        x = raw(x)
        if isinstance(x, (SMTBitVector, SMTBit)):
            c = x.value.substitute(self.s).simplify()
            if not c.is_constant():
                return -3
            return int(c.constant_value())
        return as_int(x) if not (isinstance(x, AbstractBitVector) and x.size == 0) else 0

    def var(self, bvt, w, val):
        if bvt is SMTBitVector:
            v = SMTBitVector[w]()
            self.s[v.value] = smt.BV(val, w)
            return v
        return bvt[w](val)


def get(obj, b, i):
    k = b.keys[i]
    return getattr(obj, k) if isinstance(k, str) else obj[k]


def cls_field(T, b, i):
    k = b.keys[i]
    return getattr(T, k) if isinstance(k, str) else T[k]


def num(env, f):
    o = outcome(f)
    if o[0] != 'ok':
        return -1
    try:
        return env.num(o[1])
    except Exception:
        return -2


def opcode(b, v):
    return as_int(A1(b.py).assemble(adt.value(b, v))) if A1(b.py).width else 0


def fieldobj(gen, bvt, env, b, v, symbolic):
    """assembled form of a field value (leaf types stay leaf types of the family)"""
    A, AADT = GENS[gen]
    F = AADT[b.py, A, bvt]
    w = A1(b.py).width
    if b.k == 'bit':
        if bvt is SMTBitVector:
            if not symbolic:
                return SMTBit(bool(v[0]))
            s = SMTBit()
            env.s[s.value] = smt.Bool(bool(v[0]))
            return s
        return Bit(v[0])
    if symbolic:
        x = env.var(bvt, w, opcode(b, v))
        return F(x)
    if b.k == 'bv':
        return F(v[0])
    return F(adt.value(b, v))


def parts(b, v):
    pos, out = 0, []
    for s in b.sub:
        n = asmdrive._span(s.d, v, pos)
        out.append(v[pos:pos + n]); pos += n
    return out


def build_ways(rng, gen, bvt, env, b, v, T):
    """[(name, thunk)] ways to build the assembled value of v"""
    A, AADT = GENS[gen]
    w = A1(b.py).width
    op = opcode(b, v)
    ways = [('plain', lambda: T(adt.value(b, v))),
            ('opcode', lambda: T(bvt[w](op))),
            ('copy', lambda: T(T(bvt[w](op))))]
    if bvt is SMTBitVector:
        ways.append(('symbolic', lambda: T(env.var(bvt, w, op))))
    if b.k == 'enum':
        return ways
    syms = [False] + ([True] if bvt is SMTBitVector else [])
    for sym in syms:
        nm = 'fields' + ('_sym' if sym else '')
        if b.k in ('prod', 'tuple'):
            ps = parts(b, v)
            fs = lambda sym=sym: [fieldobj(gen, bvt, env, s, p, sym) for s, p in zip(b.sub, ps)]
            ways.append((nm, lambda fs=fs: T.from_fields(*fs())))
            if b.k == 'prod':
                def kw(fs=fs):
                    items = list(zip(b.names, fs()))
                    items.reverse()
                    return T.from_fields(**dict(items))
                ways.append((nm + '_kw', kw))
            if gen == 1:
                ways.append((nm + '_call', lambda fs=fs: T(*fs()) if len(b.sub) > 1 else T.from_fields(*fs())))
                if not sym:
                    ways.append((nm + '_plain', lambda: T.from_fields(*[
                        (fieldobj(gen, bvt, env, s, p, False) if s.k in ('bit', 'bv') else adt.value(s, p)) for s, p in zip(b.sub, ps)])))
        else:
            i = v[0] - 1
            f = lambda sym=sym: fieldobj(gen, bvt, env, b.sub[i], v[1:], sym)
            if b.k == 'sum':
                ways.append((nm, lambda f=f: T.from_fields(b.keys[i], f())))
            else:
                ways.append((nm, lambda f=f: T.from_fields(**{b.names[i]: f()})))
    return ways


def padded(rng, gen, bvt, env, b, v, T):
    """built from fields, the bits that belong to no field all ones"""
    if gen != 1 or not b.sub:
        return []
    sym = bvt is SMTBitVector and rng.random() < .5
    nm = 'padded' + ('_sym' if sym else '')
    if b.k in ('prod', 'tuple'):
        return [(nm, lambda: T.from_fields(*[fieldobj(gen, bvt, env, s, p, sym) for s, p in zip(b.sub, parts(b, v))], default_bv=1))]
    i = v[0] - 1
    f = lambda: fieldobj(gen, bvt, env, b.sub[i], v[1:], sym)
    if b.k == 'sum':
        return [(nm, lambda: T.from_fields(b.keys[i], f(), default_bv=1))]
    return [(nm, lambda: T.from_fields(**{b.names[i]: f()}, default_bv=1))]


def tagged(rng, gen, bvt, env, b, v, T, L):
    """sums built with a tag of their own: [tag, opcode, tag read back, match of every variant]"""
    tw = A1(b.py).tag_width if gen == 1 and b.k in ('sum', 'tu') else 0
    out = []
    if not tw:
        return out
    i = v[0] - 1
    for t in sorted({0, L['tags'][i], rng.choice(L['tags']), rng.randrange(1 << tw)}):
        sym = bvt is SMTBitVector and rng.random() < .5
        tag = env.var(bvt, tw, t) if sym else bvt[tw](t)
        f = fieldobj(gen, bvt, env, b.sub[i], v[1:], sym)
        o = outcome(lambda: T.from_fields(b.keys[i], f, tag_bv=tag) if b.k == 'sum' else T.from_fields(**{b.names[i]: f}, tag_bv=tag))
        if o[0] != 'ok' or not isinstance(o[1], T):
            out.append([t, -1, -1, []]); continue
        x = o[1]
        out.append([t, num(env, lambda: x), num(env, lambda: x[_TAG]), [num(env, lambda: get(x, b, j).match) for j in range(len(b.sub))]])
    return out


def observe(gen, bvt, env, b, obj, how, T, act):
    A, AADT = GENS[gen]
    r = dict(how=how, fo=[], ft=[], m=[], mc=[])
    for i, s in enumerate(b.sub):
        F = AADT[s.py, A, bvt]
        o = outcome(lambda: get(obj, b, i))
        if gen == 1 and b.k == 'sum' and s.k not in ('bit', 'bv'):
            # the alternative named by its assembled class
            r['mc'].append([i + 1, num(env, lambda: obj[F].match), num(env, lambda: obj[F].value)])
        if o[0] != 'ok':
            r['fo'].append(-1); r['ft'].append(0); r['m'].append(-1)
            continue
        x = o[1]
        if b.k in ('sum', 'tu'):
            r['m'].append(num(env, lambda: x.match))
            y = outcome(lambda: x.value)
            if y[0] != 'ok':
                r['fo'].append(-1); r['ft'].append(0)
                continue
            x = y[1]
        r['fo'].append(num(env, lambda: x))
        r['ft'].append(int(isinstance(x, F)))
    return r


def event(rng, d, gen, bvt, cap, style, npairs):
    A, AADT = GENS[gen]
    b = adt.build(d, style)
    L = adt.layout(b, A1)
    T = AADT[b.py, A, bvt]
    vals, _ = asmdrive.pick_vals(rng, d, cap)
    out, objs = [], []
    for v in vals:
        env = Env()
        ops, rd = [], []
        for how, f in build_ways(rng, gen, bvt, env, b, v, T):
            o = outcome(f)
            if o[0] != 'ok' or not isinstance(o[1], T):
                ops.append([how, -1]); continue
            ops.append([how, num(env, lambda: o[1])])
            objs.append((v, o[1], env))
            if b.sub:
                rd.append(observe(gen, bvt, env, b, o[1], how, T, v))
        pads = []
        for how, f in padded(rng, gen, bvt, env, b, v, T):
            o = outcome(f)
            if o[0] != 'ok' or not isinstance(o[1], T):
                pads.append([how, -1]); continue
            pads.append([how, num(env, lambda: o[1])])
            rd.append(observe(gen, bvt, env, b, o[1], how, T, v))
        out.append(dict(v=v, ops=ops, rd=rd, pads=pads, tags=tagged(rng, gen, bvt, env, b, v, T, L)))
    eqs = []
    for _ in range(npairs):
        if not objs:
            break
        v, o, e1 = rng.choice(objs)
        u, p, e2 = rng.choice(objs)
        if rng.random() < .3:
            same = [x for x in objs if x[0] == v]
            u, p, e2 = rng.choice(same)
        elif rng.random() < .5:
            # a value as close as possible
            u, p, e2 = min(rng.sample(objs, min(len(objs), 6)), key=lambda x: (x[0] == v, sum(a != b_ for a, b_ in zip(x[0], v)) + abs(len(x[0]) - len(v))))
        env = Env(); env.s.update(e1.s); env.s.update(e2.s)
        plain = adt.value(b, u)
        w = L['w']
        rawu = bvt[w](opcode(b, u))
        h = -1      # equal concrete values have one hash
        if bvt is BitVector and u == v:
            h = num(env, lambda: Bit(hash(o) == hash(p)))
        eqs.append(dict(v=v, u=u, h=h,
                        eq=[num(env, lambda: o == p), num(env, lambda: o == plain), num(env, lambda: o == rawu), num(env, lambda: p == o)],
                        ne=[num(env, lambda: o != p), num(env, lambda: o != plain), num(env, lambda: o != rawu)]))
    ct = []
    for i, s in enumerate(b.sub):
        o = outcome(lambda: cls_field(T, b, i))
        ct.append(int(o[0] == 'ok' and o[1] is AADT[s.py, A, bvt]))
    # the class against the types it is made of
    rel = [[1, num(Env(), lambda: T == b.py)], [0, num(Env(), lambda: T != b.py)], [1, int(AADT[b.py, A, bvt] is T)]]
    if b.sub and b.sub[0].k not in ('bit', 'bv'):
        rel.append([0, num(Env(), lambda: T == b.sub[0].py)])
    if b.k == 'sum':
        rel += [[1, num(Env(), lambda: Bit(s.py in T))] for s in b.sub]
    return dict(ev='aadt', rel=rel, T=d, L=L, gen=gen, fam=bvt.__name__, vals=out, eqs=eqs, ct=ct)


def run(ck):
    ts = types(ck, 800 if ck.thorough else 100, enum_cap=None if ck.thorough else 90)
    evs = []
    for d, s in ts:
        if d['k'] in ('bv', 'bit'):
            continue
        for gen in (1, 2):
            for bvt in (BitVector, SMTBitVector):
                if zero_info(d) and bvt is SMTBitVector:
                    continue
                evs.append(event(ck.rng, d, gen, bvt, 64 if ck.thorough else 8, s, 40 if ck.thorough else 10))
    ck.validate('AADTTrace', evs, label='aadt', chunk=max(20, len(evs) // 6 + 1))
    ck.notes['values'] = sum(len(e['vals']) for e in evs)
    ck.notes['comparisons'] = sum(len(e['eqs']) for e in evs)
