"""Drives the real assemblers for one instruction type and records an event."""
import random
import adt
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit, new
from peak.assembler import Assembler
from peak.assembler2 import Assembler as Assembler2
from vp import outcome

FooBV = new(BitVector, name='FooBV')


def as_int(bv):
    """value of a concrete bit vector, or a constant symbolic one"""
    if isinstance(bv, (SMTBitVector, SMTBit)):
        c = bv.value.simplify()
        assert c.is_constant(), c
        return int(c.constant_value())
    if isinstance(bv, Bit):
        return int(bool(bv))
    return bv.as_uint()


def zero_info(d):
    """a component without information (a one-variant tag, a one-member enum coded 0): its
    bit vector has width 0, which the symbolic bit vectors of hwtypes cannot represent"""
    return (adt.width(d) == 0 or (d['k'] in ('sum', 'tu') and len(d['ts']) < 2)
            or any(zero_info(x) for x in d.get('ts', [])))


def _asm(A, b, val, bvt):
    o = outcome(lambda: A(b.py).assemble(val, bv_type=bvt))
    if o[0] != 'ok':
        return [-1, -1]
    r = o[1]
    if not isinstance(r, bvt):
        return [-2, -1]
    return [as_int(r) if r.size else 0, r.size]


def _dis(A, b, x, w, bvt=BitVector):
    o = outcome(lambda: A(b.py).disassemble(bvt[w](x)))
    if o[0] != 'ok':
        return [0, []], o[1]
    f = outcome(lambda: adt.flat(b, o[1]))
    if f[0] != 'ok':
        return [1, [-1]], ''
    return [1, f[1]], ''


def pick_vals(rng, d, cap):
    n = adt.n_values(d)
    if n <= cap:
        return adt.enum_values(d), True
    seen = []
    for _ in range(cap):
        v = adt.rand_value(rng, d)
        if v not in seen:
            seen.append(v)
    return seen, False


def codec_event(rng, d, cap=64, style=0, smt=True):
    b = adt.build(d, style)
    L = adt.layout(b, Assembler)
    vals, exh = pick_vals(rng, d, cap)
    w = L['w']
    out = []
    bvts = [BitVector, FooBV] + ([SMTBitVector] if smt and not zero_info(d) else [])
    for v in vals:
        val = adt.value(b, v)
        a = [_asm(A, b, val, t) for A in (Assembler, Assembler2) for t in bvts]
        ds, eq = [], []
        for A, k in ((Assembler, 0), (Assembler2, len(bvts))):
            x = a[k][0]
            if x < 0 or x >= (1 << w):
                ds.append([0, []]); eq.append(0)
                continue
            ds.append(_dis(A, b, x, w)[0])
            o = outcome(lambda: bool(A(b.py).disassemble(BitVector[w](x)) == val))
            eq.append(int(o[0] == 'ok' and o[1]))
        out.append(dict(v=v, a=a, d=ds, eq=eq))
    return dict(ev='codec', T=d, L=L, w=[L['w'], Assembler2(b.py).width], vals=out, exh=exh)


def _sym_eval(A, meth, b, w, xs):
    """answers of a predicate on a symbolic opcode, evaluated at every x"""
    import pysmt.shortcuts as smt
    v = SMTBitVector[w]()
    o = outcome(lambda: getattr(A(b.py), meth)(v))
    if o[0] != 'ok':
        return [-1] * len(xs)
    e = o[1]
    if not isinstance(e, SMTBit):
        return [-2] * len(xs)
    f = e.value
    res = []
    for x in xs:
        c = f.substitute({v.value: smt.BV(x, w)}).simplify()
        res.append(int(c.constant_value()) if c.is_constant() else -3)
    return res


def _pred(f):
    o = outcome(f)
    if o[0] != 'ok':
        return -1
    try:
        return as_int(o[1])
    except Exception:
        return -2


def valid_event(rng, d, cap=256, style=0, sym=True, order=(0, 1)):
    b = adt.build(d, style)
    gens = [(Assembler, Assembler2)[k] for k in order]
    for A in gens:
        A(b.py)
    L = adt.layout(b, Assembler)
    w = L['w']
    exh = (1 << w) <= cap
    if exh:
        xs = list(range(1 << w))
    else:
        ok = [as_int(Assembler(b.py).assemble(adt.value(b, adt.rand_value(rng, d)))) for _ in range(cap // 4)]
        xs = ok + [x ^ (1 << rng.randrange(w)) for x in ok] + [rng.randrange(1 << w) for _ in range(cap // 4)]
        xs = sorted(set(xs))
    cols = []
    for A in (Assembler, Assembler2):
        cols.append([_pred(lambda: A(b.py).is_valid(BitVector[w](x))) for x in xs])
        if sym and not zero_info(d):
            cols.append(_sym_eval(A, 'is_valid', b, w, xs))
    ops = []
    for j, x in enumerate(xs):
        d1, exc = _dis(Assembler, b, x, w)
        d2, _ = _dis(Assembler2, b, x, w)
        ops.append(dict(x=x, s=[c[j] for c in cols], d=[d1, d2], exc=exc))
    tags = []
    if b.k in ('sum', 'tu'):
        a1 = Assembler(b.py)
        tw = a1.tag_width
        for t in range(1 << tw):
            o = outcome(lambda: a1.disassemble_tag(BitVector[tw](t)))
            k = 0
            if o[0] == 'ok':
                k = -1
                for n, key in enumerate(b.keys):
                    if key is o[1] or (isinstance(key, str) and isinstance(o[1], str) and key == o[1]):
                        k = n + 1
            tags.append(dict(t=t, s=_pred(lambda: a1.is_valid_tag(BitVector[tw](t))), k=k,
                             exc=o[1] if o[0] != 'ok' else ''))
    return dict(ev='valid', T=d, L=L, ops=ops, tags=tags, exh=exh)


def _paths(b, v, p=()):
    """all paths into value v through active variants, with the flat value there"""
    yield p, b, v
    if b.k in ('prod', 'tuple'):
        pos = 0
        for i, s in enumerate(b.sub):
            n = _span(s.d, v, pos)
            yield from _paths(s, v[pos:pos + n], p + (i,))
            pos += n
    elif b.k in ('sum', 'tu'):
        i = v[0] - 1
        yield from _paths(b.sub[i], v[1:], p + (i,))


def _span(d, v, p):
    k = d['k']
    if k in ('bv', 'bit', 'enum'):
        return 1
    if k in ('prod', 'tuple'):
        q = p
        for x in d['ts']:
            q += _span(x, v, q)
        return q - p
    return 1 + _span(d['ts'][v[p] - 1], v, p + 1)


def place_event(rng, d, cap=24, style=0):
    b = adt.build(d, style)
    a1, a2 = Assembler(b.py), Assembler2(b.py)
    L = adt.layout(b, Assembler)
    vals, _ = pick_vals(rng, d, cap)
    out = []
    for v in vals:
        val = adt.value(b, v)
        op1 = a1.assemble(val)
        op2 = a2.assemble(val, BitVector)
        paths = []
        for p, sb, sv in _paths(b, v):
            if not p:
                continue
            keys, x = [], b
            for i in p:
                keys.append(x.keys[i]); x = x.sub[i]
            s = a1.sub
            mode = rng.randrange(3)
            if mode == 0:
                s = s[tuple(keys)]
            else:
                for kk in keys:
                    s = getattr(s, kk) if (mode == 1 and isinstance(kk, str)) else s[kk]
            idx = s.idx
            sw = idx.stop - idx.start
            got = as_int(op1[idx]) if sw else 0
            sub = as_int(Assembler(sb.py).assemble(adt.value(sb, sv))) if sw else 0
            ok_sub_asm = s.asm is Assembler(sb.py)
            # second generation: nested extract
            o, x = op2, b
            for i in p:
                o = Assembler2(x.py).extract(o, x.keys[i])
                x = x.sub[i]
            ext = as_int(o) if sw else 0
            paths.append(dict(p=[i + 1 for i in p], lo=idx.start if ok_sub_asm else -1, hi=idx.stop, got=got, sub=sub, ext=ext,
                              t=[s.tag_idx.start, s.tag_idx.stop] if sb.k in ('sum', 'tu') else []))
        r = dict(v=v, op=as_int(op1) if L['w'] else 0, paths=paths)
        if b.k in ('sum', 'tu'):
            ti = a1.sub.tag_idx
            r['tag'] = as_int(op1[ti]) if ti.stop > ti.start else 0
            r['tidx'] = [ti.start, ti.stop]
            r['m'] = [_pred(lambda: a2.match(op2, k)) for k in b.keys]
            r['mt'] = [_pred(lambda: a2.match(op2, s.py)) for s in b.sub] if b.k == 'tu' else []
        out.append(r)
    e = dict(ev='place', T=d, L=L, vals=out)
    if b.k in ('sum', 'tu'):
        trt = []
        for i, k in enumerate(b.keys):
            o = outcome(lambda: a1.disassemble_tag(a1.assemble_tag(k, BitVector)))
            n = 0
            if o[0] == 'ok':
                for j, kk in enumerate(b.keys):
                    if kk is o[1] or (isinstance(kk, str) and isinstance(o[1], str) and kk == o[1]):
                        n = j + 1
            trt.append(n)
        e['trt'] = trt
    return e
