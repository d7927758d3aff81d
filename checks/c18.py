"""C18: index variables of every domain size and encoding, and formulas selecting with them."""
import random
import hwtypes, z3
import pysmt.shortcuts as smt
from peak.family import SMTFamily
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.formula_constructor import And, Or, Implies
from vp import outcome
import par

BV, BIT = SMTFamily().BitVector, SMTFamily().Bit


def at(f, var, val):
    f = f.value if hasattr(f, 'value') else f
    r = f.substitute({var.value: smt.BV(val, var.size)}).simplify()
    return r.is_true()


def model(f, var):
    m = smt.get_model(f)
    return None if m is None else int(m.get_value(var.value).constant_value())


def ix_event(args):
    enc, n, seed, full = args
    r = random.Random(seed)
    cls = dict(onehot=OneHot, binary=Binary)[enc]
    iv = cls(n, 'ix%d' % seed)
    w = iv.var.size
    tests = [iv.match_index(k) for k in range(n)]
    ok = iv.is_valid()
    vals = set()
    if full:
        vals = set(range(1 << w))
    else:
        for t in tests:
            vals.add(model(t.value, iv.var))
        for _ in range(24):
            vals.add(r.getrandbits(w))
            vals.add((1 << r.randrange(w)) | (1 << r.randrange(w)))
        vals |= {0, (1 << w) - 1, min(n, (1 << w) - 1), n - 1, 1 << (w - 1)}
        vals.discard(None)
        m = model(smt.And(ok.value, smt.Not(smt.Or(*[t.value for t in tests]))), iv.var)
        if m is not None:
            vals.add(m)
        m = model(smt.And(smt.Not(ok.value), smt.Or(*[t.value for t in tests])), iv.var)
        if m is not None:
            vals.add(m)
    elem = [r.randrange(16) for _ in range(n)]
    x = BV[4](prefix='x%d' % seed)
    # selecting an element: as the mapper writes it, as guarded implications, as an ite chain
    sels = [Or([And([t, x == BV[4](e)]) for t, e in zip(tests, elem)]).to_hwtypes(),
            And([Or(tests)] + [Implies(t, x == BV[4](e)) for t, e in zip(tests, elem)]).to_hwtypes()]
    chain = BV[4](elem[0])
    for t, e in zip(tests[1:], elem[1:]):
        chain = t.ite(BV[4](e), chain)
    sels.append(x == chain)
    pats = []
    for v in sorted(vals):
        d = outcome(lambda: iv.decode(v))
        if d[0] == 'exc' and d[1] != 'ValueError':
            raise AssertionError('decode: %r' % (d,))
        sel = []
        valid = at(ok, iv.var, v)
        if valid:
            for f in (sels if n <= 8 else r.sample(sels, 1)):
                sel.append([y for y in range(16) if f.value.substitute({iv.var.value: smt.BV(v, w), x.value: smt.BV(y, 4)}).simplify().is_true()])
        pats.append(dict(b=[v >> k & 1 for k in range(w)], ok=valid, m=[k for k in range(n) if at(tests[k], iv.var, v)],
                         dec=d[1] if d[0] == 'ok' else -1, sel=sel))
    outside = [outcome(lambda: iv.match_index(k))[0] == 'exc' for k in (-1, n, n + 1)]
    return dict(ev='ix', n=n, enc=enc, w=w, full=full, pats=pats, elem=elem, outside=outside)


def tree(r, depth, n):
    if depth == 0 or r.random() < .25:
        return dict(o='v', n=r.randrange(n) + 1)
    o = r.choice(['and', 'or', 'imp'])
    k = 2 if o == 'imp' else r.choice([1, 2, 3])
    return dict(o=o, a=[tree(r, depth - 1, n) for _ in range(k)])


def real(t, vs):
    if t['o'] == 'v':
        return vs[t['n'] - 1]
    a = [real(x, vs) for x in t['a']]
    return dict(**{'and': lambda: And(a), 'or': lambda: Or(iter(a) if len(a) > 1 else a), 'imp': lambda: Implies(*a)})[t['o']]()


def formula_event(seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4])
    t = tree(r, r.choice([1, 2, 3]), n)
    if t['o'] == 'v':
        t = dict(o='and', a=[t])
    vs = [BIT(prefix='b%d_%d' % (seed, k)) for k in range(n)]
    f = real(t, vs).to_hwtypes()
    rows = []
    for k in range(1 << n):
        rows.append(f.value.substitute({v.value: smt.Bool(bool(k >> j & 1)) for j, v in enumerate(vs)}).simplify().is_true())
    return dict(ev='formula', t=t, n=n, rows=rows)


def one(a):
    return ix_event(a[1]) if a[0] == 'ix' else formula_event(a[1])


def run(ck):
    ck.model_check('IndexVar', workers=4)
    full = 12 if ck.thorough else 8
    big = [(e, n) for e in ('onehot', 'binary') for n in ([9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65] if not ck.thorough else list(range(9, 70)) + [127, 128, 129])]
    jobs = []
    for e in ('onehot', 'binary'):
        for n in range(1, full + 1):
            jobs.append(('ix', (e, n, len(jobs), True)))
        if e == 'binary':
            for n in range(full + 1, 40 if ck.thorough else 18):
                jobs.append(('ix', (e, n, len(jobs), True)))
    for e, n in big:
        jobs.append(('ix', (e, n, len(jobs), False)))
    for k in range(4000 if ck.thorough else 300):
        jobs.append(('f', ck.seed * 100000 + k))
    evs = []
    for (st, r), j in zip(par.pmap(one, jobs, base=ck.tmp), jobs):
        if st == 'ok':
            evs.append(r)
        else:
            ck.fail('crash:%s' % (j[1][0] if j[0] == 'ix' else 'formula'), dict(job=j, traceback=r[1]))
    ck.validate('IndexTrace', evs, label='index', chunk=max(30, len(evs) // 6), classify=lambda f, e: '%s:%s' % (f['clause'], (e or {}).get('enc', '')))
    ck.notes.update(domains=sum(e['ev'] == 'ix' for e in evs), patterns=sum(len(e['pats']) for e in evs if e['ev'] == 'ix'),
                    formulas=sum(e['ev'] == 'formula' for e in evs))
