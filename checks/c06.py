"""C06: histories of registers of every kind in every family, against spec/Storage."""
import random, os, warnings
import adt, par, hw
import peaklang as pl
import hwtypes
from hwtypes import BitVector, Bit
from peak import Peak
from peak.family import PyFamily, PyXFamily, SMTFamily, MagmaFamily
from peak.assembler.assembler import Assembler
from peak.register import gen_register, gen_register2
import pysmt.shortcuts as smt
from vp import outcome

FAMS = dict(Py=PyFamily, PyX=PyXFamily, SMT=SMTFamily, Magma=MagmaFamily)
_o = [0]


def oid():
    _o[0] += 1
    return _o[0]


def rtype(r, magma=False):
    x = r.random()
    if x < .2:
        return dict(k='bit')
    if magma or x < .65:
        d = dict(k='bv', w=r.choice([1, 2, 3, 4, 5, 8, 12]))
        if r.random() < .3:
            d['s'] = r.choice('su')
        return d
    while True:
        d = adt.rand_type(r, r.choice([1, 1, 2]))
        if 0 < adt.width(d) <= 10 and d['k'] not in ('bv', 'bit'):
            return d


def ftype(t, d, fam):
    if pl.isleaf(d):
        return {'bit': lambda: fam.Bit, 'bv': lambda: {'s': fam.Signed, 'u': fam.Unsigned, '': fam.BitVector}[d.get('s', '')][d['w']]}[d['k']]()
    return fam.get_adt_t(t.built(d).py)


def signed(d, x):
    return x - (1 << d['w']) if d.get('s') == 's' and x >> (d['w'] - 1) else x


def initial(r, t, d, v, fam):
    """the initial value in one of the ways it can be written"""
    if d['k'] == 'bit':
        return r.choice([lambda: int(v[0]), lambda: bool(v[0]), lambda: Bit(v[0]), lambda: fam.Bit(v[0])])()
    if d['k'] == 'bv':
        return r.choice([lambda: v[0], lambda: signed(d, v[0]), lambda: BitVector[d['w']](v[0]), lambda: ftype(t, d, fam)(v[0])])()
    x = adt.value(t.built(d), v)
    return x if r.random() < .6 else fam.get_adt_t(t.built(d).py)(x) if fam != PyFamily() else x


def bad_value(r, d, fam):
    """a value that is not of the type"""
    c = [fam.Bit(1)] if d['k'] != 'bit' else []
    w = d['w'] if d['k'] == 'bv' else 3
    return r.choice(c + [fam.BitVector[w + 1](1), 'x', None, 3, object()])


# -- direct histories in a concrete family ----------------------------------------------
NAMES = ['r', 'acc', '_r', '__r', 'r__', '__r_', 'value', '___q___', 'T', 'o1', '__']


def py_history(seed, famname):
    r = random.Random(seed)
    fam, t = FAMS[famname](), pl.Types()
    evs = []
    kinds = []
    for _ in range(r.choice([1, 2, 3])):
        d = rtype(r)
        v = adt.rand_value(r, d)
        kinds.append((d, v, r.random() < .6))
        if r.random() < .5:     # the same type with another initial value / enable
            kinds.append((d, adt.rand_value(r, d), r.choice([True, False])))
    objs, attrs = [], []
    for d, v, en in kinds:
        T = ftype(t, d, fam)
        for _ in range(r.choice([1, 1, 2])):
            init = initial(r, t, d, v, fam)
            how = r.random()
            if how < .6:
                R = fam.gen_register(T, init, has_enable=en)
                e = en
            elif how < .75 and pl.isleaf(d):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    R, e = gen_register(ftype(t, d, PyFamily()), init)(fam), True
            elif how < .85 and famname == 'Py':
                R, e = gen_register2(fam, T, pl.present(t, d, v, fam, True)), True
            else:
                R, e = None, None
            for _ in range(r.choice([1, 2])):
                if R is not None:
                    objs.append((oid(), R(), d, e))
                    evs.append(dict(ev='new', o=objs[-1][0], kind='reg', w=[v]))
                else:
                    A = fam.gen_attr_register(T, init)
                    attrs.append((oid(), A, d, v))
                    evs.append(dict(ev='new', o=attrs[-1][0], kind='attr', w=[v]))

    class Host(Peak):
        pass
    hosts = [Host(), Host()]
    ats = []
    names = [(h, n) for h in (0, 1) for n in NAMES]
    r.shuffle(names)
    for (o, A, d, v), (h, n) in zip(attrs, names):
        setattr(hosts[h], n, A())
        ats.append((o, h, n, d))
    plain = {}
    def seen(d, f):
        x = outcome(lambda: pl.observe(t, d, f()))
        return [x[1]] if x[0] == 'ok' else [[-1]]
    for _ in range(r.choice([6, 12, 25, 40])):
        k = r.random()
        if objs and (k < .7 or not ats):
            o, R, d, e = r.choice(objs)
            if k < .1 and hasattr(R, 'prev'):
                evs.append(dict(ev='read', o=o, a=1, out=seen(d, R.prev)))
                continue
            v = adt.rand_value(r, d)
            val = pl.present(t, d, v, fam, famname == 'Py')
            if not e:
                en = 1
                call = lambda: R(val)
            else:
                en = r.randrange(2)
                b = r.choice([fam.Bit(en), bool(en), en]) if famname == 'Py' else fam.Bit(en)
                call = r.choice([lambda: R(val, b), lambda: R(value=val, en=b), lambda: R(val, en=b)])
            evs.append(dict(ev='acc', o=o, a=1, v=v, en=en, out=seen(d, call)))
        elif ats:
            o, h, n, d = r.choice(ats)
            host = hosts[h]
            if k < .8:
                v = adt.rand_value(r, d)
                before = seen(d, lambda: getattr(host, n))
                x = outcome(lambda: setattr(host, n, pl.present(t, d, v, fam, famname == 'Py')))
                evs.append(dict(ev='acc', o=o, a=1, v=v, en=1, out=before if x[0] == 'ok' else [[-1]]))
            elif k < .86:
                bad = bad_value(r, d, fam)
                x = outcome(lambda: setattr(host, n, bad))
                evs.append(dict(ev='bad', o=o, refused=x[0] == 'exc' and x[1] == 'TypeError'))
            elif k < .9:        # other attributes do not interfere
                setattr(host, 'p%d' % r.randrange(3), r.randrange(9))
            else:
                evs.append(dict(ev='read', o=o, a=1, out=seen(d, lambda: getattr(host, n))))
    for o, h, n, d in ats:
        evs.append(dict(ev='read', o=o, a=1, out=seen(d, lambda: getattr(hosts[h], n))))
    for o, R, d, e in objs:
        if hasattr(R, 'prev'):
            evs.append(dict(ev='read', o=o, a=1, out=seen(d, R.prev)))
    return evs


# -- symbolic histories ---------------------------------------------------------------------
def smt_history(seed):
    r = random.Random(seed)
    fam, t = SMTFamily(), pl.Types()
    S = pl.Sym(t, fam)
    objs = []
    for _ in range(r.choice([1, 2, 3])):
        d = rtype(r)
        T = ftype(t, d, fam)
        en = r.random() < .7
        symbolic = r.random() < .25
        for _ in range(r.choice([1, 2])):
            if symbolic:
                v, h = S.var(d)
                R = fam.gen_register(T, v, has_enable=en)
                iv = ('var', h)
            else:
                v = adt.rand_value(r, d)
                R = fam.gen_register(T, initial(r, t, d, v, fam), has_enable=en)
                iv = ('const', v)
            objs.append((R(), d, en, iv))
    steps = []
    for _ in range(r.choice([4, 8, 12])):
        j = r.randrange(len(objs))
        R, d, e, _ = objs[j]
        v, h = S.var(d)
        if not e:
            res, en = R(v), ('const', 1)
        else:
            x = r.randrange(3)
            if x == 0:
                b = r.randrange(2)
                res, en = R(v, fam.Bit(b)), ('const', b)
            else:
                b, hb = S.var(dict(k='bit'))
                res, en = R(v, b), ('var', hb)
        steps.append((j, h, en, res, R.prev() if r.random() < .3 else None))
    evs = []
    for _ in range(5):
        sub, ids = {}, []
        for R, d, e, iv in objs:
            if iv[0] == 'var':
                v = adt.rand_value(r, d)
                S.bind(sub, iv[1], v)
            else:
                v = iv[1]
            ids.append(oid())
            evs.append(dict(ev='new', o=ids[-1], kind='reg', w=[v]))
        vals = []
        for j, h, en, res, pv in steps:
            v = adt.rand_value(r, h[0])
            S.bind(sub, h, v)
            if en[0] == 'var':
                b = r.randrange(2)
                S.bind(sub, en[1], [b])
            else:
                b = en[1]
            vals.append((v, b))
        for (j, h, en, res, pv), (v, b) in zip(steps, vals):
            d = objs[j][1]
            x = outcome(lambda: S.observe(d, res, sub))
            evs.append(dict(ev='acc', o=ids[j], a=1, v=v, en=b, out=[x[1]] if x[0] == 'ok' else [[-1]]))
            if pv is not None:
                x = outcome(lambda: S.observe(d, pv, sub))
                evs.append(dict(ev='read', o=ids[j], a=1, out=[x[1]] if x[0] == 'ok' else [[-1]]))
    return evs


# -- components with several registers -------------------------------------------------------
def bank_source(r, name, magma):
    """a component whose inputs drive several registers; regs: [(kind, desc, init, has enable)]"""
    t = pl.Types()
    regs = []
    for _ in range(r.choice([1, 2, 3, 4])):
        d = rtype(r, magma)
        if regs and r.random() < .4:
            d = regs[-1][1]
        regs.append((r.choice(['reg', 'reg', 'attr']), d, adt.rand_value(r, d), r.random() < .6))
    L = ['from peak import Peak, family_closure, name_outputs', '', '@family_closure', 'def %s_fc(family):' % name]
    def ty(d):
        return t.src(d) if pl.isleaf(d) else t.name(d)
    for j, (k, d, v, en) in enumerate(regs):
        T = ty(d) if pl.isleaf(d) else 'family.get_adt_t(%s)' % ty(d)
        i = str(signed(d, v[0]) if d['k'] == 'bv' else v[0]) if pl.isleaf(d) else 'INIT%d' % j
        L.append('    R%d = family.gen_%sregister(%s, %s%s)' % (j, '' if k == 'reg' else 'attr_', T, i, ', has_enable=%s' % en if k == 'reg' else ''))
    L += ['    @family.assemble(locals(), globals())', '    class %s(Peak):' % name, '        def __init__(self):']
    L += ['            self.r%d = R%d()' % (j, j) for j in range(len(regs))]
    ann = ', '.join('v%d: %s, e%d: family.Bit' % (j, ty(d), j) for j, (k, d, v, en) in enumerate(regs))
    outs = []
    body = []
    order = list(range(len(regs)))
    r.shuffle(order)
    for j in order:
        k, d, v, en = regs[j]
        if k == 'reg' and en:
            if r.random() < .5:
                body.append('o%d = self.r%d(v%d, e%d)' % (j, j, j, j))
            else:
                body.append('o%d = self.r%d(value=v%d, en=e%d)' % (j, j, j, j))
        elif k == 'reg':
            body.append('o%d = self.r%d(v%d)' % (j, j, j))
        else:
            body.append('o%d = self.r%d' % (j, j))
            x = r.randrange(4)
            regs[j] = (k, d, v, x < 3)
            if x == 0:
                body += ['if e%d:' % j, '    self.r%d = v%d' % (j, j)]
            elif x == 1:
                body += ['if ~e%d:' % j, '    o%d = self.r%d' % (j, j), 'else:', '    self.r%d = v%d' % (j, j)]
            elif x == 2:
                body += ['if e%d:' % j, '    self.r%d = v%d' % (j, j), 'else:', '    self.r%d = self.r%d' % (j, j)]
            else:
                body.append('self.r%d = v%d' % (j, j))
    rets = ', '.join('o%d' % j for j in range(len(regs)))
    names = ', '.join('y%d=%s' % (j, ty(d)) for j, (k, d, v, en) in enumerate(regs))
    ret = '(%s)' % ', '.join(ty(d) for k, d, v, en in regs) if len(regs) > 1 else ty(regs[0][1])
    L += ['        @name_outputs(%s)' % names, '        def __call__(self, %s) -> %s:' % (ann, ret)] + ['            ' + b for b in body] + ['            return ' + rets]
    L += ['    return ' + name, '']
    return t, regs, '\n'.join(L)


def bank(seed, famname, dirname='.'):
    r = random.Random(seed)
    name = 'Bank%s%d_%d' % (famname, os.getpid(), oid())
    t, regs, src = bank_source(r, name, famname == 'Magma')
    path = os.path.join(dirname, name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    import importlib.util, sys
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.__dict__.update(t.globals())
    fam = FAMS[famname]()
    for j, (k, d, v, en) in enumerate(regs):
        if not pl.isleaf(d):
            mod.__dict__['INIT%d' % j] = adt.value(t.built(d), v)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return t, regs, src, outcome(lambda: getattr(mod, name + '_fc')(fam))


def accs(evs, ids, regs, ins, outs):
    for j, (k, d, v, en) in enumerate(regs):
        evs.append(dict(ev='acc', o=ids[j], a=1, v=ins[2 * j], en=ins[2 * j + 1][0] if en else 1, out=[outs[j]]))


def news(evs, regs):
    ids = [oid() for _ in regs]
    for o, (k, d, v, en) in zip(ids, regs):
        evs.append(dict(ev='new', o=o, kind='reg' if k == 'reg' else 'attr', w=[v]))
    return ids


def rand_ins(r, regs):
    ins = []
    for k, d, v, en in regs:
        ins += [adt.rand_value(r, d), [int(r.random() < .5)]]
    return ins


def bank_py(seed, famname):
    r = random.Random(seed ^ 77)
    t, regs, src, c = bank(seed, famname)
    if c[0] != 'ok':
        raise RuntimeError('/peak/ component rejected %r\n%s' % (c, src))
    fam, evs = FAMS[famname](), []
    if famname == 'SMT':
        S = pl.Sym(t, fam)
        o = c[1]()
        steps = []
        for _ in range(r.choice([2, 4, 6])):
            hs = []
            for k, d, v, en in regs:
                hs += [S.var(d), S.var(dict(k='bit'))]
            res = o(*[x for x, _ in hs])
            steps.append((hs, res if len(regs) > 1 else (res,)))
        for _ in range(5):
            ids = news(evs, regs)
            sub, all_ins = {}, []
            for hs, res in steps:
                ins = rand_ins(r, regs)
                for (x, h), v in zip(hs, ins):
                    S.bind(sub, h, v)
                all_ins.append(ins)
            for (hs, res), ins in zip(steps, all_ins):
                outs = []
                for (k, d, v, en), y in zip(regs, res):
                    x = outcome(lambda: S.observe(d, y, sub))
                    outs.append(x[1] if x[0] == 'ok' else [-1])
                accs(evs, ids, regs, ins, outs)
        return evs, src
    objs = []
    for _ in range(r.choice([1, 2, 3])):
        objs.append((c[1](), news(evs, regs)))
    for _ in range(r.choice([5, 15, 30])):
        o, ids = r.choice(objs)
        ins = rand_ins(r, regs)
        args = []
        for j, (k, d, v, en) in enumerate(regs):
            args += [pl.present(t, d, ins[2 * j], fam, famname == 'Py'), fam.Bit(ins[2 * j + 1][0])]
        res = outcome(lambda: o(*args))
        outs = []
        for j, (k, d, v, en) in enumerate(regs):
            x = outcome(lambda: pl.observe(t, d, res[1][j] if len(regs) > 1 else res[1])) if res[0] == 'ok' else res
            outs.append(x[1] if x[0] == 'ok' else [-1])
        accs(evs, ids, regs, ins, outs)
    return evs, src


def magma_batch(seed, n, cycles):
    """banks and plain registers as circuits"""
    r = random.Random(seed)
    items, errs = [], []
    for k in range(n):
        if k % 2:
            d = rtype(r, True)
            v, en = adt.rand_value(r, d), r.random() < .6
            fam = MagmaFamily()
            c = outcome(lambda: fam.gen_register(ftype(pl.Types(), d, fam), r.choice([v[0], signed(d, v[0]) if d['k'] == 'bv' else bool(v[0])]), has_enable=en))
            regs, src = [('reg', d, v, en)], repr((d, v, en))
        else:
            t, regs, src, c = bank(r.randrange(1 << 40), 'Magma')
        if c[0] != 'ok':
            errs.append((repr(c), src))
            continue
        items.append((str(k), regs, c[1], src))
    sim = hw.Sim([(k, C) for k, regs, C, src in items], 'hw')
    sim.build()
    stim, log = [], {k: [] for k, *_ in items}
    for c in range(cycles):
        if c == 0 or r.random() < .06:
            stim.append('reset')
            for k in log:
                log[k].append(None)
        s = {}
        for k, regs, C, src in items:
            ins = rand_ins(r, regs)
            log[k].append(ins)
            vals = {}
            for j, (kk, d, v, en) in enumerate(regs):
                vals['v%d' % j], vals['e%d' % j] = ins[2 * j][0], ins[2 * j + 1][0]
            vals.update(value=vals['v0'], I=vals['v0'], en=vals['e0'], CE=vals['e0'])
            s[k] = [vals[nm] for nm, i, w in hw.ports(C) if i]
        stim.append(s)
    res = sim.run(stim)
    parts = []
    for k, regs, C, src in items:
        evs, j = [], 0
        ids = news(evs, regs)
        for ins in log[k]:
            if ins is None:
                evs += [dict(ev='reset', o=o) for o in ids]
                continue
            outs = res[j][k] if j < len(res) else []
            accs(evs, ids, regs, ins, [[x] for x in outs] if len(outs) == len(regs) else [[]] * len(regs))
            j += 1
        parts.append((evs, src))
    return parts, errs


def one(job):
    kind, seed, *a = job
    _o[0] = 0
    if kind == 'py':
        return [(py_history(seed, a[0]), '')], []
    if kind == 'smt':
        return [(smt_history(seed), '')], []
    if kind == 'bank':
        return [bank_py(seed, a[0])], []
    return magma_batch(seed, *a)


def run(ck):
    ck.model_check('Storage', workers=6, cfg=None if not ck.thorough else 'StorageDeep.cfg')
    r = ck.rng
    m = 12 if ck.thorough else 1
    jobs = [('magma', r.randrange(1 << 40), 8, 40 if ck.thorough else 25) for _ in range(3 * m)]
    jobs += [('py', r.randrange(1 << 40), f) for f in ('Py', 'PyX') for _ in range(70 * m)]
    jobs += [('smt', r.randrange(1 << 40)) for _ in range(50 * m)]
    jobs += [('bank', r.randrange(1 << 40), f) for f in ('Py', 'PyX', 'SMT') for _ in range(20 * m)]
    parts, info, count = [], [], {}
    for (st, x), j in zip(par.pmap(one, jobs, base=ck.tmp, fresh=True), jobs):
        if st != 'ok':
            ck.fail('crash:%s' % j[0], dict(job=j, error=x))
            continue
        for e, src in x[0]:
            base = len(parts) * 1000
            for ev in e:
                ev['o'] += base
            parts.append(e)
            info.append((j, src))
            count[j[0]] = count.get(j[0], 0) + 1
        for e in x[1]:
            ck.fail('crash:%s component' % j[0], dict(job=j, error=e))
    ck.validate_parts('StorageTrace', parts, label='register', info=info, classify=lambda f, e: 'register:' + f['clause'])
    ck.notes.update(histories=count)
