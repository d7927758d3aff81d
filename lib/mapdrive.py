"""Drive the mapper over one pair and record what it did (events of spec/MapperTrace.tla)."""
import contextlib, io, json, os, random, signal
import adt, mapgen as mg, peaklang as pl
from mapgen import Unbound, RewriteRule, read_serialized_bindings, BitVector, Bit
from peak.assembler.assembler import Assembler
from peak.mapper.mapper import LoopException
from vp import outcome
import z3
z3.set_param('timeout', 5000)


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(s):
    def h(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(s)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def tidy():
    """pysmt's walkers keep a stack: one that was interrupted would go on with the rest in its next use"""
    from pysmt.environment import get_env
    from pysmt.walkers.dag import DagWalker
    env = get_env()
    for o in {id(v): v for a in dir(env) if not a.startswith('__') for v in [getattr(env, a)]}.values():
        if isinstance(o, DagWalker):
            o.stack = []
            o.memoization.clear()


GIVEUP = ('Slow', 'SolverReturnedUnknownResultError', 'LoopException')


def attempt(f, s=20):
    try:
        with limit(s):
            return ('ok', f())
    except Slow:
        tidy()
        return ('exc', 'Slow', '')
    except Exception as e:
        import traceback
        return ('exc', type(e).__name__, str(e)[:200], traceback.format_exc()[-1500:])


def constraints(rng, p):
    """a path restriction: ({real path: values}, [index path, flat values])"""
    ls = [x for x in mg.arch_leaves(p) if x[1].k in ('bv', 'bit', 'enum')]
    real, idx = {}, []
    cs = [x for x in ls if x[2]]
    hint = [h for h in getattr(p, 'hints', []) if rng.random() < (.3 if h[2] else .8)]
    if hint:        # the instruction needs these to have one value
        names = [i['n'] for i in p.A['ins']]
        for path, b, c in ls:
            ip = mg.in_path(p.g.t, p.A, path)[0]
            for h in hint:
                if ip == [names.index(h[0][0]) + 1] + list(h[0][1:]):
                    vs = [list(h[1])] + [v for v in adt.enum_values(b.d) if v != list(h[1]) and rng.random() < .6][:2]
                    if rng.random() < .3:
                        rng.shuffle(vs)
                    real[path] = tuple(BitVector[b.d['w']](v[0]) if b.k == 'bv' else adt.value(b, v) for v in vs)
                    idx.append(dict(p=ip, vs=vs))
        if real:
            return real, idx
    if len(cs) > 1 and rng.random() < .5:
        pick = rng.sample(cs, rng.choice([2, min(3, len(cs))]))     # several constants
        most = 1 if rng.random() < .6 else 3
    else:
        pick = rng.sample(ls, min(len(ls), rng.choice([1, 1, 2])))
        most = 3
    for path, b, c in pick:
        vals = adt.enum_values(b.d)
        n = min(len(vals), rng.choice([1, 2, 3]), most)
        vs = rng.sample(vals, n)
        rv = [BitVector[b.d['w']](v[0]) if b.k == 'bv' else adt.value(b, v) for v in vs]
        real[path] = tuple(rv) if n > 1 or rng.random() < .5 else rv[0]
        idx.append(dict(p=mg.in_path(p.g.t, p.A, path)[0], vs=vs))
    return real, idx


def const_value(b, v):
    x = adt.value(b, v)
    if b.k == 'enum':
        w = Assembler(b.py).width
        return Assembler(b.py).assemble(x)
    return x


def mutate(rng, p, ib, ob):
    """change one thing of a rule; real bindings in, real bindings out"""
    ib, ob = list(ib), list(ob)
    leaves = {path: (b, c) for path, b, c in mg.arch_leaves(p)}
    for _ in range(12):
        k = rng.randrange(len(ib))
        src, q = ib[k]
        b, c = leaves[tuple(q)]
        m = rng.choice(['const', 'swap', 'free', 'fix', 'out', 'dup'])
        if m == 'const' and not isinstance(src, tuple) and src is not Unbound:
            ib[k] = (const_value(b, adt.rand_value(rng, b.d)), q); return ib, ob, m
        if m == 'fix' and src is Unbound:
            ib[k] = (const_value(b, adt.rand_value(rng, b.d)), q); return ib, ob, m
        if m == 'free' and not c and not isinstance(src, tuple) and src is not Unbound:
            ib[k] = (Unbound, q); return ib, ob, m
        if m == 'swap':
            o = [j for j in range(len(ib)) if j != k and leaves[tuple(ib[j][1])][0].py is b.py and not leaves[tuple(ib[j][1])][1] and not c]
            if o:
                j = rng.choice(o)
                ib[k], ib[j] = (ib[j][0], ib[k][1]), (ib[k][0], ib[j][1])
                return ib, ob, m
        if m == 'dup' and src is Unbound:
            o = [s for s, q2 in ib if isinstance(s, tuple) and leaves[tuple(q2)][0].py is b.py]
            if o:
                ib[k] = (rng.choice(o), q); return ib, ob, m
        if m == 'out' and len(ob) > 1:
            outs = dict(mg.out_leaves(p.g.t, p.A))
            j = rng.randrange(len(ob))
            src, q = ob[j]
            if src is not Unbound:
                o = [i for i in range(len(ob)) if i != j and outs[tuple(ob[i][1])].py is outs[tuple(q)].py]
                if o:
                    i = rng.choice(o)
                    ob[j], ob[i] = (ob[i][0], ob[j][1]), (ob[j][0], ob[i][1])
                    return ib, ob, m
    return None


def ce_flat(p, ce):
    ir, ar = ce
    a = [dict(p=mg.in_path(p.g.t, p.I, q)[0], v=mg.leaf_value(mg.in_path(p.g.t, p.I, q)[1], v)) for q, v in ir.items()]
    b = [dict(p=mg.in_path(p.g.t, p.A, q)[0], v=mg.leaf_value(mg.in_path(p.g.t, p.A, q)[1], v)) for q, v in ar.items()]
    return [a, b]


def drive(seed, modes, n_mut=2, n_rand=1, opts=(), pc_p=.3):
    rng = random.Random(seed)
    p = mg.pair(rng, opts)
    mod = pl.load(p.g, '.')
    ev = dict(seed=seed, I=mg.public(p.I), A=mg.public(p.A), kinds=mg.kinds(p), pcs=[[]], rules=[], answers=[], verifs=[], copies=[], offers=[])
    errs, gaveup = [], 0
    if p.lets:          # what the mapper supports
        modes = [m for m in modes if m[0]] or [(True, True, 'OneHot')]
    jobs = [(None, 1, m) for m in modes]
    opt = random.Random(seed + 1)
    if rng.random() < (.8 if any(not h[2] for h in getattr(p, 'hints', [])) else pc_p):
        real, idx = constraints(rng, p)
        ev['pcs'].append(idx)
        jobs += [(real, 2, m) for m in modes]
    found = []
    for real, k, m in jobs:
        how = '%s %s %s' % ('simple' if m[0] else 'substituted', 'loop' if m[1] else 'quantified', m[2])
        r = attempt(lambda: mg.solve(mod, m, real, opt))
        if r[0] == 'exc':
            if r[1] in GIVEUP:
                gaveup += 1
            else:
                errs.append((how + (' restricted' if real else ''), r))
            continue
        rr = r[1]
        ev['answers'].append(dict(pc=k, found=rr is not None, how=how))
        if rr is not None:
            try:
                ib, ob = mg.project(p, rr.ibinding, rr.obinding)
            except Exception as e:      # paths or values that are not of the pair
                ev['answers'].pop()
                errs.append((how + ' rule', ('exc', type(e).__name__, 'malformed rule %r' % (rr.ibinding,))))
                continue
            ev['rules'].append(dict(ib=ib, ob=ob, pc=k, how=how))
            found.append(rr)
    # the verifier on found rules and on rules with one thing changed
    seen = set()
    todo = []
    for rr in found:
        key = repr(mg.project(p, rr.ibinding, rr.obinding))
        if key not in seen:
            seen.add(key)
            todo.append((rr.ibinding, rr.obinding, 'found'))
    base = list(todo)
    for ib, ob, _ in base[:2]:
        for _ in range(n_mut):
            x = mutate(rng, p, ib, ob)
            if x:
                todo.append(x)
    for _ in range(n_rand):
        x = mg.random_rule(rng, p)
        if x:
            todo.append(x)
    for ib, ob, how in todo:
        def build():
            rr = RewriteRule(list(ib), list(ob), mod.IR_fc, mod.Arch_fc)
            return rr, rr.verify()
        r = attempt(build)
        if r[0] == 'exc':
            if r[1] in GIVEUP:
                gaveup += 1
            else:
                errs.append(('verify ' + how, r))
            continue
        rr, ce = r[1]
        pib, pob = mg.project(p, rr.ibinding, rr.obinding)
        ev['verifs'].append(dict(ib=pib, ob=pob, ok=ce is None, ce=[] if ce is None else ce_flat(p, ce), how=how))
        # written out and read back
        r = attempt(lambda: copies(rng, p, mod, rr))
        if r[0] == 'exc':
            if r[1] not in GIVEUP:
                errs.append(('copy ' + how, r))
        else:
            ev['copies'] += r[1]
    # rules the constructor has to refuse, and some it has to take
    leaves = {path: (b, c) for path, b, c in mg.arch_leaves(p)}
    for ib, ob, how in todo[:3]:
        for k, (src, q) in enumerate(ib):
            b, c = leaves[tuple(q)]
            x = list(ib)
            if not isinstance(src, tuple) and src is not Unbound and rng.random() < .5:
                if b.k == 'enum' and rng.random() < .5:
                    w = Assembler(b.py).width
                    x[k] = (BitVector[w](rng.randrange(1 << w)), q)
                else:
                    x[k] = (Unbound, q)
            elif rng.random() < .8:
                continue
            r = outcome(lambda: RewriteRule(list(x), list(ob), mod.IR_fc, mod.Arch_fc))
            if r[0] == 'exc' and r[1] != 'ValueError':
                errs.append(('offer', r))
            else:
                a, o = mg.project(p, x, ob)
                ev['offers'].append(dict(ib=a, ob=o, refused=r[0] == 'exc', how=how))
    return ev, p.g.source(), errs, gaveup


def describe(p, rr):
    a, b = mg.project(p, rr.ibinding, rr.obinding)
    return [a, b, [[type(s).__name__, s.size if hasattr(s, 'size') else 0] if not isinstance(s, tuple) and s is not Unbound else ['-', 0]
                   for s, _ in rr.ibinding]]


def copies(rng, p, mod, rr):
    back = read_serialized_bindings(rr.serialize_bindings(), mod.IR_fc, mod.Arch_fc)
    res = [dict(a=describe(p, rr), b=describe(p, back), how='bindings')]
    ser = rr.serialize_bindings()
    def plain(x):
        return isinstance(x, (str, int, bool)) or (isinstance(x, (tuple, list)) and all(plain(y) for y in x)) or (isinstance(x, dict) and all(plain(y) for y in x.values()))
    if plain(ser):
        back2 = read_serialized_bindings(json.loads(json.dumps(ser)), mod.IR_fc, mod.Arch_fc)
        res.append(dict(a=describe(p, rr), b=describe(p, back2), how='json'))
    return res


KEEP = dict(C13=('rules',), C14=('answers',), C15=('verifs', 'offers'), C16=('copies',))
OPTS = ('sumdata', 'constenum', 'signed', 'bb', 'outs')


def mine(prop, how):
    """which property an unexpected exception belongs to"""
    k = how.split()[0]
    return {'verify': 'C15', 'offer': 'C15', 'copy': 'C16'}.get(k, 'C14')


def one(args):
    seed, prop, modes, kw = args
    return drive(seed, modes, opts=OPTS + (('fullenum',) if prop == 'C15' else ()) + (('bbonly',) if seed % 5 < 2 else ()), **kw)


def check(ck, n, modes, n_mut=2, n_rand=1, pc_p=.3, chunk=12):
    import par
    kw = dict(n_mut=n_mut, n_rand=n_rand, pc_p=pc_p)
    seeds = [ck.seed * 1000003 + int(ck.prop[1:]) * 100000 + i for i in range(n)]
    res = par.pmap(one, [(s, ck.prop, [modes[(i + j) % len(modes)] for j in range(4)] if len(modes) > 4 else modes, kw)
                         for i, s in enumerate(seeds)], base=ck.tmp, timeout=600)
    evs, srcs, total = [], {}, dict(rules=0, answers=0, found=0, verifs=0, accepted=0, copies=0, offers=0, gave_up=0)
    for (st, r), s in zip(res, seeds):
        if st != 'ok':
            if '/peak/' in r[1]:
                ck.fail('crash', dict(seed=s, traceback=r[1]))
                continue
            from vp import MachineryError
            raise MachineryError('driver failed on seed %d: %s' % (s, r[1]))
        ev, src, errs, gu = r
        total['gave_up'] += gu
        for how, e in errs:
            if mine(ck.prop, how) == ck.prop or (ck.prop == 'C13' and mine(ck.prop, how) == 'C14'):
                ck.fail('crash:%s' % how, dict(how=how, error=list(e), source=src))
        for k in ('rules', 'answers', 'verifs', 'copies', 'offers'):
            total[k] += len(ev[k])
            if k not in KEEP[ck.prop]:
                ev[k] = []
        total['found'] += sum(a['found'] for a in ev['answers'])
        total['accepted'] += sum(v['ok'] for v in ev['verifs'])
        if any(ev[k] for k in KEEP[ck.prop]):
            ev['n'] = len(srcs)
            srcs[ev['n']] = src
            evs.append(ev)
    fails = []
    def cls(f, e):
        return '%s:%s' % (f['clause'], f['detail'][1] if len(f['detail']) > 1 else '')
    n0 = len(ck.viol)
    ck.validate('MapperTrace', evs, chunk=chunk, label='pair', classify=cls)
    for k, rec in ck.viol[n0:]:
        rec['source'] = srcs.get((rec.get('event') or {}).get('n'))
    ck.cov['traces_validated_against_impl'] += sum(len(e[k]) for e in evs for k in KEEP[ck.prop]) - len(evs)
    ck.notes.update(pairs=len(evs), outcomes=total)
