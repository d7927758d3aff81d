"""C17: rules of several instructions (Multi), against spec/Multi.tla."""
import contextlib, io, json, random, re
import adt, par
import mapgen as mg, mapdrive as md
import peaklang as pl
from peaklang import BIT, same, isleaf
from mapgen import bv, subst, has
from hwtypes import BitVector
from peak.assembler.assembler import Assembler
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.multi import Multi
from peak.mapper.utils import Unbound
from vp import MachineryError


class MPair(mg.Pair):
    """an architecture with one constant input, and an instruction made of N of its computations"""
    def data(self):
        r = self.r
        x = r.random()
        return self.word() if x < .7 else BIT if x < .88 else dict(k=r.choice(['prod', 'tuple']), ts=[BIT, BIT]) if x < .95 else dict(k='enum', codes=list(r.choice(mg.FULL)))

    def arch(self, n_const=1):
        r, g = self.r, self.g
        self.terms = []
        ins = [dict(n='inst%d' % i, T=self.inst_type(r.choice([0, 1, 1])), const=True) for i in range(n_const)]
        # chains: each instruction works on the result of the one before
        self.chained = r.random() < .3
        ins += [dict(n='dat%d' % i, T=self.word() if self.chained else self.data(), const=False) for i in range(1 if self.chained else r.choice([1, 2, 2, 3]))]
        r.shuffle(ins)
        outs = [ins[0]['T'] if not ins[0]['const'] else ins[-1]['T']] if self.chained and n_const < 2 else [r.choice([self.word(), self.word(), BIT]) for _ in range(r.choice([1, 1, 1, 2]))]
        sc = pl.Scope(dict(frozen=set()))
        sc.vars = {i['n']: i['T'] for i in ins}
        todo = [(dict(o='var', n=i['n']), i['n'], i['T']) for i in ins if i['const']]
        words = [i for i in ins if i['T']['k'] == 'bv' and not i['const']]
        pre, self.abb = [], None
        if words and r.random() < .15:
            x = r.choice(words)
            self.abb = dict(n='bbv', T=x['T'], const=False, bb=True)
            sc.vars['bbv'] = x['T']
            pre = ['                bbv = self.bb(%s)' % x['n']]
            self.blackbox(x['T'])
        g.ctors = set()
        js, ls = self.decide(todo, sc, outs, 4, 5)
        named = r.random() < .5
        self.A = dict(ins=ins + ([self.abb] if self.abb else []), outs=outs, regs=[], subs=[], body=js, name='Arch', named=named)
        self.emit('Arch', ins, outs, ls, named, pre)

    def blackbox(self, T):
        if getattr(self, 'bbt', None) is not None:
            return
        self.bbt = T
        w = self.g.t.src(T)
        self.g.mod[:0] = ['from peak.black_box import BlackBox', '@family_closure', 'def BB_fc(family):', '    @family.assemble(locals(), globals())',
                          '    class BB(Peak, BlackBox):', '        def __call__(self, a: %s) -> %s:' % (w, w), '            ...', '    return BB', '']

    def emit(self, name, ins, outs, ls, named, pre):
        self.g.emit(name, ins, outs, ['B = BB_fc(family)'] if pre else [], ['self.bb = B()'] if pre else [], pre + ls, named=named)

    def ir(self, n_const=0):
        r, g = self.r, self.g
        self.N = r.choice([2, 3, 3, 3] if self.chained else [1, 2, 2, 2, 3])
        fresh = ['x%d' % i for i in range(20)]
        r.shuffle(fresh)
        ins, ctors, made, pre = [], set(), [], []
        data = [i for i in self.A['ins'] if not i['const'] and not i.get('bb')]
        for s in range(self.N):
            es, sc, _, _ = r.choice(self.terms)
            if 'bbv' in json.dumps([j for j, _ in es]):
                es, sc, _, _ = r.choice(self.terms)
            js, ss = [j for j, _ in es], [x for _, x in es]
            const = lambda j: pl.root(j).startswith('inst')
            for j, src, d in sorted([p for p in g.places(sc) if p[2]['k'] in ('bv', 'bit', 'enum') and const(p[0])], key=lambda p: -len(p[1])):
                if not any(has(x, j) for x in js):
                    continue
                if d['k'] == 'enum':
                    m = r.randrange(len(d['codes']))
                    cj, cs = dict(o='c', v=[m + 1]), '%s_c(%s.m%d)' % (ctors.add(g.t.name(d)) or g.t.name(d), g.t.name(d), m)
                else:
                    cj, cs = g.const(d)
                tok = re.compile(r'(?<![\w.\])])' + re.escape(src) + r'(?![\w\[]|\.(?:f|z|value|m)\w*)')
                js = [subst(x, j, cj) for x in js]
                ss = [tok.sub('(%s)' % cs, x) for x in ss]
            rep = {}
            for i in data:
                prior = [(j, x) for o in made for (j, x), d in zip(o, self.A['outs']) if same(d, i['T'])]
                if prior and (self.chained or r.random() < .65):
                    rep[i['n']] = r.choice(prior[-3:])
                else:
                    n = fresh.pop()
                    ins.append(dict(n=n, T=i['T'], const=False))
                    rep[i['n']] = (dict(o='var', n=n), n)
            for v, (j, x) in rep.items():
                js = [subst(y, dict(o='var', n=v), j) for y in js]
            # all names at once
            pat = re.compile(r'(?<![\w.])(%s)(?!\w)' % '|'.join(map(re.escape, rep)))
            ss = [pat.sub(lambda m: rep[m.group(1)][1] if re.fullmatch(r'\w+', rep[m.group(1)][1]) else '(%s)' % rep[m.group(1)][1], x) for x in ss]
            made.append(list(zip(js, ss)))
        outs, es = list(self.A['outs']), made[-1]
        if len(outs) > 1 and r.random() < .6:
            k = r.randrange(len(outs))
            outs, es = [outs[k]], [es[k]]
        elif r.random() < .2:
            outs, es = outs + outs[:1], es + es[:1]
        text = json.dumps([j for j, _ in es])
        if 'bbv' in text or 'inst' in text:
            raise pl.Retry()
        ins = [i for i in ins if re.search(r'"%s"' % i['n'], text)]
        if not ins or r.random() < .1:
            ins.append(dict(n=fresh.pop(), T=r.choice([self.word(), BIT]), const=False))
        if r.random() < .15:
            k = r.randrange(len(outs))
            d, (j, x) = outs[k], es[k]
            es[k] = (dict(o='bnot', a=[j]), '(~(%s))' % x) if d['k'] == 'bit' else (dict(o='add', a=[j, dict(o='c', v=[1])], w=d['w']), '((%s) + %s(1))' % (x, g.t.src(d)))
        words = [i for i in ins if i['T']['k'] == 'bv' and (getattr(self, 'bbt', None) is None or same(i['T'], self.bbt))]
        ibb = []
        ks = [k for k, d in enumerate(outs) if words and same(d, words[0]['T'])]
        if ks and r.random() < .08:
            self.blackbox(words[0]['T'])
            ibb = [dict(n='ibb', T=words[0]['T'], const=False, bb=True)]
            pre = ['                ibb = self.bb(%s)' % words[0]['n']]
            k = r.choice(ks)
            j, x = es[k]
            v = dict(o='var', n='ibb')
            es[k] = r.choice([(v, 'ibb'), (dict(o='xor', a=[j, v], w=words[0]['T']['w']), '((%s) ^ ibb)' % x), (dict(o='and', a=[v, dict(o='xor', a=[v, v], w=words[0]['T']['w'])], w=words[0]['T']['w']), '(ibb & (ibb ^ ibb))')])
        r.shuffle(ins)
        for i in ins[:n_const]:
            i['const'] = True
        if len(text) > 6000:
            raise pl.Retry()
        named = r.random() < .5
        g.ctors = ctors
        self.I = dict(ins=ins + ibb, outs=outs, regs=[], subs=[], body=[dict(s='ret', a=[j for j, _ in es])], name='IR', named=named)
        self.emit('IR', ins, outs, ['    ' * 4 + 'return ' + ', '.join(x for _, x in es)], named, pre)

    def ok(self):
        nA = nI = 1
        for i in self.A['ins']:
            nA *= adt.n_values(i['T'])
        for i in self.I['ins']:
            nI *= adt.n_values(i['T'])
        c = 1
        for i in self.A['ins']:
            if i['const']:
                c *= adt.n_values(i['T'])
        nb = 1
        for s in range(self.N):
            for i in self.A['ins']:
                if not i['const'] and not i.get('bb'):
                    nb *= 1 + sum(same(x['T'], i['T']) for x in self.I['ins'] if not x.get('bb')) + s * sum(same(d, i['T']) for d in self.A['outs'])
        free = 1
        for i in self.A['ins']:
            if not i['const']:
                free *= adt.n_values(i['T']) ** self.N
        return free <= 1 << 12 and nA <= 1024 and nI <= 64 and nb <= 4000 and c ** self.N <= 1500 and nb * c ** self.N <= 50000 and nb * free <= 200000


def pair(rng):
    x = rng.random()
    ca, ci = (1, 0) if x < .92 else rng.choice([(0, 0), (2, 0), (1, 1), (1, 2)])
    for _ in range(500):
        p = MPair(rng, ('signed',))
        try:
            p.arch(ca)
            p.ir(ci)
        except pl.Retry:
            continue
        if len([i for i in p.I['ins'] if i['const']]) == ci and p.ok():
            return p
    raise RuntimeError('no pair')


def public(P):
    d = mg.public(P)
    for a, b in zip(d['ins'], P['ins']):
        a['bb'] = bool(b.get('bb'))
    return d


def project(p, N, info):
    ain, iin = [i['n'] for i in p.A['ins']], [i['n'] for i in p.I['ins']]
    def src(x):
        if x is Unbound:
            return ['u']
        if x[0] == 'IR_in':
            return ['i', iin.index(x[1]) + 1]
        if x[0] == 'Arch_out':
            return ['o', x[1] + 1, mg.out_path(p.A, (x[2],))]
        return ['?']
    b, vs, vok = [], [], True
    for i in range(N):
        row = [['?'] for _ in ain]
        for s, q in info.bindings[i]:
            if q[:2] != ('Arch_in', i):
                return None
            row[ain.index(q[2])] = src(s)
        b.append(row)
        (v,) = info.instrs[i]
        T = next(x['T'] for x in p.A['ins'] if x['const'])
        bt = p.g.t.built(T)
        try:
            vs.append([int(v)] if T['k'] in ('bv', 'bit') else adt.flat(bt, Assembler(bt.py).disassemble(BitVector[Assembler(bt.py).width](int(v)))))
        except Exception:
            vok = False
    ob = [0] * len(p.I['outs'])
    for s, q in info.output_binding:
        if s[0] != 'Arch_out' or s[1] != N - 1 or q[0] != 'IR_out':
            return None
        ob[mg.out_path(p.I, (q[1],)) - 1] = mg.out_path(p.A, (s[2],))
    return dict(vok=vok, vs=vs, b=b, ob=ob)


def drive(seed):
    rng = random.Random(seed)
    p = pair(rng)
    mod = pl.load(p.g, '.')
    ev = dict(seed=seed, I=public(p.I), A=public(p.A), N=p.N, tries=[])
    errs, gaveup = [], 0
    modes = [(iv, real) for iv in ('Binary', 'OneHot') for real in (True, False)]
    for iv, real in [(rng.choice(['Binary', 'OneHot']), False), rng.choice(modes)] if p.N > 2 else rng.sample(modes, 2):
        how = '%s %s' % (iv, 'real' if real else 'free')
        def go():
            solve = Multi(mod.Arch_fc, mod.IR_fc, p.N, IVar=dict(Binary=Binary, OneHot=OneHot)[iv], use_real=real)
            first = solve(maxloops=None, solver_name='z3')
            if first is None:
                return None
            with contextlib.redirect_stdout(io.StringIO()):
                return first()
        x = md.attempt(go)
        if x[0] == 'exc':
            if x[1] in md.GIVEUP:
                gaveup += 1
            elif x[1] in ('ValueError', 'NotImplementedError'):
                ev['tries'].append(dict(how=how, res='no' if x[1] == 'ValueError' else 'unsupported', error=x[2]))
            else:
                errs.append((how, x))
            continue
        if x[1] is None:
            ev['tries'].append(dict(how=how, res='none'))
            continue
        try:
            rule = project(p, p.N, x[1])
        except (ValueError, KeyError, IndexError, AssertionError) as e:
            rule = None
        if rule is None:
            errs.append((how, ('exc', 'malformed', repr(x[1].bindings)[:800], repr(x[1].output_binding))))
            continue
        ev['tries'].append(dict(how=how, res='rule', rule=rule))
    return ev, p.g.source(), errs, gaveup


def run(ck):
    ck.model_check('MultiModel', workers=4, cfg='MultiModelDeep.cfg' if ck.thorough else None)
    n = 1500 if ck.thorough else 240
    seeds = [ck.seed * 1000003 + 1700000 + i for i in range(n)]
    evs, srcs, tot = [], {}, dict(tries=0, rule=0, none=0, no=0, unsupported=0, gave_up=0)
    for (st, x), s in zip(par.pmap(drive, seeds, base=ck.tmp, timeout=600), seeds):
        if st != 'ok':
            if '/peak/' in x[1]:
                ck.fail('crash', dict(seed=s, traceback=x[1]))
                continue
            raise MachineryError('driver failed on seed %d: %s' % (s, x[1]))
        ev, src, errs, gu = x
        tot['gave_up'] += gu
        for how, e in errs:
            ck.fail('crash:%s' % how, dict(how=how, error=list(e), source=src))
        for t in ev['tries']:
            tot['tries'] += 1
            tot[t['res']] += 1
        if ev['tries']:
            srcs[s] = src
            evs.append(ev)
    n0 = len(ck.viol)
    ck.validate('MultiTrace', evs, chunk=8, label='program', classify=lambda f, e: '%s:%s' % (f['clause'], f['detail'][1] if e and len(f['detail']) > 1 else ''))
    for k, rec in ck.viol[n0:]:
        rec['source'] = srcs.get((rec.get('event') or {}).get('seed'))
    ck.cov['traces_validated_against_impl'] += sum(len(e['tries']) for e in evs) - len(evs)
    ck.notes.update(pairs=len(evs), outcomes=tot)
    if tot['rule'] < n // 8 and not ck.viol:
        raise MachineryError('too few rules found: %r' % tot)
