"""Pairs of an IR instruction and an architecture (programs of spec/PeakLang.tla with
constant inputs), the mapper driven over them, and its rules as spec/Mapper.tla sees them."""
import copy, json, math, random, re
import adt
import peaklang as pl
from peaklang import BIT, same, isleaf
from hwtypes import BitVector, Bit, AbstractBit, AbstractBitVector
from peak.assembler.assembler import Assembler
from peak.mapper import ArchMapper, RewriteRule, read_serialized_bindings
from peak.mapper.mapper import LoopException
from peak.mapper.utils import Unbound
from peak.mapper.index_var import OneHot, Binary
from vp import outcome

FULL = [[0, 1], [0, 1, 2, 3], [1, 0]]
CODES = [[0, 1], [1, 2], [0, 1, 2], [3, 1], [0, 1, 2, 3], [2, 5, 1], [-1, -1, -1], [4, 2, 0, 1]]


def bv(w):
    return dict(k='bv', w=w)


class Pair:
    consts, hints, par = False, (), None

    def __init__(self, rng, opts=()):
        self.r = rng
        self.opts = opts
        self.lets, self.kinds, self.ilets = [], [], []
        self.w = rng.choice([1, 1, 2] if 'bbonly' in opts else [1, 2, 2, 2])
        self.sg = rng.choice('su') if 'signed' in opts and rng.random() < .3 else ''
        self.g = pl.Gen(rng, pl.Types(rng.choice([0, 1])), {'signed'} if self.sg else set(), depth=1, widths=(self.w,))
        self.g.ws, self.g.adts, self.g.ctors = [self.w], [], set()

    # -- types -------------------------------------------------------------------
    def inst_type(self, depth, alts=False):
        r = self.r
        k = r.choice(['sum', 'tu'] if alts and depth else ['enum', 'enum', 'prod', 'prod', 'tuple', 'sum', 'tu', 'leaf'] if depth else ['enum', 'enum', 'leaf'])
        if k == 'leaf':
            return r.choice([BIT, self.word(), self.word(2)])
        if k == 'enum':
            return dict(k='enum', codes=list(r.choice(CODES)))
        ts, tries = [], 0
        n = r.choice([2, 3, 3, 4] if k in ('sum', 'tu') else [2, 2, 3])
        while len(ts) < n and tries < 20:
            tries += 1
            t = self.inst_type(depth - 1)
            if k in ('sum',) and (any(same(t, x) or (t['k'] == x['k'] == 'bv') for x in ts) or t['k'] in ('tuple',)):
                continue
            ts.append(t)
        if len(ts) < 2:
            return dict(k='enum', codes=[0, 1])
        return dict(k=k, ts=ts)

    def word(self, w=None):
        d = bv(w or self.w)
        if self.sg and self.r.random() < .5:
            d['s'] = self.sg
        return d

    def out_type(self):
        r = self.r
        if 'outs' in self.opts and r.random() < .12:
            return dict(k=r.choice(['prod', 'tuple']), ts=[r.choice([BIT, self.word(), self.word()]) for _ in range(2)])
        if 'outs' in self.opts and r.random() < .06:
            return dict(k='enum', codes=list(r.choice(CODES)))
        return r.choice([self.word(), self.word(), BIT])

    def data_type(self):
        r = self.r
        k = r.random()
        if k < .62:
            return self.word()
        if k < .85:
            return BIT
        if k < .93:
            return dict(k=r.choice(['prod', 'tuple']), ts=[self.word(), r.choice([BIT, self.word()])])
        return dict(k='enum', codes=list(r.choice(FULL)))

    # -- architecture ---------------------------------------------------------------
    def arch(self):
        r, g = self.r, self.g
        self.terms = []
        ins = []
        n_inst = r.choice([0, 1, 1, 1, 1, 2])
        # several constants of one type: instructions with a constant can be bound in many ways
        self.consts = 'bbonly' not in self.opts and r.random() < .2
        if self.consts:
            n_inst = r.choice([2, 2, 3])
            ct = r.choice([self.word(), self.word(), BIT])
        for i in range(n_inst):
            if self.consts:
                ins.append(dict(n='inst%d' % i, T=ct, const=True))
                continue
            ins.append(dict(n='inst%d' % i, T=self.inst_type(0 if 'bbonly' in self.opts else r.choice([0, 1, 1, 2]), r.random() < .3), const=True))
        for i in range(2 if self.consts else r.choice([1, 2, 2, 3])):
            ins.append(dict(n='dat%d' % i, T=self.data_type(), const=False))
        if 'sumdata' in self.opts and r.random() < .3:
            ins.append(dict(n='sdat', T=dict(k=r.choice(['sum', 'tu']), ts=[BIT, bv(self.w)]), const=False))
        # an operand that an instruction needs to have one value
        self.par = None
        if 'bbonly' not in self.opts and r.random() < .25:
            self.par = r.choice([BIT, self.word(), self.word()])
            ins.append(dict(n='par', T=self.par, const=r.random() < .25))
        r.shuffle(ins)
        self.lets, self.kinds = [], []
        outs = [self.out_type() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        P = dict(frozen=set())
        sc = pl.Scope(P)
        sc.vars = {i['n']: i['T'] for i in ins if i['n'] != 'par'}
        todo = [(dict(o='var', n=i['n']), i['n'], i['T']) for i in ins if (i['const'] or i['T']['k'] in ('sum', 'tu')) and i['n'] != 'par']
        g.ctors = set()
        if 'bb' in self.opts and r.random() < (1 if 'bbonly' in self.opts else .2):
            self.black_boxes(sc, todo)
        js, ls = self.decide(todo, sc, outs, 4, 5)
        lj, ll = self.let_code(self.lets)
        js, ls = lj + js, ll + ls
        self.A = dict(ins=ins, outs=outs, regs=[], subs=[], body=js, name='Arch')
        self.A['named'] = r.random() < .5
        g.emit('Arch', ins, outs, *self.bb_code(self.lets), ls, named=self.A['named'])

    # -- black boxes ---------------------------------------------------------------------
    def black_boxes(self, sc, todo):
        """instances of black boxes, called before anything else with what there is"""
        r, g, w = self.r, self.g, self.w
        W = bv(w)
        if w == 1:
            tups = dict(k=r.choice(['prod', 'tuple']), ts=[BIT, bv(1)])
            sigs = [([W], [W]), ([W], [W]), ([BIT, BIT], [BIT]), ([BIT, W], [BIT]), ([W, W], [W]), ([BIT], [BIT]), ([W], [BIT, W]), ([], [W]), ([], [BIT, W]), ([W, W], [W]),
                    ([W], [dict(k='enum', codes=list(r.choice(CODES[:4])))]), ([tups], [BIT]), ([BIT], [tups])]
        else:
            tups = dict(k=r.choice(['prod', 'tuple']), ts=[BIT, BIT])
            sigs = [([W], [W]), ([BIT], [BIT]), ([], [W]), ([W], [BIT]), ([BIT], [W]), ([BIT], [BIT, BIT]), ([], [BIT, W]), ([tups], [BIT]), ([BIT], [tups]), ([BIT, BIT], [BIT]), ([BIT, BIT], [BIT]), ([BIT, W], [BIT])]
        size = lambda s: math.prod(adt.n_values(t) for t in s[1]) ** math.prod(adt.n_values(t) for t in s[0])
        while not self.kinds or (r.random() < .5 and len(self.kinds) < 2):
            s = r.choice(sigs)
            if math.prod([size(s)] + [size((k['ins'], k['outs'])) for k in self.kinds]) > (256 if not self.kinds else 64):
                continue
            self.kinds.append(dict(n='K%d' % len(self.kinds), ins=list(s[0]), outs=list(s[1]), named=r.random() < .5))
            if r.random() < .4 and size(s) <= 8:        # another of the same interface
                self.kinds.append(dict(self.kinds[-1], n='K%d' % len(self.kinds)))
        one = r.random() < .3
        for k in self.kinds:
            k['cls'] = 'K' if one else k['n'] + 'c'      # different kinds may have one name
            self.emit_kind(k)
        for b in range(r.choice([1, 1, 2, 2, 3])):
            k = r.choice(self.kinds)
            args = [g.expr(d, sc, r.choice([0, 0, 1])) for d in k['ins']]
            names = ['v%d_%d' % (b, i) for i in range(len(k['outs']))]
            self.lets.append(dict(xs=names, k=k, a=args))
            for n, d in zip(names, k['outs']):
                sc.vars[n] = d
                if d['k'] in ('bit', 'enum') and r.random() < .3:
                    todo.append((dict(o='var', n=n), n, d))

    def emit_kind(self, k):
        g, r = self.g, self.r
        if 'from peak.black_box import BlackBox' not in g.mod:
            g.mod.append('from peak.black_box import BlackBox')
        ann = lambda d: g.t.ann(d, r)
        L = ['@family_closure', 'def %s_fc(family):' % k['n'], '    @family.assemble(locals(), globals())', '    class %s(Peak, BlackBox):' % k['cls']]
        if k['named']:
            L.append('        @name_outputs(%s)' % ', '.join('o%d=%s' % (i, ann(d)) for i, d in enumerate(k['outs'])))
        ot = ', '.join(ann(d) for d in k['outs'])
        L += ['        def __call__(self, %s) -> %s:' % (', '.join('a%d: %s' % (i, ann(d)) for i, d in enumerate(k['ins'])), ot if len(k['outs']) == 1 else '(%s)' % ot),
              '            ...', '    return %s' % k['cls'], '']
        g.mod.extend(L)

    def let_code(self, lets):
        js, ls = [], []
        for b, l in enumerate(lets):
            ls.append('    ' * 4 + '%s = self.b%d(%s)' % (', '.join(l['xs']), b, ', '.join(s for _, s in l['a'])))
            for i, x in enumerate(l['xs']):
                js.append(dict(s='let', x=x, e=dict(o='bb', n=l['k']['n'], a=[j for j, _ in l['a']], i=i + 1)))
        return js, ls

    def bb_code(self, lets):
        r = self.r
        ks = sorted({l['k']['n'] for l in lets})
        return ['%sT = %s_fc(family)' % (k, k) for k in ks], ['self.b%d%s = %sT()' % (b, r.choice(['', ': %sT' % l['k']['n']]), l['k']['n']) for b, l in enumerate(lets)]

    def decide(self, todo, sc, outs, ind, fuel):
        r = self.r
        pad = '    ' * ind
        todo = list(todo)
        while todo:
            j, s, d = todo.pop(0)
            if d['k'] in ('prod', 'tuple'):
                b = self.g.t.built(d)
                for i, x in enumerate(d['ts']):
                    k = b.keys[i]
                    todo.append((dict(o='field', a=[j], T=d, i=i + 1), '%s.%s' % (s, k) if d['k'] == 'prod' else '%s[%d]' % (s, i), x))
                continue
            if d['k'] == 'enum' and fuel > 0:
                n = len(d['codes'])
                m = min(n, r.choice([2, 3, 4]))
                return self.chain([(dict(o='eq', a=[j, dict(o='c', v=[i + 1])]), '%s == %s.m%d' % (s, self.g.t.name(d), i), None) for i in range(m - 1)],
                                  todo, sc, outs, ind, fuel - m)
            if d['k'] in ('sum', 'tu'):
                alts = []
                for i, x in enumerate(d['ts']):
                    v = self.g.var_src(s, d, i)
                    alts.append((dict(o='match', a=[j], i=i + 1), v + '.match', (dict(o='payload', a=[j]), v + '.value', x)))
                return self.chain(alts, todo, sc, outs, ind, fuel - len(alts), last=True)
            if d['k'] == 'bit' and fuel > 0 and r.random() < .5:
                return self.chain([(j, s, None)], todo, sc, outs, ind, fuel - 2)
        es = [self.live(d, sc) for d in outs]
        if self.par:
            es = [self.with_par(d, e) for d, e in zip(outs, es)]
        self.terms.append((es, sc, dict(sc.vars), list(sc.payloads)))
        return [dict(s='ret', a=[j for j, _ in es])], [pad + 'return ' + ', '.join(s for _, s in es)]

    def with_par(self, d, e):
        r, (j, s), v = self.r, e, dict(o='var', n='par')
        if self.par['k'] == 'bit' and isleaf(d):
            if d['k'] == 'bit':
                return dict(o='xor', a=[j, v], w=1), '((%s) ^ (par))' % s
            o = dict(o='add', a=[j, dict(o='c', v=[1])], w=d['w'])
            return dict(o='ite', a=[v, j, o]), '(par).ite(%s, (%s) + %s(1))' % (s, s, self.g.t.src(d))
        if self.par['k'] == 'bv' and same(self.par, d):
            k = r.choice(['xor', 'add', 'and'])
            return dict(o=k, a=[j, v], w=d['w']), '((%s) %s (par))' % (s, {'xor': '^', 'add': '+', 'and': '&'}[k])
        return e

    def live(self, d, sc):
        for _ in range(6):
            e = self.g.expr(d, sc, self.r.choice([0, 0, 1] if 'bbonly' in self.opts else [2, 2, 3] if self.consts else [1, 1, 2]))
            if ('"n": "v' if self.lets else 'var') in json.dumps(e[0]):
                break
        return e

    def chain(self, alts, todo, sc, outs, ind, fuel, last=False):
        pad = '    ' * ind
        head, cur, ls = None, None, []
        for i, (cj, cs, pay) in enumerate(alts):
            t = sc.copy()
            td = list(todo)
            if pay:
                t.payloads.append(pay)
                td.append(pay)
            js, tl = self.decide(td, t, outs, ind + 1, fuel)
            if last and i == len(alts) - 1:
                cur['f'] = js
                ls += [pad + 'else:'] + tl
                return [head], ls
            st = {'s': 'if', 'c': cj, 't': js, 'f': []}
            ls += [pad + ('elif ' if i else 'if ') + cs + ':'] + tl
            if cur is None:
                head = st
            else:
                cur['f'] = [st]
            cur = st
        js, tl = self.decide(todo, sc.copy(), outs, ind + 1, fuel)
        cur['f'] = js
        return [head], ls + [pad + 'else:'] + tl

    # -- instruction --------------------------------------------------------------------
    def ir(self):
        r, g = self.r, self.g
        if self.lets and r.random() < .15:
            return self.direct()
        es, sc, _, _ = r.choice(self.terms)
        self.ilets = []
        self.hints = []         # leaves of the architecture the instruction has a constant for
        leaves = [(j, s, d) for j, s, d in g.places(sc) if d['k'] in ('bv', 'bit', 'enum') and not self.is_bb(pl.root(j))]
        if self.par:
            leaves.append((dict(o='var', n='par'), 'par', self.par))
        const = lambda j: next(i['const'] for i in self.A['ins'] if i['n'] == pl.root(j))
        names = ['x%d' % i for i in range(12)]
        r.shuffle(names)
        ins, ctors = [], set()
        outs = list(self.A['outs'])
        if len(outs) > 1 and r.random() < (.4 if len(outs) == 3 else .6):
            k = r.randrange(len(outs))
            outs, es = [outs[k]], [es[k]]
        elif len(outs) > 1 and r.random() < .3:
            outs, es = outs[::-1], es[::-1]
        kind = r.random()
        if kind < .15:      # unrelated
            cand = [dict(n='y%d' % i, T=r.choice([bv(self.w), BIT]), const=False) for i in range(r.choice([1, 2]))]
            s2 = pl.Scope(dict(frozen=set()))
            s2.vars = {i['n']: i['T'] for i in cand}
            es = [g.expr(d, s2, 1) for d in outs]
            ins = cand
        else:
            # the black boxes used, in order
            need = [False] * len(self.lets)
            text = json.dumps([j for j, _ in es])
            for b in reversed(range(len(self.lets))):
                l = self.lets[b]
                need[b] = any('"%s"' % x in text for x in l['xs']) or r.random() < .07
                if need[b]:
                    text += json.dumps([j for j, _ in l['a']])
            used = [l for b, l in enumerate(self.lets) if need[b]]
            es = list(es) + [a for l in used for a in l['a']]
            js = [j for j, _ in es]
            ss = [s for _, s in es]
            nc = 0
            if self.consts:
                r.shuffle(leaves)
            for j, s, d in sorted(leaves, key=lambda p: -len(p[1])):
                tok = re.compile(r'(?<![\w.\])])' + re.escape(s) + r'(?![\w\[]|\.(?:f|z|value|m)\w*)')
                hit = any(has(x, j) for x in js)
                if not hit:
                    continue
                mode = 'in'
                if self.par and pl.root(j) == 'par':
                    mode = 'const' if any(not i['const'] for i in ins) and r.random() < .9 else 'in'
                elif const(j):
                    mode = r.choice(['const', 'const', 'const', 'in'] if 'constenum' not in self.opts and not self.consts else ['const', 'in'])
                    if self.consts and nc < 2:
                        mode = ['in', 'const'][nc]
                    nc += 1
                    if d['k'] == 'enum' and 'fullenum' in self.opts and not complete(d['codes']):
                        mode = 'const'
                elif r.random() < .06:
                    mode = 'const'
                if mode == 'const' or (d['k'] == 'enum' and const(j) and ('constenum' not in self.opts or r.random() < .3)):
                    cj, cs = g.const(d) if d['k'] != 'enum' else (None, None)
                    if cj is not None and cj.get('o') == 'c' and place(j):
                        self.hints.append((place(j), cj['v'], const(j)))
                    if cj is None:
                        m = r.randrange(len(d['codes']))
                        cj, cs = dict(o='c', v=[m + 1]), '%s_c(%s.m%d)' % (ctors.add(g.t.name(d)) or g.t.name(d), g.t.name(d), m)
                else:
                    n = names.pop()
                    ins.append(dict(n=n, T=d, const=const(j)))
                    cj, cs = dict(o='var', n=n), n
                js = [subst(x, j, cj) for x in js]
                ss = [tok.sub('(%s)' % cs, x) for x in ss]
            if r.random() < .12 or not ins:
                ins.append(dict(n=names.pop(), T=r.choice([bv(self.w), BIT]), const=False))
            if r.random() < .15:
                k = r.randrange(len(outs))
                d = outs[k]
                if not isleaf(d):
                    pass
                elif d['k'] == 'bit':
                    js[k] = dict(o='bnot', a=[js[k]]); ss[k] = '(~(%s))' % ss[k]
                else:
                    js[k] = dict(o='add', a=[js[k], dict(o='c', v=[1])], w=d['w']); ss[k] = '((%s) + %s(1))' % (ss[k], g.t.src(d))
            es = list(zip(js, ss))
            at = len(outs)
            for l in used:
                k = l['k']
                o = [x for x in self.kinds if x['n'] != k['n'] and x['ins'] == k['ins'] and x['outs'] == k['outs']]
                if o and r.random() < .15:
                    k = r.choice(o)
                self.ilets.append(dict(l, k=k, a=es[at:at + len(l['a'])]))
                at += len(l['a'])
            es = es[:len(outs)]
            if any(i['n'] in json.dumps(js) for i in self.A['ins']):
                raise pl.Retry()
        r.shuffle(ins)
        if r.random() < .2 and len([i for i in ins if isleaf(i['T'])]) > 1:
            # group operands of the same kind into one input
            c = r.random() < .2
            grp = [i for i in ins if i['const'] == c and isleaf(i['T'])][:3]
            if len(grp) > 1:
                k1, k2 = r.choice(['prod', 'tuple']), r.choice(['prod', 'tuple'])
                acc = lambda T, j, s, n: (dict(o='field', a=[j], T=T, i=n + 1), '%s.%s' % (s, g.t.built(T).keys[n]) if T['k'] == 'prod' else '%s[%d]' % (s, n))
                gv = (dict(o='var', n='grp'), 'grp')
                if r.random() < .5:
                    T = dict(k=k1, ts=[i['T'] for i in grp])
                    at = [acc(T, *gv, n) for n in range(len(grp))]
                else:       # in one of its fields
                    U = dict(k=k2, ts=[i['T'] for i in grp[1:]])
                    if len(grp) == 2 and k2 == 'tuple' and r.random() < .5:
                        U['k'] = 'prod'
                    first = r.random() < .5
                    T = dict(k=k1, ts=[U, grp[0]['T']] if first else [grp[0]['T'], U])
                    u = acc(T, *gv, 0 if first else 1)
                    at = [acc(T, *gv, 1 if first else 0)] + [acc(U, *u, n) for n in range(len(grp) - 1)]
                for n, i in enumerate(grp):
                    a, t = at[n]
                    sb = lambda q: [(subst(j, dict(o='var', n=i['n']), a), re.sub(r'\b%s\b' % i['n'], t, s)) for j, s in q]
                    es = sb(es)
                    self.ilets = [dict(l, a=sb(l['a'])) for l in self.ilets]
                ins = [i for i in ins if i not in grp] + [dict(n='grp', T=T, const=c)]
                r.shuffle(ins)
        lj, ll = self.let_code(self.ilets)
        ls = ll + ['    ' * 4 + 'return ' + ', '.join(s for _, s in es)]
        self.I = dict(ins=ins, outs=outs, regs=[], subs=[], body=lj + [dict(s='ret', a=[j for j, _ in es])], name='IR')
        g.ctors = ctors | {n for n, _ in g.t.names.values() if any(re.search(r'\b%s_c\(' % n, l) for l in ls)}
        self.I['named'] = r.random() < .5
        g.emit('IR', ins, outs, *self.bb_code(self.ilets), ls, named=self.I['named'])

    def is_bb(self, n):
        return n is None or any(n in l['xs'] for l in self.lets)

    def direct(self):
        """the instruction is a black box itself"""
        k = self.r.choice(self.kinds)
        ins = [dict(n='a%d' % i, T=d, const=False) for i, d in enumerate(k['ins'])]
        if not ins:
            raise pl.Retry()
        es = [dict(o='bb', n=k['n'], a=[dict(o='var', n=i['n']) for i in ins], i=j + 1) for j in range(len(k['outs']))]
        self.I = dict(ins=ins, outs=list(k['outs']), regs=[], subs=[], body=[dict(s='ret', a=es)], name='IR', named=k['named'])
        self.g.mod.append('IR_fc = %s_fc' % k['n'])

    def ok(self):
        nA = nI = 1
        for i in self.A['ins']:
            nA *= adt.n_values(i['T'])
        for i in self.I['ins']:
            nI *= adt.n_values(i['T'])
        nF = 1
        for k in self.kinds:
            a = o = 1
            for t in k['ins']:
                a *= adt.n_values(t)
            for t in k['outs']:
                o *= adt.n_values(t)
            nF *= o ** a
        return nA <= 2048 and nI <= 64 and nF * max(nA, nI) <= 4096


def complete(codes):
    return len(codes) == 1 << max(codes).bit_length() and -1 not in codes


def place(j):
    """(input, index, index, ...) of a leaf of the inputs outside of sums"""
    if j['o'] == 'var':
        return (j['n'],)
    if j['o'] == 'field':
        p = place(j['a'][0])
        return p and p + (j['i'],)
    return None


def has(j, p):
    if j == p:
        return True
    return isinstance(j, dict) and any(has(x, p) for x in j.get('a', []))


def subst(j, p, q):
    if j == p:
        return q
    if isinstance(j, dict) and 'a' in j:
        return dict(j, a=[subst(x, p, q) for x in j['a']])
    return j


def pair(rng, opts=()):
    for _ in range(300):
        p = Pair(rng, opts)
        try:
            p.arch()
            p.ir()
        except pl.Retry:
            continue
        if p.ok():
            return p
    raise RuntimeError('no pair')


def public(P):
    return dict(ins=[dict(n=i['n'], T=i['T'], c=bool(i['const'])) for i in P['ins']], outs=P['outs'], regs=[], subs=[], body=P['body'])


# -- projecting the mapper's paths and values -------------------------------------------
def in_path(types, P, path):
    """real input path -> (index path, Built of the leaf)"""
    k = [i['n'] for i in P['ins']].index(path[0])
    b = types.built(P['ins'][k]['T'])
    res = [k + 1]
    for e in path[1:]:
        keys = list(b.keys)
        i = next(n for n, x in enumerate(keys) if x is e or (not isinstance(x, type) and x == e) or (isinstance(x, type) and isinstance(e, type) and x == e))
        res.append(i + 1)
        b = b.sub[i]
    return res, b


def out_path(P, path):
    assert len(path) == 1
    e = path[0]
    return int(e) + 1 if isinstance(e, int) else int(str(e)[1:]) + 1


def out_leaf(types, P, path):
    """real output path -> index path"""
    k = out_path(P, path[:1])
    b = types.built(P['outs'][k - 1])
    res = [k]
    for e in path[1:]:
        i = list(b.keys).index(e)
        res.append(i + 1)
        b = b.sub[i]
    return res


def out_leaves(types, P):
    """real output leaf paths and types"""
    res = []
    def walk(b, path):
        if b.k in ('prod', 'tuple'):
            for k, s in zip(b.keys, b.sub):
                walk(s, path + (k,))
        else:
            res.append((path, b))
    for i, d in enumerate(P['outs']):
        walk(types.built(d), ('o%d' % i if P['named'] else i,))
    return res


def leaf_value(b, x):
    if b.k == 'enum':
        try:
            w = Assembler(b.py).width
            return adt.flat(b, Assembler(b.py).disassemble(BitVector[w](int(x))))
        except Exception:
            return [0]
    if b.k == 'bit':
        return [int(x)]
    return [int(x.as_uint()) if hasattr(x, 'as_uint') else int(x)]


def kinds(p):
    return [dict(n=k['n'], ins=k['ins'], outs=k['outs']) for k in p.kinds]


def project(p, ib, ob):
    t = p.g.t
    rib, rob = [], []
    for src, q in ib:
        qi, b = in_path(t, p.A, q)
        if src is Unbound:
            rib.append(dict(q=qi, s='u'))
        elif isinstance(src, tuple):
            rib.append(dict(q=qi, s='p', p=in_path(t, p.I, src)[0]))
        else:
            rib.append(dict(q=qi, s='c', v=leaf_value(b, src)))
    for src, q in ob:
        if src is Unbound:
            rob.append(dict(q=out_leaf(t, p.A, q), s='u'))
        else:
            rob.append(dict(q=out_leaf(t, p.A, q), s='p', p=out_leaf(t, p.I, src)))
    return rib, rob


def arch_leaves(p):
    """all real leaf paths of the architecture: (path, Built, const)"""
    res = []
    def walk(b, path, c):
        if b.k in ('bv', 'bit', 'enum'):
            res.append((path, b, c))
        else:
            for k, s in zip(b.keys, b.sub):
                walk(s, path + (k,), c)
    for i in p.A['ins']:
        walk(p.g.t.built(i['T']), (i['n'],), i['const'])
    return res


def random_rule(rng, p):
    """real bindings that connect every IR input and fix every constant at random"""
    def variants(b, path, c):
        if b.k in ('bv', 'bit', 'enum'):
            return [(path, b, c)]
        if b.k in ('prod', 'tuple'):
            return [x for k, s in zip(b.keys, b.sub) for x in variants(s, path + (k,), c)]
        i = rng.randrange(len(b.sub))
        return variants(b.sub[i], path + (b.keys[i],), c)
    def leaves(P):
        return [x for i in P['ins'] for x in variants(p.g.t.built(i['T']), (i['n'],), i['const'])]
    A, I = leaves(p.A), leaves(p.I)
    bind, left = {}, list(A)
    for path, b, c in I:
        o = [a for a in left if a[1].py is b.py]
        if not o:
            return None
        a = rng.choice(o)
        left.remove(a)
        bind[a[0]] = path
    ib = []
    for path, b, c in A:
        if path in bind:
            ib.append((bind[path], path))
        elif not c and rng.random() < .6:
            ib.append((Unbound, path))
        elif rng.random() < .15 and [i for i in I if i[1].py is b.py]:
            ib.append((rng.choice([i for i in I if i[1].py is b.py])[0], path))
        else:
            v = adt.value(b, adt.rand_value(rng, b.d))
            ib.append((Assembler(b.py).assemble(v) if b.k == 'enum' else v, path))
    left, ob = out_leaves(p.g.t, p.A), []
    for path, b in out_leaves(p.g.t, p.I):
        o = [x for x in left if x[1].py is b.py]
        if not o:
            return None
        x = rng.choice(o)
        left.remove(x)
        ob.append((path, x[0]))
    ob += [(Unbound, x[0]) for x in left]
    rng.shuffle(ib)
    return ib, ob, 'random'


MODES = [(s, e, iv) for s in (True, False) for e in (True, False) for iv in ('OneHot', 'Binary')]
IV = dict(OneHot=OneHot, Binary=Binary)


def solve(mod, mode, pc=None, r=None):
    """the search; the loop also from initial vectors, and given up after some rounds (then without a limit)"""
    s, e, iv = mode
    r = r or random.Random(0)
    am = ArchMapper(mod.Arch_fc, path_constraints=dict(pc or {}), IVar=IV[iv])
    im = am.process_ir_instruction(mod.IR_fc, simple_formula=s)
    if e:
        random.seed(r.random())
        n = r.choice([-1, -1, 0, 1, 3])
        if r.random() < .3:
            try:
                return im.solve('z3', external_loop=True, itr_limit=r.choice([0, 1, 2, 5]), num_init=n)
            except LoopException:
                pass
        return im.solve('z3', external_loop=True, itr_limit=None, num_init=n)
    return im.solve('z3')
