"""Random programs of the peak language: PeakLang JSON (spec/PeakLang.tla) together with
the Python source of a family closure denoting it, and runners for the families."""
import importlib.util, itertools, os, sys
import adt
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from peak.assembler.assembler import Assembler

BIT = dict(k='bit')


def tkey(d):
    return repr(sorted(d.items(), key=str))


def same(a, b):
    return tkey(a) == tkey(b)


def isleaf(d):
    return d['k'] in ('bv', 'bit')


class Types:
    """named ADTs shared by the programs of one module"""
    def __init__(self, style=0):
        self.cache, self.names, self.style = {}, {}, style

    def built(self, d):
        return adt.build(d, self.style, None, self.cache)

    def name(self, d):
        k = tkey(d)
        if k not in self.names:
            self.names[k] = ('T%d' % len(self.names), d)
        return self.names[k][0]

    def globals(self):
        return {n: self.built(d).py for n, d in self.names.values()}

    def src(self, d):
        """the type inside a family closure"""
        if d['k'] == 'bit':
            return 'family.Bit'
        if d['k'] == 'bv':
            c = {'s': 'Signed', 'u': 'Unsigned', '': 'BitVector'}[d.get('s', '')]
            return 'family.%s[%d]' % (c, d['w'])
        return self.name(d)

    def key_src(self, d):
        """the type as the key of a Sum variant"""
        if d['k'] == 'bit':
            return 'hwtypes.Bit'
        if d['k'] == 'bv':
            c = {'s': 'SIntVector', 'u': 'UIntVector', '': 'BitVector'}[d.get('s', '')]
            return 'hwtypes.%s[%d]' % (c, d['w'])
        return self.name(d)


    def ann(self, d, rng):
        """the type as an annotation of a parameter or result: the family's type or the python one"""
        return self.key_src(d) if isleaf(d) and rng.random() < .5 else self.src(d)


class Scope:
    def __init__(self, P):
        self.vars = {}          # name -> desc
        self.attrs = {}         # attribute register -> desc
        self.payloads = []      # (json, src, desc) readable here
        self.n = 0
        self.P = P

    def copy(self):
        s = Scope(self.P)
        s.vars, s.attrs, s.payloads = dict(self.vars), dict(self.attrs), list(self.payloads)
        s.outer = self
        return s


class Gen:
    """feats: set of {'adt','outadt','sub','creg','attr','plain','early','signed','magma'}"""
    def __init__(self, rng, types, feats, size=6, depth=3, widths=(1, 2, 3, 4, 5, 8, 12)):
        self.rng, self.t, self.f, self.size, self.depth, self.widths = rng, types, feats, size, depth, widths
        self.nv = 0
        self.p_signed = rng.choice([.2, .4, .8])
        # dense programs use one width and one signedness, so that more of the values meet
        self.dense = rng.random() < .4
        self.mod = []           # module source lines
        self.subs = []          # available sub programs (name, P)
        self.nprog = 0
        self.named = None

    # -- types ----------------------------------------------------------------
    def leaf(self):
        if self.rng.random() < .3:
            return BIT
        d = dict(k='bv', w=self.rng.choice(self.ws))
        if 'signed' in self.f and self.rng.random() < self.p_signed:
            d['s'] = self.rng.choice('ssu')
        return d

    def some_type(self, p_adt=.35):
        if 'adt' in self.f and self.adts and self.rng.random() < p_adt:
            return self.rng.choice(self.adts)
        return self.leaf()

    def rand_adt(self, depth):
        while True:
            d = adt.rand_type(self.rng, depth, signed=self.p_signed if 'signed' in self.f else 0, maxar=3)
            if d['k'] in ('bv', 'bit'):
                d = dict(k='enum', codes=list(self.rng.choice(adt.ENUMS)))
            if self.dense:
                d = self.densify(d)
            if adt.width(d) <= 24 and self.usable(d):
                return d

    def densify(self, d):
        if d['k'] == 'bv':
            t = self.leaf()
            return d if t['k'] == 'bit' else t
        if 'ts' not in d:
            return d
        ts = [self.densify(x) for x in d['ts']]
        if d['k'] == 'sum':
            u = []
            for t in ts:
                if not any(adt.same_leaf(t, x) for x in u):
                    u.append(t)
            ts = u
        return dict(d, ts=ts)

    def usable(self, d):
        if d['k'] == 'enum':
            return len(d['codes']) > 1
        if isleaf(d):
            return True
        if d['k'] in ('sum', 'tu') and len(d['ts']) < 2:
            return False
        return all(self.usable(x) for x in d['ts'])

    # -- expressions ------------------------------------------------------------
    def places(self, sc):
        """readable ADT/leaf places: variables, attributes, payloads, and product fields"""
        out = []
        work = [(dict(o='var', n=n), n, d) for n, d in sc.vars.items()]
        work += [(dict(o='attr', n=n), self.attr_src(n, d), d) for n, d in sc.attrs.items()]
        work += sc.payloads
        while work:
            j, s, d = work.pop()
            out.append((j, s, d))
            if d['k'] in ('prod', 'tuple'):
                b = self.t.built(d)
                for i, x in enumerate(d['ts']):
                    k = b.keys[i]
                    work.append((dict(o='field', a=[j], T=d, i=i + 1),
                                 '%s.%s' % (s, k) if d['k'] == 'prod' else '%s[%d]' % (s, i), x))
        return out

    def attr_src(self, n, d):
        # magma hands out a wrapper that only understands operators
        if 'magma' in self.f:
            return '(self.%s ^ %s)' % (n, self.const_src(d, [0]))
        return 'self.%s' % n

    def const(self, d):
        v = adt.rand_value(self.rng, d)
        src = self.const_src(d, v)
        if self.named is not None and len(self.named) < 4 and self.rng.random() < .15:
            # a constant of the enclosing function; the module has other ones of these names
            self.named.append(src)
            src = 'k%d' % (len(self.named) - 1)
        return dict(o='c', v=v), src

    def const_src(self, d, v):
        x = v[0]
        if d['k'] == 'bit':
            return 'family.Bit(%d)' % x
        if d['k'] == 'bv':
            if d.get('s') == 's' and x >= 1 << (d['w'] - 1):
                x -= 1 << d['w']
            return '%s(%d)' % (self.t.src(d), x)
        if d['k'] == 'enum':
            return '%s_c(%s.m%d)' % (self.use(d), self.t.name(d), x - 1)
        raise ValueError(d)

    def use(self, d):
        n = self.t.name(d)
        self.ctors.add(n)
        return n

    def expr(self, d, sc, depth):
        """(json, src) of type d"""
        r = self.rng
        cands = [(j, s) for j, s, x in self.places(sc) if same(x, d)]
        if depth <= 0 or not isleaf(d):
            if cands and r.random() < .85:
                if depth > 0 and len(cands) > 1 and r.random() < .25 and (isleaf(d) or 'magma' not in self.f):
                    return self.ifexp(d, sc, depth)
                return r.choice(cands)
            return self.make(d, sc, depth)
        ops = []
        if cands:
            ops += ['place'] * 2
        if d['k'] == 'bit':
            ops += ['const', 'cmp', 'cmp', 'cmp', 'bit', 'bnot', 'blog', 'blog', 'ite', 'ifexp', 'eqbit']
        else:
            ops += ['const', 'arith', 'arith', 'arith', 'arith', 'logic', 'logic', 'un', 'shift', 'shift', 'ite', 'ifexp',
                    'slice', 'ext']
            if d.get('s', '') == '' and d['w'] >= 2:
                ops += ['concat']
            if 'signed' in self.f:
                ops += ['cast']
        o = r.choice(ops)
        w = d.get('w', 1)
        sub = lambda dd: self.expr(dd, sc, depth - 1)
        if o == 'place':
            return r.choice(cands)
        if o == 'const':
            return self.const(d)
        if o == 'ifexp':
            return self.ifexp(d, sc, depth)
        if o == 'ite':
            c, cs = sub(BIT); a, as_ = sub(d); b, bs = sub(d)
            return dict(o='ite', a=[c, a, b]), '(%s).ite(%s, %s)' % (cs, as_, bs)
        if o == 'bnot':
            a, s = sub(BIT)
            return dict(o='bnot', a=[a]), '(~(%s))' % s
        if o == 'blog':
            k = r.choice(['and', 'or', 'xor'])
            a, s = sub(BIT); b, t = sub(BIT)
            return dict(o=k, a=[a, b], w=1), '((%s) %s (%s))' % (s, {'and': '&', 'or': '|', 'xor': '^'}[k], t)
        if o == 'eqbit':
            a, s = sub(BIT); b, t = sub(BIT)
            k = r.choice(['eq', 'ne'])
            return dict(o=k, a=[a, b]), '((%s) %s (%s))' % (s, '==' if k == 'eq' else '!=', t)
        if o == 'cmp':
            x = self.bvtype(sc)
            a, s = sub(x); b, t = sub(x)
            k = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
            if k in ('eq', 'ne'):
                return dict(o=k, a=[a, b]), '((%s) %s (%s))' % (s, '==' if k == 'eq' else '!=', t)
            sg = x.get('s', '')
            if sg == '':
                sg = 'u' if 'magma' in self.f else r.choice('us')
                m = 'bv%s%s' % (sg, k)
                return dict(o=sg + k, a=[a, b], w=x['w']), '(%s).%s(%s)' % (s, m, t)
            return dict(o=sg + k, a=[a, b], w=x['w']), '((%s) %s (%s))' % (s, dict(lt='<', le='<=', gt='>', ge='>=')[k], t)
        if o == 'bit':
            x = self.bvtype(sc)
            a, s = self.expr(x, sc, min(depth - 1, 1))
            i = r.randrange(x['w'])
            if r.random() < .2:
                return dict(o='bit', a=[a], lo=i), '(%s)[%d]' % (s, i - x['w'])
            return dict(o='bit', a=[a], lo=i), '(%s)[%d]' % (s, i)
        if o == 'arith':
            k = r.choice(['add', 'sub', 'mul'])
            a, s = sub(d); b, t = sub(d)
            return dict(o=k, a=[a, b], w=w), '((%s) %s (%s))' % (s, dict(add='+', sub='-', mul='*')[k], t)
        if o == 'logic':
            k = r.choice(['and', 'or', 'xor'])
            a, s = sub(d); b, t = sub(d)
            return dict(o=k, a=[a, b], w=w), '((%s) %s (%s))' % (s, {'and': '&', 'or': '|', 'xor': '^'}[k], t)
        if o == 'un':
            k = r.choice(['neg', 'inv'])
            a, s = sub(d)
            if k == 'neg' and 'magma' in self.f and d.get('s', '') != 's':
                k = 'inv'
            return dict(o=k, a=[a], w=w), '(%s(%s))' % ('-' if k == 'neg' else '~', s)
        if o == 'shift':
            k = r.choice(['shl', 'shr'])
            a, s = sub(d)
            b, t = sub(d)
            if k == 'shl':
                return dict(o='shl', a=[a, b], w=w), '((%s) << (%s))' % (s, t)
            if d.get('s', '') == 's':
                return dict(o='ashr', a=[a, b], w=w), '((%s) >> (%s))' % (s, t)
            if d.get('s', '') == '' and 'magma' not in self.f and r.random() < .4:
                return dict(o='ashr', a=[a, b], w=w), '(%s).bvashr(%s)' % (s, t)
            return dict(o='lshr', a=[a, b], w=w), '((%s) >> (%s))' % (s, t)
        if o == 'slice':
            lo = r.randrange(0, 4)
            hi = r.randrange(0, 3)
            x = dict(d, w=lo + w + hi)
            if x['w'] > 14:
                return self.const(d)
            if d.get('s', '') and 'magma' in self.f:
                x.pop('s')
                return self.make(d, sc, depth)
            a, s = self.expr(x, sc, min(depth - 1, 1))
            return dict(o='slice', a=[a], lo=lo, hi=lo + w), '(%s)[%d:%d]' % (s, lo, lo + w)
        if o == 'ext':
            if w < 2:
                return self.const(d)
            n = r.randrange(1, w)
            a, s = sub(dict(d, w=w - n))
            sg = d.get('s', '')
            k = 'sext' if sg == 's' else r.choice(['zext', 'sext']) if (sg == '' and 'magma' not in self.f) else 'zext'
            return dict(o=k, a=[a], w=w - n, hi=n), '(%s).%s(%d)' % (s, k, n)
        if o == 'concat':
            n = r.randrange(1, w)
            a, s = sub(dict(k='bv', w=n)); b, t = sub(dict(k='bv', w=w - n))
            return dict(o='concat', a=[a, b], w=n), '(%s).concat(%s)' % (s, t)
        if o == 'cast':
            x = dict(k='bv', w=w)
            s0 = r.choice(['', 's', 'u'])
            if s0:
                x['s'] = s0
            a, s = sub(x)
            if same(x, d):
                return a, s
            return dict(o='cast', a=[a]), '%s(%s)' % (self.t.src(d), s)
        raise ValueError(o)

    def ifexp(self, d, sc, depth):
        c, cs = self.cond(sc, depth - 1)
        a, s = self.expr(d, sc, depth - 1); b, t = self.expr(d, sc, depth - 1)
        return dict(o='ite', a=[c, a, b]), '((%s) if (%s) else (%s))' % (s, cs, t)

    def bvtype(self, sc):
        c = [x for _, _, x in self.places(sc) if x['k'] == 'bv']
        if c and self.rng.random() < .85:
            return self.rng.choice(c)
        return dict(k='bv', w=self.rng.choice(self.ws))

    def make(self, d, sc, depth):
        if d['k'] in ('bv', 'bit', 'enum'):
            return self.const(d)
        if d['k'] in ('prod', 'tuple'):
            es = [self.expr(x, sc, min(depth - 1, 1)) for x in d['ts']]
            n = self.use(d)
            b = self.t.built(d)
            if d['k'] == 'prod':
                items = ['%s=%s' % (k, s) for k, (_, s) in zip(b.names, es)]
                if self.rng.random() < .3:
                    items.reverse()
                elif self.rng.random() < .4:
                    items = [s for _, s in es]
                src = '%s_c(%s)' % (n, ', '.join(items))
            else:
                src = '%s_c(%s)' % (n, ', '.join(s for _, s in es))
            return dict(o='mkprod', a=[j for j, _ in es]), src
        if d['k'] == 'tu':
            i = self.rng.randrange(len(d['ts']))
            b = self.t.built(d)
            j, s = self.expr(d['ts'][i], sc, min(depth - 1, 1))
            return dict(o='mkvar', i=i + 1, a=[j]), '%s_c(%s=%s)' % (self.use(d), b.names[i], s)
        # a Sum cannot be constructed in a family polymorphic way: use an existing one
        c = [(j, s) for j, s, x in self.places(sc) if same(x, d)]
        if c:
            return self.rng.choice(c)
        raise Retry()

    def cond(self, sc, depth):
        """(json, src) of a condition (may be a python bool in the plain family)"""
        r = self.rng
        pl = self.places(sc)
        en = [p for p in pl if p[2]['k'] == 'enum']
        su = [p for p in pl if p[2]['k'] in ('sum', 'tu')]
        k = r.random()
        if depth > 0 and k < .2:
            a, s = self.cond(sc, depth - 1); b, t = self.cond(sc, depth - 1)
            o = r.choice(['and', 'or'])
            return dict(o=o, a=[a, b], w=1), '((%s) %s (%s))' % (s, o, t)
        if depth > 0 and k < .3:
            a, s = self.cond(sc, depth - 1)
            return dict(o='bnot', a=[a]), '(not (%s))' % s
        if en and k < .6:
            j, s, d = r.choice(en)
            m = r.randrange(len(d['codes']))
            o = r.choice(['eq', 'eq', 'ne'])
            others = [p for p in en if same(p[2], d) and p[1] != s]
            if others and r.random() < .3:
                q = r.choice(others)
                return dict(o=o, a=[j, q[0]]), '(%s %s %s)' % (s, '==' if o == 'eq' else '!=', q[1])
            return dict(o=o, a=[j, dict(o='c', v=[m + 1])]), '(%s %s %s.m%d)' % (s, '==' if o == 'eq' else '!=', self.t.name(d), m)
        if su and k < .8:
            j, s, d = r.choice(su)
            i = r.randrange(len(d['ts']))
            return dict(o='match', a=[j], i=i + 1), '%s.match' % self.var_src(s, d, i)
        return self.expr(BIT, sc, max(depth, 1))

    def var_src(self, s, d, i):
        b = self.t.built(d)
        if d['k'] == 'tu':
            return '%s.%s' % (s, b.names[i])
        return '%s[%s]' % (s, self.t.key_src(d['ts'][i]))

    # -- statements -----------------------------------------------------------------
    def fresh(self):
        self.nv += 1
        return 'x%d' % self.nv

    def block(self, sc, n, depth, top, out, ind):
        """(json list, lines, returns?)"""
        r = self.rng
        js, ls = [], []
        pad = '    ' * ind
        emit = lambda s: ls.append(pad + s)
        for _ in range(n):
            ch = ['let'] * 4 + (['if'] * 3 if depth > 0 else [])
            if sc.attrs:
                ch += ['set'] * (2 if top else 3)
            if top and not self.early and self.pending:
                ch += ['call'] * 3
            if not top:
                ch += ['asg'] * 3
                if 'early' in self.f and r.random() < .25:
                    ch = ['ret']
            k = r.choice(ch)
            if k == 'let':
                d = self.some_type(.2)
                try:
                    j, s = self.expr(d, sc, self.depth)
                except Retry:
                    continue
                x = self.fresh()
                js.append(dict(s='let', x=x, e=j)); emit('%s = %s' % (x, s))
                sc.vars[x] = d
            elif k == 'asg':
                c = [x for x, d in sc.vars.items() if d['k'] not in ('sum', 'tu') and x not in sc.P['frozen'] and (isleaf(d) or 'magma' not in self.f)]
                if not c:
                    continue
                x = r.choice(c)
                try:
                    j, s = self.expr(sc.vars[x], sc, self.depth)
                except Retry:
                    continue
                js.append(dict(s='let', x=x, e=j)); emit('%s = %s' % (x, s))
            elif k == 'set':
                x = r.choice(sorted(sc.attrs))
                j, s = self.expr(sc.attrs[x], sc, self.depth)
                js.append(dict(s='set', x=x, e=j)); emit('self.%s = %s' % (x, s))
            elif k == 'call':
                self.call(sc, js, emit)
            elif k == 'ret':
                j, s = self.ret(sc, out)
                js.append(dict(s='ret', a=j)); emit(s)
                self.early = True
                return js, ls, True
            else:
                # assignments of variables of the enclosing block in a branch are of the same type
                su = [p for p in self.places(sc) if p[2]['k'] in ('sum', 'tu')]
                t = sc.copy(); f = sc.copy()
                if su and r.random() < .6:
                    j0, s0, d0 = r.choice(su)
                    i = r.randrange(len(d0['ts']))
                    v = self.var_src(s0, d0, i)
                    c, cs = dict(o='match', a=[j0], i=i + 1), v + '.match'
                    frozen = root(j0)
                    if frozen:
                        sc.P['frozen'].add(frozen)
                    t.payloads.append((dict(o='payload', a=[j0]), v + '.value', d0['ts'][i]))
                else:
                    c, cs = self.cond(sc, 2)
                m = max(1, n // 2)
                tj, tl, tr = self.block(t, r.randint(1, m), depth - 1, False, out, ind + 1)
                if not tl:
                    continue
                fj, fl, fr = [], [], False
                if r.random() < .6:
                    fj, fl, fr = self.block(f, r.randint(1, m), depth - 1, False, out, ind + 1)
                if tr and fr:
                    # keep one fall-through path so that the rest is reachable
                    pass
                js.append({'s': 'if', 'c': c, 't': tj, 'f': fj})
                emit('if %s:' % cs); ls.extend(tl)
                if fl:
                    first = fl[0].strip()
                    inner = [l for l in fl if len(l) - len(l.lstrip()) == 4 * (ind + 1)]
                    if first.startswith('if ') and all(x.strip().startswith(('if ', 'elif', 'else')) for x in inner) and sum(x.strip().startswith('if ') for x in inner) == 1 and r.random() < .7:
                        ls.extend(('el' + l[4:] if False else dedent1(l)) for l in fl)
                        # turn "if" into "elif"
                        k0 = len(ls) - len(fl)
                        ls[k0] = pad + 'el' + fl[0].strip()
                    else:
                        emit('else:'); ls.extend(fl)
                # variables defined on both sides
                if not (tr or fr):
                    for x, d in t.vars.items():
                        if x not in sc.vars and x in f.vars and same(f.vars[x], d):
                            sc.vars[x] = d
                if tr and fr:
                    return js, ls, True
        return js, ls, False

    def call(self, sc, js, emit):
        kind, q, info = self.pending.pop(self.rng.randrange(len(self.pending)))
        if kind == 'creg':
            T, en = info
            j, s = self.expr(T, sc, self.depth)
            x = self.fresh()
            st = dict(s='creg', x=x, q=q, e=j, en=[])
            args = [s]
            if en:
                c, cs = self.expr(BIT, sc, self.depth)
                st['en'] = [c]
                args = ['value=%s' % s, 'en=%s' % cs] if self.rng.random() < .3 else [s, cs]
            js.append(st); emit('%s = self.%s(%s)' % (x, q, ', '.join(args)))
            sc.vars[x] = T
        else:
            Q = info
            es = [self.expr(i['T'], sc, self.depth - 1) for i in Q['ins']]
            xs = [self.fresh() for _ in Q['outs']]
            js.append(dict(s='csub', xs=xs, q=q, a=[j for j, _ in es]))
            if self.rng.random() < .3:
                a = ['%s=%s' % (i['n'], s) for i, (_, s) in zip(Q['ins'], es)]
                self.rng.shuffle(a)
            else:
                a = [s for _, s in es]
            emit('%s = self.%s(%s)' % (', '.join(xs), q, ', '.join(a)))
            for x, d in zip(xs, Q['outs']):
                sc.vars[x] = d

    def ret(self, sc, out):
        es = [self.expr(d, sc, self.depth - 1) for d in out]
        return [j for j, _ in es], 'return ' + ', '.join(s for _, s in es)

    # -- programs --------------------------------------------------------------------
    def program(self, level=1):
        for _ in range(200):
            try:
                return self._program(level)
            except Retry:
                continue
        raise RuntimeError('no program')

    def _program(self, level):
        r, f = self.rng, self.f
        keep = (len(self.mod), list(self.subs), self.nprog)
        subs = []
        if 'sub' in f and level > 0:
            for _ in range(r.choice([0, 1, 1, 2])):
                subs.append(self.program(level - 1))
        self.ws = sorted(set(r.choice(self.widths) for _ in range(2)))
        if self.dense:
            self.ws = self.ws[-1:]
            self.p_signed = r.choice([0, 1, 1])
        self.adts = []
        if 'adt' in f:
            self.adts = [self.rand_adt(r.randint(0, 2)) for _ in range(r.randint(1, 2))]
        self.ctors = set()
        self.named = []
        self.early = False
        name = '%sP%d' % (getattr(self, 'prefix', ''), self.nprog)
        self.nprog += 1
        ins, outs = [], []
        for i in range(r.randint(1, 4)):
            ins.append(dict(n='i%d' % i, T=self.some_type(.5), const=r.random() < .3))
        for i in range(r.randint(1, 3)):
            outs.append(self.some_type(.3) if 'outadt' in f else self.leaf())
            if outs[-1]['k'] == 'sum' and not any(same(outs[-1], i['T']) for i in ins):
                outs[-1] = BIT
        regs, rsrc, isrc = [], [], []
        self.pending = []
        P = dict(ins=ins, outs=outs, regs=regs, subs=[], frozen=set())
        sc = Scope(P)
        sc.vars = {i['n']: i['T'] for i in ins}
        nreg = 0
        if 'creg' in f:
            for _ in range(r.choice([0, 1, 1, 2])):
                T = self.leaf() if ('magma' in f or r.random() < .8 or not self.adts) else self.regtype()
                en = r.random() < .5
                v = adt.rand_value(r, T)
                q = 'q%d' % nreg; nreg += 1
                regs.append(dict(n=q, v=v))
                if isleaf(T):
                    rsrc.append('%s_t = family.gen_register(%s, %s, has_enable=%s)' % (q, self.t.src(T), self.init_src(T, v), en))
                else:
                    self.use(T)
                    rsrc.append('%s_t = family.gen_register(family.get_adt_t(%s), %s, has_enable=%s)' % (q, self.t.name(T), self.init_src(T, v), en))
                isrc.append('self.%s = %s_t()' % (q, q))
                self.pending.append(('creg', q, (T, en)))
        if 'attr' in f:
            for _ in range(r.choice([0, 1, 1, 2])):
                T = self.leaf() if ('magma' in f or r.random() < .8 or not self.adts) else self.regtype()
                v = adt.rand_value(r, T)
                q = 'a%d' % nreg; nreg += 1
                regs.append(dict(n=q, v=v))
                if 'plain' in f and r.random() < .3:
                    isrc.append('self.%s = %s' % (q, self.const_src(T, v)))
                else:
                    t = self.t.src(T) if isleaf(T) else 'family.get_adt_t(%s)' % self.use(T)
                    rsrc.append('%s_t = family.gen_attr_register(%s, %s)' % (q, t, self.init_src(T, v)))
                    isrc.append('self.%s = %s_t()' % (q, q))
                sc.attrs[q] = T
        k = 0
        for nm, Q in subs:
            rsrc.append('%s_t = %s_fc(family)' % (nm, nm))
            for _ in range(r.choice([1, 1, 2])):
                q = 's%d' % k; k += 1
                P['subs'].append(dict(n=q, P=public(Q)))
                isrc.append('self.%s = %s_t()' % (q, nm))
                self.pending.append(('csub', q, Q))
        js, ls, done = self.block(sc, r.randint(2, self.size), 2, True, outs, 4)
        if 'magma' in f:
            # hardware registers need a driver; calls are unconditional
            if self.pending and (done or self.early):
                raise Retry()
            unset = [x for x in sc.attrs if 'self.%s = ' % x not in '\n'.join(ls)]
            if unset and (done or self.early):
                raise Retry()
            for x in unset:
                j, s = self.expr(sc.attrs[x], sc, 1)
                js.append(dict(s='set', x=x, e=j)); ls.append('    ' * 4 + 'self.%s = %s' % (x, s))
        if not done:
            if not self.early:
                while self.pending:
                    self.call(sc, js, lambda s: ls.append('    ' * 4 + s))
            j, s = self.ret(sc, outs)
            js.append(dict(s='ret', a=j)); ls.append('    ' * 4 + s)
        P['body'] = js
        P['attrs'] = dict(sc.attrs)
        P['uncalled'] = len(self.pending)
        tc = 'magma' not in f and r.random() < .3 and all(isleaf(d) for d in outs)
        named = r.random() < .5
        self.emit(name, ins, outs, rsrc, isrc, ls, typecheck=tc, named=named)
        P['name'] = name
        return name, P

    def emit(self, name, ins, outs, rsrc, isrc, ls, typecheck=False, named=True):
        L = self.mod
        L.append('@family_closure')
        L.append('def %s_fc(family):' % name)
        for n in sorted(self.ctors):
            L.append('    %s_c = family.get_constructor(%s)' % (n, n))
        for i, s in enumerate(self.named or ()):
            L.append('    k%d = %s' % (i, s))
        for s in rsrc:
            L.append('    ' + s)
        L.append('    @family.assemble(locals(), globals())')
        L.append('    class %s(Peak%s):' % (name, ', typecheck=True' if typecheck else ''))
        if isrc:
            L.append('        def __init__(self):')
            for s in isrc:
                L.append('            ' + s)
            L.append('')
        if named:
            L.append('        @name_outputs(%s)' % ', '.join('o%d=%s' % (i, self.t.ann(d, self.rng)) for i, d in enumerate(outs)))
        par = ', '.join('%s: %s' % (i['n'], ('Const(%s)' if i['const'] else '%s') % self.t.ann(i['T'], self.rng)) for i in ins)
        ot = ', '.join(self.t.ann(d, self.rng) for d in outs)
        L.append('        def __call__(self, %s) -> %s:' % (par, ot if len(outs) == 1 else '(%s)' % ot))
        L.extend(ls)
        L.append('    return %s' % name)
        L.append('')

    def regtype(self):
        c = [d for d in self.adts if d['k'] == 'enum']
        return self.rng.choice(c) if c else self.leaf()

    def init_src(self, T, v):
        if T['k'] == 'enum':
            return '%s.m%d' % (self.t.name(T), v[0] - 1)
        x = v[0]
        if T.get('s') == 's' and x >= 1 << (T['w'] - 1):
            x -= 1 << T['w']
        return str(x)

    def source(self):
        return '\n'.join(['import hwtypes', 'from peak import Peak, family_closure, name_outputs, Const', 'k0 = k1 = k2 = k3 = i0 = 0', ''] + self.mod)


class Retry(Exception):
    pass


def root(j):
    while 'a' in j and j['a']:
        j = j['a'][0]
    return j.get('n')


def dedent1(l):
    return l[4:]


def public(P):
    return dict(ins=[dict(n=i['n'], T=i['T']) for i in P['ins']], regs=P['regs'], subs=P['subs'], body=P['body'])


_n = itertools.count()


def load(gen, dirname):
    """exec the generated module; returns its namespace"""
    name = 'vpprog_%d_%d' % (os.getpid(), next(_n))
    path = os.path.join(dirname, name + '.py')
    with open(path, 'w') as f:
        f.write(gen.source())
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.__dict__.update(gen.t.globals())
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


# -- presenting values to a family and reading them back ------------------------------
def present(types, d, v, fam, plain=False):
    b = types.built(d)
    if d['k'] == 'bit':
        return fam.Bit(bool(v[0]))
    if d['k'] == 'bv':
        c = {'s': fam.Signed, 'u': fam.Unsigned, '': fam.BitVector}[d.get('s', '')]
        return c[d['w']](v[0])
    x = adt.value(b, v)
    return x if plain else fam.get_adt_t(b.py)(x)


def observe(types, d, x):
    """real output -> flat value (concrete families)"""
    b = types.built(d)
    if d['k'] == 'bit':
        if not isinstance(x, hwtypes.AbstractBit):
            raise TypeError('not a bit: %r' % (x,))
        return [int(bool(x))]
    if d['k'] == 'bv':
        if x.size != d['w']:
            raise TypeError('width: %r' % (x,))
        return [x.as_uint()]
    if hasattr(x, '_value_') and type(x) is not b.py and not isinstance(x, b.py):
        x = Assembler(b.py).disassemble(BitVector[x._value_.size](x._value_.as_uint()))
    return adt.flat(b, x)


class Sym:
    """symbolic inputs and the substitution that evaluates terms over them"""
    def __init__(self, types, fam):
        self.types, self.fam = types, fam

    def var(self, d):
        """(value to pass, handle)"""
        fam = self.fam
        if d['k'] == 'bit':
            v = fam.Bit()
            return v, (d, v)
        if d['k'] == 'bv':
            v = {'s': fam.Signed, 'u': fam.Unsigned, '': fam.BitVector}[d.get('s', '')][d['w']]()
            return v, (d, v)
        b = self.types.built(d)
        w = Assembler(b.py).width
        v = fam.BitVector[w]()
        return fam.get_adt_t(b.py)(v), (d, v)

    def bind(self, sub, handle, flat):
        import pysmt.shortcuts as smt
        d, v = handle
        if d['k'] == 'bit':
            sub[v.value] = smt.Bool(bool(flat[0]))
        elif d['k'] == 'bv':
            sub[v.value] = smt.BV(flat[0], d['w'])
        else:
            b = self.types.built(d)
            sub[v.value] = smt.BV(int(Assembler(b.py).assemble(adt.value(b, flat))), v.size)

    def observe(self, d, x, sub):
        b = self.types.built(d)
        if isleaf(d):
            if d['k'] == 'bit' and not isinstance(x, self.fam.Bit):
                raise TypeError('not a symbolic bit: %r' % (x,))
            if d['k'] == 'bv' and not isinstance(x, self.fam.BitVector[d['w']]):
                raise TypeError('not a symbolic vector: %r' % (x,))
            c = x.value.substitute(sub).simplify()
            if not c.is_constant():
                raise ValueError('not determined by the inputs: %s' % c)
            return [int(c.constant_value())]
        if isinstance(x, b.py):
            return adt.flat(b, x)
        if not isinstance(x, self.fam.get_adt_t(b.py)):
            raise TypeError('unexpected output %r' % (x,))
        v = x._value_
        c = v.value.substitute(sub).simplify()
        if not c.is_constant():
            raise ValueError('not determined by the inputs: %s' % c)
        return adt.flat(b, Assembler(b.py).disassemble(BitVector[v.size](int(c.constant_value()))))
