"""Shared machinery of the checks: running TLC, validating traces, reporting.

A check is a Python module under /verif/checks with a function run(ck).  It drives the
real code (imported from /repo), records what it observed as ndjson events, and lets TLC
judge them against a TLA+ specification under /verif/spec.  TLC is the only judge: a
verdict is a FAIL line printed by a specification module.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def _tlc_cmd():
    exe = shutil.which('tlc')
    if exe:
        return [exe]
    raise MachineryError('tlc not found')


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.transitions = self.states = 0
        if m:
            self.transitions = int(m[-1][0].replace(',', ''))
            self.states = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                self.transitions = self.states = int(m[-1].replace(',', ''))

    def printed(self, tag):
        """JSON values printed by PrintT("tag " \\o ToJson(x))."""
        res = []
        pre = '"%s ' % tag
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith(pre) and line.endswith('"'):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def consumed(self, module, n):
        """Whether the trace of n events was judged to its end.  A recorded event over which the specification
        has no value at all (an argument of another shape than the definition's, ...) is not an event of it:
        a violation, unless the run died of something else."""
        done = self.printed('DONE')
        if done and done[-1].get('n') == n:
            return True
        odd = any(x in self.out for x in ('Attempted to', 'TLC encountered', 'The exception was a tlc2.tool.EvalException',
                                          'java.lang.RuntimeException', 'CHOOSE'))
        if odd and not any(x in self.out for x in ('OutOfMemory', 'StackOverflow', 'Parsing or semantic analysis failed', '***Parse Error***', 'GC overhead')):
            return False
        raise MachineryError('TLC did not consume the trace (%s, %d events):\n%s' % (module, n, self.out[-3500:]))

    @property
    def ok(self):
        return self.rc == 0 and 'Error:' not in self.out


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=800, heap='3g', consts=None, cwd=None,
        stack='64m'):
    """Run TLC on spec/<module>.tla; cfg text or name of a cfg file in spec/."""
    tmp = tempfile.mkdtemp(prefix='vptlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cfgname = module + '.cfg'
        if cfg is not None:
            if '\n' in cfg or ' ' in cfg:
                cfgname = 'Run_%s.cfg' % module
                with open(os.path.join(tmp, cfgname), 'w') as f:
                    f.write(cfg)
            else:
                cfgname = cfg
        e = dict(os.environ)
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss%s -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=4' % (heap, stack)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = _tlc_cmd() + ['-workers', str(workers), '-metadir', os.path.join(tmp, 'md'),
               '-config', cfgname, '-noGenerateSpecTE'] + list(args) + [module + '.tla']
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as ex:
            raise MachineryError('TLC timed out on %s' % module)
        return TLCResult(p.returncode, p.stdout, time.time() - t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.viol = []          # (key, record)
        self.known = self._load_known()
        self.seen_known = {}
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _load_known(self):
        try:
            with open(KNOWN) as f:
                return [k for k in json.load(f).get('findings', []) if k['property'] == self.prop]
        except FileNotFoundError:
            return []

    def elapsed(self):
        return time.time() - self.t0

    # -- TLC -----------------------------------------------------------------
    def count(self, r):
        self.cov['states'] += r.states
        self.cov['transitions'] += r.transitions

    def model_check(self, module, cfg=None, **kw):
        """Check the specification itself (its own invariants); must pass."""
        r = tlc(module, cfg, **kw)
        self.count(r)
        if not r.ok:
            raise MachineryError('specification %s/%s does not satisfy its own properties:\n%s' % (module, cfg, r.out[-4000:]))
        self.notes.setdefault('spec_runs', []).append(
            dict(module=module, config=cfg if cfg and '\n' not in cfg else module + '.cfg', states=r.states, transitions=r.transitions, wall_s=round(r.wall, 2)))
        return r

    def generate(self, module, cfg=None, tag='CASE', **kw):
        r = tlc(module, cfg, **kw)
        self.count(r)
        if not r.ok:
            raise MachineryError('generator %s failed:\n%s' % (module, r.out[-4000:]))
        return r.printed(tag)

    def validate(self, module, events, cfg=None, label='trace', chunk=None, jobs=None, classify=None, **kw):
        """Judge recorded events with TLC. Returns list of failure records."""
        if not events:
            raise MachineryError('empty trace for %s' % module)
        from concurrent.futures import ThreadPoolExecutor
        parts = [events]
        if chunk and len(events) > chunk:
            parts = [events[i:i + chunk] for i in range(0, len(events), chunk)]
        jobs = jobs or min(6, len(parts))

        def one(part):
            fd, path = tempfile.mkstemp(suffix='.ndjson', dir=self.tmp)
            with os.fdopen(fd, 'w') as f:
                for e in part:
                    f.write(json.dumps(e, separators=(',', ':')) + '\n')
            r = tlc(module, cfg, env=dict(kw.get('env') or {}, TRACE=path),
                    **{k: v for k, v in kw.items() if k != 'env'})
            return part, path, r
        fails = []
        with ThreadPoolExecutor(jobs) as ex:
            for part, path, r in ex.map(one, parts):
                self.count(r)
                if not r.consumed(module, len(part)):
                    fails.append((dict(clause='no-event', detail=r.out[-2500:]), None))
                for f in r.printed('FAIL'):
                    i = f.get('i')
                    ev = part[i - 1] if isinstance(i, int) and 1 <= i <= len(part) else None
                    fails.append((f, ev))
        self.cov['traces_validated_against_impl'] += len(events)
        if len(self.cov['samples']) < 4:
            s = json.dumps(events[0])
            self.cov['samples'].append(dict(kind=label, event=events[0] if len(s) < 4000 else s[:4000]))
        for f, ev in fails:
            key = classify(f, ev) if classify else None
            self.fail(key or '%s:%s' % (label, f.get('clause')), dict(verdict=f, event=ev, spec=module))
        return fails

    def judge_trace(self, module, events, cfg=None, **kw):
        """Judge one trace; returns [(failure, event)] without reporting them."""
        fd, path = tempfile.mkstemp(suffix='.ndjson', dir=self.tmp)
        with os.fdopen(fd, 'w') as f:
            for e in events:
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
        r = tlc(module, cfg, env=dict(kw.get('env') or {}, TRACE=path), **{k: v for k, v in kw.items() if k != 'env'})
        bad = [] if r.consumed(module, len(events)) else [(dict(i=1, clause='no-event', detail=r.out[-2500:]), None)]
        self.count(r)
        self.cov['traces_validated_against_impl'] += len(events)
        return [(f, events[f['i'] - 1]) for f in r.printed('FAIL')] + bad

    def validate_parts(self, module, parts, k=6, label='trace', classify=None, info=None, **kw):
        """Judge independent traces (lists of events), several per TLC run."""
        from concurrent.futures import ThreadPoolExecutor
        parts = [p for p in parts if p]
        if not parts:
            raise MachineryError('no trace for %s' % module)
        bins = [[] for _ in range(min(k, len(parts)))]
        for j, p in sorted(enumerate(parts), key=lambda x: -len(x[1])):
            min(bins, key=len).extend((e, j) for e in p)
        with ThreadPoolExecutor(len(bins)) as ex:
            for b, fs in zip(bins, ex.map(lambda b: self.judge_trace(module, [e for e, _ in b], **kw), bins)):
                for f, ev in fs:
                    j = b[f['i'] - 1][1]
                    key = classify(f, ev) if classify else '%s:%s' % (label, f['clause'])
                    self.fail(key, dict(verdict=f, event=ev, spec=module, trace=parts[j][:60] if len(json.dumps(parts[j])) < 20000 else [], info=info[j] if info else None))
        self.sample(label, parts[0][:4])

    def sample(self, kind, what):
        if len(self.cov['samples']) < 4:
            s = json.dumps(what, default=str)
            self.cov['samples'].append(dict(kind=kind, event=what if len(s) < 4000 else s[:4000]))

    # -- results ---------------------------------------------------------------
    def fail(self, key, record):
        for k in self.known:
            if k['key'] == key:
                self.seen_known[key] = k
                return
        self.viol.append((key, record))

    def crash(self, label, exc, tb=None):
        self.fail('crash:' + label, dict(exception=repr(exc)[:500], traceback=(tb or traceback.format_exc())[-3000:]))

    def finish(self, level='model_checking', extra=None):
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        self.cov.update(self.notes)
        if extra:
            self.cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, rec in self.seen_known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, rec['what']))
        rp = os.path.join(EVID, '%s.violation.json' % self.prop)
        if not self.viol and os.path.exists(rp):
            os.unlink(rp)
        if self.viol:
            rp = os.path.join(EVID, '%s.violation.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               violations=[dict(key=k, **r) for k, r in self.viol[:20]], total=len(self.viol)),
                          f, indent=1, default=str)
            for k, r in self.viol[:5]:
                print('  violation %s: %s' % (k, json.dumps(r, default=str)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.prop, self.cov['states'], self.cov['transitions'],
            self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0


def from_repo(tb):
    """Does a traceback pass through the code under check?"""
    import traceback as T
    return any(f.filename.startswith(REPO + '/') for f in T.extract_tb(tb))


def outcome(f, *a, **k):
    """('ok', value) or ('exc', TypeName, message)."""
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])
