"""Frame of a rule: obligations, findings, evidence."""
import os
import signal
import sys
import time

from oesa.values import *  # noqa
from oesa.heap import State
from oesa import scen, seg
from oesa.interp import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.findings = []       # (key, text)
        self.keys = set()
        self.obligations = 0
        self.held = 0
        self.counts = {}
        self.samples = []
        self.interps = []
        self.undecided = []      # parts that could not be analysed, with the reason
        self.start = time.time()
        self.limit = float(os.environ.get('OESA_LIMIT', '650'))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def check(self, ok, rule, construct, text, detail=()):
        """one obligation"""
        self.obligations += 1
        self.count('rule ' + rule)
        if ok:
            self.held += 1
            return True
        self.report(rule, construct, text, detail)
        return False

    def report(self, rule, construct, text, detail=()):
        key = '%s|%s' % (rule, construct)
        if key in self.keys:
            return
        self.keys.add(key)
        self.findings.append((key, rule, construct, text, list(detail)))

    def raised(self, x):
        """an evaluation that must have a result ends with an exception"""
        if not x.exc or any(e[0] in ('NotModelled', 'RecursionError') for e in x.exc):
            raise AnalysisError(str(x))
        e = x.exc[0]
        self.report('result', '%s in %s' % (e[0], e[2]), str(x))

    def alarm(self, more=0):
        """end the analysis of this process in time"""
        def over(*_):
            raise AnalysisError('not finished after %d s' % (time.time() - self.start))
        signal.signal(signal.SIGALRM, over)
        signal.setitimer(signal.ITIMER_REAL, max(1, self.start + self.limit + more - time.time()))

    def one_job(self, fn, i, job, w):
        """in a process of its own"""
        import pickle
        c = Ctx(self.pid, self.tier)
        err = None
        self.alarm()
        try:
            fn(c, *job)
        except Raised as x:
            try:
                c.raised(x)
            except AnalysisError as y:
                err = str(y)
        except AnalysisError as x:
            err = str(x)
        except BaseException as x:   # noqa
            import traceback
            traceback.print_exc()
            err = 'internal error: %r' % x
        signal.setitimer(signal.ITIMER_REAL, 0)
        seen = set()
        for z in c.interps:
            seen |= z.functions_seen
        with os.fdopen(w, 'wb') as o:
            pickle.dump((i, c.findings, c.obligations, c.held, c.counts, c.samples, sum(z.steps for z in c.interps), seen, err), o)
        sys.stdout.flush()
        os._exit(0)

    def spread(self, fn, jobs):
        """fn(ctx, *job) for all jobs, in several processes; the findings come in the order of the jobs"""
        import pickle
        jobs = list(jobs)
        n = min(len(jobs), os.cpu_count() or 1, int(os.environ.get('OESA_JOBS', '8')))
        if n < 2:
            for j in jobs:
                try:
                    fn(self, *j)
                except Raised as x:
                    self.raised(x)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        import selectors
        sel = selectors.DefaultSelector()
        todo = list(range(len(jobs)))
        res, lost, live = [], 0, 0
        while todo or live:
            while todo and live < n:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.one_job(fn, i, jobs[i], w)
                os.close(w)
                sel.register(r, selectors.EVENT_READ, (pid, []))
                live += 1
            for key, _ in sel.select():
                pid, got = key.data
                data = os.read(key.fd, 1 << 20)
                if data:
                    got.append(data)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                live -= 1
                try:
                    res.append(pickle.loads(b''.join(got)))
                except Exception:   # noqa
                    lost += 1
        if lost:
            raise AnalysisError('%d analysis processes ended early' % lost)
        errors = []
        for i, findings, ob, held, counts, samples, steps, seen, err in sorted(res, key=lambda x: x[0]):
            for f in findings:
                if f[0] not in self.keys:
                    self.keys.add(f[0])
                    self.findings.append(f)
            self.obligations += ob
            self.held += held
            for k, v in counts.items():
                self.count(k, v)
            for t in samples:
                self.sample(t)
            self.interps.append(Done(steps, seen))
            if err:
                errors.append(err)
        if errors:
            # the other parts are decided nevertheless
            if 2 * len(errors) > len(jobs):
                raise AnalysisError(errors[0])
            self.undecided += errors

    def driver(self, **opts):
        D = Run(self, **opts)
        self.interps.append(D.I)
        return D


class Done:
    """what remains of an interpreter of another process"""

    def __init__(self, steps, seen):
        self.steps = steps
        self.functions_seen = seen


class Run(scen.Driver):
    """a driver with helpers for exact scenarios"""

    def __init__(self, ctx, **opts):
        opts.setdefault('faults', False)
        opts.setdefault('db', {})
        opts.setdefault('steps', 30000000)
        opts.setdefault('recursion', 14)
        opts.setdefault('unroll', 2000)
        super().__init__(**opts)
        self.ctx = ctx
        self.I.forks = []
        self.I.want_exc = lambda n: True

    # -- values

    def text(self, *parts):
        if len(parts) == 1 and isinstance(parts[0], (list, tuple)) and not (parts[0] and parts[0][0] == 'tok'):
            parts = parts[0]
        return frozenset([mkcat(list(parts))])

    def files(self, files):
        fs = {}
        for p, ls in files.items():
            fs[self.path(p)] = ls if ls is None or ls == 'unreadable' else [self.text(*x) for l in ls for x in lines([l] if isinstance(l, str) else l)]
        self.I.fs = fs

    def path(self, p):
        """key of a file in the model file system"""
        if isinstance(p, str):
            return p
        return seg.enc(ex(mkcat(list(p))))

    script = None

    def explore(self, body, limit=48):
        """run body once for every combination of outcomes"""
        script = []
        for n in range(limit):
            self.script, self.sizes = script, []
            try:
                body()
            finally:
                sizes, self.script = self.sizes, None
            taken = [script[i] if i < len(script) else 0 for i in range(len(sizes))]
            while taken and taken[-1] + 1 >= sizes[len(taken) - 1][0]:
                taken.pop()
            if not taken:
                return
            taken[-1] += 1
            script = taken
        raise AnalysisError('too many outcomes for an exact input, decided at %s' % '; '.join(f for _, fs in sizes for f in fs)[:600])

    def single(self, rs, what):
        """the only result of a deterministic evaluation"""
        if len(rs) == 1:
            del self.I.forks[:]
            return rs[0]
        exc = self.exceptions()
        if not rs:
            raise Raised(what, exc)
        if self.script is not None:
            i = self.script[len(self.sizes)] if len(self.sizes) < len(self.script) else 0
            self.sizes.append((len(rs), list(self.I.forks[:4])))
            del self.I.forks[:]
            return rs[i]
        raise AnalysisError('%s: %d outcomes for an exact input, decided at %s' % (what, len(rs), '; '.join(self.I.forks[:6])))

    def exceptions(self):
        out = [(e[1], e[4], e[5], e[6]) for e in self.I.exc[0]]
        self.raised_states = [e[0] for e in self.I.exc[0]]
        self.I.exc[0] = []
        return out

    def do(self, st, v, name, *args, **kw):
        """deterministic method call; returns (state, value)"""
        for i, a in enumerate(kw.values()):
            if isinstance(a, frozenset):
                self.keep(st, '$kw%d' % i, a)
        return self.single(self.meth(st, v, name, *args, **kw), name)

    def stash(self, st=None, **kw):
        st = st or self.state()
        st, s = self.single(self.call(st, self.cls('Stash'), **kw), 'Stash()')
        self.keep(st, '$s', s)
        return st, s

    def func(self, st, f, *args, **kw):
        return self.single(self.call(st, f, *args, **kw), 'call')

    def get(self, st, v, name):
        return self.single(self.attr(st, v, name), name)

    def lst_of(self, st, v):
        """the elements of a list or result list"""
        o = st.obj(one(v))
        if o.kind == 'inst':
            o = st.obj(one(o.d['data']))
        return list(o.seq)

    def words(self, pattern=r'[A-Za-z0-9_.-]+'):
        """the words in the string constants of the analysed source: those it may treat specially"""
        return literals(pattern)

    # -- results

    def py(self, st, v, depth=0):
        if len(v) != 1:
            return ('join',) + tuple(sorted((repr(self.py(st, frozenset([a]), depth)) for a in v)))
        a = one(v)
        o = st.obj(a)
        if o is None:
            return a[2] if a[0] == 'c' else Txt(a[2]) if a[0] == 't' else a
        if o.kind in ('list', 'tuple', 'iter') or o.kind == 'set':
            seq = o.seq
            if o.kind == 'iter':
                seq = self.I.iter_source(st, a[1])
            if seq is None:
                return ('any of', self.py(st, o.elem, depth + 1) if o.elem else None)
            r = [self.py(st, x, depth + 1) for x in seq]
            if o.kind == 'set':
                return frozenset(hashable(x) for x in r)
            return tuple(r) if o.kind == 'tuple' else r
        if o.kind == 'dict':
            d = {hashable(self.py(st, frozenset([k]), depth + 1)): self.py(st, x, depth + 1) for k, (x, m) in o.ent.items()}
            if o.rest:
                d['*'] = '?'
            return d
        if o.kind == 'inst':
            if self.I.clsname(st, o.cls).split('.')[-1] == 'StashList' and 'data' in o.d:
                return self.py(st, o.d['data'], depth)
            return Ins(self.I.clsname(st, o.cls), a[1])
        return a


def literals(pattern=r'[A-Za-z0-9_.-]+'):
    """words of the string constants in the source, apart from documentation"""
    import ast
    import re
    out = set()
    top = os.path.join(scen.REPO, scen.PKG)
    for f in sorted(os.listdir(top)):
        if not f.endswith('.py'):
            continue
        with open(os.path.join(top, f), encoding='utf-8') as i:
            t = ast.parse(i.read())
        doc = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc:
                out.update(re.findall(r'[A-Za-z0-9_][A-Za-z0-9_.-]*', n.value))
                out.update(re.findall(r'[A-Za-z0-9]+', n.value))
                if len(n.value) < 30:
                    out.add(n.value)
    return sorted(w for w in out if re.fullmatch(pattern, w))


def lines(ps):
    """a text cut behind its line breaks"""
    out = [[]]
    for p in ps:
        if isinstance(p, str):
            for i, x in enumerate(p.split('\n')):
                if i:
                    out[-1].append('\n')
                    out.append([])
                if x:
                    out[-1].append(x)
        else:
            out[-1].append(p)
    return [x for x in out if x]


def hashable(x):
    if isinstance(x, list):
        return tuple(hashable(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((repr(k), repr(v)) for k, v in x.items()))
    return x


class Raised(AnalysisError):
    """the evaluated call raises"""

    def __init__(self, what, exc):
        self.exc = exc
        super().__init__('%s raises %s' % (what, '; '.join('%s at %s (%s)' % (e[0], e[2], e[1]) for e in exc[:3]) or 'nothing known'))


class Txt:
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Txt) and o.e == self.e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return '`%s`' % show(self.e)

    def __lt__(self, o):
        return repr(self) < repr(o)


class Ins:
    def __init__(self, cls, oid):
        self.cls = cls
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ins) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return '<%s #%d>' % (self.cls, self.oid)


def txt(*parts):
    """expected text in the form py() returns"""
    a = mkcat(list(parts))
    return a[2] if a[0] == 'c' else Txt(a[2])


def clean(name):
    return tok(name, 'clean')
