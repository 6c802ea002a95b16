"""Abstract heap, states and their joins."""
from oesa.values import *  # noqa

SLOTS = ('kind', 'site', 'cls', 'd', 'seq', 'elem', 'minlen', 'ent', 'rest', 'must', 'multi', 'pre', 'unord', 'ver', 'x')


class Obj:
    """heap object

    kind   frame|func|cached|class|inst|list|tuple|set|dict|iter|file|prop|static|classm|module|super|partial
    d      named slots (attributes, locals)
    seq    exact contents of a sequence (tuple of values) or None
    elem   values a sequence with unknown length may contain
    ent    dict entries: key atom -> (value, must)
    rest   (keys, values) of the other entries of a dict, or None
    must   atoms certainly contained
    multi  stands for several objects
    pre    existed before the analysed entry point was called
    unord  order of the contents depends on hashing
    """
    __slots__ = SLOTS
    _ver = [0]

    def __init__(self, kind, site=None, **kw):
        self.kind = kind
        self.site = site
        self.cls = None
        self.d = {}
        self.seq = None
        self.elem = frozenset()
        self.minlen = 0
        self.ent = {}
        self.rest = None
        self.must = frozenset()
        self.multi = False
        self.pre = False
        self.unord = False
        self.ver = 0
        self.x = None
        for k, v in kw.items():
            setattr(self, k, v)

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.site = self.site
        o.cls = self.cls
        o.d = self.d.copy()
        o.seq = self.seq
        o.elem = self.elem
        o.minlen = self.minlen
        o.ent = self.ent.copy()
        o.rest = self.rest
        o.must = self.must
        o.multi = self.multi
        o.pre = self.pre
        o.unord = self.unord
        o.ver = self.ver
        o.x = self.x
        return o

    def bump(self):
        Obj._ver[0] += 1
        self.ver = Obj._ver[0]

    def contents(self):
        if self.seq is not None:
            r = frozenset()
            for v in self.seq:
                r |= v
            return r
        return self.elem

    def same(self, o):
        for s in SLOTS:
            if s == 'ver':
                continue
            if getattr(self, s) != getattr(o, s):
                return False
        return True


class State:
    __slots__ = ('base', 'heap', 'facts', 'frames', 'mon', 'trace', 'own')

    def __init__(self, base, heap=None, facts=None, frames=(), mon=None, trace=None):
        self.base = base
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.frames = frames
        self.mon = mon if mon is not None else {}
        self.trace = trace
        self.own = None      # an object no other state refers to

    def wf(self, oid):
        """writable frame; cheap when written again"""
        o = self.heap.get(oid)
        if o is None or o is not self.own:
            o = self.w(oid)
            self.own = o
        else:
            o.bump()
        return o

    def copy(self):
        self.own = None
        return State(self.base, dict(self.heap), dict(self.facts), self.frames, dict(self.mon), self.trace)

    def get(self, oid):
        o = self.heap.get(oid)
        return o if o is not None else self.base.get(oid)

    def w(self, oid):
        """writable copy of an object"""
        o = self.get(oid).copy()
        o.bump()
        self.heap[oid] = o
        return o

    def obj(self, a):
        return self.get(a[1]) if a[0] == 'r' else None

    def note(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def ren_atom(a, sub):
    if a[0] == 'r':
        return ('r', sub.get(a[1], a[1]))
    if a[0] == 'bm':
        return ('bm', ren_atom(a[1], sub), sub.get(a[2], a[2]))
    if a[0] == 'b':
        return ('b', ren_atom(a[1], sub), a[2])
    return a


def ren(v, sub):
    for a in v:
        if a[0] in ('r', 'bm', 'b'):
            return frozenset(ren_atom(a, sub) for a in v)
    return v


MAXATOMS = 24


def widen(old, new, hard):
    """upper bound of two values; hard forces convergence"""
    u = old | new
    if u == old:
        return old
    if not hard and len(u) <= MAXATOMS:
        return u
    out = set()
    by = {}
    for a in u:
        if a[0] in ('t', 'c') and a[1] in ('str', 'int', 'any', 'float'):
            by.setdefault(a[1], []).append(a)
        elif a[0] == 'm':
            by.setdefault(('m', a[1], a[3]), []).append(a)
        else:
            out.add(a)
    for ty, atoms in by.items():
        if isinstance(ty, tuple):
            if len(atoms) == 1:
                out.update(atoms)
            else:
                lv = set()
                for a in atoms:
                    leaves(a[2], lv)
                out.add(('m', ty[1], ('wide', frozenset(lv)), ty[2]))
            continue
        if len(atoms) == 1 or (len(atoms) <= 8 and all(a[0] == 'c' for a in atoms) and ty == 'str') or \
                (ty == 'str' and len(atoms) <= 3 and all(a in old for a in atoms)):
            out.update(atoms)
            continue
        lv = set()
        for a in atoms:
            leaves(ex(a), lv)
        if len(lv) > 60:
            lv = sorted(lv, key=repr)[:60]
        out.add(T(ty, ('wide', frozenset(lv))))
    return frozenset(out)


def join_obj(objs, sub, hard, rn):
    """join a list of objects (first one is the oldest)"""
    a = objs[0].copy()
    if a.kind == 'frame':
        names = a.must
        a.must = frozenset()
        r = join_obj1([a] + [strip_must(o) for o in objs[1:]], sub, hard, rn)
        r.must = names
        return r
    return join_obj1(objs, sub, hard, rn)


def strip_must(o):
    o = o.copy()
    o.must = frozenset()
    return o


def join_obj1(objs, sub, hard, rn):
    a = objs[0].copy()
    a.d = {k: rn(v) for k, v in a.d.items()}
    a.seq = tuple(rn(v) for v in a.seq) if a.seq is not None else None
    a.elem = rn(a.elem)
    a.must = rn(a.must)
    a.ent = {ren_atom(k, sub): (rn(v), m) for k, (v, m) in a.ent.items()}
    a.rest = (rn(a.rest[0]), rn(a.rest[1])) if a.rest else None
    for b in objs[1:]:
        bd = {k: rn(v) for k, v in b.d.items()}
        for k in set(a.d) | set(bd):
            va, vb = a.d.get(k), bd.get(k)
            if va is None:
                a.d[k] = vb | (frozenset([UNBOUND]))
            elif vb is None:
                a.d[k] = va | (frozenset([UNBOUND]))
            else:
                a.d[k] = widen(va, vb, hard)
        bseq = tuple(rn(v) for v in b.seq) if b.seq is not None else None
        must_a, must_b = musts(a), frozenset(ren_atom(x, sub) for x in musts(b))
        if a.seq is not None and bseq is not None and len(a.seq) == len(bseq):
            a.seq = tuple(widen(x, y, hard) for x, y in zip(a.seq, bseq))
        else:
            ca, cb = a.contents(), frozenset()
            if bseq is not None:
                for v in bseq:
                    cb |= v
                lb = len(bseq)
            else:
                cb, lb = rn(b.elem), b.minlen
            la = len(a.seq) if a.seq is not None else a.minlen
            a.seq = None
            a.elem = widen(ca, cb, hard)
            a.minlen = min(la, lb)
            if hard and a.minlen > 3:
                a.minlen = 3
        a.must = must_a & must_b
        if a.seq is not None:
            a.must = frozenset()
        bent = {ren_atom(k, sub): (rn(v), m) for k, (v, m) in b.ent.items()}
        ent = {}
        for k in list(a.ent) + [k for k in bent if k not in a.ent]:
            x, y = a.ent.get(k), bent.get(k)
            if x and y:
                ent[k] = (widen(x[0], y[0], hard), x[1] and y[1])
            else:
                v = (x or y)[0]
                # the other side may know the key through its rest
                o = b.rest if x else a.rest
                if o:
                    v = v | (rn(o[1]) if x else o[1])
                ent[k] = (v, False)
        if len(ent) > 40 or (hard and len(ent) > len(a.ent)):
            ks, vs = (a.rest or (frozenset(), frozenset()))
            keep = {}
            for k, (v, m) in ent.items():
                if k in a.ent:
                    keep[k] = (v, m)
                else:
                    ks = widen(ks, frozenset([k]), hard)
                    vs = widen(vs, v, hard)
            a.rest = (ks, vs)
            ent = keep
        a.ent = ent
        if b.rest:
            br = (rn(b.rest[0]), rn(b.rest[1]))
            a.rest = br if not a.rest else (widen(a.rest[0], br[0], hard), widen(a.rest[1], br[1], hard))
        a.multi = a.multi or b.multi
        a.pre = a.pre or b.pre
        a.unord = a.unord or b.unord
        if a.x != b.x:
            if isinstance(a.x, dict) and isinstance(b.x, dict):
                a.x = {k: v for k, v in a.x.items() if b.x.get(k) == v}
            elif a.kind not in ('func', 'class', 'module'):
                a.x = None
    return a


def musts(o):
    if o.seq is not None:
        r = set()
        for v in o.seq:
            a = one(v)
            if a is not None:
                r.add(a)
        return frozenset(r)
    return o.must


class Joiner:
    """joins states; objects allocated after `mark` at the same site that end
    up in the same slot are merged into one summary object"""

    def __init__(self, mon_join=None):
        self.mon_join = mon_join or {}

    def join2(self, A, B, mark, hard=False, extra=()):
        """returns state, changed (A differs from the result), extra values

        extra: list of (va, vb)"""
        parent = {}

        def find(o):
            r = o
            while r in parent:
                r = parent[r]
            return r

        oids = set(A.heap) | set(B.heap)
        pairs = []   # objects to be unified slot by slot
        done = set()

        def objs_of(o):
            r = []
            x, y = A.get(o), B.get(o)
            if x is not None:
                r.append(x)
            if y is not None and y is not x:
                r.append(y)
            return r

        members = {}

        def mem(o):
            return members.get(o) or [o]

        def union(o1, o2):
            r1, r2 = find(o1), find(o2)
            if r1 == r2:
                return
            if r2 < r1:
                r1, r2 = r2, r1
            parent[r2] = r1
            members[r1] = mem(r1) + mem(r2)
            work.append(r1)

        def site_of(o):
            x = A.get(o) or B.get(o)
            return x

        def unify(v):
            by = {}
            for a in v:
                b = a
                if b[0] == 'r':
                    o = find(b[1])
                    x = site_of(o)
                    if x is None or x.kind in ('class', 'func', 'module', 'frame', 'prop', 'cached', 'static', 'classm'):
                        continue
                    key = (x.kind, x.site, x.cls)
                    by.setdefault(key, set()).add(o)
            for key, os_ in by.items():
                if len(os_) < 2:
                    continue
                new = [o for o in os_ if o >= mark]
                if not new:
                    continue
                old = sorted(os_)
                for n in new:
                    if n != old[0]:
                        union(old[0], n)

        def slots(objs):
            names = set()
            for o in objs:
                names.update(o.d)
            for n in names:
                v = frozenset()
                for o in objs:
                    v |= o.d.get(n, frozenset())
                yield v
            lens = {len(o.seq) if o.seq is not None else -1 for o in objs}
            if len(lens) == 1 and -1 not in lens:
                for i in range(lens.pop()):
                    v = frozenset()
                    for o in objs:
                        v |= o.seq[i]
                    yield v
            else:
                v = frozenset()
                for o in objs:
                    v |= o.contents()
                yield v
            keys = set()
            for o in objs:
                keys.update(o.ent)
            for k in keys:
                v = frozenset()
                for o in objs:
                    e = o.ent.get(k)
                    if e:
                        v |= e[0]
                yield v
            v = frozenset()
            for o in objs:
                if o.rest:
                    v |= o.rest[1]
            yield v

        work = []
        for o in oids:
            x, y = A.get(o), B.get(o)
            if x is not None and y is not None and x is not y:
                work.append(o)
        for va, vb in extra:
            unify(va | vb)
        while work:
            o = find(work.pop())
            objs = []
            for m in mem(o):
                objs += objs_of(m)
            sig = (o, len(mem(o)))
            if sig in done:
                continue
            done.add(sig)
            for v in slots(objs):
                unify(v)
        sub = {}
        for o in list(parent):
            sub[o] = find(o)
        rn = (lambda v: ren(v, sub)) if sub else (lambda v: v)
        heap = {}
        changed = False
        touched = set()
        groups = {}
        for o in oids | set(members):
            groups.setdefault(find(o), set()).add(o)
        for r, os_ in groups.items():
            objs = []
            srcs = []
            for o in sorted(os_ | set(mem(r))):
                x, y = A.get(o), B.get(o)
                if x is not None:
                    objs.append(x)
                    srcs.append('a')
                if y is not None and y is not x:
                    objs.append(y)
                    srcs.append('b')
            if not objs:
                continue
            if len(objs) == 1 and not sub:
                heap[r] = objs[0]
                continue
            j = join_obj(objs, sub, hard, rn)
            if len(mem(r)) > 1:
                if not j.multi:
                    j.multi = True
            a0 = A.get(r)
            if a0 is not None:
                if j.same(a0):
                    j = a0
                else:
                    changed = True
                    touched.add(r)
                    j.bump()
            heap[r] = j
        facts = {}
        for k, v in A.facts.items():
            if B.facts.get(k) == v:
                facts[k] = v
        if len(facts) != len(A.facts):
            changed = True
        mon = {}
        for k in set(A.mon) | set(B.mon):
            x, y = A.mon.get(k), B.mon.get(k)
            if x == y:
                mon[k] = x
            else:
                f = self.mon_join.get(k)
                if f is None:
                    if k.startswith('must'):
                        f = lambda p, q: (p or frozenset()) & (q or frozenset())
                    else:
                        f = lambda p, q: (p or frozenset()) | (q or frozenset())
                z = f(x, y)
                mon[k] = z
                if z != x:
                    changed = True
        st = State(A.base, heap, facts, A.frames, mon, A.trace if A.trace is B.trace else (None if A.trace is None or B.trace is None else common(A.trace, B.trace)))
        return st, changed, [rn(widen(va, vb, hard)) for va, vb in extra]


def common(a, b):
    """longest common prefix of two traces"""
    seen = set()
    t = a
    while t is not None:
        seen.add(id(t))
        t = t[0]
    t = b
    while t is not None:
        if id(t) in seen:
            return t
        t = t[0]
    return None
