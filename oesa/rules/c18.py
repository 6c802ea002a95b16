"""C18: quiet collections print nothing"""
import ast
import os

from oesa.world import *  # noqa

RULE = ('silent: no operation on a collection created as quiet writes to standard output, successful or failing; unreached: output operations in the source that no interpreted evaluation reaches are guarded')
EXPLAIN = ('The library is interpreted abstractly with quiet collections (given by keyword and by position, with each combination of the other options) on a layer with every kind of statement: adding, linking, finalizing, '
           'all queries, all attributes, changes of the collection, the constants; and again with every file operation and every match failing at each place in turn. Every call that writes to standard output is a finding. '
           'Output operations in the syntax trees that were not reached even without quiet are examined there.')
EXPECT = {'rule silent': 300}
OUT = {'sys.stdout', 'sys.__stdout__', 'sys.stdout.buffer', 'sys.__stdout__.buffer'}
WRITERS = ('write', 'writelines', 'flush', 'print')


class Watch:
    def __init__(self):
        self.out = []
        self.reached = set()

    def on_print(self, I, st, args, kw, node):
        self.reached.add(id(node))
        to = kw.get('file')
        if to is None or any(self.std(a) for a in to) or one(to) == C(None):
            self.out.append(('print', I.where(node)))

    def std(self, a):
        return a[0] == 'x' and a[1] in OUT

    def on_ext(self, I, st, dotted, args, kw, node):
        self.reached.add(id(node))
        if any(dotted.startswith(o + '.') for o in OUT) and dotted.split('.')[-1] in ('write', 'writelines'):
            self.out.append((dotted, I.where(node)))
        elif dotted in ('pprint.pprint', 'pprint.pp') and 'stream' not in kw and len(args) < 2 or dotted in ('os.system', 'builtins.help', 'builtins.input', 'subprocess.call', 'subprocess.run', 'subprocess.check_call', 'tabnanny.check', 'dis.dis'):
            self.out.append((dotted, I.where(node)))
        elif dotted == 'os.write' and args and one(args[0]) == C(1):
            self.out.append((dotted, I.where(node)))
        elif dotted != 'builtins.print' and any(self.std(a) for v in list(args) + list(kw.values()) for a in v):
            self.out.append((dotted + ' with standard output', I.where(node)))


OPTIONS = [dict(), dict(new_style_override_syntax=True), dict(negative_inline=True), dict(new_style_override_syntax=True, negative_inline=True)]


def run(ctx):
    ctx.spread(part, [(k, o) for k in range(2) for o in range(4)])
    unreached(ctx)


def more(D):
    def link(st):
        return D.do(st, D.kept(st, '$s'), 'AddFile', H, forcedLink=Z)[0]

    def classlink(st):
        return D.do(st, D.kept(st, '$s'), 'AddFile', K2, forcedLink=Z)[0]

    def missing(st):
        return D.do(st, D.kept(st, '$s'), 'AddFile', '/l/none.bb')[0]

    def remove(st):
        vals = D.lst_of(st, D.kept(st, '$all'))
        st, _ = D.do(st, D.kept(st, '$s'), 'Remove', D.lst(st, vals[:3]))
        st, _ = D.do(st, D.kept(st, '$s'), 'Append', D.lst(st, D.lst_of(st, D.kept(st, '$all'))[:3]))
        return D.do(st, D.kept(st, '$s'), 'Finalize')[0]

    def results(st):
        st, r = D.do(st, D.kept(st, '$s'), 'GetItemsFor')
        D.keep(st, '$r', r)
        st, _ = D.do(st, r, 'reduce', classifier='Variable')
        return D.do(st, D.kept(st, '$r'), 'remove', D.lst_of(st, D.kept(st, '$r'))[0])[0]
    return [('AddFile again', lambda st: D.do(st, D.kept(st, '$s'), 'AddFile', Z)[0]), ('AddFile of a linked file', link), ('AddFile of an append again', lambda st: D.do(st, D.kept(st, '$s'), 'AddFile', ZA, forcedLink=Z)[0]), ('AddFile of a linked class', classlink), ('AddFile of a missing file', missing),
            ('AddFile of a directory', lambda st: D.do(st, D.kept(st, '$s'), 'AddFile', '/l/r')[0]), ('Remove, Append, Finalize', remove), ('result lists', results),
            ('FingerPrint', lambda st: D.get(st, D.kept(st, '$s'), 'FingerPrint')[0])]


def part(ctx, k, o):
    W = Ways(ctx, kinds=('open', 'read', 'json', 'timeout'), db=DB, cache=True)
    D = W.D
    w = Watch()
    D.I.hooks.append(w)
    opts = OPTIONS[o]

    def steps():
        yield from constants(D)
        for label, f in tour(D, TOUR, [Z, ZA, R, P, LC, CF, Q], options=opts):
            yield label, f
            if label == 'Finalize()':
                if o == 0:
                    yield from more(D)

    def early():
        yield from steps()

    def each(gen):
        for label, st, exc in gen:
            for what, where in w.out:
                ctx.check(False, 'silent', where, '%s: %s writes to standard output of a quiet collection (%s)' % (where, what, label))
            if not w.out:
                ctx.check(True, 'silent', label, '')
            del w.out[:]
    # failures are repeated for a part of the steps in each job
    each(W.go(early(), k * 4 + o, 8))
    if o == 0 and k == 0:
        # given by position
        D.files(TOUR)
        st = D.state()
        st, s = D.single(D.call(st, D.cls('Stash'), True), 'Stash(True)')
        D.keep(st, '$s', s)
        for f in (Z, P):
            st, _ = D.do(st, D.kept(st, '$s'), 'AddFile', f)
        ctx.check(not w.out, 'silent', 'Stash(True)', 'a collection made quiet by position writes to standard output')


def unreached(ctx):
    """output that is not reached even by a collection that is not quiet"""
    D = ctx.driver(db=DB)
    w = Watch()
    D.I.hooks.append(w)
    D.files(TOUR)
    st = D.state()
    st, s = D.single(D.call(st, D.cls('Stash')), 'Stash()')
    D.keep(st, '$s', s)
    for f in (Z, P):
        st, _ = D.do(st, D.kept(st, '$s'), 'AddFile', f)
    st, _ = D.do(st, D.kept(st, '$s'), 'Finalize')
    for mod, (path, tree) in sorted(D.I.mods.items()):
        if mod == 'oesa_prelude':
            continue
        parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'print' or isinstance(n.func, ast.Attribute) and 'stdout' in ast.unparse(n.func)):
                if id(n) in w.reached or any(x.arg == 'file' and 'stderr' in ast.unparse(x.value) for x in n.keywords):
                    continue
                up, ok = n, False
                while up in parents:
                    up = parents[up]
                    ok = ok or isinstance(up, (ast.If, ast.IfExp, ast.BoolOp)) and 'quiet' in ast.unparse(up.test if not isinstance(up, ast.BoolOp) else up) \
                        or isinstance(up, ast.If) and '__main__' in ast.unparse(up.test)
                ctx.check(ok, 'unreached', '%s %s' % (mod, ast.unparse(n.func)), '%s:%d: output that is not guarded by the quiet option' % (os.path.basename(path), n.lineno))
