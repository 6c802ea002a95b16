"""C17: the library only reads"""
import ast
import os
import re

from oesa.world import *  # noqa

RULE = ('no-effect-reference: no function of the library refers to an operation outside it that runs programs or text as code, writes, uses the network or changes process-wide settings; no-effect-call: none is called in the '
        'interpreted evaluations, however it is reached; read-only: every file is opened for reading; closed: at the end of every public operation, successful or failing, every file it opened is closed')
EXPLAIN = ('Every name in the syntax trees is resolved through imports and aliases and compared with a list of operations with effects. The library is interpreted abstractly on a layer with every kind of statement, all '
           'queries, attributes and the constants; each call that leaves the library, each assignment to something outside it and each opened file is examined. The evaluation is repeated with every file operation failing '
           '(open, read, decoding, JSON) at each place in turn; the set of open files is tracked in each state, exceptional ones included.')
EXPECT = {'rule no-effect-reference': 200, 'rule no-effect-call': 30, 'rule read-only': 1, 'rule closed': 60}

DENY = re.compile(r'''^(
    os\.(system|popen|exec\w*|spawn\w*|posix_spawn\w*|fork\w*|startfile|kill\w*|abort|_exit|remove|unlink|rmdir|removedirs|rename|renames|replace|mkdir|makedirs|mknod|mkfifo|link|symlink|chmod|lchmod|chown|lchown|fchmod|fchown|
        truncate|ftruncate|utime|chdir|fchdir|chroot|umask|putenv|unsetenv|set\w+|nice|write|open|pwrite|sendfile|copy_file_range|dup2|setxattr|removexattr|initgroups|openpty|forkpty|register_at_fork)
    |subprocess\..+|pty\..+|commands\..+|multiprocessing\..+|concurrent\.futures\.Process\w*
    |socket\..+|socketserver\..+|ssl\..+|urllib\.request\..+|http\..+|ftplib\..+|smtplib\..+|poplib\..+|imaplib\..+|telnetlib\..+|xmlrpc\..+|asyncio\..+|requests\..+|urllib3\..+|webbrowser\..+
    |shutil\.(copy\w*|move|rmtree|make_archive|unpack_archive|chown)|tempfile\..+|fileinput\.(input|FileInput)|zipfile\.ZipFile|tarfile\..+|shelve\..+|dbm\..+|sqlite3\..+
    |builtins\.(eval|exec|compile|input|breakpoint|help)|code\..+|codeop\..+|runpy\..+|importlib\.(import_module|reload|util\..+|machinery\..+)|imp\..+|pickle\.(loads?|Unpickler)|marshal\.loads?|ctypes\..+|cffi\..+|pdb\..+|bdb\..+|timeit\..+|
        cProfile\..+|profile\..+|trace\..+|types\.(FunctionType|CodeType)
    |signal\..+|resource\.setrlimit|locale\.setlocale|sys\.(setrecursionlimit|setswitchinterval|settrace|setprofile|set_int_max_str_digits|setdlopenflags|addaudithook|exit|intern_off|set_asyncgen_hooks|set_coroutine_origin_tracking_depth)
    |sys\.(path|meta_path|path_hooks|modules|argv)\.(append|insert|extend|remove|clear|pop|update|setdefault|reverse|sort|popitem)|os\.environb?\.(update|setdefault|pop|popitem|clear)
    |warnings\.(filterwarnings|simplefilter|resetwarnings)|logging\.(basicConfig|disable|setLoggerClass|captureWarnings|addLevelName)|random\.seed|gc\.(disable|enable|set_threshold|set_debug|freeze)|atexit\..+|faulthandler\..+|time\.tzset|
        decimal\.setcontext|csv\.(field_size_limit|register_dialect)|codecs\.register\w*|mimetypes\.(init|add_type)|threading\.(Thread|Timer|settrace|setprofile|stack_size|excepthook)|_thread\..+|readline\..+|linecache\.clearcache|re\.purge|regex\.purge|
        tracemalloc\.start|copyreg\..+|gettext\.(install|bindtextdomain|textdomain)|syslog\..+|curses\..+|termios\..+|tty\..+|fcntl\..+|mmap\..+
    |exit|quit)$''', re.X)
PATHOPS = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'symlink_to', 'hardlink_to', 'touch', 'mkdir', 'chmod', 'lchmod', 'link_to'}

OPENS = {'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen', 'io.FileIO', 'builtins.open_code'}


class Watch:
    def __init__(self):
        self.calls, self.writes, self.opens = [], [], []

    def clear(self):
        del self.calls[:], self.writes[:], self.opens[:]

    def on_ext(self, I, st, dotted, args, kw, node):
        self.calls.append((dotted, args, I.where(node)))

    def on_extwrite(self, I, st, target, node):
        self.writes.append((target, I.where(node)))

    def on_filewrite(self, I, st, oid, node):
        self.writes.append(('a file', I.where(node)))

    def on_open(self, I, st, path, p, node):
        self.opens.append((p.get('mode'), I.where(node), node))


def run(ctx):
    references(ctx, ctx.driver())
    ctx.spread(part, [(k, cache) for k in range(4) for cache in (True, False)])


def part(ctx, k, cache):
    W = Ways(ctx, db=DB, cache=cache, handles=True)
    D = W.D
    w = Watch()
    D.I.hooks.append(w)

    def steps():
        yield from constants(D)
        yield from tour(D, TOUR, [Z, ZA, R, P, LC, CF, Q])
    bad, opened = set(), set()
    for label, st, exc in W.go(steps(), k, 4, lambda label: w.clear()):
        for dotted, args, where in w.calls:
            if DENY.match(dotted):
                ctx.check(False, 'no-effect-call', '%s %s' % (where, dotted), '%s: %s is called (%s)' % (where, dotted, label))
                bad.add(label)
        for target, where in w.writes:
            ctx.check(False, 'no-effect-call', '%s %s' % (where, target), '%s: assignment or output to %s, which is outside the library (%s)' % (where, target, label))
            bad.add(label)
        if label not in bad:
            ctx.check(True, 'no-effect-call', label, '')
        for mode, where, node in w.opens:
            opened.add(where)
            m = 'r' if mode is None else cst(mode)
            ctx.check(isinstance(m, str) and not set(m) & set('wax+'), 'read-only', where, '%s: a file is opened with mode %r' % (where, m if mode is None or m else D.show(D.state(), mode)))
        for x in [st] if st is not None else D.raised_states:
            left = x.mon.get('handles', frozenset())
            ctx.check(not left, 'closed', ', '.join(sorted({h[1] for h in left})) or label, '%s: the file opened at %s is not closed' % (label, ', '.join(sorted({h[1] for h in left}))))
    if k == 0 and cache:
        ctx.sample('files are opened at %s' % ', '.join(sorted(opened)))


def cst(v):
    a = one(v) if len(v) == 1 else None
    return a[2] if a is not None and a[0] == 'c' else None


class Names(ast.NodeVisitor):
    """what the names of a module stand for"""

    def __init__(self, pkgs):
        self.names = {}
        self.pkgs = pkgs

    def visit_Import(self, n):
        for a in n.names:
            self.names.setdefault(a.asname or a.name.split('.')[0], set()).add(a.name if a.asname else a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if not n.level:
                self.names.setdefault(a.asname or a.name, set()).add('%s.%s' % (n.module, a.name))


def references(ctx, D):
    defined = {n.name for _, t_ in D.I.mods.values() for n in ast.walk(t_) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for mod, (path, tree) in sorted(D.I.mods.items()):
        if mod == 'oesa_prelude':
            continue
        nm = Names(D.I.pkgs)
        nm.visit(tree)
        top = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)} | defined

        def resolve(n):
            if isinstance(n, ast.Name):
                if n.id in nm.names:
                    return nm.names[n.id]
                return set() if n.id in top else {'builtins.' + n.id}
            if isinstance(n, ast.Attribute):
                return {b + '.' + n.attr for b in resolve(n.value)}
            return set()
        # x = os.system
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Attribute, ast.Name)):
                for t_ in n.targets:
                    if isinstance(t_, ast.Name) and any(DENY.match(canon_(d)) for d in resolve(n.value)):
                        nm.names.setdefault(t_.id, set()).update(resolve(n.value))
        for n in ast.walk(tree):
            where = '%s:%d' % (os.path.basename(path), getattr(n, 'lineno', 0))
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                for d in resolve(n):
                    ctx.check(not DENY.match(canon_(d)), 'no-effect-reference', '%s %s' % (mod, d), '%s: %s' % (where, d))
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                # assignments to what was imported
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in nm.names and b.id not in {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                    for d in nm.names[b.id]:
                        if d.split('.')[0] not in D.I.pkgs:
                            ctx.check(False, 'no-effect-reference', '%s assignment to %s' % (mod, d), '%s: assignment to a part of %s' % (where, d))
            elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                if isinstance(n.func, ast.Attribute) and n.func.attr in PATHOPS and n.func.attr not in defined:
                    ctx.check(False, 'no-effect-reference', '%s %s' % (mod, n.func.attr), '%s: call of a method %s' % (where, n.func.attr))
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and not resolve(n.func) or resolve(n.func) & OPENS:
                    for m in [a.value for a in n.args[:2] if isinstance(a, ast.Constant)] + [a.value.value for a in n.keywords if a.arg == 'mode' and isinstance(a.value, ast.Constant)]:
                        if isinstance(m, str) and re.fullmatch('[rwaxbt+]+', m):
                            ctx.check(not set(m) & set('wax+'), 'read-only', '%s %s' % (mod, 'open'), '%s: a file is opened with mode %r' % (where, m))
        ctx.count('modules')


def canon_(d):
    return d
