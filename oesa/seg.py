"""Texts made of known pieces and of named unknown pieces (tokens).

A clean token stands for any non empty run of letters and digits that occurs
nowhere else; operations that only look for other characters treat all of
them alike, so one unique word can represent it."""
import re

from oesa.values import *  # noqa

_word = {}
_tok = {}
_AL = 'abcdefghij'


def word(t):
    w = _word.get(t)
    if w is None:
        if isinstance(t[1], tuple):
            return word(t[1][0])[t[1][1]]
        n = len(_word)
        s = ''
        while True:
            s = _AL[n % 10] + s
            n //= 10
            if not n:
                break
        w = 'xq' + s.rjust(3, 'a') + 'qx'
        _word[t] = w
        _tok[w] = t
    return w


_RX = re.compile(r'xq[a-j]{3,}qx')


def enc(e):
    ps = clean_parts(e) if isinstance(e, tuple) else None
    if ps is None:
        return None
    return ''.join(p if isinstance(p, str) else word(p) for p in ps)


def dec(s):
    if s is None:
        return C(None)
    ps = []
    pos = 0
    for m in _RX.finditer(s):
        if m.group(0) not in _tok:
            continue
        ps.append(s[pos:m.start()])
        ps.append(_tok[m.group(0)])
        pos = m.end()
    ps.append(s[pos:])
    if ps and any(isinstance(p, str) and ('xq' in p.lower() and 'qx' in p.lower() or re.search(r'xq[a-j]{1,}$|^[a-j]{1,}qx', p.lower())) for p in ps):
        return T('str', ('tokpart', s))
    return mkcat(ps)


def chars(e):
    """the characters of a text of clean tokens (every unknown piece has as many as its word)"""
    ps = clean_parts(e)
    if ps is None:
        return None
    out = []
    for p in ps:
        if isinstance(p, str):
            out += [const(c) for c in p]
        elif isinstance(p[1], tuple):
            out.append(frozenset([T('str', p)]))
        else:
            n = len(word(p))
            out += [frozenset([T('str', tokch(p, i, n))]) for i in range(n)]
    return tuple(out)


def has_tok(e):
    ps = parts(e)
    return ps is None or any(not isinstance(p, str) for p in ps)


WEAK = {'count': 1, 'startswith': 1, 'endswith': 1, 'split': 1, 'rsplit': 1, 'splitlines': 0, 'partition': 1, 'rpartition': 1, 'replace': 2,
        'rstrip': 1, 'strip': 1, 'lstrip': 1}


def _breaks_ok(p):
    return isinstance(p, tuple) and p[0] == 'tok' and ('noeol' in p[2] or 'clean' in p[2])


def enc_weak(e, name, cargs):
    """word form that is exact for operations looking for line breaks only"""
    if name not in ('count', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'replace', 'rstrip', 'strip', 'endswith', 'removesuffix'):
        return None
    ps = parts(e)
    if ps is None or not all(isinstance(p, str) or _breaks_ok(p) for p in ps):
        return None
    if name == 'splitlines':
        if any(isinstance(p, tuple) and 'clean' not in p[2] for p in ps) and not all(isinstance(p, str) or 'oneline' in p[2] or 'clean' in p[2] for p in ps):
            return None
    else:
        if not cargs or not isinstance(cargs[0], str) or not cargs[0] or set(cargs[0]) - {'\n', '\r', '\x1b'}:
            return None
        if name in ('rstrip', 'strip', 'endswith', 'removesuffix') and not (ps and isinstance(ps[-1], str) and ps[-1].rstrip('\n')) and set(cargs[0]) - {'\n'}:
            return None
        if set(cargs[0]) - {'\n'} and name != 'replace':
            return None
        if name == 'strip' or name == 'lstrip':
            if not (ps and isinstance(ps[0], str)):
                pass
    return ''.join(p if isinstance(p, str) else word(p) for p in ps)


def partial(e, name, cargs):
    """results known although parts of the text are not"""
    if name in ('startswith', 'endswith') and len(cargs) == 1:
        ps = parts(e)
        if not ps:
            return None
        alts = cargs[0] if isinstance(cargs[0], tuple) else (cargs[0],)
        p = ps[0] if name == 'startswith' else ps[-1]
        if not isinstance(p, str):
            return None
        res = []
        for a in alts:
            if not isinstance(a, str):
                return None
            if getattr(p, name)(a):
                return C(True)
            if len(a) <= len(p):
                res.append(False)
            else:
                q = a[:len(p)] if name == 'startswith' else a[-len(p):]
                res.append(False if q != p else None)
        if all(r is False for r in res):
            return C(False)
    if name == 'count' and len(cargs) == 1 and cargs[0] == '\n':
        ps = parts(e)
        if ps is not None and all(isinstance(p, str) or (p[0] == 'tok' and ('line' in p[2] or 'noeol' in p[2] or 'clean' in p[2])) for p in ps):
            return C(sum(p.count('\n') if isinstance(p, str) else (1 if 'line' in p[2] else 0) for p in ps))
    if name in ('rstrip', 'removesuffix') and len(cargs) == 1 and cargs[0] == '\n':
        pass
    return None


def contains(h, n):
    """is text n inside of text h"""
    eh, en = enc(h), enc(n)
    if eh is not None and en is not None:
        return en in eh
    if en is None:
        ph, pn = parts(h), parts(n)
        if ph is not None and pn is not None and pn and len(pn) <= len(ph):
            for i in range(len(ph) - len(pn) + 1):
                if ph[i:i + len(pn)] == pn:
                    return True
        return None
    if en == '':
        return True
    ph = parts(h)
    if ph is None:
        return None
    for p in ph:
        if isinstance(p, str) and en in p:
            return True
    # characters that no token can contain
    cs = set(en)
    if cs & {'\n'}:
        if en == '\n' and any(not isinstance(p, str) and p[0] == 'tok' and 'line' in p[2] for p in ph):
            return True
        if en == '\n' and all(isinstance(p, str) or (p[0] == 'tok' and ({'noeol', 'clean'} & p[2])) for p in ph):
            return False
    # the unknown parts are known not to contain it
    if all(isinstance(p, str) or (p[0] == 'tok' and any(x.startswith('no:') and x[3:] and x[3:] in en for x in p[2])) or is_clean(p) for p in ph):
        txt = ''.join(p if isinstance(p, str) else '\0' for p in ph)
        return en in txt
    return None


def nonempty(e):
    ps = parts(e)
    return ps is not None and any((isinstance(p, str) and p) or is_clean(p) or (isinstance(p, tuple) and p and p[0] == 'tok' and ({'line', 'ne'} & p[2])) for p in ps)


def eqdec(a, b, facts):
    if a == b:
        return True
    ea, eb = enc(a), enc(b)
    if ea is not None and eb is not None:
        return ea == eb
    if ea == '' and nonempty(b) or eb == '' and nonempty(a):
        return False
    # constant against a text with known ends
    for p, q in ((ea, b), (eb, a)):
        if p is None:
            continue
        ps = parts(q)
        if not ps:
            continue
        if isinstance(ps[0], str) and not p.startswith(ps[0]):
            return False
        if isinstance(ps[-1], str) and not p.endswith(ps[-1]):
            return False
        if any(isinstance(x, str) and x not in p for x in ps):
            return False
        if '\n' not in p and any(isinstance(x, tuple) and x[0] == 'tok' and 'line' in x[2] for x in ps):
            return False
    # unequal because only one of them has a line break
    return None
