"""python3 -m oesa <property> --tier quick|thorough"""
import argparse
import gc
import importlib
import json
import os
import signal
import sys
import time
import traceback

from oesa.rule import Ctx, VERIF, Raised
from oesa.interp import AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(pid):
    out = {}
    try:
        with open(KNOWN, encoding='utf-8') as i:
            for line in i:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' :: ')
                    out[key] = text
    except OSError:
        pass
    return out


def main():
    gc.set_threshold(200000, 20, 100)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    mod = importlib.import_module('oesa.rules.' + pid.lower())
    ctx = Ctx(pid, a.tier)
    ctx.verbose = a.v
    error = None
    ctx.alarm(100)
    try:
        mod.run(ctx)
        for what, least in getattr(mod, 'EXPECT', {}).items():
            n = ctx.counts.get(what, 0)
            if n < least and not ctx.findings:
                raise AnalysisError('only %d instances of "%s" were analysed, at least %d are expected' % (n, what, least))
    except Raised as x:
        try:
            ctx.raised(x)
        except AnalysisError as y:
            error = y
    except Exception as x:   # noqa
        error = x
        if a.v or not isinstance(x, AnalysisError):
            traceback.print_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    kn = known(pid)
    bad = []
    for f in ctx.findings:
        if f[0] in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, f[3]))
        else:
            bad.append(f)
    seen = set()
    for i in ctx.interps:
        seen |= i.functions_seen
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN,
            'rule': mod.RULE,
            'obligations': ctx.obligations,
            'discharged': ctx.held,
            'counts': ctx.counts,
            'functions_analysed': len(seen),
            'functions': sorted(seen),
            'abstract_steps': sum(i.steps for i in ctx.interps),
            'samples': ctx.samples or ['none'],
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + [
            'the models of the Python builtins and of the standard library in oesa/model.py and oesa/ext.py are faithful',
            'names made of letters and digits are represented by named tokens; the regular expressions treat all of them alike'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    if ctx.undecided:
        ev['coverage']['undecided'] = sorted(set(ctx.undecided))
    if error is not None:
        ev['coverage']['error'] = str(error)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w', encoding='utf-8') as o:
        json.dump(ev, o, indent=1, sort_keys=True, default=str)
    if bad:
        rp = os.path.join('evidence', 'replay', pid + '.txt')
        with open(os.path.join(VERIF, rp), 'w', encoding='utf-8') as o:
            for key, rule, construct, text, detail in bad:
                o.write('%s at %s: %s\n' % (rule, construct, text))
                for d in detail:
                    o.write('    %s\n' % (d,))
        for key, rule, construct, text, detail in bad[:20]:
            print('%s at %s: %s' % (rule, construct, text))
            for d in detail[:12]:
                print('    %s' % (d,))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if error is not None:
        print('ANALYSIS ERROR property=%s %s' % (pid, error))
        return 2
    for u in sorted(set(ctx.undecided)):
        print('UNDECIDED in part: property=%s %s' % (pid, u))
    print('OK property=%s obligations=%d steps=%d functions=%d %.1fs' % (pid, ctx.obligations, ev['coverage']['abstract_steps'], len(seen), time.time() - t0))
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of evaluation on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'oesa'] + sys.argv[1:])
    sys.exit(main())
