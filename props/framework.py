"""Runs the cases of one property, classifies the abstract outcomes, writes the
evidence file and prints the verdict."""
import fnmatch
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import common
from .common import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

OK, BAD, UNDEC = 'ok', 'violation', 'undecided'


class Res:
    """verdict on one instance (case) of a property"""
    __slots__ = ('status', 'key', 'msg', 'where')

    def __init__(self, status, key='', msg='', where=''):
        self.status, self.key, self.msg, self.where = status, key, msg, where

    def tup(self):
        return self.status, self.key, self.msg, self.where


def ok(key='', msg=''):
    return Res(OK, key, msg)


def bad(key, msg, where=''):
    return Res(BAD, key, msg, where)


def und(key, msg=''):
    return Res(UNDEC, key, msg)


class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


_MOD = None
_I = None


def fresh(I):
    I.steps = 0
    I.depth = 0
    I.fnstack = []
    I.handlers = []
    I.visited = set()
    I.eqbudget = 3
    I.maskfork = 0
    I.factors = {}
    I.general = False
    I.nondec = 0
    tm.clear_models()
    return I.S0.fork()


def _one(ic):
    i, case = ic
    I = _I
    name = _MOD.name(case)
    t0 = time.time()
    limit = getattr(_MOD, 'CASE_SECONDS', 40)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    lim0 = sys.getrecursionlimit()
    try:
        s = fresh(I)
        rs = _MOD.run_case(I, s, case)
        if isinstance(rs, Res):
            rs = [rs]
    except Undecided as e:
        rs = [und(name, str(e))]
    except (Limit, CaseTimeout) as e:
        rs = [und(name, 'budget: ' + (str(e) or type(e).__name__))]
    except Broken:
        signal.alarm(0)
        raise
    except RecursionError:
        rs = [und(name, 'engine recursion limit')]
    except Exception as e:
        if os.environ.get('VERIF_TB'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rs = [und(name, 'engine: %r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))]
    finally:
        signal.alarm(0)
    out = []
    for r in rs:
        if not r.key:
            r.key = name
        out.append(r.tup())
    return i, name, out, time.time() - t0, I.steps, sorted(I.visited)


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [e for e in d.get('findings', []) if e['property'] == pid]


def selftest():
    """setup_cmd: the sources parse and the package top level can be analysed"""
    sys.setrecursionlimit(20000)
    try:
        I = new_interp(REPO, True, ())
        for n in ('State', 'Transfer'):
            I.public(n)
        print('analyser ready')
    except Broken as e:
        # the checks report this themselves
        print('analyser ready, but: %s' % e)
    return 0


def main(argv):
    global _MOD, _I
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '-v' in argv
    t0 = time.time()
    sys.setrecursionlimit(20000)
    _MOD = importlib.import_module('props.' + pid.lower())
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    only = None
    for a in argv[1:]:
        if a.startswith('--only='):
            only = a[7:]
    try:
        _I = new_interp(REPO, getattr(_MOD, 'SUMMARIES', True), getattr(_MOD, 'INLINE', ()))
        for anchor in getattr(_MOD, 'ANCHORS', ()):
            _I.public(anchor)
        if hasattr(_MOD, 'setup'):
            _MOD.setup(_I)
        cases = _MOD.cases(tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    if only:
        cases = [c for c in cases if fnmatch.fnmatch(_MOD.name(c), only)]
    results = []
    work = list(enumerate(cases))
    nproc = min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    import gc
    gc.collect()
    gc.freeze()
    try:
        if verbose and only:
            results = [_one(w) for w in work]
        else:
            with ctx.Pool(nproc) as pool:
                for r in pool.imap_unordered(_one, work, chunksize=max(1, min(8, len(work) // (nproc * 8) or 1))):
                    results.append(r)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    results.sort()
    counts = {OK: 0, BAD: 0, UNDEC: 0}
    viol, undec, samples = {}, {}, []
    seen = set()
    for i, name, rs, dt, steps, vis in results:
        seen.update(vis)
        for st, key, msg, where in rs:
            counts[st] += 1
            if st == BAD:
                viol.setdefault(key, (msg, where, name))
            elif st == UNDEC:
                undec.setdefault(key, msg)
            elif len(samples) < 12 and (i % max(1, len(results) // 12) == 0):
                samples.append({'case': name, 'key': key, 'verdict': msg or 'holds'})
        if verbose:
            for st, key, msg, where in rs:
                if st != OK or only:
                    print('%-9s %s | %s | %s (%.1fs)' % (st, key, msg[:300], where, dt))
    known = load_known(pid)
    listed, unlisted = {}, {}
    for k, v in viol.items():
        e = next((e for e in known if any(fnmatch.fnmatchcase(k, g) for g in e['keys'])), None)
        if e is None:
            unlisted[k] = v
        else:
            listed.setdefault(e['id'], (e, []))[1].append((k, v))
    decided = counts[OK] + counts[BAD]
    minimum = getattr(_MOD, 'MIN', {}).get(tier, getattr(_MOD, 'MIN', {}).get('quick', 1))
    slow = sorted(results, key=lambda r: -r[3])[:3]
    cov = {
        'explanation': _MOD.RULE,
        'instances': decided + counts[UNDEC],
        'decided': decided,
        'held': counts[OK],
        'violating': counts[BAD],
        'undecided': counts[UNDEC],
        'undecided_samples': [{'key': k, 'why': m[:200]} for k, m in list(undec.items())[:8]],
        'minimum_decided': minimum,
        'abstract_cases': len(results),
        'abstract_steps': sum(r[4] for r in results),
        'functions_analysed': ['%s:%s' % x for x in sorted(seen)],
        'samples': samples,
        'slowest_cases': [{'case': r[1], 's': round(r[3], 2)} for r in slow],
    }
    e = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
        'coverage': cov, 'wall_s': round(time.time() - t0, 2),
        'assumptions': ASSUME + list(getattr(_MOD, 'ASSUME', ())),
        'violations': [{'key': k, 'what': m, 'where': w, 'case': n} for k, (m, w, n) in unlisted.items()],
    }
    if not only:
        with open(os.path.join(ev, pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
    for i, (ent, ks) in listed.items():
        print('KNOWN-FINDING: property=%s %s [%d instance(s), e.g. %s]' % (pid, ent['what'], len(ks), ks[0][0]))
    print('%s: %d instances, %d hold, %d violate (%d listed), %d undecided; %d abstract cases, %.1f s' % (
        pid, decided + counts[UNDEC], counts[OK], len(viol), sum(len(x[1]) for x in listed.values()), counts[UNDEC],
        len(results), time.time() - t0))
    if unlisted:
        rp = os.path.join(ev, 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'rerun': 'python3 /verif/check.py %s -v' % pid, 'violations': e['violations']},
                      f, indent=1)
        for k, (m, w, n) in list(unlisted.items())[:40]:
            print('  violated: %s\n      %s\n      at %s' % (k, m, w))
        if len(unlisted) > 40:
            print('  ... and %d more' % (len(unlisted) - 40))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if decided < minimum and not only:
        print('ANALYSIS-BROKEN property=%s only %d of at least %d instances could be decided' % (pid, decided, minimum))
        for k, m in list(undec.items())[:5]:
            print('   undecided', k, '|', m[:200])
        return 2
    return 0


ASSUME = [
    'numpy, scipy, matplotlib and the standard library behave as their documented signatures say (shapes, dtypes, '
    'aliasing, mutation, exceptions); they are modelled, not analysed',
    'matrix/polynomial data are in general position except where a branch of the code tests them; beyond three '
    'data-equality tests on one path further ones are taken in their general-position direction',
    'array sizes are enumerated up to the stated bounds; values are abstract',
]
