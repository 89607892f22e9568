#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)

from pa import oblig                      # noqa: E402
from pa.oblig import Anchor, Result       # noqa: E402


def obligations(pid):
    out = []
    for m in oblig.PROP_MODULES:
        mod = importlib.import_module('pa.' + m)
        f = getattr(mod, pid, None)
        if f is not None and f.__module__ == mod.__name__:
            out += f()
    return out


def known():
    """known findings: lines 'finding: property=<id> key=<rule+construct> <text>'"""
    r = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                w = l.split(None, 3)
                r[(w[1].split('=', 1)[1], w[2].split('=', 1)[1])] = w[3].strip() if len(w) > 3 else ''
    return r


def rel(p):
    p = str(p)
    r = oblig.REPO.rstrip('/') + '/'
    return p[len(r):] if p.startswith(r) else p


class Late(BaseException):
    pass


def work(job):
    """one obligation, in a worker process"""
    k, seed, tier, limit, deadline = job
    limit = max(5, min(limit, deadline - time.time()))

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 1.25 * limit)
    try:
        r = OBS[k].run(oblig.loader(), seed, tier, limit)
        return k, r.verdict, r.why, r.where, r.detail, r.stats, r.secs
    except Late:
        return k, 'undecided', 'time limit', (), '', None, limit
    except Anchor as e:
        return k, 'anchor', str(e), (), '', None, 0
    except SyntaxError as e:
        return k, 'syntax', str(e), (), '', None, 0
    except Exception as e:
        return k, 'undecided', 'internal: %s %s' % (type(e).__name__, str(e)[:160]), (), '', None, 0
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


OBS = []


def decide(obs, seed, tier, limit):
    OBS[:] = obs
    deadline = time.time() + (640 if tier == 'quick' else 6000)
    jobs = [(k, seed, tier, limit, deadline) for k in range(len(obs))]
    out = [None] * len(obs)
    with multiprocessing.get_context('fork').Pool(min(8, len(obs)), maxtasksperchild=None) as pool:
        for k, verdict, why, where, detail, stats, secs in pool.imap_unordered(work, jobs, 1):
            if verdict == 'anchor':
                raise Anchor(why)
            if verdict == 'syntax':
                raise SyntaxError(why)
            out[k] = Result(obs[k], verdict, why, [(tuple(w) + (obs[k].fn,))[:3] if len(w) < 3 else w for w in where], detail, stats)
            out[k].secs = secs
    return out


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    obs = obligations(pid)
    if not obs:
        print('no obligations for', pid)
        return 2
    limit = max(60, min(160, 4000 // len(obs))) if tier == 'quick' else 300
    try:
        results = decide(obs, seed, tier, limit)
    except Anchor as e:
        print('ANCHOR LOST: %s' % e)
        return 2
    except SyntaxError as e:
        print('SOURCE DOES NOT PARSE: %s' % e)
        return 2
    kn = known()
    bad = []
    for r in results:
        if r.verdict == 'violated':
            key = (r.ob.name + '@' + (rel(r.where[0][0]) + ':' + str(r.where[0][2]) if r.where else r.ob.fn)).replace(' ', '_')
            if (pid, key) in kn:
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, key)]))
            else:
                bad.append((r, key))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cnt = lambda v: sum(r.verdict == v for r in results)
    funcs = sorted({'.'.join(f) for r in results if r.stats for f in r.stats.get('functions', ())})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ' '.join(oblig.EXPLAIN[k] for k in sorted({type(o).__name__ for o in obs}) if k in oblig.EXPLAIN) ,
            'obligations': len(results), 'held': cnt('holds'), 'undecided': cnt('undecided'), 'violated': cnt('violated'),
            'functions_analysed': funcs,
            'valuations': sum((r.stats or {}).get('valuations', 0) for r in results),
            'boundary_valuations': sum((r.stats or {}).get('ties', 0) for r in results),
            'sites': sum((r.stats or {}).get('sites', 0) for r in results),
            'details': [{'obligation': r.ob.name, 'function': r.ob.fn, 'verdict': r.verdict, 'why': r.why, 'where': [list(map(str, w)) for w in r.where], 'detail': r.detail,
                         'stats': {k: v for k, v in (r.stats or {}).items() if k != 'functions'}} for r in results],
        },
        'assumptions': oblig.ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    replay = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    if os.path.exists(replay):
        os.remove(replay)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for r in results:
        if r.verdict == 'undecided':
            print('undecided: %s: %s' % (r.ob.name, r.why[:300]))
    print('%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)' % (pid, len(results), cnt('holds'), cnt('undecided'), cnt('violated'), time.time() - t0))
    if bad:
        with open(replay, 'w') as f:
            for r, key in bad:
                loc = '; '.join('%s:%s in %s' % (rel(w[0]), w[1], w[2]) for w in r.where)
                f.write('property %s\nobligation: %s (%s)\nkey: %s\nrule: %s\nconstruct: %s\n%s\n\n' % (pid, r.ob.name, r.ob.fn, key, r.why, loc or r.ob.fn, r.detail))
                print('  %s: %s [%s] %s' % (r.ob.name, r.why, loc, r.detail[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


rc = [3]


def run():
    try:
        rc[0] = main()
    except Exception:
        traceback.print_exc()
        rc[0] = 3


if __name__ == '__main__':
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
