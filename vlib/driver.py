"""Runs a check: builds, generates cases in parallel, judges them, writes evidence, prints VIOLATION / KNOWN-FINDING."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Out:
    """What one case observed."""

    def __init__(self):
        self.evals = 0
        self.sigs = set()          # distinct non-trivial signatures
        self.events = collections.Counter()
        self.viols = []            # (key, message, {filename: content})
        self.sample = None
        self.inconclusive = 0

    def bad(self, key, msg, files=None):
        self.viols.append((key, msg, files or {}))


class Env:
    def __init__(self, prop, tier, seed, bins):
        self.prop, self.tier, self.seed, self.bins = prop, tier, seed, bins

    def bin(self, name, kind=None):
        return os.path.join(self.bins[kind or next(iter(self.bins))], name)


_mod = None
_env = None


def _init(modname, env):
    global _mod, _env
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _mod = importlib.import_module(modname)
    _env = env
    if hasattr(_mod, 'init'):
        _mod.init(env)


def _one(i):
    o = Out()
    try:
        rng = random.Random('%s/%d/%d' % (_env.prop, _env.seed, i))
        _mod.case(i, rng, _env, o)
    except Exception:
        return i, None, traceback.format_exc()
    return i, o, None


def known():
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: property='):
                rest = l[len('known: property='):]
                pid, rest = rest.split(' ', 1)
                m = rest.split(' ', 1)
                res.append((pid, m[0].replace('key=', '', 1), m[1] if len(m) > 1 else ''))
    return res


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    modname = 'checks.' + prop.lower()
    sys.path.insert(0, VERIF)
    m = importlib.import_module(modname)
    try:
        bins = {k: B.build(k, t) for k, t in m.BUILDS.items()}
    except B.BuildError as e:
        print('BUILD FAILED', e)
        return 2
    env = Env(prop, tier, seed, bins)
    tb = time.time() - t0
    n = m.N[tier]
    if os.environ.get('VERIF_N'):
        n = int(os.environ['VERIF_N'])
    rng_ids = range(n)
    if os.environ.get('VERIF_CASE'):
        rng_ids = [int(x) for x in os.environ['VERIF_CASE'].split(',')]
    tot = Out()
    errors = []
    samples = []
    vio = {}
    nw = min(8, os.cpu_count() or 8)
    limit = t0 + (780 if tier == 'quick' else 4 * 3600)
    done = 0
    with mp.get_context('fork').Pool(nw, _init, (modname, env)) as pool:
        for i, o, err in pool.imap_unordered(_one, rng_ids, chunksize=1):
            done += 1
            if err:
                errors.append((i, err))
                continue
            tot.evals += o.evals
            tot.sigs |= o.sigs
            tot.events.update(o.events)
            tot.inconclusive += o.inconclusive
            if o.sample is not None and len(samples) < 3:
                samples.append(o.sample)
            for key, msg, files in o.viols:
                c = vio.setdefault(key, [0, i, msg, files])
                c[0] += 1
                if i < c[1]:
                    c[1:] = [i, msg, files]
            # A build that fails everywhere has been shown to be broken; no need for thousands of witnesses.
            if sum(c[0] for c in vio.values()) >= 60 and not os.environ.get('VERIF_ALL'):
                pool.terminate()
                break
            if time.time() > limit:
                pool.terminate()
                break
    kn = [k for k in known() if k[0] == prop]
    rc = 0
    listed, unlisted = [], []
    for key, (cnt, i, msg, files) in sorted(vio.items()):
        hit = [k for k in kn if k[1] == key]
        (listed if hit else unlisted).append((key, cnt, i, msg, files))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k[1], k[2]))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    vlist = []
    for key, cnt, i, msg, files in unlisted[:20]:
        safe = ''.join(ch if ch.isalnum() else '_' for ch in key)[:60]
        d = os.path.join(rdir, '%s-%s-%d' % (prop, safe, i))
        os.makedirs(d, exist_ok=True)
        for fn, data in files.items():
            with open(os.path.join(d, fn), 'wb') as f:
                f.write(data.encode('utf-8', 'replace') if isinstance(data, str) else data)
        with open(os.path.join(d, 'message.txt'), 'w') as f:
            f.write('property=%s key=%s seen=%d seed=%d case=%d\n%s\nreplay: VERIF_SEED=%d VERIF_CASE=%d python3 check.py %s\n'
                    % (prop, key, cnt, seed, i, msg, seed, i, prop))
        print('VIOLATION property=%s replay=%s' % (prop, d))
        print('  key=%s seen=%d case=%d: %s' % (key, cnt, i, msg[:1500]))
        vlist.append({'key': key, 'count': cnt, 'case': i, 'message': msg[:500]})
        rc = 1
    cov = {
        'evaluations': tot.evals,
        'distinct_nontrivial': len(tot.sigs),
        'rule': m.RULE,
        'samples': samples or ['(none)'],
        'cases': done,
        'inconclusive': tot.inconclusive,
        'observed': dict(sorted(tot.events.items())),
        'build_s': round(tb, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(m, 'LEVEL', 'exploration'), 'coverage': cov,
          'wall_s': round(time.time() - t0, 1), 'assumptions': getattr(m, 'ASSUMES', [])}
    if vlist:
        ev['violations'] = len(vlist)
        cov['violation_list'] = vlist
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print('%s: %d cases, %d evaluations, %d distinct non-trivial, %d inconclusive, %d violation keys (%d listed), %.0fs (build %.0fs)'
          % (prop, done, tot.evals, len(tot.sigs), tot.inconclusive, len(vio), len(listed), time.time() - t0, tb))
    if os.environ.get('VERIF_EVENTS'):
        print(json.dumps(cov['observed'], indent=1))
    if rc:
        return 1
    if errors:
        print('CHECK ERROR in %d cases, first: case %d\n%s' % (len(errors), errors[0][0], errors[0][1]))
        return 3
    if len(tot.sigs) < m.MIN[0] or tot.evals < m.MIN[1]:
        if done >= m.N[tier]:
            print('CHECK ERROR: observed too little (%d distinct, %d evaluations)' % (len(tot.sigs), tot.evals))
            return 4
    return 0
