"""Runs vislcg3 and the reference engine on the same grammar and stream and compares what came out."""
import os
import re
import signal
import sys

from . import common as c
from vlib import run, streamio
from vlib.engine import Engine
from vlib.model import Ambiguous, Unmodelled, TooLong

sys.setrecursionlimit(20000)
ASSUMES = ['The reference engine in vlib/model.py and vlib/engine.py says what the grammar means; it was written from the documentation '
           'and the code, and constructs whose outcome rests on an unspecified order are discarded and counted.',
           'The tests of a rule run as they are written (KEEPORDER on every rule).']
_rtok = re.compile(r' R:[^ ]+:\d+(?= |$)')


def norm(l):
    """Relations are printed in no particular order."""
    ts = _rtok.findall(l)
    if len(ts) > 1:
        ts.sort()
        it = iter(ts)
        l = _rtok.sub(lambda m: next(it), l)
    return l


def items(text):
    out = []
    for l in text.split('\n'):
        if l.startswith('"<') or l.startswith('; "<'):
            out.append(('cohort', l))
        elif re.match(r'^;?\t', l):
            l = norm(l)
            d = len(l.lstrip(';')) - len(l.lstrip(';').lstrip('\t'))
            if d > 1 and out and out[-1][0] == 'r':
                out[-1][1].append(l)
            else:
                out.append(('r', [l]))
        elif l.startswith('<STREAMCMD:'):
            out.append(('cmd', l[len('<STREAMCMD:'):-1]))
        elif l.strip():
            out.append(('text', l))
    return out


def compare(model, text):
    """None, or a description of the first difference."""
    act = items(text)
    k = 0
    i = 0
    while i < len(model):
        kind, v = model[i]
        if kind == 'cmd':
            j = i
            while j < len(model) and model[j][0] == 'cmd':
                j += 1
            want = sorted(x[1] for x in model[i:j])
            n = k
            while n < len(act) and act[n][0] == 'cmd':
                n += 1
            got = sorted(x[1] for x in act[k:n])
            if got != want:
                return 'stream commands: expected %s, got %s' % (want, got)
            k, i = n, j
            continue
        if kind == 'cohort':
            if k >= len(act) or act[k] != (kind, v):
                return 'cohort: expected %r, got %r' % (v, act[k] if k < len(act) else 'nothing')
            k += 1
        else:
            want = sorted('\n'.join(norm(l) for l in b) for b in v)
            got = act[k:k + len(v)]
            if any(g[0] != 'r' for g in got) or sorted('\n'.join(g[1]) for g in got) != want:
                return 'readings: expected %s, got %s' % (want, [g[1] if g[0] == 'r' else g for g in got])
            k += len(v)
        i += 1
    if k < len(act):
        return 'more than expected: %r' % (act[k],)
    return None


def case(rng, env, o, prof, windows=None, gkw=None, prep=None, stream=None, opts=None):
    """One comparison. `o` collects; the model's own limits are counted as discards."""
    kw = dict(math=False)
    kw.update(gkw or {})
    G, g = c.make(rng, prof, **kw)
    if prep:
        prep(G)
    c.keep_order(G)
    g = G.g.emit()
    s = stream(G) if stream else G.stream()
    judge(rng, env, o, prof, G.g, g, s, windows, opts and opts(rng, G.g))


def judge(rng, env, o, prof, ast, g, s, windows=None, opts=None):
    nw = windows if windows is not None else rng.choice([0, 1, 2, 2, 2, 3])
    V = env.bin('vislcg3')
    with run.Scratch() as d:
        pg = d.put('g.cg3', g)
        argv = [V, '--trace', '--split-mappings', '--num-windows', str(nw), '-g', pg] + (opts['args'] if opts else [])
        res = run.run(argv, s, timeout=5, retry=False)
    if not c.grammar_ok(res):
        o.events['discard: grammar refused'] += 1
        return
    if res.timeout:
        o.inconclusive += 1
        return
    old = signal.signal(signal.SIGALRM, overdue)
    signal.setitimer(signal.ITIMER_REAL, 8)
    try:
        e = Engine(ast, num_windows=nw, opts=opts)
        m = e.run(s)
    except Ambiguous as x:
        o.events['discard: ambiguous (%s)' % x] += 1
        return
    except Unmodelled as x:
        o.events['discard: not modelled (%s)' % x] += 1
        return
    except TooLong:
        o.inconclusive += 1
        return
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    files = {'g.cg3': g, 'in.txt': s, 'out.txt': res.out, 'err.txt': res.err,
             'args.txt': ' '.join(argv[1:]), 'model.txt': dump(m)}
    o.evals += 1
    o.events['profile ' + prof] += 1
    for k, v in e.applied.items():
        o.events['applied ' + k] += v
    for k, v in e.events.items():
        o.events[k] += v
    if e.applied:
        o.sigs.add(hash(res.out))
    if o.sample is None and e.applied:
        o.sample = {'grammar': g, 'traced output': res.text[:600]}
    if res.crashed:
        o.bad('crash', 'vislcg3 died (%s): %s' % (res.rc, res.etext[-300:]), files)
        return
    df = compare(m, res.text)
    if df:
        o.bad('differs:' + prof + (str(hash(g + s) % 9999) if os.environ.get('MMCASES') else ''), df[:700], files)


def overdue(*a):
    raise TooLong()


def dump(m):
    out = []
    for k, v in m:
        if k == 'group':
            for b in v:
                out += b
        else:
            out.append(v if k == 'cohort' else '<STREAMCMD:%s>' % v)
    return '\n'.join(out) + '\n'
