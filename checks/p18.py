"""P18: the analysis of a piece of text depends on that text and grammar alone: not on the run, nor on what came before."""
import re

from . import common as c
from vlib import run

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 1200, 'thorough': 20000}
MIN = (1200, 1800)
RULE = ('A case is a random grammar (all rule types) and several random streams. Observed: the same run twice gives the same bytes; '
        'streams joined by FLUSH commands give the joined outputs of the separate runs; with a grammar that does not look beyond '
        'its window and no variables, the windows of a stream, permuted and repeated, give the permuted and repeated outputs of '
        'the windows on their own. Non-trivial: the grammar changed the stream; distinct by output.')
ASSUMES = ['the numbering of cohorts (ID:, R:) may continue over a FLUSH, so outputs are compared with those numbers taken relative '
           'to the first one in each stream', 'dependencies across windows are compared by distance in windows']

PROF = ['dis', 'dis_tags', 'tags', 'coh', 'sub', 'unif', 'vars', 'with', 'par', 'dep', 'rel', 'all', 'tags', 'coh']


def windows(G, n):
    return ['\n'.join(G.window(delim=True)) + '\n' for _ in range(n)]


def case(i, rng, env, o):
    prof = PROF[i % len(PROF)]
    V = env.bin('vislcg3')
    indep = rng.random() < 0.5
    kw = {}
    if indep:
        kw = dict(span=0, variables=0)
    if indep or prof == 'all':
        # a copy of a cohort with an R: tag is a second cohort that claims the relation
        kw['reldata'] = 0
    ordered = rng.random() < 0.6 or prof in ('unif', 'with')
    if not ordered:
        kw.update(attach=0, mark=0, unif=0, varstr=0, jumps=0)
    G, g = c.make(rng, prof, **kw)
    if ordered or 'WITH ' in g:
        c.keep_order(G)
        g = G.g.emit()
    else:
        o.events['order of tests left free'] += 1
    if indep and (re.search(r'SETVARIABLE|REMVARIABLE|VAR:', g) or any(re.match(r'@?-?[*0-9A-Za-z/]*[0-9*][*0-9A-Za-z]*[W<>]', w) or w.endswith('W') and re.match(r'[-*0-9pcrs]', w) for w in re.split(r'[\s()]+', g))):
        indep = False
    opts = rng.choice([[], [], ['--num-windows', '1'], ['--num-windows', '5'], ['-t'], ['--split-mappings']])
    if indep and prof != 'all' and rng.random() < 0.3:
        opts = opts + ['--num-windows', '0']

    if prof in ('dep', 'rel', 'all'):
        # otherwise dependencies are only printed once there has been one
        opts = opts + ['--print-dep']

    def go(s, d, **k):
        return run.run([V, '-g', pg] + opts, s, timeout=8, retry=False)

    with run.Scratch() as d:
        pg = d.put('g.cg3', g)
        segs = [G.stream() for _ in range(rng.choice([2, 3]))]
        # what was there before comes again
        if rng.random() < 0.6:
            segs.append(segs[0])
        base = [go(s, d) for s in segs]
        if not c.grammar_ok(base[0]):
            o.events['grammar refused'] += 1
            return
        if any(b.timeout or len(b.out) > 30 * len(s) + 2000 or b'ndless loop detected' in b.err for b, s in zip(base, segs)):
            # or a rule that feeds itself until the guard against endless loops stops it
            o.inconclusive += 1
            return
        o.events['profile ' + prof] += 1
        files = {'g.cg3': g, 'opts.txt': ' '.join(opts)}
        for n, s in enumerate(segs):
            files['in%d.txt' % n] = s
            if base[n].text != s:
                o.sigs.add(hash(base[n].text))
        # the same again
        r = go(segs[0], d)
        o.evals += 1
        if r.timeout:
            o.inconclusive += 1
        elif r.out != base[0].out or r.rc != base[0].rc:
            o.bad('twice', 'the same run twice: %s' % c.diff(base[0].text, r.text), files)
            return
        # separated by FLUSH
        F = '<STREAMCMD:FLUSH>\n'
        r = run.run([V, '-g', pg] + opts, F.join(segs), timeout=20, retry=False)
        o.evals += 1
        if r.timeout:
            o.inconclusive += 1
        else:
            got = [norm(x) for x in re.split(r'(?m)^<STREAMCMD:FLUSH>\n', r.text)]
            want = [norm(b.text) for b in base]
            o.events['flush joins'] += 1
            if got != want and re.search('SETPARENT|SETCHILD|SWITCHPARENT|REMPARENT', g) and len(got) == len(want):
                # The very first >>> of a run is cohort 0, which is also how "no parent" is written; later ones are not. A rule
                # that hangs >>> itself below a cohort is refused as a loop for that one only. Such streams are
                # compared to themselves after an empty first stream.
                o.events['flush joins with >>> in the tree'] += 1
                for n in range(1, len(got)):
                    if got[n] != want[n]:
                        r2 = run.run([V, '-g', pg] + opts, '"<x>"\n\t"x" y\n' + F + segs[n], timeout=20, retry=False)
                        want[n] = norm(re.split(r'(?m)^<STREAMCMD:FLUSH>\n', r2.text)[-1])
            if got != want and 'Enumeration will be global from here on' in r.etext + ''.join(x.etext for x in base):
                # once a rule has made a dependency over a window boundary, the rest of the run is numbered globally, as announced
                o.events['numbering turned global'] += 1
                return
            if got != want:
                for n in range(max(len(got), len(want))):
                    if n >= len(got) or n >= len(want) or got[n] != want[n]:
                        break
                o.bad('flush', '%s: stream %d after the others: %s' % (' '.join(opts), n, c.diff(want[n] if n < len(want) else '', got[n] if n < len(got) else '')),
                      dict(files, joined=r.text))
                return
        if not indep or 'DELIMIT' in g.replace('DELIMITERS', ''):
            return
        ws = windows(G, rng.choice([2, 3, 5]))
        if re.search('SETPARENT|SETCHILD|SWITCHPARENT|REMPARENT', g):
            # see above about >>> being cohort 0 only the first time
            def alone(w):
                r = go('"<x>"\n\t"x" y\n' + F + w, d)
                if not r.timeout:
                    r.out = r.out.split(F.encode(), 1)[-1]
                return r
        else:
            def alone(w):
                return go(w, d)
        singles = [alone(w) for w in ws]
        if any(b'Enumeration will be global' in x.err for x in singles):
            o.events['numbering turned global'] += 1
            return
        if any(x.timeout or len(x.out) > 30 * len(w) + 2000 or b'ndless loop detected' in x.err for x, w in zip(singles, ws)):
            o.inconclusive += 1
            return
        for _ in range(2):
            order = [rng.randrange(len(ws)) for _ in range(len(ws) * rng.choice([1, 2, 3]))]
            s = ''.join(ws[k] for k in order)
            r = run.run([V, '-g', pg] + opts, s, timeout=20, retry=False)
            o.evals += 1
            if r.timeout:
                o.inconclusive += 1
                continue
            o.events['window orders'] += 1
            want = ''.join(singles[k].text for k in order)
            if nonum(r.text) != nonum(want):
                o.bad('windows', '%s: windows %s together and alone: %s' % (' '.join(opts), order, c.diff(nonum(want), nonum(r.text))),
                      dict(files, **{'windows.txt': s, 'got.txt': r.text, 'want.txt': want}))
                return
        if o.sample is None:
            o.sample = {'grammar': g, 'streams': segs[:1]}


def norm(t):
    """Numbers relative to the first one in the stream."""
    ids = sorted({int(x) for x in re.findall(r'(?m) ID:(\d+)', t)})
    m = {str(x): str(n) for n, x in enumerate(ids)}
    t = re.sub(r' ID:(\d+)', lambda k: ' ID:n' + m[k.group(1)], t)
    t = re.sub(r'( R:[^ \n:]+:)(\d+)', lambda k: k.group(1) + 'n' + m.get(k.group(2), '?'), t)
    # dependencies across windows are written as window number and three digits of position, from the first such one on
    def dep(k):
        w1, a, w2, b = int(k.group(1)), int(k.group(2)), int(k.group(3)), int(k.group(4))
        return ' #%d->%d' % (a, b) if w1 == w2 else ' #%d->%d%+d' % (a, b, w2 - w1)
    return re.sub(r'(?m) #(\d+)(\d{3})->(\d+)(\d{3})(?= |$)', dep, t)


def nonum(t):
    return re.sub(r'( R:[^ \n:]+:)(\d+)| ID:\d+', lambda k: k.group(1) or '', t)
