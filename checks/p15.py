"""P15: where windows begin and end, and how far contexts see, is exactly what delimiters, limits and --num-windows say."""
from . import common as c
from vlib import run

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2500, 'thorough': 40000}
MIN = (1200, 2000)
RULE = ('A case is a stream of cohorts, some of them delimiters or soft delimiters, and random limits and --num-windows. A probe '
        'grammar writes what each cohort sees: start and end of its window, its position from both ends, and whether marker '
        'words are visible to the left and right within and across windows. The whole output is compared with an independent '
        'computation of the segmentation. Non-trivial: at least two windows; distinct by output.')
ASSUMES = []


def segment(words, delims, soft, slimit, hlimit):
    """Windows as lists of indices into words."""
    wins, W, pend, look, back = [], None, None, False, 0
    for k in list(range(len(words))):
        if W is not None and len(W) + 1 >= slimit and soft and not look:
            look = True
            for j in range(len(W) - 1, -1, -1):
                if words[W[j]] in soft:
                    look = False
                    back += 1
                    rest = W[j + 1:]
                    del W[j + 1:]
                    W = rest
                    wins.append(W)
                    break
        if pend is not None and len(W) + 1 >= slimit and soft and words[pend] in soft:
            W.append(pend)
            W, pend, look = None, None, False
        if pend is not None and (len(W) + 1 >= hlimit or words[pend] in delims):
            W.append(pend)
            W, pend, look = None, None, False
        if W is None:
            W = []
            wins.append(W)
            pend = None
            look = False
        if pend is not None:
            W.append(pend)
        pend = k
    if pend is not None:
        W.append(pend)
    return wins, back


def case(i, rng, env, o):
    V = env.bin('vislcg3')
    ordinary = ['a', 'b', 'c', 'm', 'z']
    delims = rng.choice([['.'], ['.', '!'], [], ['.'], ['.']])
    soft = rng.choice([[], [], [','], [',', ';'], [',']])
    slimit, hlimit, nw = 300, 500, 2
    opts = []
    if soft and rng.random() < 0.8 or rng.random() < 0.2:
        slimit = rng.choice([1, 2, 3, 4, 6, 9])
        opts += ['--soft-limit', str(slimit)]
    if rng.random() < 0.4:
        hlimit = rng.choice([1, 2, 3, 5, 8, 13])
        opts += ['--hard-limit', str(hlimit)]
    if rng.random() < 0.6:
        nw = rng.choice([0, 1, 1, 2, 3, 5, 30])
        opts += ['--num-windows', str(nw)]
    span = rng.random() < 0.15
    if span:
        opts.append('--always-span')
    bydefault = rng.random() < 0.3
    # the delimiters are sets: by wordform, or by a tag of a reading
    bytag = rng.random() < 0.3
    n = rng.choice([1, 3, 8, 15, 30, 60]) if rng.random() < 0.97 else 700
    pd = rng.choice([0.1, 0.25, 0.5])
    words = []
    for _ in range(n):
        x = rng.random()
        if x < pd and delims:
            words.append(rng.choice(delims))
        elif x < pd * 1.8 and soft:
            words.append(rng.choice(soft))
        else:
            words.append(rng.choices(ordinary, [8, 8, 8, 1, 1])[0])
    L = []
    if delims:
        L.append('DELIMITERS = ' + ' '.join(('(CLB%d)' % delims.index(w)) if bytag else '"<%s>"' % w for w in delims) + ' ;')
    if soft:
        L.append('SOFT-DELIMITERS = ' + ' '.join('"<%s>"' % w for w in soft) + ' ;')
    # probes: (tag, rule, what the tag should depend on)
    P = [
        ('BOW', 'ADD (BOW) (*) (-1 (>>>)) ;'),
        ('EOW', 'ADD (EOW) (<<<) ;'),
        ('p1', 'ADD (p1) (p) (0 (*)) (@1 (*) LINK 0 (<<<)) ;'),
        ('lm', 'ADD (lm) (p) (-1* ("<m>")) ;'),
        ('rm', 'ADD (rm) (p) (1* ("<m>")) ;'),
        ('lw', 'ADD (lw) (p) (-1*< ("<m>")) ;'),
        ('rw', 'ADD (rw) (p) (1*> ("<m>")) ;'),
        ('lb', 'ADD (lb) (p) (-1*W ("<z>")) ;'),
        ('rb', 'ADD (rb) (p) (1*W ("<z>")) ;'),
        ('l2', 'ADD (l2) (p) (@2 ("<m>") OR ("<a>")) ;'),
        ('e2', 'ADD (e2) (p) (@-2 ("<b>") OR ("<z>")) ;'),
    ]
    sel = rng.sample(P, rng.choice([3, 6, 11]))
    if span:
        sel = [p for p in sel if p[0] not in ('BOW', 'p1', 'l2', 'e2')] or [P[1]]
    wins, back = segment(words, set(delims), set(soft), slimit, hlimit)
    if back:
        # splitting a buffered window leaves more windows in the buffer than asked for
        sel = [p for p in sel if p[0] not in ('lw', 'rw', 'lb', 'rb') and not (span and p[0] in ('lm', 'rm'))] or [P[1]]
    L.append('BEFORE-SECTIONS' if rng.random() < 0.5 else 'SECTION')
    L += [p[1] for p in sel]
    g = '\n'.join(L) + '\n'
    s = []
    for k, w in enumerate(words):
        s.append('"<%s>"' % w)
        s.append('\t"%s%d" p' % (w if w.isalpha() else 'x', k) + (' CLB%d' % delims.index(w) if bytag and w in delims else ''))
        if rng.random() < 0.1:
            s.append('text %d' % k)
    s = '\n'.join(s) + '\n'
    # what each probe must have written
    exp = {}
    for wi, W in enumerate(wins):
        lo, hi = max(0, wi - nw), min(len(wins), wi + nw + 1)
        before = [k for x in wins[lo:wi] for k in x]
        after = [k for x in wins[wi + 1:hi] for k in x]
        for pos, k in enumerate(W):
            left, right = W[:pos], W[pos + 1:]
            lall, rall = before + left, right + after
            t = set()
            if pos == 0:
                t.add('BOW')
            if pos == len(W) - 1:
                t.add('EOW')
            if len(W) == 1:
                t.add('p1')

            def has(w, ks):
                return any(words[x] == w for x in ks)
            if has('m', lall if span else left):
                t.add('lm')
            if has('m', rall if span else right):
                t.add('rm')
            if has('m', lall):
                t.add('lw')
            if has('m', rall):
                t.add('rw')
            if has('z', lall):
                t.add('lb')
            if has('z', rall):
                t.add('rb')
            if len(W) >= 2 and words[W[1]] in 'ma':
                t.add('l2')
            if len(W) >= 2 and words[W[-2]] in 'bz':
                t.add('e2')
            exp[k] = [p[0] for p in sel if p[0] in t]
    out = []
    k = -1
    for line in s.split('\n'):
        if line.startswith('\t'):
            k += 1
            line = ' '.join([line] + exp[k])
        out.append(line)
    e = '\n'.join(out)
    with run.Scratch() as d:
        r = run.run([V, '-g', d.put('g.cg3', g)] + opts, s)
    o.evals += 1
    if r.timeout:
        o.inconclusive += 1
        return
    o.events['windows'] += len(wins)
    o.events['cohorts'] += n
    o.events['soft splits possible'] += 1 if soft and slimit < n else 0
    o.events['hard splits possible'] += 1 if hlimit < n else 0
    o.events['num-windows %d' % nw] += 1
    if len(wins) > 1:
        o.sigs.add(hash(r.text))
    if r.rc != 0:
        o.bad('exit', 'rc=%s %s' % (r.rc, r.etext[-300:]), {'g.cg3': g, 'in.txt': s})
    elif r.text != e:
        o.bad('segmentation', '%s: %s\nwindows %s' % (' '.join(opts), c.diff(e, r.text), [[words[k] for k in W] for W in wins][:12]),
              {'g.cg3': g, 'in.txt': s, 'expected.txt': e, 'out.txt': r.text, 'opts': ' '.join(opts)})
    if o.sample is None:
        o.sample = {'grammar': g, 'options': opts, 'words': ' '.join(words)[:200], 'windows': len(wins)}
