"""P13: every stream format carries the same analyses."""
import re

from . import common as c
from vlib import run, streamio

BUILDS = {'plain': ('vislcg3', 'cg-conv')}
N = {'quick': 1800, 'thorough': 30000}
MIN = (700, 3000)
RULE = ('A case is either a random document within what a format can express, taken through a chain of one to three conversions and '
        'back, or a random grammar and stream where analysing a converted stream (which converts back unharmed) is compared with '
        'analysing the original. Non-trivial: at least one cohort came through; distinct by output.')
ASSUMES = ['blank lines and plain text between cohorts are not compared, nor the enumeration of windows',
           'what a format cannot hold (sub-readings in Niceline, say) is not put into it']

FMTS = ['niceline', 'apertium', 'fst', 'jsonl', 'binary']
BASE = 'abcdeXYZ019éñß漢'
# What words and base forms, and tags, may also hold
WORD = {'niceline': "-.,:;!?'()/+#*&%=$@{}^~", 'apertium': "-.,:;!?'()&%=*~/^$[]{}\\@<>", 'fst': "-.,:;!?'()/\\*&%=$@{}[]^~<>",
        'jsonl': "-.,:;!?'()/\\+#*&%=$@{}[]^~<>😀", 'binary': "-.,:;!?'()/\\+#*&%=$@{}[]^~<>😀"}
TAG = {'niceline': '-.:!?_/&%', 'apertium': '-.:!?_&%', 'fst': '-.:!?_/&%', 'jsonl': '-.:!?_/&%\\{}[]+;\'', 'binary': '-.:!?_/&%\\{}[]+;\''}
DEBUG = []


def word(rng, extra, n=(1, 5), space=0.0):
    s = ''.join(rng.choice(BASE) if not extra or rng.random() < 0.75 else rng.choice(extra) for _ in range(rng.randint(*n)))
    if not any(ch.isalnum() for ch in s) or s[0] == '<' and s[-1] == '>':
        s += rng.choice(BASE)
    if space and rng.random() < space:
        s = s + ' ' + rng.choice(BASE)
    return s


def doc(rng, fmts):
    wx = ''.join(sorted(set.intersection(*[set(WORD[f]) for f in fmts])))
    tx = ''.join(sorted(set.intersection(*[set(TAG[f]) for f in fmts])))
    sub = 'niceline' not in fmts and rng.random() < 0.4
    mapt = rng.random() < 0.4
    static = all(f in ('jsonl', 'binary') for f in fmts) and rng.random() < 0.4
    dele = fmts == ['binary'] and rng.random() < 0.3
    many = rng.random() < 0.1
    out = []
    pool = [word(rng, tx, (1, 4)) for _ in range(5)]
    pool = [('x' + t if not t[0].isalpha() else t) for t in pool]

    def rd(main):
        b = word(rng, wx, space=0.15)
        tags = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 40 if many else 3]))]
        tags = [t for j, t in enumerate(tags) if t not in tags[:j]]
        if mapt and main and rng.random() < 0.6:
            tags.append('@' + rng.choice('abc'))
        return [b] + (tags or [rng.choice(pool)])

    for k in range(rng.randint(1, 12)):
        w = word(rng, wx, (1, 6), space=0.1)
        st = [rng.choice(pool) for _ in range(rng.randint(1, 2))] if static and rng.random() < 0.5 else []
        st = [t for j, t in enumerate(st) if t not in st[:j]]
        rs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = [rd(True)]
            while sub and rng.random() < 0.3 and len(r) < 4:
                r.append(rd(False))
            if not any(sorted(t for t in a[0] if t[0] != '@') == sorted(t for t in r[0] if t[0] != '@') for a in rs):
                rs.append(r)
        out.append((w, st, rs))
    return out


def render(d, rng):
    L = []
    for w, st, rs in d:
        L.append(' '.join(['"<%s>"' % w] + st))
        for r in rs:
            for k, x in enumerate(r):
                L.append('\t' * (k + 1) + ' '.join(['"%s"' % x[0]] + x[1:]))
        if rng.random() < 0.15:
            L.append('')
    return '\n'.join(L) + '\n'


def view(text):
    """The cohorts of a CG stream."""
    out = []
    for it in streamio.parse(text):
        if isinstance(it, streamio.C):
            out.append((it.word, tuple(it.static), it.removed, tuple((d, tuple((k, l) for k, l in ls)) for d, ls in it.readings)))
    return out


RID = re.compile(r'(?<!\S)(ID:|R:\S+?:)(\d+)(?!\S)')


def renumber(text):
    """IDs, and the relations that refer to them, as the order in which the cohorts come."""
    ids = {}
    for m in RID.finditer(text):
        if m.group(1) == 'ID:':
            ids.setdefault(m.group(2), len(ids))
    return RID.sub(lambda m: m.group(1) + str(ids.get(m.group(2), 'elsewhere')), text)


def conv(env, a, b, data, cwd=None):
    return run.run([env.bin('cg-conv'), '--in-' + a, '--out-' + b], data, timeout=10, cwd=cwd)


def chain_case(i, rng, env, o):
    fmts = [rng.choice(FMTS)]
    while rng.random() < 0.35 and len(fmts) < 3:
        fmts.append(rng.choice(FMTS))
    d = doc(rng, fmts)
    s = render(d, rng)
    want = view(s)
    cur, prev = s.encode(), 'cg'
    steps = [s]
    for f in fmts + ['cg']:
        r = conv(env, prev, f, cur)
        o.evals += 1
        if r.timeout:
            o.inconclusive += 1
            return
        if r.rc != 0:
            o.bad('fails ' + '>'.join(['cg'] + fmts), 'cg-conv %s to %s exits %s: %s' % (prev, f, r.rc, r.etext[-300:]), {'in.txt': s, 'step': repr(cur)})
            return
        cur, prev = r.out, f
        steps.append(repr(cur) if f == 'binary' else cur.decode('utf-8', 'replace'))
    got = view(cur.decode('utf-8', 'replace'))
    o.evals += len(want)
    o.events['conversion chains'] += 1
    for f in fmts:
        o.events['through ' + f] += 1
    o.events['cohorts converted'] += len(want)
    o.sigs.add(hash(tuple(got)))
    if o.sample is None:
        o.sample = {'chain': fmts, 'input': s[:300], 'last but one': steps[-2][:300]}
    if got != want:
        k = next((k for k in range(max(len(got), len(want))) if got[k:k + 1] != want[k:k + 1]))
        o.bad('chain ' + '>'.join(['cg'] + fmts), 'cg>%s>cg: cohort %d was %s, became %s' % ('>'.join(fmts), k, want[k:k + 1], got[k:k + 1]),
              {'in.txt': s, 'steps': '\n----\n'.join(steps)})


PROF = ['dis', 'dis_tags', 'tags', 'coh', 'sub', 'unif', 'vars', 'par', 'dep', 'rel', 'all']


def analysis_case(i, rng, env, o):
    f = rng.choice(FMTS)
    lossy = f in ('niceline', 'fst', 'apertium')
    # No relations in the input, nor tests into other windows: how far the reader is ahead is a matter of the format
    extra = {'text': 0.0, 'deleted': 0.0, 'emptyw': 0.0, 'static': 0.0, 'meta': 0.0, 'magic': 0.0, 'reldata': 0.0, 'span': 0.0}
    if f == 'niceline':
        extra['subread'] = 0.0
    prof = rng.choice(PROF)
    if lossy:
        extra.update({'wread': 0.0, 'num': 0.0})
    G, g = c.make(rng, prof, **extra)
    if f == 'binary':
        s = '\n'.join(G.window()) if isinstance(G.window(), list) else G.window()
    else:
        s = G.stream()
    # The converter has no grammar to end windows with, so it can't keep the place of commands (see P16 for those)
    s = '\n'.join(l for l in s.split('\n') if not l.startswith('<STREAMCMD:')).rstrip('\n') + '\n'
    with run.Scratch() as dd:
        pg = dd.put('g.cg3', g)
        V = env.bin('vislcg3')
        x = conv(env, 'cg', f, s.encode())
        back = conv(env, f, 'cg', x.out)
        o.evals += 2
        norm = conv(env, 'cg', 'cg', s.encode())
        if x.timeout or back.timeout or view(back.text) != view(norm.text):
            o.events['not representable in ' + f] += 1
            return
        opts = ['--num-windows', str(rng.choice([0, 1, 2]))] if rng.random() < 0.5 else []
        a = run.run([V, '-g', pg] + opts, s, timeout=8, retry=False)
        if not c.grammar_ok(a):
            o.events['grammar refused'] += 1
            return
        b = run.run([V, '-g', pg, '--in-' + f, '--out-cg'] + opts, x.out, timeout=8, retry=False)
        if a.timeout or b.timeout or a.crashed:
            o.inconclusive += 1
            return
        # Readings are printed in the order of numbers, which formats give sub-readings in their own ways
        va, vb = [[x[:3] + (tuple(sorted(x[3])),) for x in view(renumber(t.text))] for t in (a, b)]
        o.events['analyses from ' + f] += 1
        o.events['cohorts analysed'] += len(va)
        o.evals += len(va)
        if va:
            o.sigs.add(hash(str(va)))
        if va != vb or a.rc != b.rc:
            o.bad('analysis ' + f, 'the analysis of the %s form differs: %s' % (f, c.diff(a.text, b.text)),
                  {'g.cg3': g, 'in.txt': s, 'converted': x.text if f != 'binary' else repr(x.out), 'opts': ' '.join(opts)})


def case(i, rng, env, o):
    if i % 5 < 3:
        chain_case(i, rng, env, o)
    else:
        analysis_case(i, rng, env, o)
