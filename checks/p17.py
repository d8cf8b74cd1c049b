"""P17: tracing, profiling and verbosity never change the analysis, and the trace accounts for what happened."""
import re

from . import common as c
from vlib import run, streamio

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 1300, 'thorough': 20000}
MIN = (400, 3000)
RULE = ('A case is a random grammar and stream. The output with --trace, --trace-name-only, --trace-no-removed, --profile and other '
        'verbosities is stripped of what the option adds and compared with the plain output; every trace token must name a rule of '
        'that type on that line, every reading gone from a disambiguation must be listed as removed together with the rule that '
        'did it, and every rule named as removing must have had an effect. Non-trivial: the grammar changed the stream.')
ASSUMES = ['the text following a removed cohort is compared without regard to which cohort it is printed after']

PROF = ['dis', 'dis', 'dis_tags', 'tags', 'coh', 'dep', 'rel', 'sub', 'unif', 'vars', 'with', 'par', 'all']


def strip_removed(text):
    """Drops removed cohorts and removed readings."""
    out = []
    for l in text.split('\n'):
        if re.match(r'^;\s+"', l):
            continue
        out.append(streamio.strip_trace(l) if l.startswith('\t') or l.startswith('"<') else l)
    return '\n'.join(out)


def readings(text):
    """Per cohort, the set of readings, each with one of its mapping tags (as readings merge differently when traced)."""
    out = []
    for c in streamio.parse(text):
        if isinstance(c, str):
            out.append(c)
            continue
        S = set()
        for dele, r in c.readings:
            t = [x for x in streamio.split_tags(r[0][1])]
            maps = [x for x in t if x[0] == '@'] or ['']
            rest = ' '.join(sorted(set(x for x in t if x[0] != '@')))
            sub = ' / '.join(' '.join(sorted(set(x for x in streamio.split_tags(l[1]) if x[0] != '@'))) for l in r[1:])
            for m in maps:
                S.add('%s %s | %s' % (rest, m, sub))
        out.append(c.word + ' ' + ' '.join(c.static) + '\n' + '\n'.join(sorted(S)))
    return '\n'.join(out)


def case(i, rng, env, o):
    merging(rng, env, o)
    prof = PROF[i % len(PROF)]
    kw = {}
    if prof == 'dis':
        kw['mapping'] = 0
    G, g = c.make(rng, prof, **kw)
    s = G.stream()
    V = env.bin('vislcg3')
    with run.Scratch() as d:
        pg = d.put('g.cg3', g)
        base = run.run([V, '--split-mappings', '-g', pg], s, timeout=8, retry=False)
        if not c.grammar_ok(base):
            o.events['grammar refused'] += 1
            return
        if base.timeout:
            o.inconclusive += 1
            return
        files = {'g.cg3': g, 'in.txt': s, 'plain.txt': base.out}
        tr = run.run([V, '-t', '--split-mappings', '-g', pg], s, timeout=12, retry=False)
        if tr.timeout:
            o.inconclusive += 1
            return
        o.evals += 1
        o.events['profile ' + prof] += 1
        plain = base.text
        if plain != s:
            o.sigs.add(hash(plain))
        if o.sample is None:
            o.sample = {'grammar': g, 'traced': tr.text[:500]}
        files['trace.txt'] = tr.out

        def same(key, got, want, extra=''):
            o.evals += 1
            if got != want:
                o.bad(key, '%s %s' % (extra, c.diff(want, got)), files)

        if base.rc != tr.rc:
            o.bad('trace-exit', 'rc %s without and %s with --trace' % (base.rc, tr.rc), files)
        same('trace', strip_removed(tr.text), plain)
        tno = run.run([V, '--trace-no-removed', '--split-mappings', '-g', pg], s, timeout=12, retry=False)
        if not tno.timeout:
            same('trace-no-removed', streamio_strip(tno.text), plain)
        r = run.run([V, '--trace-name-only', '--split-mappings', '-g', pg], s, timeout=12, retry=False)
        if not r.timeout:
            same('trace-name-only', strip_removed(r.text), plain)
        x = (0, 0, 1, 2)[i % 4]
        if x == 0:
            r = run.run([V, '--profile', d.path('p.sqlite'), '--split-mappings', '-g', pg], s, timeout=25)
            if not r.timeout:
                o.events['profiled'] += 1
                same('profile', r.text, plain)
            a = run.run([V, '-g', pg], s, timeout=8, retry=False)
            r = run.run([V, '--profile', d.path('p.sqlite'), '-g', pg], s, timeout=25)
            if not r.timeout and not a.timeout:
                same('profile-merged', r.text, a.text)
        elif x == 1:
            r = run.run([V, '-v', '2', '--split-mappings', '-g', pg], s, timeout=25)
            if not r.timeout:
                same('verbose', r.text, plain)
        elif x == 2:
            r = run.run([V, '--quiet', '--split-mappings', '-g', pg], s, timeout=25)
            if not r.timeout:
                same('quiet', r.text, plain)
        if i % 3 == 0 and 'MAPPING-PREFIX' not in g:
            a = run.run([V, '-g', pg], s, timeout=8, retry=False)
            b = run.run([V, '-t', '-g', pg], s, timeout=8, retry=False)
            if not a.timeout and not b.timeout:
                o.events['merged outputs compared'] += 1
                same('trace-merged', readings(strip_removed(b.text)), readings(a.text))
        # every token names a rule of that type on that line
        src = g.split('\n')
        for m in re.finditer(r' ([A-Z][A-Z-]+)(?:\([^ ]*\))?:(\d+)(?::([^ \n]+))?(?= |\n|$)', tr.text):
            if not streamio.TRACE.match(m.group(0)):
                continue
            ty, ln, nm = m.group(1), int(m.group(2)), m.group(3)
            o.events['trace tokens'] += 1
            line = src[ln - 1] if 0 < ln <= len(src) else ''
            base_ty = re.sub(r'-(AFTER|BEFORE)$', '', ty)
            words = re.findall(r'[A-Z]+(?=[: ])', line)
            if base_ty not in words:
                o.bad('trace-token', 'trace token %r names line %d, which is %r' % (m.group(0), ln, line), files)
                return
            if nm and not re.search(r'%s:%s\b' % (base_ty, re.escape(nm)), line):
                o.bad('trace-name', 'trace token %r names line %d, which is %r' % (m.group(0), ln, line), files)
                return
        if prof == 'dis':
            account(o, g, src, s, tr, V, d, files)


def streamio_strip(t):
    return '\n'.join(streamio.strip_trace(l) if l.startswith('\t') or l.startswith('"<') else l for l in t.split('\n'))


def merging(rng, env, o):
    """Readings that differ in mapping tags only, or come to, by rules on them and on their sub-readings."""
    T = ['s', 'u', 'q']
    rules = []
    for _ in range(rng.randint(1, 6)):
        t, u = rng.choice(T), rng.choice(T)
        sub = rng.choice(['', '', ' SUB:1'])
        ctx = rng.choice(['', '', ' (1 (%s))' % rng.choice(T), ' (-1 (%s))' % rng.choice(T), ' (NOT 0 (@x))'])
        rules.append(rng.choice(['SUBSTITUTE%s (%s) (%s) (%s)' % (sub, t, u, t), 'SUBSTITUTE%s (%s) (*) (%s)' % (sub, t, t), 'ADD%s (%s) (%s)' % (sub, t, u),
                                 'MAP%s (@x) (%s)' % (sub, t), 'ADD%s (@y) (%s)' % (sub, t), 'COPY (%s) (%s)' % (t, u), 'REMOVE%s (%s)' % (sub, t), 'UNMAP (%s)' % t,
                                 'SELECT%s (%s)' % (sub, t), 'REPLACE%s (%s) (%s)' % (sub, t, u)]) + ctx + ' ;')
    g = 'DELIMITERS = "<.>" ;\nSECTION\n' + '\n'.join(rules) + '\n'
    out = []
    for _ in range(rng.randint(1, 6)):
        out.append('"<a>"')
        for _ in range(rng.randint(1, 5)):
            out.append('\t"a"%s%s' % (rng.choice(['', ' s', ' u', ' s u']), rng.choice(['', '', ' @x', ' @y', ' @x @y'])))
            if rng.random() < 0.5:
                out.append('\t\t"b"%s' % rng.choice(['', ' s', ' u', ' s u']))
    s = '\n'.join(out) + '\n'
    V = env.bin('vislcg3')
    with run.Scratch() as d:
        pg = d.put('g.cg3', g)
        a = run.run([V, '-g', pg], s, timeout=8, retry=False)
        b = run.run([V, '-t', '-g', pg], s, timeout=8, retry=False)
        if a.timeout or b.timeout or a.rc:
            o.events['merging: not run'] += 1
            return
        o.evals += 1
        o.events['merging cases'] += 1
        if readings(strip_removed(b.text)) != readings(a.text):
            o.bad('trace-merged', c.diff(readings(a.text), readings(strip_removed(b.text))), {'g.cg3': g, 'in.txt': s, 'plain.txt': a.out, 'trace.txt': b.out})


def account(o, g, src, s, tr, V, d, files):
    """Disambiguation: what came in is what is kept plus what is listed as removed, each with a rule that removes."""
    base = run.run([V, '-g', d.put('n.cg3', 'DELIMITERS = "<.>" ;\nSECTION\n')], s).text
    A = [x for x in streamio.parse(base) if not isinstance(x, str)]
    B = [x for x in streamio.parse(tr.text) if not isinstance(x, str)]
    if len(A) != len(B):
        o.bad('account-cohorts', '%d cohorts in, %d in the trace' % (len(A), len(B)), files)
        return
    for a, b in zip(A, B):
        ka = sorted(' '.join(x for _, x in r) for _, r in a.readings)
        kb = []
        n_sel = 0
        for dele, r in b.readings:
            txt = ' '.join(x for _, x in r)
            hits = re.findall(r' (SELECT|REMOVE|IFF):(\d+)', txt)
            t = streamio.strip_trace(txt)
            # a cohort emptied by unsafe rules gets a reading of its own
            if t not in ka and not dele and t.strip('"') == a.word.strip('"<>'):
                continue
            kb.append(t)
            o.events['readings accounted'] += 1
            if dele:
                o.events['removals accounted'] += 1
                if not hits:
                    o.bad('account-rule', 'cohort %s: reading %r was removed, but no rule is named' % (a.word, txt), files)
                    return
        if sorted(kb) != ka:
            o.bad('account-readings', 'cohort %s: in %r; kept or listed as removed %r' % (a.word, ka, sorted(kb)), files)
            return
