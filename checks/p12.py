"""P12: what the rules do not touch passes through unchanged, and disambiguation only ever removes readings."""
import re

from . import common as c
from vlib import rich, run, streamio

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2400, 'thorough': 40000}
MIN = (1200, 2000)
RULE = ('Even cases: a document with a rich vocabulary (unicode, spaces in quotes, sub-readings, mappings, static tags, text lines) '
        'run through a grammar none of whose rules can apply, compared exactly with the canonical rendering. Odd cases: a random '
        'SELECT/REMOVE/IFF grammar, whose output cohorts, readings, tags and text are traced back to the input. Non-trivial: a '
        'document with readings, or an analysis which removed something; distinct by output.')
ASSUMES = ['mapping tags are normalised to the end of a reading, and readings differing only in mapping tags are merged on output '
           'unless --split-mappings is given']

NOOP = [
    'SELECT (zzz) ;', 'REMOVE (zzz) ;', 'REMOVE UNSAFE (zzz) ;', 'ADD (@q) (zzz) ;', 'MAP (@q) (zzz) ;', 'SELECT (*) (0 (zzz)) ;',
    'REMOVE UNSAFE (*) (1* (zzz)) ;', 'REPLACE (q) (zzz) ;', 'SUBSTITUTE (zzz) (q) (*) ;', 'APPEND ("q" r) (zzz) ;',
    'REMCOHORT (zzz) ;', 'ADDCOHORT ("<q>" "q" r) AFTER (zzz) ;', 'DELIMIT (zzz) ;', 'COPY (q) (zzz) ;', 'IFF (zzz) (1 (*)) ;',
    'SETVARIABLE (a) (b) (zzz) ;', 'WITH (zzz) { ADD (q) (*) ; } ;', 'MOVE (zzz) AFTER (1 (*)) ;', 'REMOVE (*) ;',
    'SPLITCOHORT ("<a>" "a" b "<c>" "c" d) (zzz) ;', 'PROTECT (zzz) ;', 'UNMAP (zzz) ;', 'RESTORE (zzz) (*) ;', 'JUMP (x) (zzz) ;',
    '"<zzz>" REMCOHORT (*) ;', 'SELECT (*) ;', 'ADD (q) (*) (0 (zzz)) (1 (*)) ;', 'SWITCH (zzz) WITH (1 (*)) ;',
    'MERGECOHORTS ("<q>" "q") (zzz) WITH (1 (*)) ;', 'COPYCOHORT ("<q>") (zzz) TO (1 (*)) ;', 'ADD (q) (*) (*1 (zzz) BARRIER (*)) ;',
    'REMOVE UNSAFE (*) (NEGATE 0 (*)) ;',
]


def noop(rng):
    L = ['DELIMITERS = "<.>" ;']
    if rng.random() < 0.3:
        L.append('SOFT-DELIMITERS = "<,>" ;')
    secs = rng.choice([['SECTION'], ['SECTION', 'SECTION'], ['BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS'], ['AFTER-SECTIONS']])
    for s in secs:
        L.append(s)
        for _ in range(rng.choice([0, 1, 2, 5])):
            x = rng.choice(NOOP)
            if x.startswith('JUMP'):
                x = 'ANCHOR x%d ; JUMP (x%d) (zzz) ;' % (len(L), len(L))
            L.append(x)
    return '\n'.join(L) + '\n'


OPTS = [[], [], [], ['--num-windows', '0'], ['--num-windows', '5'], ['--always-span'], ['--soft-limit', '2'], ['--hard-limit', '3'],
        ['--soft-limit', '1', '--hard-limit', '4'], ['--single-run'], ['--max-runs', '2'], ['-v', '0'], ['-t'], ['--no-sections'],
        ['--unicode-tags'], ['--unique-tags'], ['--split-mappings'], ['--dry-run'],
        ['--magic-readings'], ['--no-magic-readings'], ['--no-pass-origin'], ['--num-windows', '1', '--hard-limit', '2']]


def key(ls):
    return '\n'.join('%d%s' % (d, x) for d, x in ls)


def levels(r):
    return [(d, streamio.split_tags(x)) for d, x in r]


def case(i, rng, env, o):
    V = env.bin('vislcg3')
    with run.Scratch() as d:
        if i % 2 == 0:
            split = False
            opts = rng.choice(OPTS)
            D = rich.Rich(rng, maps=0.0 if '--split-mappings' in opts else 0.3, sub=0.25)
            if rng.random() < 0.08:
                D.ncoh = (60, 160)
                D.pdelim = rng.choice([0, 0.02, 0.5])
            doc = D.doc()
            s, e = rich.render(doc, rng), rich.expected(doc)
            if not s:
                return
            g = noop(rng)
            if '--unique-tags' in opts or '--no-magic-readings' in opts or '--magic-readings' in opts:
                opts = []
            r = run.run([V, '-g', d.put('g.cg3', g)] + opts, s)
            o.evals += 1
            if r.timeout:
                o.inconclusive += 1
                return
            o.events['exact'] += 1
            o.events['cohorts'] += len(doc[1])
            o.events['readings'] += sum(len(x.readings) for x in doc[1])
            o.events['opt ' + ' '.join(opts)] += 1
            out = r.text
            if any(x.readings for x in doc[1]):
                o.sigs.add(hash(out))
            if r.rc != 0:
                o.bad('passthrough-exit', 'rc=%s %s\n%s' % (r.rc, opts, r.etext[-400:]), {'g.cg3': g, 'in.txt': s})
            elif out != e:
                o.bad('passthrough', '%s %s' % (opts, c.diff(e, out)), {'g.cg3': g, 'in.txt': s, 'expected.txt': e, 'out.txt': out})
            if o.sample is None:
                o.sample = {'grammar': g, 'input': s[:300]}
            return
        prof = ['dis', 'sub', 'par'][i // 2 % 3]
        kw = {'types': c.DIS}
        if i % 4 == 1:
            kw['mapping'] = 0
        G, g = c.make(rng, prof, **kw)
        s = G.stream()
        opts = [] if rng.random() < 0.6 else ['--split-mappings']
        if kw.get('mapping') != 0:
            opts = ['--split-mappings']
        r = run.run([V, '-g', d.put('g.cg3', g)] + opts, s, timeout=10, retry=False)
        o.evals += 1
        if r.timeout:
            o.inconclusive += 1
            return
        if not c.grammar_ok(r):
            o.events['grammar refused'] += 1
            return
        files = {'g.cg3': g, 'in.txt': s, 'out.txt': r.out}
        if r.rc != 0:
            o.bad('disambig-exit', 'rc=%s %s' % (r.rc, r.etext[-400:]), files)
            return
        # the same text through a grammar which does nothing gives the normalised input
        base = run.run([V, '-g', d.put('n.cg3', 'DELIMITERS = "<.>" ;\nSECTION\n')] + opts, s).text
        A, B = streamio.parse(base), streamio.parse(r.text)
        o.events['disambiguations'] += 1
        unsafe = 'UNSAFE' in g
        if len(A) != len(B):
            o.bad('disambig-cohorts', 'cohorts or text lines lost or invented: %d items became %d; %s' % (len(A), len(B), c.diff(base, r.text)), files)
            return
        for a, b in zip(A, B):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    o.bad('disambig-text', 'text changed: %r became %r' % (a, b), files)
                    return
                continue
            if a.word != b.word or a.static != b.static:
                o.bad('disambig-word', 'cohort %r %r became %r %r' % (a.word, a.static, b.word, b.static), files)
                return
            ka = [key(x) for dl, x in a.readings]
            kb = [key(x) for dl, x in b.readings]
            if 'UNMAPLAST' in g:
                ka, kb = [[re.sub(r' @\S+', '', x) for x in k] for k in (ka, kb)]
            o.events['cohorts'] += 1
            o.events['readings kept'] += len(kb)
            o.events['readings dropped'] += len(ka) - len(kb)
            sub = prof == 'sub'
            if ka and not kb:
                if unsafe:
                    o.events['emptied by unsafe rules'] += 1
                    continue
                o.bad('disambig-last', 'cohort %s lost its last reading' % a.word, files)
                return
            # every output reading is an input reading, in the input's order
            it = iter(ka)
            if not all(any(x == y for y in it) for x in kb):
                if unsafe and len(kb) == 1 and b.readings[0][1][0][1].strip() == a.word.replace('<', '').replace('>', ''):
                    continue
                o.bad('disambig-reading', 'cohort %s: readings %r are not a subsequence of the input readings %r' % (a.word, kb, ka), files)
                return
        if r.text != base:
            o.sigs.add(hash(r.text))
            o.events['changed'] += 1
