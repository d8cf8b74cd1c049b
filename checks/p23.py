"""P23: no valid grammar on any input makes the programs touch memory they do not own or rely on undefined behaviour."""
import os
import re

from . import common as c
from vlib import rich, run

BUILDS = {'san': ('vislcg3', 'cg-comp', 'cg-conv', 'cg-proc', 'cg-mwesplit', 'cg-relabel', 'cg-annotate', 'cg-merge-annotations')}
N = {'quick': 3200, 'thorough': 60000}
MIN = (800, 3000)
RULE = ('A case is a random well-formed grammar (every rule type, test kind and set construction of the generator) and a random or '
        'rich stream, run through one or more of the programs, built with AddressSanitizer and UndefinedBehaviorSanitizer: vislcg3 '
        'on text and compiled grammars with every output option, cg-conv between formats, cg-proc, cg-mwesplit, cg-relabel, and '
        'profiling with cg-annotate. Any sanitizer report or death by signal is a violation. Non-trivial: the program produced '
        'output that differs from its input; distinct by output.')
ASSUMES = ['runs that do not end within the time limit are inconclusive (a rule may feed itself forever)',
           'the sanitizers see what an execution touches; memory that is initialised wrongly but owned is left to the other checks']

PROF = ['all', 'all', 'all', 'coh', 'dep', 'rel', 'sub', 'unif', 'with', 'par', 'vars', 'tags', 'all', 'dis_tags']
OPTS = [[], [], [], ['-t'], ['-t'], ['--trace-encl', '-t'], ['--num-windows', '0'], ['--num-windows', '1'], ['--num-windows', '5'],
        ['--always-span'], ['--soft-limit', '2'], ['--hard-limit', '3'], ['--soft-limit', '1', '--hard-limit', '4'],
        ['--single-run'], ['--max-runs', '2'], ['--unicode-tags'], ['--unique-tags'], ['--split-mappings'], ['--dry-run'],
        ['--no-magic-readings'], ['--no-pass-origin'], ['--print-ids'], ['--print-dep'], ['--dep-delimit'], ['--dep-delimit', '3'],
        ['--dep-absolute'], ['--dep-original'], ['--dep-allow-loops'], ['--dep-no-crossing'], ['--deleted'], ['-v', '3'],
        ['--text-delimit'], ['--text-delimit', '--num-windows', '1'], ['--text-delimit', '/^T/'], ['--no-mappings'],
        ['--no-corrections'], ['--no-before-sections'], ['--no-sections'], ['--no-after-sections'], ['--sections', '1'],
        ['--rules', '8-20'], ['--rule', '10'], ['--prefix', 'P'], ['--nrules', 'r[12]'], ['--nrules-v', 'r1'], ['-e'], ['-u'], ['--ordered'], ['-d'], ['--no-break'], ['--trace-no-removed'],
        ['--show-tags'], ['--show-tag-hashes'], ['--grammar-only'], ['--show-unused-sets'], ['--show-set-hashes'], ['--dump-ast'], ['--debug-rules', '9-12']]
OUT = ['--out-cg', '--out-niceline', '--out-apertium', '--out-fst', '--out-jsonl', '--out-binary', '--out-plain', '--out-matxin']
CIN = {'cg': '-c', 'niceline': '-n', 'apertium': '-a', 'fst': '-f', 'plain': '-x', 'jsonl': '-j', 'binary': '-z'}
COUT = {'cg': '-C', 'niceline': '-N', 'apertium': '-A', 'fst': '-F', 'plain': '-X', 'jsonl': '-J', 'binary': '-Z', 'matxin': '-M'}


def judge(o, what, r, files):
    o.evals += 1
    o.events['run ' + what] += 1
    if r.timeout:
        o.inconclusive += 1
        o.events['timeouts'] += 1
        return False
    e = r.etext
    if 'hard rss limit' in e or 'out of memory' in e or 'allocation-size-too-big' in e or 'bad_alloc' in e:
        o.inconclusive += 1
        o.events['out of memory'] += 1
        return False
    if 'AddressSanitizer' in e or 'runtime error:' in e or r.rc is not None and (r.rc < 0 or r.rc in (98, 99)):
        m = re.search(r'(ERROR: AddressSanitizer|runtime error:|Assertion|terminate called)[^\n]*', e)
        fr = '\n'.join(x for x in e.split('\n') if re.match(r'\s*#\d+ ', x))[:1500]
        k = run.san_key(e)
        o.bad(k, '%s: exit %s: %s\n%s' % (what, r.rc, m.group(0) if m else e[-300:], fr), dict(files, stderr=e))
        return False
    if r.rc == 0 and len(r.out) > 3:
        o.sigs.add(hash(r.out))
    return r.rc == 0


def stream(G, rng):
    """A text stream from the generator, with commands and text between."""
    s = G.stream()
    x = rng.random()
    if x < 0.35:
        L = s.split('\n')
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.randrange(len(L))
            L.insert(k, rng.choice(['<STREAMCMD:FLUSH>', '<STREAMCMD:FLUSH>', '<STREAMCMD:IGNORE>', '<STREAMCMD:RESUME>', '',
                                    '<STREAMCMD:SETVAR:v1=x,v2>', '<STREAMCMD:REMVAR:v1>', 'T text', 'some text', '</s>',
                                    '; "<x>"', ';\t"a" N', '"<x>"', '\t\t"sub" N', '<STREAMCMD:EXIT>' if rng.random() < 0.1 else 'q']))
        s = '\n'.join(L)
    return s


def case(i, rng, env, o):
    with run.Scratch() as d:
        x = i % 10
        if x < 6:
            grammar_run(i, rng, env, o, d)
        elif x < 8:
            convert(i, rng, env, o, d)
        elif x == 8:
            proc(i, rng, env, o, d)
        else:
            others(i, rng, env, o, d)


def sr(argv, stdin=b'', **k):
    return run.run(argv, stdin, timeout=k.pop('timeout', 20), retry=False, san=True, **k)


def grammar_run(i, rng, env, o, d):
    prof = rng.choice(PROF)
    G, g = c.make(rng, prof)
    V = env.bin('vislcg3')
    pg = d.put('g.cg3', g)
    opts = list(rng.choice(OPTS))
    if rng.random() < 0.3:
        opts += rng.choice(OPTS)
    s = stream(G, rng)
    files = {'g.cg3': g, 'in.txt': s, 'opts.txt': ' '.join(opts)}
    o.events['profile ' + prof] += 1
    if rng.random() < 0.25:
        r = sr([env.bin('cg-comp'), pg, d.path('g.bin')])
        if not judge(o, 'cg-comp', r, files):
            return
        pg = d.path('g.bin')
        opts = [q for q in opts if not q.startswith(('--show', '--dump', '--grammar'))]
    if rng.random() < 0.12:
        opts += ['--profile', d.path('p.db')]
    if rng.random() < 0.2:
        opts += [rng.choice(OUT)]
    sin = s
    if rng.random() < 0.15:
        f = rng.choice(['jsonl', 'binary', 'niceline', 'apertium'])
        r = sr([env.bin('cg-conv'), '-c', COUT[f]] + (['-D'] if rng.random() < 0.3 else []), s)
        if judge(o, 'cg-conv to ' + f, r, files):
            sin = r.out
            opts += ['--in-' + f]
            files['in.' + f] = sin
    files['opts.txt'] = ' '.join(opts)
    r = sr([V, '-g', pg] + opts, sin)
    ok = judge(o, 'vislcg3', r, files)
    if ok and os.path.exists(d.path('p.db')):
        r = sr([env.bin('cg-annotate'), d.path('p.db'), d.path('ann')], cwd=d.d)
        judge(o, 'cg-annotate', r, files)
        r = sr([env.bin('cg-merge-annotations'), d.path('m.db'), d.path('p.db'), d.path('p.db')], cwd=d.d)
        judge(o, 'cg-merge-annotations', r, files)
    if ok and o.sample is None:
        o.sample = {'grammar': g, 'options': opts, 'stream': s[:600]}


def convert(i, rng, env, o, d):
    doc = rich.Rich(rng).doc()
    s = rich.render(doc, rng)
    f = rng.choice(list(COUT))
    flags = []
    for fl in (['-o'], ['-D'], ['--unicode-tags'], ['--deleted'], ['-B'], ['-l'], ['-p', '%'], ['--dep-delimit'], ['-S', '+'], ['-W', '2.5']):
        if rng.random() < 0.15:
            flags += fl
    C = env.bin('cg-conv')
    files = {'in.txt': s, 'opts.txt': ' '.join(flags)}
    r = sr([C, rng.choice(['-c', '-c', '-u']), COUT[f]] + flags, s)
    if judge(o, 'cg-conv to ' + f, r, files) and f != 'matxin':
        files['mid.' + f] = r.out
        h = rng.choice(list(COUT))
        r = sr([C, CIN[f], COUT[h]] + flags, r.out)
        judge(o, 'cg-conv %s to %s' % (f, h), r, dict(files, to=h))
    if rng.random() < 0.3:
        r = sr([env.bin('cg-mwesplit')], s)
        judge(o, 'cg-mwesplit', r, files)


def proc(i, rng, env, o, d):
    G, g = c.make(rng, rng.choice(['dis', 'tags', 'sub', 'coh', 'dis_tags', 'all', 'unif']))
    pg = d.put('g.cg3', g)
    r = sr([env.bin('cg-comp'), pg, d.path('g.bin')])
    files = {'g.cg3': g}
    if not judge(o, 'cg-comp', r, files):
        return
    s = G.stream()
    r = sr([env.bin('cg-conv'), '-c', '-A'], s)
    files['in.txt'] = s
    if not judge(o, 'cg-conv to apertium', r, files):
        return
    a = r.out
    if rng.random() < 0.4:
        a = a.replace(b'\n', rng.choice([b'\0', b' [blank] ', b'\\^', b'[[t:b:1]]']))
    files['in.ap'] = a
    opts = []
    for fl in (['-t'], ['-n'], ['-g'], ['-1'], ['-w'], ['-s', '1'], ['-d'], ['-r', 'r1']):
        if rng.random() < 0.2:
            opts += fl
    x = rng.random()
    if x < 0.12:
        opts += ['-f', '2']
    elif x < 0.24:
        opts += ['-f', '0']
        a = s
    r = sr([env.bin('cg-proc')] + opts + [d.path('g.bin')], a)
    judge(o, 'cg-proc', r, dict(files, opts=' '.join(opts)))


def others(i, rng, env, o, d):
    G, g = c.make(rng, rng.choice(['dis', 'tags', 'coh']), jumps=0)
    pg = d.put('g.cg3', g)
    r = sr([env.bin('cg-comp'), pg, d.path('g.bin')])
    files = {'g.cg3': g}
    if not judge(o, 'cg-comp', r, files):
        return
    words = ['n', 'N', 'V', 'sg', 'pl', 'ac', 'gn', 'f1', '"a"', '"c"', 'P', 'D', 'st1', 'n2']
    L = []
    for w in rng.sample(words, rng.choice([1, 2, 4])):
        k = rng.choice([0, 0, 1, 1, 2])
        tup = []
        for _ in range(rng.choice([1, 2, 3])):
            tup.append('(' + ' '.join(rng.sample(words, rng.choice([1, 1, 2]))) + ')')
        if k == 0:
            L.append('MAP (%s) (%s) ;' % (' '.join(rng.sample(words, rng.choice([1, 2]))), w))
        else:
            L.append('MAP (%s) (%s) ;' % (rng.choice(words), w))
    rl = d.put('r.txt', '\n'.join(L) + '\n')
    files['relabel.txt'] = '\n'.join(L)
    r = sr([env.bin('cg-relabel'), d.path('g.bin'), rl, d.path('o.bin')])
    if judge(o, 'cg-relabel', r, files):
        s = G.stream()
        r = sr([env.bin('vislcg3'), '-g', d.path('o.bin')], s)
        judge(o, 'vislcg3 relabelled', r, dict(files, **{'in.txt': s}))
    # multiwords
    s = G.stream()
    L = s.split('\n')
    for k, l in enumerate(L):
        if l.startswith('\t"') and rng.random() < 0.5:
            L[k] = re.sub(r'^(\t"[^"]*")', lambda m: m.group(1) + ' "<' + rng.choice(['a', 'b c', ' ', 'xy', 'a b']) + '>"', l)
            for n in range(rng.choice([0, 1, 2])):
                L[k] += '\n' + '\t' * (n + 2) + '"s%d" X' % n + (' "<%s>"' % rng.choice(['a', 'b', 'c d']) if rng.random() < 0.6 else '')
    s = '\n'.join(L)
    r = sr([env.bin('cg-mwesplit')], s)
    judge(o, 'cg-mwesplit', r, {'in.txt': s})
