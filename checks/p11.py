"""P11: a grammar means the same in every serialisation."""
import re

from . import common as c
from vlib import run

BUILDS = {'plain': ('vislcg3', 'cg-comp')}
N = {'quick': 900, 'thorough': 12000}
MIN = (120, 1500)
RULE = ('A case is a random grammar (rule types, flags, tests, sets, templates drawn by profile) and a random stream. Five runs '
        'are compared: text grammar, cg-comp binary, --grammar-bin binary, binary reloaded and rewritten, and --grammar-out '
        'text re-read. Non-trivial: the grammar was accepted and changed the stream; distinct by output.')
ASSUMES = ['trace line numbers are compared only between text and binary forms, since --grammar-out is laid out anew']

PROF = ['dis', 'dis_tags', 'tags', 'coh', 'dep', 'rel', 'sub', 'unif', 'vars', 'with', 'par', 'all', 'all']


def drop_unused_templates(g):
    # --grammar-out omits templates nothing refers to; what they mention (dependencies, relations) still switches
    # on the corresponding output, so such templates would make two equivalent grammars print differently.
    while True:
        gone = [l for l in g.split('\n') if l.startswith('TEMPLATE ') and
                not re.search(r'T:%s\b' % l.split()[1], g)]
        if not gone:
            return g
        g = '\n'.join(l for l in g.split('\n') if l not in gone)


def case(i, rng, env, o):
    prof = PROF[i % len(PROF)]
    G, g = c.make(rng, prof)
    g = drop_unused_templates(g)
    s = G.stream()
    V, K = env.bin('vislcg3'), env.bin('cg-comp')
    with run.Scratch() as d:
        pg = d.put('g.cg3', g)
        base = run.run([V, '-t', '-g', pg], s, timeout=8, retry=False)
        if not c.grammar_ok(base):
            o.events['grammar refused'] += 1
            return
        if base.timeout or base.crashed:
            o.inconclusive += 1
            return
        files = {'g.cg3': g, 'in.txt': s}
        ref = run.run([V, '-g', pg], s)
        o.evals += 1
        o.events['profile ' + prof] += 1
        plain = ref.text
        if plain != s:
            o.sigs.add(hash(plain))
        if o.sample is None:
            o.sample = {'grammar': g, 'input': s[:400], 'output': plain[:400]}

        def cmp(name, res, want, fr=True):
            o.evals += 1
            o.events[name] += 1
            if res.timeout:
                o.inconclusive += 1
            elif res.out != want.out or res.rc != want.rc:
                o.bad(name, '%s: rc %s vs %s; %s\n%s' % (name, want.rc, res.rc, c.diff(want.text, res.text), res.etext[-300:]),
                      files)

        b1 = d.path('b1.cg3b')
        r = run.run([K, pg, b1])
        if r.rc != 0:
            o.bad('cg-comp-refuses', 'cg-comp fails on a grammar vislcg3 accepts: rc=%s %s' % (r.rc, r.etext[-300:]), files)
            return
        cmp('cg-comp', run.run([V, '-t', '-g', b1], s), base)
        b2 = d.path('b2.cg3b')
        r = run.run([V, '-g', pg, '--grammar-bin', b2, '--grammar-only'], b'')
        cmp('grammar-bin', run.run([V, '-t', '-g', b2], s), base)
        b3 = d.path('b3.cg3b')
        r = run.run([V, '-g', b1, '--grammar-bin', b3, '--grammar-only'], b'')
        cmp('bin-rewrite', run.run([V, '-t', '-g', b3], s), base)
        t1 = d.path('t1.cg3')
        r = run.run([V, '-g', pg, '--grammar-out', t1, '--grammar-only'], b'')
        try:
            out = d.get('t1.cg3')
        except OSError:
            o.bad('grammar-out-missing', 'no --grammar-out file: rc=%s %s' % (r.rc, r.etext[-300:]), files)
            return
        files['t1.cg3'] = out
        cmp('grammar-out', run.run([V, '-g', t1], s), ref)
