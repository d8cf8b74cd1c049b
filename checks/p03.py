"""P03: A contextual test holds exactly where its definition says."""
from . import modelcmp as mc
from vlib.ast import Rule

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 5000, 'thorough': 75000}
MIN = (2000, 3000)
RULE = ('random contextual tests (positions, scans, spans, barriers, links, templates, OR groups, careful, negated, absolute, origin, attach, dependency, relation and enclosure positions), each marking every cohort at which it holds; compared with the reference engine')
ASSUMES = mc.ASSUMES


def probes(rng):
    def prep(G):
        body = G.g.blocks[-1][2]
        for k in range(rng.choice([3, 5, 8])):
            body.append(Rule(rng.choice(['ADD', 'ADD', 'ADD', 'MAP']), G.ref() if rng.random() < 0.3 else ('i', ('*',)),
                             tests=G.tests(rng.choice([1, 1, 2, 3])), maplist=('i', ('p%d' % k,))))
    return prep


VAR = [dict(), dict(linkp=0.6, barrier=0.4), dict(span=0.5, nwindows=(4, 9), ncohorts=(1, 4)), dict(tmpl=0.5, orp=0.3),
       dict(absolute=0.3, origin=0.3, careful=0.3, neg=0.5), dict(dep=0.5, noneall=0.2), dict(rels=0.4), dict(mark=0.4, jumps=0.4),
       dict(bag=0.4, span=0.5, nwindows=(3, 8), ncohorts=(1, 3), num=0.3), dict(deleted=0.2, active=0.1), dict(attach=0.2, linkp=0.5), dict(nwindows=(1, 3), ncohorts=(6, 14), barrier=0.5)]


def case(i, rng, env, o):
    kw = dict(nrules=(1, 4), ntests=(0, 2))
    kw.update(VAR[i % len(VAR)])
    mc.case(rng, env, o, 'dis_tags', gkw=kw, prep=probes(rng))
