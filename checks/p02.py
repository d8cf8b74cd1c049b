"""P02: A set matches exactly the readings its definition describes."""
from . import modelcmp as mc
from vlib.ast import Rule

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 6000, 'thorough': 90000}
MIN = (2200, 3500)
RULE = ('random grammars with many sets (lists with composites, numeric, regex, case-insensitive and text tags, fail-fast tags, and all set operators nested), each set probed with a rule that marks every reading it matches, and with contextual tests; compared with the reference engine')
ASSUMES = mc.ASSUMES


def probes(rng):
    def prep(G):
        body = G.g.blocks[-1][2]
        names = list(G.setnames)
        rng.shuffle(names)
        for k, n in enumerate(names):
            x = rng.random()
            if x < 0.6:
                body.append(Rule('ADD', ('n', n), maplist=('i', ('p%d' % k,))))
            elif x < 0.8:
                body.append(Rule('ADD', G.ref(), tests=[G.test()], maplist=('i', ('p%d' % k,))))
            else:
                body.append(Rule('ADD', ('n', n), tests=G.tests(1), maplist=('i', ('p%d' % k,))))
    return prep


VAR = [dict(num=0.4), dict(regex=0.4, text=0.4), dict(icase=0.3, regex=0.2, wread=0.3), dict(setops=0.8, nsets=(6, 14)),
       dict(settag=0.15, mapping=0.3), dict(algebra=0.4, ff=0.25, setops=0.8), dict(static=0.5, subread=0.0), {}]


def case(i, rng, env, o):
    kw = dict(nsets=(5, 10), setops=0.6, nrules=(1, 4), ntests=(0, 1), nwindows=(2, 5), nreadings=(1, 5))
    kw.update(VAR[i % len(VAR)])
    mc.case(rng, env, o, 'dis', gkw=kw, prep=probes(rng))
