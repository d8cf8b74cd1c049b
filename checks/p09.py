"""P09: SUB: rules and sub-reading positions touch exactly the sub-readings they address."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2000, 'thorough': 30000}
MIN = (700, 1000)
RULE = ('random streams with sub-readings two and three deep, rules with SUB: of either sign and SUB:*, and tests with sub-reading positions; compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(subread=0.7), dict(subread=0.5, nrules=(5, 14), ntests=(0, 1)), dict(mapping=0.3)][i % 4]
    mc.case(rng, env, o, 'sub', gkw=kw)
