"""P06: Rules that add, remove, move, split, merge or copy cohorts do exactly that."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2400, 'thorough': 36000}
MIN = (800, 1300)
RULE = ('random grammars of ADDCOHORT, REMCOHORT, MOVE, SWITCH, SPLITCOHORT, MERGECOHORTS, COPYCOHORT and DELIMIT with contextual tests; whole traced output compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(span=0.4), dict(ntests=(0, 2), nrules=(2, 5)), dict(dep=0.2), dict(rels=0.2, attach=0.1), dict(dep=0.6, types={'COPYCOHORT': 2, 'MOVE': 2, 'SELECT': 1, 'ADDCOHORT': 1, 'SETPARENT': 1}, ntests=(0, 2))][i % 6]
    mc.case(rng, env, o, 'coh', gkw=kw)
