"""P04: Rules that add, replace, substitute, copy or map change exactly the tags they name."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2600, 'thorough': 39000}
MIN = (900, 1400)
RULE = ('random grammars of ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY, UNMAP, RESTORE, PROTECT and UNPROTECT rules; whole traced output compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(mapping=0.4), dict(ntests=(0, 1), nrules=(4, 14)), dict(varstr=0.15), dict(nreadings=(1, 6)), dict(subwf=0.3, wread=0.3, deleted=0.15), dict(subread=0.3, subwf=0.1), dict(types={'COPY': 3, 'ADD': 1, 'SUBSTITUTE': 2, 'REMOVE': 1}, ntests=(0, 1))][i % 8]
    mc.case(rng, env, o, 'tags', gkw=kw)
