"""P27: Parentheses enclose, hide and reveal exactly what lies between them."""
from . import modelcmp as mc
from .p03 import probes

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 4000, 'thorough': 60000}
MIN = (1500, 2400)
RULE = ('random bracketed streams (nested, unbalanced, crossing, adjacent) with enclosure positions and ordinary tests; compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(paren=0.7), dict(ncohorts=(4, 12), nwindows=(1, 4)), dict(span=0.4, barrier=0.4), dict(paren=0.6, types={'SELECT': 1, 'REMCOHORT': 3}, nrules=(1, 3), ntests=(0, 1))][i % 5]
    mc.case(rng, env, o, 'par', gkw=kw, prep=probes(rng) if i % 5 == 4 or i % 3 == 0 else None)
