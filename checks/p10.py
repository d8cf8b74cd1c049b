"""P10: Unified sets, tag unification, templates and variable strings keep one consistent choice."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 4000, 'thorough': 60000}
MIN = (800, 1100)
RULE = ('random grammars with $$ and && sets, regex captures in variable strings and templates over random streams; compared with the reference engine, where the choice does not depend on an unspecified order')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(unif=0.6), dict(varstr=0.6, regex=0.4), dict(tmpl=0.7, unif=0.1)][i % 4]
    mc.case(rng, env, o, 'unif', gkw=kw)
