"""P01: SELECT, REMOVE and IFF keep and discard exactly the readings the grammar says."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 4000, 'thorough': 60000}
MIN = (900, 2200)
RULE = ('random grammars of SELECT, REMOVE and IFF rules (with every rule flag; some with ADD, MAP and SUBSTITUTE between) over random streams, whole traced output compared with the reference engine; distinct outcomes are distinct traced outputs in which a rule acted')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    k = i % 4
    if k == 0:
        mc.case(rng, env, o, 'dis_tags', gkw=dict(nrules=(3, 12)))
    elif k == 1:
        mc.case(rng, env, o, 'dis', gkw=dict(ntests=(0, 1), nreadings=(1, 6), nrules=(1, 8), unsafe=0.4, deleted=0.1))
    elif k == 2:
        mc.case(rng, env, o, 'dis', gkw=dict(flagp=0.5, mapping=0.3, nreadings=(1, 5)))
    else:
        mc.case(rng, env, o, 'dis')
