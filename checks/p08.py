"""P08: Relation rules set, add and remove exactly the named relations, and tests follow them."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 5000, 'thorough': 75000}
MIN = (1200, 3000)
RULE = ('random relations in the stream and relation rules (both directions, one or several names, over windows), with relation tests; compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(reldata=0.9, rels=0.8), dict(span=0.5, nwindows=(3, 6)), dict(noneall=0.2),
          dict(types=dict(ADDRELATION=2, SETRELATION=2, REMRELATION=2, REMCOHORT=1, ADDCOHORT=1, MOVE=1, SWITCH=1))][i % 5]
    mc.case(rng, env, o, 'rel', gkw=kw)
