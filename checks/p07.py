"""P07: Dependency rules attach, detach and are seen by tests exactly as the grammar says."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 4500, 'thorough': 67500}
MIN = (1300, 2700)
RULE = ('random dependency trees (crossing, circular, dangling, over windows) with SETPARENT, SETCHILD, REMPARENT, SWITCHPARENT and dependency tests; the output tree and everything that was tested compared with the reference engine')
ASSUMES = mc.ASSUMES


def case(i, rng, env, o):
    kw = [dict(), dict(dep=0.9), dict(span=0.5, nwindows=(3, 6)), dict(noneall=0.2, negdep=0.2), dict(ncohorts=(4, 10), nwindows=(1, 3)),
          dict(types=dict(SETPARENT=3, SETCHILD=2, REMCOHORT=1, ADDCOHORT=1, MOVE=1, SWITCH=1, SWITCHPARENT=1))][i % 6]
    mc.case(rng, env, o, 'dep', gkw=kw)
