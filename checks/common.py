"""Generator profiles and helpers shared by the checks."""
from vlib import gen, run, streamio

DIS = {'SELECT': 4, 'REMOVE': 4, 'IFF': 1.5}
TAGGY = {'ADD': 2, 'MAP': 2, 'REPLACE': 1, 'SUBSTITUTE': 2, 'APPEND': 1, 'COPY': 1, 'UNMAP': 0.5, 'RESTORE': 0.5,
         'PROTECT': 0.4, 'UNPROTECT': 0.3}
COH = {'ADDCOHORT': 1, 'REMCOHORT': 1, 'MOVE': 1, 'SWITCH': 1, 'SPLITCOHORT': 1, 'MERGECOHORTS': 1, 'COPYCOHORT': 1,
       'DELIMIT': 0.4}
DEPS = {'SETPARENT': 3, 'SETCHILD': 2, 'REMPARENT': 0.7, 'SWITCHPARENT': 0.7}
RELS = {'ADDRELATION': 1, 'SETRELATION': 1, 'REMRELATION': 1, 'ADDRELATIONS': 0.5, 'SETRELATIONS': 0.5,
        'REMRELATIONS': 0.5}
VARSR = {'SETVARIABLE': 1, 'REMVARIABLE': 0.6}


def mix(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


PROFILES = {
    'dis': dict(types=DIS),
    'dis_tags': dict(types=mix(DIS, {'ADD': 1, 'MAP': 1, 'SUBSTITUTE': 1}), deleted=0.05),
    'tags': dict(types=mix({'SELECT': 1, 'REMOVE': 1}, TAGGY)),
    'coh': dict(types=mix({'SELECT': 1, 'REMOVE': 1, 'ADD': 1}, COH)),
    'dep': dict(types=mix({'SELECT': 1, 'ADD': 1}, DEPS), dep=0.6),
    'rel': dict(types=mix({'SELECT': 1, 'ADD': 1}, RELS), rels=0.6, reldata=0.6),
    'sub': dict(types=mix(DIS, TAGGY), subread=0.4),
    'unif': dict(types=mix(DIS, {'ADD': 1, 'MAP': 1, 'SUBSTITUTE': 1}), unif=0.35, varstr=0.25, tmpl=0.25),
    'vars': dict(types=mix(DIS, VARSR, {'JUMP': 0.4, 'ADD': 1}), variables=0.25, sections=0.7),
    'with': dict(types=mix(DIS, {'WITH': 2, 'ADD': 1, 'SUBSTITUTE': 1}), jumps=0.2),
    'par': dict(types=mix(DIS, {'ADD': 1, 'MAP': 1}), paren=0.35),
    'all': dict(types=mix(DIS, TAGGY, COH, DEPS, RELS, VARSR, {'WITH': 1, 'JUMP': 0.3}), dep=0.3, rels=0.2, subread=0.1,
                unif=0.1, varstr=0.1, variables=0.05, deleted=0.08, jumps=0.08, active=0.03, noneall=0.08, reldata=0.2),
}


def make(rng, profile, **kw):
    d = dict(PROFILES[profile])
    d.update(kw)
    G = gen.Gen(rng, **d)
    return G, G.grammar().emit()


def keep_order(G):
    """The tests of a rule may be reordered, which matters when one sets marks, unifies, or attaches: rule that out."""
    for _, _, rules in G.g.blocks:
        for r in rules:
            if isinstance(r, str):
                continue
            for q in [r] + (r.nested or []):
                if 'KEEPORDER' not in q.flags:
                    q.flags.append('KEEPORDER')


def grammar_ok(res):
    """The grammar was accepted (a grammar the generator got wrong is not judged)."""
    return res.rc == 0 or res.crashed or res.timeout


def diff(a, b, n=6):
    """A short description of the first difference of two texts."""
    la, lb = a.split('\n'), b.split('\n')
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else '<end>'
        y = lb[i] if i < len(lb) else '<end>'
        if x != y:
            return 'first difference at line %d:\n  A: %r\n  B: %r' % (i + 1, x, y)
    return 'equal'


def sig_out(src, out):
    """Non-trivial signature: the outputs that differ from a pass-through."""
    return hash(out) if out != src else None
