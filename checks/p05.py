"""P05: Rules run in the order, number of times and sections that the grammar and the command line ask for."""
from . import modelcmp as mc

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 4000, 'thorough': 60000}
MIN = (1400, 2400)
RULE = ('random grammars with sections, JUMP, ANCHOR, WITH, REPEAT, flags and variables, run with random choices of sections, rules and phases on the command line; the reference engine predicts the whole traced output; plus grammars of all rule types')
ASSUMES = mc.ASSUMES


def options(rng, ast):
    """Command-line options about what is run, and what they mean."""
    o = {'args': []}
    a = o['args']
    nsec = sum(1 for kw, _, _ in ast.blocks if kw == 'SECTION')
    lines = [r.line for _, _, rs in ast.blocks for r in rs if not isinstance(r, str)]
    if rng.random() < 0.3:
        n = rng.choice([1, 2, 3, 4])
        ss = [rng.randint(1, max(1, nsec)) for _ in range(n)]
        if n == 1:
            a += ['--sections', str(ss[0])]
            o['sections'] = list(range(1, ss[0] + 1))
        elif rng.random() < 0.4:
            lo, hi = min(ss), max(ss)
            a += ['--sections', '%d-%d' % (lo, hi)]
            o['sections'] = list(range(lo, hi + 1))
        else:
            a += ['--sections', ','.join(map(str, ss))]
            o['sections'] = ss
    if rng.random() < 0.25 and lines:
        x = rng.random()
        if x < 0.3:
            n = rng.choice(lines)
            a += ['--rules', str(n)]
            o['lines'] = set(range(1, n + 1))
        elif x < 0.8:
            ls = rng.sample(lines, rng.randint(1, len(lines)))
            if len(ls) == 1:
                ls = ls + [lines[0]]
            a += ['--rules', ','.join(map(str, ls))]
            o['lines'] = set(ls)
        else:
            n = rng.choice(lines)
            a += ['--rule', str(n)]
            o['lines'] = {n}
    for p, opt, key in [(0.12, '--no-mappings', 'no_mappings'), (0.12, '--no-corrections', 'no_corrections'),
                        (0.12, '--no-before-sections', 'no_before'), (0.07, '--no-sections', 'no_sections'),
                        (0.12, '--no-after-sections', 'no_after')]:
        if rng.random() < p:
            a.append(opt)
            o[key] = True
    x = rng.random()
    if x < 0.12:
        a.append('--single-run')
        o['max_runs'] = 1
    elif x < 0.3:
        n = rng.choice([1, 2, 2, 3, 5])
        a += ['--max-runs', str(n)]
        o['max_runs'] = n
    return o


def case(i, rng, env, o):
    k = i % 6
    if k == 0:
        mc.case(rng, env, o, 'with')
    elif k == 1:
        mc.case(rng, env, o, 'vars')
    elif k == 2:
        mc.case(rng, env, o, 'all', gkw=dict(sections=0.6))
    elif k == 3:
        mc.case(rng, env, o, 'tags', opts=options, gkw=dict(sections=0.9, nrules=(4, 12)))
    elif k == 4:
        mc.case(rng, env, o, 'vars', opts=options, gkw=dict(sections=0.9, nrules=(4, 12)))
    else:
        mc.case(rng, env, o, 'dis_tags', opts=options, gkw=dict(sections=0.9, repeat=0.2, nrules=(4, 12)))
