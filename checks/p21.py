"""P21: A relabelled grammar means the same as its source with the tags replaced."""
import re

from . import common as c
from vlib import run
from vlib.ast import *

BUILDS = {'plain': ('vislcg3', 'cg-comp', 'cg-relabel')}
N = {'quick': 1500, 'thorough': 24000}
MIN = (500, 1200)
RULE = ('A case is a random grammar, a random relabelling (tag for tag, tag for a list of alternatives, tag for a set expression, with '
        'rules that must be skipped among them) and a random stream with old and new tags. The relabelled binary grammar is compared '
        'with the source grammar in which the same replacement was written out. Non-trivial: the grammar changed the stream; distinct '
        'by output.')
ASSUMES = ['the order of tags within a reading is not compared, since a set keeps no order once relabelled',
           'numeric, regular-expression, case-folding, fail-fast and set tags are outside what cg-relabel replaces']
OPTS = dict(num=0, regex=0, icase=0, ff=0, settag=0, variables=0, unif=0, varstr=0, algebra=0, paren=0, bag=0, magic=0, static=0)
LISTT = {'SELECT': 4, 'REMOVE': 4, 'IFF': 1, 'DELIMIT': 0.3, 'REMCOHORT': 0.5}


def walk_ref(ref, f):
    if ref is None:
        return None
    if ref[0] == 'i':
        return f(ref)
    if ref[0] == 'e':
        return ('e', tuple(walk_ref(x, f) for x in ref[1]), ref[2])
    return ref


def walk_test(t, f, seen):
    if t is None or id(t) in seen:
        return
    seen.add(id(t))
    for a in ('target', 'barrier', 'cbarrier'):
        setattr(t, a, walk_ref(getattr(t, a), f))
    for x in (t.linked, t.tmpl if isinstance(t.tmpl, Test) else None):
        walk_test(x, f, seen)
    for x in t.ors or ():
        walk_test(x, f, seen)


def walk(G, f, maps):
    seen = set()
    for _, t in G.templates:
        walk_test(t, f, seen)

    def rule(r):
        for a in ('target', 'childset1', 'childset2') + (('maplist', 'sublist', 'excepts') if maps else ()):
            x = getattr(r, a, None)
            if isinstance(x, tuple):
                setattr(r, a, walk_ref(x, f))
        for t in list(r.tests or ()) + list(r.dep_tests or ()):
            walk_test(t, f, seen)
        for q in r.nested or ():
            rule(q)
    for _, _, rules in G.blocks:
        for r in rules:
            if not isinstance(r, str):
                rule(r)


def expand(comp, m):
    """A composite with the alternatives of each replaced tag: the list of composites it becomes."""
    out = [()]
    for t in comp:
        if t in m:
            out = [a + tuple(x for x in s if x not in a) for a in out for s in m[t]]
        else:
            out = [a + (t,) if t not in a else a for a in out]
    return list(dict.fromkeys(tuple(sorted(x)) for x in out))


def norm(text):
    out = []
    for l in text.split('\n'):
        if re.match(r'^;?\t', l):
            k = len(l) - len(l.lstrip(';\t'))
            l = l[:k] + ' '.join(sorted(re.findall(r'"(?:<.*?>|.*?)"\S*|\S+', l[k:])))
        out.append(l)
    return '\n'.join(out)


def case(i, rng, env, o):
    mode = ['rename', 'list', 'rename', 'set'][i % 4]
    kw = dict(OPTS)
    force = None
    if mode != 'rename':
        kw['types'] = LISTT
    prof = rng.choice(['dis_tags', 'tags', 'all', 'sub', 'with'] if mode == 'rename' else ['dis'])
    if prof == 'all':
        kw['reldata'] = 0
    G = c.gen.Gen(rng, **dict(c.PROFILES[prof], **kw))
    G.grammar()
    if mode != 'rename':
        body = G.g.blocks[-1][2]
        for k in range(rng.choice([2, 4])):
            body.append(Rule('ADD', G.ref(), tests=G.tests(rng.choice([0, 1, 2])), maplist=('i', ('p%d' % k,))))
        if rng.random() < 0.45:
            a, b, d = rng.sample(c.gen.POS + c.gen.SUBT, 3)
            sp = [(rng.choice(['"<[ab]>"r', '/^[gp]/r', '"a"i', '<W>1>', '"[ac]"r']),)] if rng.random() < 0.6 else []      # next to the replaced tag
            G.g.sets.append(('LIST', 'ZL', ('list', ((a,), (a, b), (b, d), (b, rng.choice(c.gen.NEWT)), *sp))))
            body.append(Rule('ADD', ('n', 'ZL'), maplist=('i', ('pz',))))
            force = [rng.choice([a, b])]
    src = G.g.emit()
    pool = c.gen.POS + c.gen.SUBT
    if mode == 'rename':
        pool = pool + c.gen.BASES[:2] + ['@x']
    olds = rng.sample(pool, rng.choice([1, 1, 2]) if mode != 'set' else 1)
    if force:
        olds = force
    rest = [t for t in c.gen.POS + c.gen.SUBT if t not in olds]
    rel, m = [], {}
    R = []
    pre = []
    for k, t in enumerate(olds):
        if mode == 'rename':
            new = '"q%d"' % k if t[0] == '"' else '@w%d' % k if t[0] == '@' else rng.choice(['zz%d' % k, rng.choice(rest)])
            m[t] = [(new,)]
            rel.append('MAP (%s) (%s) ;' % (t, new))
        elif mode == 'list':
            alt = list(dict.fromkeys(tuple(sorted(set(rng.choice(rest + ['zz0', 'zz1']) for _ in range(rng.choice([1, 1, 2])))))
                                     for _ in range(rng.choice([1, 2, 3]))))
            m[t] = alt
            if len(alt) == 1:
                rel.append('MAP (%s) (%s) ;' % (t, ' '.join(alt[0])))
            else:
                pre.append('LIST R%d = %s ;' % (k, ' '.join('(%s)' % ' '.join(x) for x in alt)))
                rel.append('MAP (%s) R%d ;' % (t, k))
        else:
            a = [tuple(rng.sample(rest + ['zz0'], rng.choice([1, 1, 2]))) for _ in range(rng.choice([2, 2, 3]))]
            e = '(%s)' % ' '.join(a[0])
            for x in a[1:]:
                e += ' %s (%s)' % (rng.choice(['OR', '-', '+', '-']), ' '.join(x))
            m[t] = e
            rel.append('MAP (%s) %s ;' % (t, e))
    # Rules that cg-relabel says it skips
    x = rng.random()
    if x < 0.3:
        y = rng.choice(rest)
        rel.append(rng.choice(['MAP (%s) (bad) (0 (V)) ;', 'ADD (%s) (bad) ;', 'MAP (%s bad2) (bad) ;', 'SELECT (%s) ;', 'MAP (<b=1> %s) (bad) ;',
                               '"<a>" MAP (%s) (bad) ;']) % y)
        rng.shuffle(rel)
    rules = '\n'.join(pre + ['SECTION'] + rel) + '\n'

    g = G.g
    if mode == 'set':
        t = olds[0]
        n = [0]
        extra = []

        def build(comps, name=None):
            if not any(t in x for x in comps):
                return None
            parts = []
            for x in comps:
                w = tuple(y for y in x if y != t)
                if t not in x:
                    parts.append('(%s)' % ' '.join(x))
                elif not w:
                    parts.append('RX')
                else:
                    n[0] += 1
                    extra.append('SET RX%d = RX + (%s) ;' % (n[0], ' '.join(w)))
                    parts.append('RX%d' % n[0])
            return ' OR '.join(parts)
        text = {}

        def f(ref):
            e = build([ref[1]])
            if e is None:
                return ref
            n[0] += 1
            extra.append('SET RY%d = %s ;' % (n[0], e))
            return ('n', 'RY%d' % n[0])
        sets = []
        for kind, name, d in g.sets:
            if kind == 'LIST':
                e = build(d[1])
                sets.append((kind, name, d) if e is None else ('TEXT', name, e))
            else:
                sets.append((kind, name, ('set', tuple(walk_ref(r, f) for r in d[1]), d[2])))
        walk(g, f, False)
        # A set must be defined before it is used: write the replacements right before
        L = ['SET RX = %s ;' % m[t]] + extra
        g.sets = [s for s in sets if s[0] != 'TEXT']
        for k, s in enumerate(sets):
            if s[0] == 'TEXT':
                L.append('SET %s = %s ;' % (s[1], s[2]))
        g.header += L
        want = g.emit()
    else:
        def f(ref):
            cs = expand(ref[1], m) if any(t in m for t in ref[1]) else None
            if cs is None:
                return ref
            if len(cs) == 1 and mode == 'rename':
                return ('i', tuple(dict.fromkeys(x for t in ref[1] for x in (m[t][0] if t in m else (t,)))))
            if len(cs) == 1:
                return ('i', cs[0])
            g.header.append('LIST RL%d = %s ;' % (len(g.header), ' '.join('(%s)' % ' '.join(x) for x in cs)))
            return ('n', 'RL%d' % (len(g.header) - 1))
        g.sets = [(k, nm, ('list', tuple(y for x in d[1] for y in expand(x, m))) if k == 'LIST' else
                   ('set', tuple(walk_ref(r, f) for r in d[1]), d[2])) for k, nm, d in g.sets]
        walk(g, f, True)
        want = g.emit()
    s = G.stream()
    news = sorted({x for t in olds if mode != 'set' for a in m[t] for x in a if x[0] != '"' and x not in rest} | {'zz0'})
    for t in olds:
        if t[0] == '"':
            s = re.sub(re.escape(t), lambda _: t if rng.random() < 0.5 else m[t][0][0], s)
        else:
            s = re.sub(r'(?<= )%s(?=[ \n])' % re.escape(t), lambda _: t if rng.random() < 0.4 else rng.choice(
                news if t[0] != '@' else [m[t][0][0]]), s)
    V = env.bin('vislcg3')
    with run.Scratch() as d:
        a, b, w, q = d.put('g.cg3', src), d.path('g.cg3b'), d.put('w.cg3', want), d.put('r.cg3', rules)
        b2 = d.path('r.cg3b')
        files = {'g.cg3': src, 'rename.cg3': rules, 'want.cg3': want, 'in.txt': s}
        r = run.run([env.bin('cg-comp'), a, b])
        if r.rc != 0:
            o.events['grammar refused'] += 1
            return
        e = run.run([V, '-g', w], s, timeout=8, retry=False)
        if e.timeout or e.crashed:
            o.inconclusive += 1
            return
        if e.rc != 0:
            o.events['replaced grammar refused'] += 1
            return
        r = run.run([env.bin('cg-relabel'), b, q, b2])
        if r.rc != 0:
            o.bad('cg-relabel-fails', 'cg-relabel: rc=%s %s' % (r.rc, r.etext[-300:]), files)
            return
        x = run.run([V, '-g', b2], s, timeout=8, retry=False)
        o.evals += 1
        o.events['mode ' + mode] += 1
        o.events['skipped rules warned about'] += r.etext.count('skipping!')
        if e.text != s:
            o.sigs.add(hash(e.text))
        if x.timeout:
            o.inconclusive += 1
        elif x.rc != e.rc or norm(x.text) != norm(e.text):
            o.bad(mode, 'relabelled grammar differs from the replaced source (%s): rc %s vs %s; %s' % (
                mode, e.rc, x.rc, c.diff(norm(e.text), norm(x.text))), files)
        if o.sample is None:
            o.sample = {'relabel rules': rules, 'grammar': src[:600], 'output': x.text[:300]}
