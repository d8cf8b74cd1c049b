"""P20: cg-mwesplit splits fully disambiguated multi-word cohorts, and nothing else."""
from . import common as c
from vlib import run

BUILDS = {'plain': ('cg-mwesplit',)}
N = {'quick': 1500, 'thorough': 30000}
MIN = (600, 1000)
RULE = ('A case is a stream of ordinary cohorts and of cohorts whose readings carry word form tags on some or all of their parts; an '
        'independent splitter says which cohorts come apart, into which words, readings, sub-readings and blanks. Non-trivial: at least '
        'one cohort was split; distinct by output.')
ASSUMES = ['readings that are the same are printed once', 'all readings that split a cohort have the same number of parts']
W = ['go', 'dalle', 'lle', 'da', '3', 'é', '漢字', "d'", '-', 'x y', '.', ',', 'go', 'Go']
T = ['CS', 'Pcle', 'Adv', 'Sem/Time', '<x>', 'N', 'Sg', 'Nom', '<W:0.5>', 'é']


def part(rng, wf):
    """A (sub-)reading: base form, tags and perhaps a word form tag among them."""
    ts = rng.sample(T, rng.choice([1, 1, 2, 3]))
    if wf is not None:
        ts.insert(rng.randint(0, len(ts)), '"<%s>"' % wf)
    return ['"%s"' % rng.choice(W)] + ts


def blank(rng):
    return rng.choice(['', ' '])


def cohort(rng):
    mode = rng.choice(['plain', 'plain', 'split', 'split', 'split', 'partial', 'ambig', 'subonly', 'self'])
    n = 1 if rng.random() < 0.15 else rng.choice([2, 2, 3, 4])
    words = [rng.choice(W) for _ in range(n)]        # last word first, as readings have it
    forms = []
    for k, w in enumerate(words):
        s = w
        if rng.random() < 0.4 and k:
            s = s + blank(rng)
        if rng.random() < 0.25:
            s = blank(rng) + s
        forms.append(s)
    full = ' '.join(''.join(reversed(forms)).split()) or 'w'
    if rng.random() < 0.3:
        full = rng.choice(W) + ' ' + rng.choice(W)
    rs = []
    for j in range(rng.choice([1, 1, 2, 3])):
        parts = []
        if mode == 'plain':
            parts = [part(rng, None) for _ in range(rng.choice([1, 1, 2, 3]))]
        else:
            for k, w in enumerate(forms):
                x = w
                if mode == 'ambig' and rng.random() < 0.3:
                    x = rng.choice([y for y in W if y != w.strip()])
                if mode == 'self' and k == 0:
                    x = full
                if mode == 'subonly' and k == 0 or mode == 'partial' and k == 0 and rng.random() < 0.5:
                    x = None
                parts.append(part(rng, x))
                while rng.random() < 0.2:
                    parts.append(part(rng, None))
        rs.append(parts)
    return full, rs, mode


def emit(co):
    full, rs = co[:2]
    s = '"<%s>"\n' % full
    for r in rs:
        for d, p in enumerate(r):
            s += '\t' * (d + 1) + ' '.join(p) + '\n'
    return s


def split(full, rs, post):
    """[(word form, readings, text after)], whether it was split, number of warnings."""
    def wf(p):
        for t in p[1:]:
            if t[:2] == '"<' and t != '"<%s>"' % full:
                return t[2:-2]
    tagged = [wf(r[0]) is not None for r in rs]
    if not all(tagged):
        return [(full, [[[p[0]] + [t for t in p[1:] if t != '"<%s>"' % full] for p in r] for r in rs], post)], False, int(any(tagged))
    words = {}
    texts = {}
    out = []
    for r in rs:
        groups = []
        for p in r:
            w = wf(p)
            if w is not None:
                groups.append((w, []))
            groups[-1][1].append(p)
        depth = 0
        for k, (w, ps) in enumerate(groups):
            first = depth == len(r) - 1     # nothing follows: the first word keeps its leading blanks
            depth += len(ps)
            lead = '' if first else w[:len(w) - len(w.lstrip(' \n\r\t'))]
            core = w[len(lead):]
            trail = core[len(core.rstrip(' \n\r\t')):]
            core = core[:len(core) - len(trail)]
            if words.setdefault(k, core) != core:
                return [(full, [[[p[0]] + [t for t in p[1:] if t != '"<%s>"' % full] for p in r] for r in rs], post)], False, 1
            if trail:
                texts[k] = trail
            if lead and k + 1 not in texts:
                texts[k + 1] = lead
            while len(out) <= k:
                out.append([])
            q = []
            for j, p in enumerate(ps):
                ts = list(p[1:])
                ts = [t for t in ts if t != '"<%s>"' % full]
                if j == 0:
                    ts.remove('"<%s>"' % w)
                q.append([p[0]] + ts)
            out[k].append(q)
    res = [(words[k], out[k], ':' + texts[k] if k in texts else '') for k in range(len(out))]
    res = [(a, b, t if i else post) for i, (a, b, t) in enumerate(res)]
    return res[::-1], True, 0


def case(i, rng, env, o):
    cs = [cohort(rng) for _ in range(rng.choice([1, 2, 4, 8]))]
    s, want, warn, nsplit = '', [], 0, 0
    for co in cs:
        post = rng.choice(['', '', ': ', ':\\n', ':x y', ':é'])
        s += emit(co) + (post + '\n' if post else '')
        out, did, w = split(co[0], co[1], post)
        nsplit += did
        warn += w
        o.events['%s %s' % (co[2], 'split' if did else 'kept')] += 1
        for word, rs, text in out:
            want.append('"<%s>"' % word)
            seen = set()
            for r in rs:
                e = '\n'.join('\t' * (d + 1) + ' '.join(p) for d, p in enumerate(r))
                key = repr([p[:1] + sorted(p[1:]) for p in r])
                if key not in seen:
                    seen.add(key)
                    want.append(e)
            if text:
                want.append(text)
    r = run.run([env.bin('cg-mwesplit')], s)
    o.evals += 1
    o.events['warnings'] += warn
    files = {'in.txt': s}
    if r.timeout:
        o.inconclusive += 1
        return
    w = '\n'.join(want)
    got = '\n'.join(l for l in r.text.split('\n') if l)
    if nsplit:
        o.sigs.add(hash(got))
    if r.rc != 0:
        o.bad('fails', 'cg-mwesplit: rc=%s %s' % (r.rc, r.etext[-300:]), files)
    elif got != w:
        o.bad('split', 'wrong output; ' + c.diff(w, got), files)
    elif r.etext.count('WARNING') != warn:
        o.bad('warnings', 'expected %d warnings, got: %s' % (warn, r.etext[-500:]), files)
    if o.sample is None and nsplit:
        o.sample = {'input': s[:500], 'output': r.text[:500]}
