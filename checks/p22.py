"""P22: The C library gives what the programs give."""
import fcntl
import os
import re
import subprocess

from . import common as c
from vlib import run, streamio, rich

BUILDS = {'plain': ('vislcg3', 'cg-comp', 'cg-conv', 'cg-mwesplit', 'libcg3.so')}
N = {'quick': 2200, 'thorough': 22000}
MIN = (500, 2500)
RULE = ('A case is a random grammar (as text, as binary, from a file or from memory) and one to four random windows: each is built cohort by cohort '
        'through the C API, the rules are run on it, and the cohorts, readings, sub-readings, discarded readings, dependencies and rule '
        'traces read back are compared with what vislcg3 --trace prints for the same window; or whole streams are run through an '
        'applicator with random flags and options, through the converter or through the multi-word splitter, and compared with the '
        'programs. Non-trivial: the output is not the input; distinct by output.')
ASSUMES = ['a sentence is compared with a stream of that one window, since the sentence API has no neighbouring windows',
           'relations and static tags are not part of the sentence API']
FLAGS = [(0, '--ordered'), (1, '--unsafe'), (2, '--no-mappings'), (3, '--no-corrections'), (4, '--no-before-sections'), (5, '--no-sections'),
         (6, '--no-after-sections'), (7, '--trace'), (8, '--single-run'), (9, '--always-span'), (10, '--dep-allow-loops'),
         (11, '--dep-no-crossing'), (13, '--no-pass-origin')]
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'capi.c')
FMT = {'cg': 1, 'niceline': 2, 'apertium': 3, 'fst': 5, 'jsonl': 7, 'binary': 8}
PROF = ['dis_tags', 'tags', 'sub', 'with', 'unif', 'coh', 'dep', 'all']


def init(env):
    d = os.path.dirname(env.bin('libcg3.so'))
    exe = os.path.join(d, 'capi')
    with open(os.path.join(d, 'capi.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(HARNESS):
            subprocess.run(['gcc', '-O1', '-o', exe + '.tmp', HARNESS, '-I/repo/src', '-L' + d, '-lcg3', '-Wl,-rpath,' + d], check=True)
            os.rename(exe + '.tmp', exe)


def capi(env, d, script):
    p = d.put('script', '\n'.join(script) + '\n')
    return run.run([env.bin('capi'), p], b'', timeout=8, retry=False)


# ---- one window, as the sentence API sees it and as the stream shows it

def seq(line):
    """Tags of a reading line: base form and tags, mapping tags set apart."""
    ts = streamio.split_tags(line)
    return tuple(t for t in ts if t[0] != '@'), tuple(t for t in ts if t[0] == '@')


def sentence(text):
    """The stream of one window as input for the driver."""
    out = []
    items = [x for x in streamio.parse(text) if isinstance(x, streamio.C)]
    for k, co in enumerate(items):
        out.append('C ' + co.word)
        dep = None
        rs = []
        for _, ls in co.readings:
            for _, l in ls:
                m = re.search(r' #(\d+)->(\d+)', l)
                if m:
                    dep = m.groups()
        if dep:
            out.append('P %s %s' % dep)
        for _, ls in co.readings:
            maps = [t for t in streamio.split_tags(ls[0][1]) if t[0] == '@'] or [None]
            for mp in maps:
                for j, (_, l) in enumerate(ls):
                    ts = [t for t in streamio.split_tags(re.sub(r' #\d+->\d+', '', l)) if (t[0] != '@' or j) and t != co.word]
                    if j == 0 and mp:
                        ts.append(mp)
                    if j == 0 and k == len(items) - 1:
                        ts.append('<<<')
                    out.append(('S ' if j else 'R ') + '\t'.join(ts))
    return '\n'.join(out) + '\n'


def from_cli(text, inorder=False):
    cs = []
    ids = {}
    for co in streamio.parse(text):
        if not isinstance(co, streamio.C) or co.removed:
            continue
        rs = []
        dep = None
        for dele, ls in co.readings:
            row = []
            for _, l in ls:
                m = re.search(r' #(\d+)->(\d+)', l)
                if m:
                    dep = m.groups()
                    l = l[:m.start()] + l[m.end():]
                tr = tuple(int(re.search(r':(\d+)', t).group(1)) for t in re.findall(streamio.TRACE, l + ' ') if False) or \
                    tuple(int(m.group(1)) for m in re.finditer(r' (?:[A-Z-]+)(?:\([^ ]*\))?:(\d+)(?::[^ ]+)?(?= |$)', l))
                row.append((seq(streamio.strip_trace(l)), tr))
            for mp in row[0][0][1] or (None,):
                rs.append((dele, ((row[0][0][0], (mp,) if mp else ()), row[0][1]), tuple(row[1:])))
        cs.append([co.word, rs if inorder else set(rs), dep])
        if dep:
            ids[dep[0]] = len(cs)
    for x in cs:
        x[2] = (ids.get(x[2][1], 0) if x[2][1] != '0' else 0) if x[2] else None
    return cs


def from_api(text, inorder=False):
    cs = []
    ids = {}
    cur = None
    for l in text.split('\n'):
        if not l:
            continue
        if l[0] == 'C':
            _, i, ds, dp, w = l.split(' ', 4)
            cur = [w, [], dp]
            if w != '">>>"' and w != '>>>' :
                cs.append(cur)
                if ds != '0':       # an added cohort
                    ids[ds] = len(cs)
        elif l[0] in 'RDS':
            ts = [t for t in l.split('\t')[1:] if t not in ('<<<', '>>>') and t != cur[0] and t]
            b = next((k for k, t in enumerate(ts) if t[0] == '"'), 0)
            ts = ts[b:b + 1] + ts[:b] + ts[b + 1:]
            if ts and ts[0][0] != '"':      # a reading made for a cohort without any
                ts.insert(0, '"' + cur[0][2:-2] + '"')
            s = (tuple(t for t in ts if t[0] != '@'), tuple(t for t in ts if t[0] == '@'))
            if l[0] == 'S':
                cur[1][-1][1].append([s, ()])
            else:
                cur[1].append([l[0] == 'D', [[s, ()]]])
            last = cur[1][-1][1][-1]
        elif l[0] == 'T':
            last[1] = tuple(int(x) for x in l.split()[1:])
    for x in cs:
        x[1] = [(dele, tuple(rows[0]), tuple(tuple(r) for r in rows[1:])) for dele, rows in x[1] if rows[0][0] != ((), ()) and not (inorder and dele)]
        x[1] = x[1] if inorder else set(x[1])
        x[2] = cs.index(x) + 1 if x[2] == '4294967295' else ids.get(x[2], 0)     # vislcg3 shows no parent as a loop
    return cs


def bases(*sides):
    """Which of several base forms is the one printed first isn't in the API: leave them all out where there are several."""
    if not any(sum(t[0] == '"' for t in h[0][0]) > 1 for rows in sides for r in rows for h in (r[1],) + r[2]):
        return sides

    def f(h):
        return ((tuple(t for t in h[0][0] if t[0] != '"'), h[0][1]), h[1])
    return [{(d, f(h), tuple(f(x) for x in s)) for d, h, s in rows} for rows in sides]


def plain(r):
    return frozenset(r[1][0][0]), tuple(frozenset(x[0][0] + x[0][1]) for x in r[2])


def merged(rows):
    """Without unmapped readings that also stand mapped: vislcg3 doesn't show those."""
    have = {plain(r) for r in rows if r[1][0][1]}
    return {r for r in rows if r[1][0][1] or plain(r) not in have}


def same(rows):
    """vislcg3 shows readings of the same tags once."""
    return {(d, frozenset(h[0][0]), h[0][1], tuple(frozenset(x[0][0] + x[0][1]) for x in s)) for d, h, s in rows}


def judge(prof, what, want, got, out, full, files, o):
    m = re.search(r'(?m)^[RDS](\t"<[^\t\n]*>")\1', out)
    if m:
        o.bad('wordform-twice', 'a reading has the tag of the word form twice: ' + m.group(0), files)
        return
    if '!' in out and re.search(r'!(u32|u16|w) ', out):
        o.bad('tag-text', 'the forms of a tag text differ: ' + out[:500], files)
        return
    if [x[0] for x in want] != [x[0] for x in got]:
        o.bad('cohorts:' + prof, what + ': vislcg3 has cohorts %s, the API %s' % ([x[0] for x in want], [x[0] for x in got]), files)
        return
    for j, (x, y) in enumerate(zip(want, got)):
        bare = ('"' + x[0][2:-2] + '"',), ()        # made for a cohort without readings, and maybe discarded again
        x[1], y[1] = ({r for r in q if r[1][0] not in (bare, ((), ()))} for q in (x[1], y[1]))
        x[1], all_ = bases(x[1], y[1])
        x[1], y[1] = merged(x[1]), merged(all_)
        if len({plain(r) for r in all_}) < len({(r[1][0][0], r[2]) for r in all_}):
            # vislcg3 shows readings of the same tags as one, but which
            x[1], y[1] = ({(plain(r)) for r in q} for q in (x[1], y[1]))
            if x[1] != y[1]:
                o.bad('merged:' + prof, what + ' cohort %d: vislcg3 only %s; API only %s' % (j + 1, x[1] - y[1], y[1] - x[1]), files)
                break
            o.events['cohorts with repeated readings'] += 1
            continue
        if x[1] - y[1] or same(y[1]) - same(x[1]):
            o.bad('readings:' + prof, what + ' cohort %d: vislcg3 only %s; API only %s' % (j + 1, sorted(x[1] - y[1]), sorted(y[1] - x[1])),
                  files)
            break
        if full and x[2] != y[2]:
            o.bad('dependency:' + prof, what + ' cohort %d: parent %s in vislcg3, %s by the API' % (j + 1, x[2], y[2]), files)
            break


def sentences(rng, env, o, d, prof):
    kw = dict(static=0, emptyw=0, variables=0, bag=0, rels=0, reldata=0, deleted=0, nwindows=(1, 1), paren=0)
    P = dict(c.PROFILES[prof])
    P['types'] = {k: v for k, v in P['types'].items() if 'RELATION' not in k and k not in ('DELIMIT', 'MAP') and 'VARIABLE' not in k}
    if prof == 'all':
        P.update(subread=0.1, dep=0.3, unif=0.1, varstr=0.1)
    P.update(kw)
    G = c.gen.Gen(rng, **P)
    G.grammar()
    for _, _, rules in G.g.blocks:      # delayed and ignored readings can't be seen through the API
        for r in rules:
            for q in ([] if isinstance(r, str) else [r] + (r.nested or [])):
                q.flags[:] = [x for x in q.flags if x not in ('DELAYED', 'IGNORED')]
    c.keep_order(G)        # what was evaluated in one sentence must not order the tests of the next
    g = G.g.emit()
    dep = rng.random() < 0.5
    if dep:             # have vislcg3 read dependencies
        g += 'SETPARENT (nosuchtag) TO (-1 (*)) ;\n'
    pg = d.put('g.cg3', g)
    V = env.bin('vislcg3')
    wins = [G.stream() for _ in range(rng.choice([1, 2, 3, 4]))]
    wins = [w for w in wins if not re.search(r'^\t\t.* @\S+(.*) @', w, re.M)]     # sub-readings take one mapping tag
    if not wins:
        return
    if '_SAME_BASIC_' in g or not all('->' in w for w in wins):         # dependencies in a stream are tags as well, so no readings of different cohorts are the same;
        # and their numbers may not meet those of sentences without
        wins = [re.sub(r' #\d+->\d+', '', w) for w in wins]
    script = []
    form = rng.choice(['text', 'binary', 'textbuf', 'binbuf'])
    if form.startswith('bin'):
        b = d.path('g.cg3b')
        if run.run([env.bin('cg-comp'), pg, b]).rc != 0:
            o.events['grammar refused'] += 1
            return
        pg2 = b
    else:
        pg2 = pg
    script.append('%s 0 %s' % ('grammarbuf' if form.endswith('buf') else 'grammar', pg2))
    script += ['app 0 0 0', 'flags 0 128']
    for k, w in enumerate(wins):
        d.put('s%d' % k, sentence(w))
        script += ['build 0 0 %s' % d.path('s%d' % k), 'run 0 0', 'dump 0 %s' % d.path('o%d' % k)]
        if rng.random() < 0.8:
            script += ['sfree 0']
    script += ['afree 0', 'gfree 0']
    files = {'g.cg3': g}
    for k, w in enumerate(wins):
        files['in%d.txt' % k] = w
    refs = []
    for w in wins:
        r = run.run([V, '-t', '-g', pg], w, timeout=8, retry=False)
        if not c.grammar_ok(r):
            o.events['grammar refused'] += 1
            return
        if r.timeout or r.crashed:
            o.inconclusive += 1
            return
        refs.append(r.text)
    r = capi(env, d, script)
    if r.timeout:
        o.inconclusive += 1
        return
    if r.rc != 0:
        o.bad('api-fails:' + prof, 'driver: rc=%s %s' % (r.rc, r.etext[-400:]), files)
        return
    for k, w in enumerate(wins):
        o.evals += 1
        o.events['sentence, grammar as ' + form] += 1
        o.events['profile ' + prof] += 1
        out = d.get('o%d' % k).decode()
        want, got = from_cli(refs[k]), from_api(out)
        files['out%d.txt' % k] = out
        o.events['cohorts compared'] += len(want)
        if refs[k] != w:
            o.sigs.add(hash(refs[k]))
        if '\x01' in out or '\x01' in refs[k]:
            o.events['not judged: capture references that were left'] += 1
            continue
        full = dep and all('->' in w for w in wins[:k]) and all(x[2] is not None for x in want)      # otherwise dependencies were just tags
        o.events['windows with dependencies'] += full
        judge(prof, 'window %d' % k, want, got, out, full, files, o)
    if o.sample is None:
        o.sample = {'grammar': g[:500], 'sentence': sentence(wins[0])[:300], 'read back': d.get('o0').decode()[:500]}


def pipeline(rng, env, o, d):
    """A sentence analysed with one grammar is copied to another one's applicator."""
    gs, prof = [], rng.choice(['dis_tags', 'tags', 'sub', 'with'])
    for n in range(2):
        P = dict(c.PROFILES[prof])
        P.update(static=0, emptyw=0, variables=0, bag=0, rels=0, reldata=0, deleted=0, nwindows=(1, 1), paren=0, dep=0, mapping=0, unif=0)
        P['types'] = {k: v for k, v in P['types'].items() if 'RELATION' not in k and k not in ('DELIMIT', 'MAP') and 'VARIABLE' not in k and
                      k not in ('COPY', 'APPEND', 'REPLACE', 'SUBSTITUTE') and
                      True}   # equal readings, which a stream has once; what the order of readings decides
        G = c.gen.Gen(rng, **P)
        G.grammar()
        for _, _, rules in G.g.blocks:
            for r in rules:
                for q in ([] if isinstance(r, str) else [r] + (r.nested or [])):
                    q.flags[:] = [x for x in q.flags if x not in ('DELAYED', 'IGNORED')]
        c.keep_order(G)
        gs.append(G.g.emit())
    w = G.stream()
    if re.search(r'^\t\t.* @\S+(.*) @', w, re.M):
        return
    p1, p2 = d.put('g1.cg3', gs[0]), d.put('g2.cg3', gs[1])
    r1 = run.run([env.bin('vislcg3'), '-g', p1], w, timeout=8, retry=False)
    r2 = run.run([env.bin('vislcg3'), '-t', '-g', p2], r1.out, timeout=8, retry=False)
    if not c.grammar_ok(r1) or not c.grammar_ok(r2):
        o.events['grammar refused'] += 1
        return
    if r1.timeout or r1.crashed or r2.timeout or r2.crashed:
        o.inconclusive += 1
        return
    d.put('s', sentence(w))
    script = ['grammar 0 ' + p1, 'grammar 1 ' + p2, 'app 0 0 0', 'app 1 1 0', 'flags 1 128',
              'build 0 0 ' + d.path('s'), 'run 0 0', 'dump 0 ' + d.path('first'), 'copy 1 0 1', 'run 1 1', 'dump 1 ' + d.path('out'),
              'sfree 1', 'sfree 0', 'afree 0', 'afree 1', 'gfree 0', 'gfree 1']
    r = capi(env, d, script)
    files = {'g1.cg3': gs[0], 'g2.cg3': gs[1], 'in.txt': w}
    if r.timeout:
        o.inconclusive += 1
        return
    if r.rc != 0:
        o.bad('api-fails:copy', 'driver: rc=%s %s' % (r.rc, r.etext[-400:]), files)
        return
    out = d.get('out').decode()
    if '\x01' in out or '\x01' in r2.text or '\x01' in r1.text:
        return
    first = d.get('first').decode()

    def shape(rows):
        return [[(h[1][0][0], tuple(x[0] for x in h[2])) for h in x[1]] for x in rows]
    if shape(from_cli(r1.text, True)) != shape(from_api(first, True)):
        o.events['order or number of readings differs between stream and sentence'] += 1
        return
    o.evals += 1
    o.events['sentence copied to another grammar'] += 1
    o.sigs.add(hash(r2.text))
    judge('copy', 'copied sentence', from_cli(r2.text), from_api(out), out, False, files, o)


def texts(rng, env, o, d):
    prof = rng.choice(['dis_tags', 'tags', 'coh', 'dep', 'rel', 'sub', 'unif', 'vars', 'with', 'par', 'all'])
    G, g = c.make(rng, prof)
    s = G.stream()
    pg = d.put('g.cg3', g)
    pi = d.put('in.txt', s)
    fl = [f for f in FLAGS if rng.random() < 0.15]
    args = [f[1] for f in fl]
    script = ['grammar 0 ' + pg, 'app 0 0 0', 'flags 0 %d' % sum(1 << f[0] for f in fl)]
    x = rng.random()
    if x < 0.2:
        n = rng.choice([1, 2, 3])
        args += ['--sections', str(n)]
        script.append('sections 0 %d' % n)
    elif x < 0.4:
        n = rng.choice(['2', '1-2', '2-3', '1,3', '3', '1,2'])
        if n.isdigit():
            args += ['--sections', n + '-' + n]
            n = n + '-' + n
        else:
            args += ['--sections', n]
        script.append('sectext 0 ' + n)
    e = run.run([env.bin('vislcg3'), '-g', pg] + args, s, timeout=8, retry=False)
    if not c.grammar_ok(e):
        o.events['grammar refused'] += 1
        return
    if e.timeout or e.crashed or len(e.out) > 3000000:
        o.inconclusive += 1
        return
    how = rng.choice(['text', 'buffer'])
    script.append('%s 0 %s %s' % (how, pi, d.path('out')))
    script += ['afree 0', 'gfree 0']
    r = capi(env, d, script)
    files = {'g.cg3': g, 'in.txt': s, 'args': ' '.join(args), 'script': '\n'.join(script)}
    if r.timeout:
        o.inconclusive += 1
        return
    o.evals += 1
    o.events['whole stream as ' + how] += 1
    for f in fl:
        o.events['flag ' + f[1]] += 1
    if e.text != s:
        o.sigs.add(hash(e.text))
    if r.rc != 0:
        o.bad('api-fails:text', 'driver: rc=%s %s' % (r.rc, r.etext[-400:]), files)
    elif d.get('out').decode('utf-8', 'replace') != e.text:
        o.bad('stream', 'vislcg3 %s and the API differ: %s' % (' '.join(args), c.diff(e.text, d.get('out').decode('utf-8', 'replace'))), files)


def convs(rng, env, o, d):
    from . import p13, p20
    x = rng.random()
    if x < 0.25:
        s = ''.join(p20.emit(p20.cohort(rng)) for _ in range(rng.choice([1, 3, 6])))
        pi = d.put('in.txt', s)
        e = run.run([env.bin('cg-mwesplit')], s)
        script = ['mwe 0', 'text 0 %s %s' % (pi, d.path('out')), 'afree 0']
        what = 'mwesplit'
    else:
        fi, fo = rng.choice(list(FMT)), rng.choice(['cg', 'niceline', 'apertium', 'fst', 'jsonl', 'binary'])
        s = p13.emit(p13.doc(rng, [f for f in (fi, fo) if f != 'cg'] or ['jsonl'])) if hasattr(p13, 'emit') else c.make(rng, 'dis')[0].stream()
        if fi != 'cg':
            s = run.run([env.bin('cg-conv'), '--in-cg', '--out-' + fi], s).out
        pi = d.put('in.txt', s)
        e = run.run([env.bin('cg-conv'), '--in-' + fi, '--out-' + fo], s)
        script = ['detect ' + pi, 'conv %d %d %s %s' % (FMT[fi], FMT[fo], pi, d.path('out'))]
        what = 'convert %s to %s' % (fi, fo)
    if e.rc != 0:
        o.events['program refused'] += 1
        return
    r = capi(env, d, script)
    files = {'in.txt': s, 'script': '\n'.join(script)}
    o.evals += 1
    o.events[what] += 1
    o.sigs.add(hash(e.out))
    if r.timeout:
        o.inconclusive += 1
        return
    if r.rc != 0:
        o.bad('api-fails:' + what.split()[0], '%s: driver: rc=%s %s' % (what, r.rc, r.etext[-400:]), files)
        return
    with open(d.path('out'), 'rb') as f:
        out = f.read()
    if out != e.out:
        o.bad(what.split()[0], '%s: program and API differ: %s' % (what, c.diff(e.out.decode('utf-8', 'replace'), out.decode('utf-8', 'replace'))), files)
    m = re.search(r'detect (\d+) (\d+)', r.text)
    if m:
        if m.group(1) != m.group(2):
            o.bad('detect', 'cg3_detect_sformat says %s, cg3_detect_sformat_buffer %s' % m.groups(), files)
        a = run.run([env.bin('cg-conv'), '--in-auto', '--out-' + fo], s)
        b = e if int(m.group(1)) == FMT[fi] else None
        o.events['detected right' if b else 'detected as another format'] += 1
        if b and a.out != b.out:
            o.bad('detect-cli', 'the API detects %s, cg-conv --in-auto acts otherwise' % fi, files)


def case(i, rng, env, o):
    with run.Scratch() as d:
        if i % 5 == 3:
            texts(rng, env, o, d)
        elif i % 10 == 9:
            convs(rng, env, o, d)
        elif i % 10 == 4:
            pipeline(rng, env, o, d)
        else:
            sentences(rng, env, o, d, PROF[i % len(PROF)])
