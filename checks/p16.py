"""P16: stream commands and variables do what they say, at the place where they stand."""
import re

from . import common as c
from vlib import run

BUILDS = {'plain': ('vislcg3',)}
N = {'quick': 2500, 'thorough': 40000}
MIN = (1500, 2000)
RULE = ('A case is a stream of windows interleaved with SETVAR, REMVAR, FLUSH, IGNORE, RESUME and EXIT commands and plain text, run '
        'through a grammar that also sets and removes variables and that writes on every cohort which variables it can see. '
        'The whole output is compared with an independent computation. Non-trivial: at least one command; distinct by output.')
ASSUMES = ['the order of several variable commands printed in the same place is not specified']

VARS = ['a', 'b', 'c', 'a2', 'var-x']


def cmds_sorted(text):
    out, grp = [], []
    for l in text.split('\n'):
        if re.match(r'<STREAMCMD:(SETVAR|REMVAR):', l):
            grp.append(l)
        else:
            out += sorted(grp)
            grp = []
            out.append(l)
    return '\n'.join(out + sorted(grp))


def case(i, rng, env, o):
    V = env.bin('vislcg3')
    nw = rng.choice([0, 1, 2, 2, 2, 4])
    probes = [('s_' + v, 'ADD (s_%s) (*) (0 (VAR:%s)) ;' % (v, v), v, None) for v in VARS + ['g', 'h']]
    probes += [('e_%s%s' % (v, x), 'ADD (e_%s%s) (*) (0 (VAR:%s=%s)) ;' % (v, x, v, x), v, x) for v in ('a', 'b', 'g') for x in ('1', 'xy')]
    probes += [('n_a', 'ADD (n_a) (*) (NOT 0 (VAR:a)) ;', 'a', 'NOT')]
    sel = rng.sample(probes, rng.choice([4, 8, len(probes)]))
    og, oh, orr = (rng.random() < 0.4 for _ in range(3))
    L = ['DELIMITERS = "<.>" ;', 'BEFORE-SECTIONS']
    # which variables the grammar itself changes: ("<s>") sets g=1, ("<t>") sets h=xy, ("<r>") removes g, ("<q>") removes a
    rules = ['SETVARIABLE %s(g) (1) ("<s>") ;' % ('OUTPUT ' if og else ''), 'SETVARIABLE %s(h) (xy) ("<t>") ;' % ('OUTPUT ' if oh else ''),
             'REMVARIABLE %s(g) ("<r>") ;' % ('OUTPUT ' if orr else ''), 'REMVARIABLE (a) ("<q>") ;', 'SETVARIABLE (g) (xy) ("<u>") (0 (VAR:h)) ;']
    rules = rng.sample(rules, rng.choice([0, 2, 5]))
    L += rules
    L += [p[1] for p in sel]
    g = '\n'.join(L) + '\n'

    st = {}             # the variables
    sset, srem, sout = {}, set(), set()
    lines, out, cur, outvars = [], [], None, set()
    flushed_dirty = False
    stats = o.events
    state = {'win': None}

    def close():
        """The current window is complete: run the grammar on it."""
        W = state['win']
        if W is None:
            return
        state['win'] = None
        st.update(W['set'])
        for v in W['rem']:
            st.pop(v, None)
        ov = set(W['out'])
        for ru in rules:
            m = re.search(r'\("<(.)>"\)', ru).group(1)
            if m not in W['words']:
                continue
            if m == 's':
                st['g'] = '1'
                ov |= {'g'} if og else set()
            elif m == 't':
                st['h'] = 'xy'
                ov |= {'h'} if oh else set()
            elif m == 'r':
                if 'g' in st:
                    del st['g']
                    ov |= {'g'} if orr else set()
            elif m == 'q':
                st.pop('a', None)
            elif m == 'u' and 'h' in st:
                st['g'] = 'xy'
        for v in ov:
            out.append('<STREAMCMD:REMVAR:%s>' % v if v not in st else '<STREAMCMD:SETVAR:%s>' % v if st[v] == '*' else
                       '<STREAMCMD:SETVAR:%s=%s>' % (v, st[v]))
        tags = ''
        for name, _, v, val in sel:
            if (val is None and v in st) or (val == 'NOT' and v not in st) or (val not in (None, 'NOT') and st.get(v) == val):
                tags += ' ' + name
        for kind, x in W['items']:
            out.append(x + tags if kind == 'r' else x)

    n = rng.choice([2, 5, 10, 20])
    ended = False
    hascoh = False       # a cohort since the last flush
    settled = True       # no SETVAR/REMVAR is pending
    ignoring = 0
    for k in range(n):
        x = rng.random()
        if x < 0.6:
            W = rng.choice(['a', 'b', 's', 't', 'r', 'q', 'u', '.', '.'])
            lines.append('"<%s>"' % W)
            lines.append('\t"%s" X%d' % (W, k))
            if state['win'] is None:
                state['win'] = {'set': dict(sset), 'rem': set(srem), 'out': set(sout), 'items': [], 'words': set()}
                sset.clear(), srem.clear(), sout.clear()
                settled = True
            state['win']['words'].add(W)
            state['win']['items'] += [('c', lines[-2]), ('r', lines[-1])]
            state['delim'] = W == '.'
            hascoh = True
            stats['cohorts'] += 1
            # what follows a delimiter still belongs to it, until the next cohort
            if rng.random() < 0.2:
                t = rng.choice(['text %d' % k, '<p>', '# x', '<STREAMCMD:BLAH>'])
                lines.append(t)
                state['win']['items'].append(('t', t))
            if W == '.':
                close()
        elif x < 0.85:
            # a variable command
            parts = []
            ty = rng.choice(['SETVAR', 'SETVAR', 'REMVAR'])
            for _ in range(rng.choice([1, 1, 2, 3])):
                v = rng.choice(VARS)
                if ty == 'SETVAR':
                    val = rng.choice(['*', '1', 'xy', '1'])
                    parts.append(v if val == '*' else v + '=' + val)
                    sset[v] = val
                    srem.discard(v)
                else:
                    parts.append(v)
                    sset.pop(v, None)
                    srem.add(v)
                sout.add(v)
            settled = False
            lines.append('<STREAMCMD:%s:%s>' % (ty, ','.join(parts)))
            stats[ty] += 1
        elif x < 0.93:
            if not settled:
                continue
            close()
            lines.append('<STREAMCMD:FLUSH>')
            out.append('<STREAMCMD:FLUSH>')
            st.clear()
            hascoh = False
            stats['FLUSH'] += 1
            if rng.random() < 0.5:
                lines.append('<STREAMCMD:IGNORE>')
                out.append('<STREAMCMD:IGNORE>')
                body = rng.choice([['"<x>"', '\t"x" Y'], ['free text', '', '"<', '\t"q" z'], ['"<.>"', '\t"." P', '  "k" W', '; "<r>"'], []])
                lines += body
                out += body
                lines.append('<STREAMCMD:RESUME>')
                out.append('<STREAMCMD:RESUME>')
                stats['IGNORE'] += 1
        elif x < 0.96 and not hascoh and settled:
            # before any cohort, text is printed at once
            t = rng.choice(['free %d' % k, '<s>', ''])
            lines.append(t)
            out.append(t)
        elif x > 0.98 and not hascoh and settled:
            lines += ['<STREAMCMD:EXIT>', '"<a>"', '\t"a" never', 'never']
            out.append('<STREAMCMD:EXIT>')
            ended = True
            stats['EXIT'] += 1
            break
    if not ended:
        close()
        for v in sout:
            out.append('<STREAMCMD:REMVAR:%s>' % v if v not in sset else '<STREAMCMD:SETVAR:%s>' % v if sset[v] == '*' else
                       '<STREAMCMD:SETVAR:%s=%s>' % (v, sset[v]))
    if not lines:
        return
    s = '\n'.join(lines) + '\n'
    e = cmds_sorted('\n'.join(out) + '\n' if out else '')
    with run.Scratch() as d:
        r = run.run([V, '-g', d.put('g.cg3', g), '--num-windows', str(nw)], s)
    o.evals += 1
    if r.timeout:
        o.inconclusive += 1
        return
    if 'STREAMCMD' in s:
        o.sigs.add(hash(r.text))
    got = cmds_sorted(r.text)
    files = {'g.cg3': g, 'in.txt': s, 'expected.txt': e, 'out.txt': r.text}
    if r.rc != 0:
        o.bad('exit', 'rc=%s %s' % (r.rc, r.etext[-300:]), files)
    elif got != e:
        o.bad('stream-commands', c.diff(e, got), files)
    if o.sample is None:
        o.sample = {'grammar': g, 'input': s[:400]}
