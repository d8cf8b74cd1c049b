"""P24: whatever is fed to the programs, they end, with a diagnostic if need be; they do not crash, abort or hang."""
import os
import re

from . import common as c, p23
from vlib import rich, run

BUILDS = {'san': ('vislcg3', 'cg-comp', 'cg-conv', 'cg-proc', 'cg-mwesplit', 'cg-relabel')}
N = {'quick': 4000, 'thorough': 100000}
MIN = (800, 3500)
RULE = ('A case is a grammar text or an input stream in one of the formats, damaged: pieces cut, repeated, swapped, replaced by bytes '
        'or tokens that mean something to its reader, or cut short. The program, built with sanitizers, must end within the time limit '
        'without a sanitizer report or death by signal; a refusal must come with a message. Non-trivial: the program accepted or '
        'refused a damaged file; distinct by outcome and message.')
ASSUMES = ['a run of the engine that reaches the time limit on a grammar that was accepted is inconclusive, as rules may feed '
           'themselves forever; a grammar that is never accepted nor refused, or an input no grammar works on that is never finished, is a hang']

GTOK = ['DELIMITERS', 'SOFT-DELIMITERS', 'SETS', 'SECTION', 'BEFORE-SECTIONS', 'AFTER-SECTIONS', 'NULL-SECTION', 'LIST', 'SET', 'TEMPLATE',
        'SELECT', 'REMOVE', 'IFF', 'ADD', 'MAP', 'REPLACE', 'APPEND', 'SUBSTITUTE', 'COPY', 'MOVE', 'SWITCH', 'WITH', 'ADDCOHORT',
        'REMCOHORT', 'SPLITCOHORT', 'MERGECOHORTS', 'COPYCOHORT', 'SETPARENT', 'SETCHILD', 'ADDRELATION', 'SETVARIABLE', 'DELIMIT',
        'JUMP', 'ANCHOR', 'EXTERNAL', 'INCLUDE', 'END', 'OPTIONS', 'PARENTHESES', 'PREFERRED-TARGETS', 'MAPPING-PREFIX', 'SUBREADINGS',
        'STATIC-SETS', 'CMDARGS', 'CMDARGS-OVERRIDE', 'REOPEN-MAPPINGS', 'STRICT-TAGS', 'LIST-TAGS', 'UNDEF-SETS', 'PROTECT', 'UNMAP',
        'RESTORE', 'EXCEPT', 'TARGET', 'IF', 'TO', 'FROM', 'AFTER', 'BEFORE', 'BARRIER', 'CBARRIER', 'LINK', 'AND', 'OR', 'NOT', 'NEGATE',
        'ALL', 'NONE', 'T:', 'SET:', 'VAR:', 'LVAR:', 'SUB:*', 'SUB:-1', '$$', '&&', '$1', '%u', '%L', '(', ')', '{', '}', '[', ']', ';',
        '+', '-', '^', '|', '\\', '∩', '∆', '=', '+=', '"', '<', '>', '"<', '>"', '/r', '/l', '"r', '"v', '"i', '"vi', '_TARGET_', '_MARK_',
        '_ATTACHTO_', '_ENCL_', '_LEFT_', '_RIGHT_', '_PAREN_', '_SAME_BASIC_', '_C1_', '*', '**', '-1*', '1**-1', '0', '@', '#', ',', ':', '<W>3>', '<W=MAX>',
        '<W*2>', '<=>', '$1', '("<a>" ".*"r)', '(*)', '()', '""', '"<>"', '<>', '^', '!', '?', '.', 'x:y', 'ITERATE', 'NOITERATE', 'DELAYED',
        'UNSAFE', 'KEEPORDER', 'REPEAT', 'ENCL_ANY', 'OUTPUT', 'CAPTURE_UNIF', 'VARYORDER', '\0', '\ufeff', '\u2028', '\u00a0', '😀', '#!', '//', '/*', '*/',
        '2147483648', '-99999999999', '1' * 300, 'a' * 5000, '(' * 300, '{' * 50]
STOK = ['"<', '>"', '"', '\t', '\t\t', '\t\t\t\t', ' ', '\n', '\n\n', ';', '; ', '@', '#1->', '#1->2', '#0->99', '#99999999999->1', 'R:', 'R:x:', 'R:x:1', 'R::', 'ID:',
        'ID:1', 'ID:4294967295', '<STREAMCMD:', '<STREAMCMD:FLUSH>', '<STREAMCMD:IGNORE>', '<STREAMCMD:RESUME>', '<STREAMCMD:EXIT>',
        '<STREAMCMD:SETVAR:', '<STREAMCMD:SETVAR:>', '<STREAMCMD:SETVAR:=>', '<STREAMCMD:SETVAR:,,=,>', '<STREAMCMD:REMVAR:,>', '"<>"', '""', '<>', '"<a>" "<b>"', '\t"a" "b"',
        '\t"', '\t""', '\t"a', '"<a', '<', '>', '\0', '\r\n', '\r', '\u2028', '\x85', '\u00a0', '\ufeff', '\\', '\\\\', '\\"', '😀', '%', '%s%n%d', '<W:1e99>', '<W:nan>', '<W:-99999999999999999999>',
        '<W:>', '*', '+', '/', '^', '$', '[', ']', '{', '}', '[[t:', ']]', '+?', '\t+?\t', 'inf', ',', ':', '"w":', '"rs":', '{}', '[]', 'null', '1e999', '"\\ud800"', '"l":', '"ts":', '"s":', '"cmd":"FLUSH"', '"t":"x"', '"ds":1', '"dp":99',
        'a' * 3000, '"' * 200, '\t' * 500, ' ' * 3000, '<' * 100, 'SELECT:1', 'ADD:', '\x01', '\x7f', '\ufffe']


def damage(rng, b, toks, n=None):
    """b with a few pieces cut, doubled, swapped or replaced."""
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6, 15])):
        x = rng.random()
        L = len(b)
        i = rng.randrange(L + 1)
        k = min(L - i, rng.choice([1, 1, 2, 4, 10, 40, 200]))
        if x < 0.25:
            del b[i:i + k]
        elif x < 0.5:
            b[i:i] = rng.choice(toks).encode('utf-8', 'surrogatepass')
        elif x < 0.6:
            b[i:i + k] = rng.choice(toks).encode('utf-8', 'surrogatepass')
        elif x < 0.7:
            j = rng.randrange(L + 1)
            b[j:j] = b[i:i + k]
        elif x < 0.78 and i < L:
            b[i] = rng.choice([0, 9, 10, 13, 32, 34, 0x80, 0xBF, 0xC0, 0xE2, 0xF0, 0xFF, rng.randrange(256)])
        elif x < 0.86 and i < L:
            b[i] ^= 1 << rng.randrange(8)
        elif x < 0.9:
            del b[i:]
        else:
            # lines and words moved around
            p = b.split(b'\n' if rng.random() < 0.5 else b' ')
            a, z = rng.randrange(len(p)), rng.randrange(len(p))
            s = b'\n' if b'\n' in b and len(p) == b.count(b'\n') + 1 else b' '
            p[a], p[z] = p[z], p[a]
            b = bytearray(s.join(p))
    return bytes(b)


FMT = ['cg', 'cg', 'cg', 'niceline', 'apertium', 'apertium', 'fst', 'jsonl', 'jsonl', 'plain', 'binary', 'matxin']


def case(i, rng, env, o):
    with run.Scratch() as d:
        x = i % 4
        if x < 2:
            grammar(i, rng, env, o, d)
        else:
            stream(i, rng, env, o, d)


def judge(o, what, r, files, hang):
    o.evals += 1
    o.events['run ' + what] += 1
    if r.timeout:
        if hang:
            o.bad('hang@' + what, '%s did not end' % what, files)
        else:
            o.inconclusive += 1
        return False
    e = r.etext
    if 'hard rss limit' in e or 'out-of-memory' in e or 'allocation-size-too-big' in e:
        if hang:
            o.bad('memory@' + what, '%s asked for more memory than there is: %s' % (what, run.san_key(e)), dict(files, stderr=e))
        else:
            o.inconclusive += 1
        return False
    if 'AddressSanitizer' in e or 'runtime error:' in e or (r.rc is not None and (r.rc < 0 or r.rc in (98, 99))):
        m = re.search(r'(ERROR: AddressSanitizer|runtime error:|Assertion|terminate called|what\(\):)[^\n]*', e)
        fr = '\n'.join(x for x in e.split('\n') if re.match(r'\s*#\d+ ', x))[:1500]
        k = run.san_key(e)
        if k.startswith('crash@'):
            m2 = re.findall(r"Assertion `(.*)' failed|what\(\): +([^\n]*)", e)
            k = 'abort: ' + (m2[-1][0] or m2[-1][1])[:60] if m2 else 'signal %s' % r.rc
        o.bad(k, '%s: exit %s: %s\n%s' % (what, r.rc, m.group(0) if m else e[-300:], fr), dict(files, stderr=e))
        return False
    if r.rc != 0 and not e.strip() and not r.out.strip():
        o.bad('silent@' + what, '%s: exit %s without a word' % (what, r.rc), files)
        return False
    o.events['%s %s' % (what, 'accepted' if r.rc == 0 else 'refused')] += 1
    o.sigs.add(hash((what, r.rc, re.sub(r'\d+', 'N', e)[-400:], len(r.out))))
    return r.rc == 0


SMALL = '"<a>"\n\t"a" N sg\n\t"ab" V @x\n"<b>" st1\n\t"b" P\n"<.>"\n\t"." PU\n"<c>"\n\t"c" N\n'


def grammar(i, rng, env, o, d):
    G, g = c.make(rng, rng.choice(p23.PROF))
    b = damage(rng, g.encode(), GTOK)
    # nothing outside the scratch directory is included, and nothing is run
    b = b.replace(b'INCLUDE', b'INCLUDX').replace(b'EXTERNAL', b'EXTERNAX') if b'/' in b or b'EXTERNAL' in b else b
    pg = d.put('g.cg3', b)
    files = {'g.cg3': b}
    r = run.run([env.bin('cg-comp'), pg, d.path('g.bin')], b'', timeout=20, san=True, cwd=d.d)
    if judge(o, 'cg-comp', r, files, True) and os.path.exists(d.path('g.bin')):
        s = SMALL if rng.random() < 0.3 else G.stream()
        r = run.run([env.bin('vislcg3'), '-g', rng.choice([pg, d.path('g.bin')]), '-t'], s, timeout=10, retry=False, san=True, cwd=d.d)
        judge(o, 'vislcg3', r, dict(files, **{'in.txt': s}), False)
    elif rng.random() < 0.15:
        r = run.run([env.bin('vislcg3'), '-g', pg, rng.choice(['--dump-ast', '--grammar-only', '--show-tags'])], b'', timeout=20, san=True, cwd=d.d)
        judge(o, 'vislcg3 --grammar-only', r, files, True)


NOG = 'DELIMITERS = "<.>" ;\nLIST N = N ;\nSECTION\nSELECT N ;\n'


def stream(i, rng, env, o, d):
    f = rng.choice(FMT)
    C = env.bin('cg-conv')
    if rng.random() < 0.5:
        s = rich.render(rich.Rich(rng, plain=rng.choice([0.3, 0.9])).doc(), rng)
    else:
        G = c.make(rng, rng.choice(['all', 'rel', 'dep', 'sub']))[0]
        s = p23.stream(G, rng)
    if f in ('cg', 'matxin'):
        b = s.encode()
    else:
        r = run.run([C, '-c', p23.COUT[f]] + (['-D'] if rng.random() < 0.3 else []), s, timeout=20, san=True)
        b = r.out
    b = damage(rng, b, STOK)
    files = {'in.' + f: b}
    x = rng.random()
    if f == 'matxin' or x < 0.15:
        what = 'cg-conv --in-auto'
        argv = [C, '-u', rng.choice(list(p23.COUT.values()))]
    elif x < 0.55:
        what = 'cg-conv ' + f
        argv = [C, p23.CIN[f], rng.choice([v for k, v in p23.COUT.items()])] + rng.choice([[], [], ['-D'], ['--deleted'], ['-o'], ['-l'], ['-B']])
    elif x < 0.65 and f == 'cg':
        what = 'cg-mwesplit'
        argv = [env.bin('cg-mwesplit')]
    elif x < 0.8 and f == 'apertium':
        pg = d.put('g.cg3', NOG)
        run.run([env.bin('cg-comp'), pg, d.path('g.bin')], b'', timeout=20, san=True)
        what = 'cg-proc'
        argv = [env.bin('cg-proc')] + rng.choice([[], ['-t'], ['-n'], ['-g'], ['-1'], ['-w']]) + [d.path('g.bin')]
    else:
        pg = d.put('g.cg3', NOG)
        what = 'vislcg3 --in-' + f
        argv = [env.bin('vislcg3'), '-g', pg, '--in-' + f] + list(rng.choice([[], [], ['-t'], ['--dep-delimit'], ['--print-dep'], ['--text-delimit'], ['--deleted'], ['--num-windows', '0'],
                                                                          ['--soft-limit', '2', '--hard-limit', '3'], ['--out-binary'], ['--out-jsonl']]))
    files['cmd.txt'] = ' '.join(argv)
    r = run.run(argv, b, timeout=20, san=True, cwd=d.d)
    judge(o, what, r, files, True)
    if o.sample is None:
        o.sample = {'program': what, 'input': b[:400].decode('utf-8', 'replace')}
