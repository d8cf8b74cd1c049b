"""Random grammars and streams over a small vocabulary, so that rules interact a lot."""
from .ast import *

WORDS = ['a', 'b', 'c', 'A', 'ab', 'bc']
BASES = ['"a"', '"b"', '"c"', '"A"', '"ab"']
POS = ['N', 'V', 'D', 'P', 'Q']
SUBT = ['sg', 'pl', 'ac', 'gn', 'f1']
TEXT = ['<t1>', '<t2>', '<t3>']
MAPT = ['@x', '@y', '@z']
NEWT = ['n1', 'n2', 'n3']
NUMK = ['W', 'K']
VARS = ['v1', 'v2', 'w1']
ANCH = ['a1', 'a2', 'a3']
DELIM = '"<.>"'


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(
            num=0.15, regex=0.15, icase=0.05, mapping=0.15, text=0.2, static=0.1, subread=0.0, dep=0.0, rels=0.0,
            unif=0.0, varstr=0.0, tmpl=0.1, variables=0.0, paren=0.0, deleted=0.0, span=0.2, wread=0.1, ctx=0.0,
            nrules=(3, 10), nsets=(4, 8), types={'SELECT': 4, 'REMOVE': 4, 'IFF': 1, 'ADD': 1, 'MAP': 1}, ntests=(0, 3),
            ncohorts=(1, 6), nreadings=(1, 4), nwindows=(2, 6), sections=0.4, flagp=0.2, wfrule=0.08, ff=0.03,
            linkp=0.3, barrier=0.25, careful=0.15, neg=0.3, selftest=0.1, absolute=0.1, origin=0.1, mark=0.1, attach=0.05,
            alltest=0.0, setops=0.5, specialset=0.08, noneall=0.0, safe_lists=False, unsafe=0.15, algebra=0.05,
            anyset=0.12, orp=0.05, negdep=0.0, active=0.0, dup_tags=0.0, nested=0.0, repeat=0.0, emptyw=0.05, meta=0.0,
            softd=0.0, magic=0.05, depcross=False, reldata=0.0, jumps=0.0, settag=0.03, bag=0.015, encl=0.0, delim_rule=0.0, subwf=0.0)
        self.o.update(kw)
        self.g = Grammar()
        self.setnames = []
        self.listnames = []
        self.tmplnames = []
        self.rulenames = []
        self.static = self.g.static

    def spot(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return ('i', (r.choice(POS + SUBT),))
        if x < 0.8:
            return ('i', (r.choice(BASES), r.choice(POS)))
        return ('i', (r.choice(POS), r.choice(SUBT)))

    def p(self, k):
        return self.r.random() < self.o[k]

    def ch(self, *xs):
        return self.r.choice(xs)

    def wch(self, d):
        ks = list(d)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    # ---- tags, as used in grammar sets
    def ptag(self):
        """A plain tag."""
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.choice(POS)
        if x < 0.75:
            return r.choice(SUBT)
        if x < 0.83:
            return r.choice(NEWT)
        if x < 0.93:
            return r.choice(BASES)
        return r.choice(TEXT) if self.p('text') else r.choice(POS)

    def gtag(self, composite=False):
        r = self.r
        if self.p('num'):
            op = r.choice(['=', '<', '>', '<=', '>=', '!=', '=', ':'])
            v = r.choice(['1', '2', '3', '2.5', 'MAX', 'MIN', '0', '0.5', '-0.5', '-1', '1.5'])
            if self.o.get('math', True) and r.random() < 0.12:
                v = r.choice(['1+1', 'MIN+1', 'MAX-1', '(MIN+MAX)/2', '-1*MIN', 'MAX/2', 'SQR(2)-MIN', '2^2', 'A+1', 'round(2.5)'])
            if v in ('MAX', 'MIN') and op in ('!=', '<', '>') and r.random() < 0.5:
                op = '='
            return '<%s%s%s>' % (r.choice(NUMK), op, v)
        if self.p('regex'):
            return r.choice(['"[ab]"r', '"a.*"r', '/^[nN]/r', '"<[ab]>"r', '"<.*b.*>"r', '/[gl]$/r', '<t[12]>r', '"(a|c)"r',
                             '".*"r', '"<.*>"r', '"A"ri'])
        if self.p('icase'):
            return r.choice(['"a"i', '"<a>"i', '"AB"i', '"<AB>"i'])
        if self.p('mapping'):
            return r.choice(MAPT)
        if self.p('wread'):
            return '"<%s>"' % r.choice(WORDS + ['.'])
        if self.o['static'] and r.random() < self.o['static'] * 0.5:
            return r.choice(['st1', 'st2'])
        if self.p('variables'):
            k = r.choice(VARS)
            pre = 'LVAR:' if r.random() < 0.15 else 'VAR:'
            return r.choice([pre + k, pre + k, pre + k + '=' + r.choice(['1', '2', 'N'])])
        return self.ptag()

    def comp(self):
        n = self.r.choice([1, 1, 1, 1, 2, 2, 3])
        t = []
        for _ in range(n):
            x = self.gtag()
            if x not in t:
                t.append(x)
        return tuple(t)

    def listdef(self):
        n = self.r.choice([1, 1, 2, 2, 3, 4])
        es = []
        for _ in range(n):
            c = self.comp()
            if all(set(c) != set(e) for e in es):
                es.append(c)
        if self.p('ff'):
            es.append(('^' + self.r.choice(POS + SUBT),))
        return ('list', tuple(es))

    def plainlist(self):
        es = []
        for _ in range(self.r.choice([1, 2, 3])):
            c = tuple(dict.fromkeys(self.r.choice(POS + SUBT + BASES) for _ in range(self.r.choice([1, 1, 2]))))
            if all(set(c) != set(e) for e in es):
                es.append(c)
        return ('list', tuple(es))

    def mksets(self):
        n = self.r.randint(*self.o['nsets'])
        for i in range(n):
            name = 'S%d' % i
            if i < 2 or not self.p('setops'):
                self.g.sets.append(('LIST', name, self.listdef()))
                self.listnames.append(name)
            else:
                if self.p('algebra'):
                    for s in 'ab':
                        self.g.sets.append(('LIST', name + s, self.plainlist()))
                    self.g.sets.append(('SET', name, ('set', (('n', name + 'a'), ('n', name + 'b')),
                                                      (self.ch('\\', '∩', '∆'),))))
                    # The difference may be empty, which the grammar parser may refuse: keep a common element out
                    k = self.ch('zz1', 'zz2')
                    kk, nn, dd = self.g.sets[-3]
                    self.g.sets[-3] = (kk, nn, ('list', dd[1] + (((k,)),)))
                    if self.g.sets[-1][2][2][0] == '∩':
                        kk, nn, dd = self.g.sets[-2]
                        self.g.sets[-2] = (kk, nn, ('list', dd[1] + (((k,)),)))
                else:
                    m = self.r.choice([2, 2, 3, 4])
                    refs = tuple(self.sref() for _ in range(m))
                    ops = tuple(self.r.choice(['OR', 'OR', '+', '+', '-', '^']) for _ in range(m - 1))
                    self.g.sets.append(('SET', name, ('set', refs, ops)))
            self.setnames.append(name)

    def sref(self):
        """Reference to a set inside a set expression."""
        if self.setnames and self.r.random() < 0.6:
            return ('n', self.r.choice(self.setnames))
        return ('i', self.comp())

    def ref(self, special=True):
        r = self.r
        if self.p('anyset'):
            return ('i', ('*',))
        if special and self.p('specialset'):
            return ('n', r.choice(['_TARGET_', '_MARK_', '_ATTACHTO_'] + (['_SAME_BASIC_'] if r.random() < 0.3 else [])))
        if self.p('unif') and self.setnames:
            if r.random() < 0.6:
                return ('u', r.choice(self.listnames))
            c = [n for k, n, d in self.g.sets if k == 'SET' and n in self.setnames and d[2][0] not in ('\\', '∩', '∆')]
            if c:
                return ('U', r.choice(c))
        if self.p('settag') and self.setnames:
            n = r.choice(self.setnames)
            if n not in self.static:
                self.static.append(n)
            return ('i', ('SET:' + n,))
        x = r.random()
        if x < 0.6 and self.setnames:
            return ('n', r.choice(self.setnames))
        if x < 0.92:
            return ('i', self.comp())
        return ('e', (self.sref(), self.sref()), (r.choice(['OR', '+', '-', '^']),))

    # ---- contextual tests
    def test(self, depth=0, dep=False, inlink=False, plain=False):
        r = self.r
        if not plain and self.tmplnames and self.p('tmpl') and depth < 2:
            t = Test(tmpl=r.choice(self.tmplnames))
            if r.random() < 0.2:
                t.pos |= r.choice([NOT, NEGATE])
            if r.random() < 0.35:
                t.pos |= TMPL_OVERRIDE
                t.offset = r.choice([-1, 1, 1, 2, -2, 0])
                if r.random() < 0.4:
                    t.pos |= SCANFIRST
            if depth < 2 and r.random() < 0.25:
                t.linked = self.test(depth + 1, inlink=True, plain=True)
            return t
        if not plain and self.p('orp') and depth < 1:
            t = Test(ors=[self.test(depth + 1, plain=True) for _ in range(r.choice([2, 3]))])
            return t
        t = Test()
        neg = 0
        if self.p('neg'):
            neg = r.choice([NOT, NOT, NEGATE])
        kinds = {'lin': 10}
        if self.o['dep']:
            kinds['dep'] = 10 * self.o['dep']
        if self.o['rels']:
            kinds['rel'] = 10 * self.o['rels']
        if self.o['paren']:
            kinds['par'] = 10 * self.o['paren']
        kinds['bag'] = 10 * self.o['bag']
        if self.o['jumps']:
            kinds['jump'] = 10 * self.o['jumps']
        k = self.wch(kinds)
        scan = False
        if k == 'lin':
            if self.p('absolute'):
                t.pos |= ABSOLUTE
                t.offset = r.choice([0, 1, 1, 2, -1, -1, -2])
                if r.random() < 0.3:
                    t.pos |= SCANFIRST
                if self.p('span') and r.random() < 0.4:
                    t.pos |= r.choice([SPAN_LEFT, SPAN_RIGHT])
            else:
                t.offset = r.choice([-2, -1, -1, -1, 1, 1, 1, 2, 0, 0])
                if r.random() < 0.45:
                    t.pos |= r.choice([SCANFIRST, SCANFIRST, SCANALL])
                    scan = True
                if self.p('span'):
                    t.pos |= r.choice([SPAN_BOTH, SPAN_LEFT, SPAN_RIGHT])
                if t.offset == 0 and not t.pos & (SCANFIRST | SCANALL) and r.random() < 0.3:
                    t.offset = 1
                if scan and r.random() < 0.15:
                    t.pos |= SELF
                    if r.random() < 0.5:
                        t.pos |= NO_BARRIER
                if scan and self.p('origin'):
                    t.pos |= r.choice([PASS_ORIGIN, NO_PASS_ORIGIN])
        elif k == 'dep':
            t.pos |= r.choice([DEP_PARENT, DEP_CHILD, DEP_CHILD, DEP_SIBLING, DEP_PARENT | DEP_GLOB, DEP_CHILD | DEP_GLOB,
                               DEP_PARENT])
            if not t.pos & DEP_GLOB:
                if t.pos & (DEP_CHILD | DEP_SIBLING) and r.random() < 0.35:
                    t.pos |= SCANFIRST
                elif t.pos & DEP_PARENT and r.random() < 0.35:
                    t.pos |= SCANFIRST
            if r.random() < 0.2:
                t.pos |= SELF
            if r.random() < 0.25 and not (t.pos & DEP_PARENT and not t.pos & DEP_GLOB):
                t.pos |= r.choice([LEFT, RIGHT, LEFTMOST, RIGHTMOST])
            if self.p('span'):
                t.pos |= r.choice([SPAN_BOTH, SPAN_LEFT, SPAN_RIGHT])
            if self.p('noneall') and not neg:
                neg = r.choice([ALL, NONE])
            scan = True
        elif k == 'rel':
            t.relation = r.choice(['r1', 'r2', 'r1', '*'])
            if r.random() < 0.25:
                t.pos |= r.choice([LEFT, LEFTMOST, RIGHTMOST])
            if self.p('noneall') and not neg:
                neg = r.choice([ALL, NONE])
        elif k == 'par':
            t.pos |= r.choice([LEFT_PAR, RIGHT_PAR])
        elif k == 'bag':
            self.g.has_bag = True
            t.pos |= BAG_OF_TAGS | r.choice([0, 0, SPAN_LEFT, SPAN_RIGHT, SPAN_BOTH, SPAN_LEFT | SPAN_RIGHT])
        elif k == 'jump':
            t.jump = r.choice(['M', 'A', 'T', 1, 2])
            t.offset = r.choice([0, 1, -1, 0])
        if self.p('careful'):
            t.pos |= CAREFUL
        if self.p('deleted'):
            t.pos |= r.choice([LOOK_DELETED, LOOK_DELAYED, LOOK_IGNORED, LOOK_DELETED | LOOK_DELAYED])
        if self.p('active'):
            t.pos |= r.choice([ACTIVE, INACTIVE])
        if self.p('mark') and k != 'jump':
            t.pos |= MARK_SET
        if self.p('attach'):
            t.pos |= ATTACH_TO
        if self.o['subread'] and r.random() < self.o['subread']:
            t.sub = r.choice([1, 1, -1, 2, 32767, -2])
        t.target = self.ref()
        if scan and self.p('barrier'):
            if r.random() < 0.6:
                t.barrier = self.ref(False)
            else:
                t.cbarrier = self.ref(False)
        if neg == NONE or not (depth < 2 and self.p('linkp')):
            pass
        else:
            t.linked = self.test(depth + 1, inlink=True)
            if t.linked.pos & NEGATE and r.random() < 0.5:
                t.linked.pos &= ~NEGATE
        t.pos |= neg
        return t

    def tests(self, n=None):
        n = self.r.randint(*self.o['ntests']) if n is None else n
        return [self.test() for _ in range(n)]

    def mktemplates(self):
        if not self.o['tmpl']:
            return
        for i in range(self.r.choice([0, 1, 2])):
            name = 'T%d' % i
            if self.r.random() < 0.5:
                t = Test(ors=[self.test(1, plain=True) for _ in range(2)])
            else:
                t = self.test(1, plain=True)
            self.g.templates.append((name, t))
        self.tmplnames = [n for n, t in self.g.templates]

    # ---- rules
    def taglist(self, mapping=False, n=None, base=0.1, vs=True):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 1, 2, 2, 3])):
            x = r.random()
            if mapping and x < 0.7 or x < self.o['mapping']:
                t = r.choice(MAPT)
            elif x < 0.55:
                t = r.choice(NEWT)
            elif x < 0.55 + base:
                t = r.choice(BASES)
            elif self.o['num'] and x < 0.75:
                t = '<%s=%d>' % (r.choice(NUMK), r.randint(1, 3)) if r.random() < 0.3 else r.choice(SUBT)
            else:
                t = r.choice(POS + SUBT)
            if vs and self.p('varstr'):
                t = r.choice(['"$1x"v', 'VSTR:k$1', '"<$1>"v', 'VSTR:@$1', '"%U$1"v', '"$1$1"v', '"$2-$9$1"v'])
            if t not in out:
                out.append(t)
        return ('i', tuple(out))

    def target(self):
        r = self.r
        x = r.random()
        if self.p('anyset') and r.random() < 0.5:
            return ('i', ('*',))
        if self.p('varstr'):
            return ('i', (r.choice(['"(.)"r', '"(.*)"r', '"<(.).*>"r', '"<([a-z])>"r', '"(a|c)(b?)"r', '"<(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)>"r']),))
        return self.ref(special=False)

    def deptests(self):
        """Tests which locate a cohort for SETPARENT/MOVE/...: the last one."""
        r = self.r
        t = self.test(plain=True)
        t.pos &= ~(NOT | NEGATE | NONE | ALL)
        x = t
        while x.linked:
            x = x.linked
        return [t]

    def rule(self, T=None, depth=0):
        r = self.r
        T = T or self.wch(self.o['types'])
        ru = Rule(T, self.target(), self.tests())
        fl = set()
        if T in ('SELECT', 'REMOVE', 'IFF', 'UNMAP'):
            if self.p('unsafe'):
                fl.add('UNSAFE')
            elif r.random() < 0.05:
                fl.add('SAFE')
            if T == 'REMOVE' and r.random() < 0.08:
                fl.add('UNMAPLAST')
        if T in ('SELECT', 'REMOVE', 'IFF'):
            x = r.random()
            if x < 0.06:
                fl.add('DELAYED')
            elif x < 0.12:
                fl.add('IGNORED')
        if self.p('flagp'):
            x = r.choice(['KEEPORDER', 'RESETX', 'REMEMBERX', 'NOMAPPED', 'IMMEDIATE', 'NOITERATE', 'ITERATE', 'REPEAT',
                          'LOOKDELETED', 'LOOKDELAYED', 'LOOKIGNORED', 'BEFORE' if False else 'KEEPORDER'])
            if x == 'REPEAT' and not self.p('repeat'):
                x = 'NOITERATE'
            if x == 'ITERATE' and T not in ('SELECT', 'REMOVE', 'IFF', 'REMCOHORT', 'DELIMIT', 'MOVE', 'SWITCH'):
                x = 'KEEPORDER'
            if not (x == 'IMMEDIATE' and (fl & {'DELAYED', 'IGNORED'} or T in ('RESTORE', 'REMCOHORT'))):
                fl.add(x)
        if T == 'SWITCHPARENT' and r.random() < 0.4:
            ru.childset1 = ('i', (r.choice(['*', '*'] + POS),))
        if self.p('wfrule'):
            ru.wordform = '"<%s>"' % r.choice(WORDS)
        if self.o['subread'] and r.random() < self.o['subread'] and T in ('SELECT', 'REMOVE', 'IFF', 'APPEND', 'RESTORE',
                                                                          'UNMAP', 'PROTECT', 'UNPROTECT'):
            ru.sub = r.choice([1, 1, -1, 2, 32767, -2])
        elif self.o['subread'] and r.random() < self.o['subread'] and T in ('MAP', 'ADD', 'REPLACE', 'SUBSTITUTE', 'COPY'):
            ru.sub = r.choice([1, 1, -1, 2])
        if T in ('MAP', 'ADD', 'REPLACE'):
            ru.maplist = self.taglist(mapping=T == 'MAP', base=0.0 if T != 'REPLACE' else 0.15)
            if T in ('ADD', 'MAP') and r.random() < 0.12:
                ru.kw_dir = r.choice(['BEFORE', 'AFTER'])
                ru.childset1 = self.spot()
        elif T == 'APPEND':
            b = r.choice(BASES)
            ml = self.taglist(vs=False)
            ru.maplist = ('i', (b,) + tuple(x for x in ml[1] if not x.startswith('"')))
        elif T == 'COPY':
            ru.maplist = self.taglist(base=0.0)
            if r.random() < 0.25:
                ru.excepts = ('i', tuple(dict.fromkeys(r.choice(POS + SUBT) for _ in range(r.choice([1, 2])))))
            elif r.random() < 0.12:
                ru.kw_dir = r.choice(['BEFORE', 'AFTER'])
                ru.childset1 = self.spot()
        elif T == 'SUBSTITUTE':
            x = r.random()
            if self.p('subwf'):
                ru.sublist = ('i', ('"<%s>"' % r.choice(WORDS[:4]),))
                ru.maplist = ('i', ('"<%s>"' % r.choice(WORDS[:4]),))
            elif x < 0.15:
                ru.sublist = ('i', (r.choice(BASES + ['"[ab]"r', '"a.*"r']),))
                ru.maplist = ('i', (r.choice(BASES),))
            elif x < 0.25:
                ru.sublist = self.subfrom()
                ru.maplist = ('i', ('*',))
            else:
                ru.sublist = self.subfrom()
                ru.maplist = self.taglist(base=0.0)
            if ru.maplist != ('i', ('*',)) and not ru.maplist[1][0].startswith('"<') and r.random() < 0.1:
                ru.kw_dir = r.choice(['BEFORE', 'AFTER'])
                ru.childset1 = self.spot()
        elif T == 'RESTORE':
            ru.maplist = ru.target if r.random() < 0.3 else self.ref(False)
            ru.target = ('i', ('*',)) if r.random() < 0.5 else self.target()
            x = r.random()
            if x < 0.2:
                fl.add('DELAYED')
            elif x < 0.4:
                fl.add('IGNORED')
        elif T == 'SETVARIABLE':
            ru.maplist = ('i', (r.choice(VARS),))
            ru.sublist = ('i', (r.choice(['1', '2', 'N']),))
            if r.random() < 0.2:
                fl.add('OUTPUT')
        elif T == 'REMVARIABLE':
            ru.maplist = ('i', (r.choice(VARS),))
            if r.random() < 0.2:
                fl.add('OUTPUT')
        elif T == 'JUMP':
            ru.maplist = ('i', (r.choice(ANCH + self.rulenames),))
        elif T == 'ADDCOHORT':
            w = '"<n%s>"' % r.choice('12')
            ml = self.taglist(vs=False, base=0)
            ml = ('i', tuple(x for x in ml[1] if x in NEWT or x in MAPT))
            ru.maplist = ('i', (w, '"nb"') + ml[1])
            ru.target = ('i', (r.choice(POS),))
            ru.kw_dir = r.choice(['AFTER', 'BEFORE'])
            if r.random() < 0.15 and self.o['dep']:
                ru.childset1 = ('i', ('*',))
        elif T == 'SPLITCOHORT':
            n = r.choice([2, 2, 3])
            ru.target = ('i', (r.choice(BASES),))
            ml = []
            for k in range(n):
                ml += ['"<s%d>"' % k, '"sb"', r.choice(POS)]
                if r.random() < 0.3:
                    ml.append('*')
                elif r.random() < 0.5:
                    ml.append(r.choice(SUBT))
            ru.maplist = ('i', tuple(ml))
        elif T in ('ADDRELATION', 'SETRELATION', 'REMRELATION'):
            ru.maplist = ('i', (r.choice(['r1', 'r2']),))
            ru.dep_tests = self.deptests()
        elif T in ('ADDRELATIONS', 'SETRELATIONS', 'REMRELATIONS'):
            ru.maplist = ('i', (r.choice(['r1', 'r2']),))
            ru.sublist = ('i', (r.choice(['r1', 'r3']),))
            ru.dep_tests = self.deptests()
        elif T in ('SETPARENT', 'SETCHILD'):
            ru.dep_tests = self.deptests()
            ru.deptarget_pos = r.choice(['TO', 'TO', 'FROM'])
            if r.random() < 0.25:
                fl.add(r.choice(['SAFE', 'NEAREST', 'ALLOWLOOP', 'ALLOWCROSS', 'NOPARENT' if False else 'NEAREST']))
        elif T in ('MOVE', 'SWITCH'):
            ru.dep_tests = self.deptests()
            ru.deptarget_pos = r.choice(['AFTER', 'BEFORE']) if T == 'MOVE' else 'WITH'
            if T == 'MOVE' and r.random() < 0.2 and self.o['dep']:
                ru.childset1 = ('i', ('*',))
            if T == 'MOVE' and r.random() < 0.2 and self.o['dep']:
                ru.childset2 = ('i', ('*',))
        elif T == 'COPYCOHORT':
            ml = self.taglist(vs=False, base=0)
            ru.maplist = ('i', ('"<n3>"',) + ml[1])
            ru.tests.insert(0, Test(target=('i', ('"<n3>"',)), pos=NEGATE))
            ru.tests[0].offset = 0
            ru.dep_tests = self.deptests()
            ru.kw_dir = r.choice([None, 'AFTER', 'BEFORE'])
            if r.random() < 0.25:
                ru.excepts = ('i', (r.choice(POS + SUBT),))
            if ru.kw_dir and r.random() < 0.5 and self.o['dep']:
                ru.childset2 = ('i', (r.choice(['*', '*'] + POS),))
        elif T == 'MERGECOHORTS':
            ru.maplist = ('i', ('"<mm>"', '"mm"', r.choice(POS)))
            ru.tests.insert(0, Test(target=('i', ('"<mm>"',)), pos=NEGATE))
            ru.dep_tests = [self.test(plain=True)]
            ru.dep_tests[0].pos |= WITH
            ru.dep_tests[0].pos &= ~(NOT | NEGATE | NONE | ALL)
        elif T == 'REMCOHORT':
            x = r.random()
            if x < 0.15:
                fl.add('IGNORED')
        elif T == 'WITH':
            ru.nested = []
            sv = self.o['types']
            self.o['types'] = {k: v for k, v in sv.items() if k not in ('WITH', 'JUMP', 'DELIMIT')}
            for _ in range(r.choice([1, 2, 2])):
                nr = self.rule(depth=depth + 1)
                nr.wordform = None
                ru.nested.append(nr)
            self.o['types'] = sv
            fl &= {'NOITERATE'}
        if r.random() < 0.1 and depth == 0:
            ru.name = 'n%d' % r.randint(1, 5)
        if T in ('UNMAP',) and 'UNSAFE' not in fl and r.random() < 0.5:
            fl.add('UNSAFE')
        order = sorted(fl)
        ru.flags = order
        return ru

    def subfrom(self):
        r = self.r
        n = r.choice([1, 1, 1, 2])
        t = [r.choice(POS + SUBT + NEWT + ([self.r.choice(MAPT)] if self.p('mapping') else []) +
                      (['/^[a-z]$/r', '/^s/r', '<t.>r'] if self.p('regex') else [])) for _ in range(n)]
        return ('i', tuple(dict.fromkeys(t)))

    def grammar(self):
        r = self.r
        self.mksets()
        self.mktemplates()
        if self.o['paren']:
            self.g.parentheses = [('"<(>"', '"<)>"'), ('"<[>"', '"<]>"')]
        n = r.randint(*self.o['nrules'])
        blocks = []
        kws = ['SECTION']
        if self.p('sections'):
            kws = []
            if r.random() < 0.4:
                kws.append('BEFORE-SECTIONS')
            kws += ['SECTION'] * r.choice([1, 2, 2, 3])
            if r.random() < 0.4:
                kws.append('AFTER-SECTIONS')
        cuts = [[] for _ in kws]
        for _ in range(n):
            cuts[r.randrange(len(kws))].append(self.rule())
        for i, kw in enumerate(kws):
            body = cuts[i]
            if self.o['types'].get('JUMP'):
                for a in ANCH:
                    if i == len(kws) - 1 and a not in [x for b in blocks for x in b[2] if isinstance(x, str)] and \
                            a not in [x for x in body if isinstance(x, str)]:
                        body.insert(r.randint(0, len(body)), a)
                    elif r.random() < 0.25 and a not in [x for b in blocks for x in b[2] if isinstance(x, str)]:
                        body.insert(r.randint(0, len(body)), a)
            blocks.append((kw, None, body))
        self.g.blocks = blocks
        return self.g

    # ---- streams
    def reading(self, sub=0):
        r = self.r
        tags = [r.choice(BASES)]
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            x = r.random()
            if x < 0.45:
                t = r.choice(POS)
            elif x < 0.75:
                t = r.choice(SUBT)
            elif x < 0.82 and self.o['text']:
                t = r.choice(TEXT)
            elif x < 0.9 and self.o['num']:
                t = '<%s%s%s>' % (r.choice(NUMK), ':' if r.random() < 0.8 else r.choice(['<', '>', '<=', '>=', '!=', '<>']),
                                  r.choice(['1', '2', '3', '2.5', '0', '-1', '0.25']))
            elif x < 0.95 and self.o['mapping'] and r.random() < self.o['mapping'] * 2:
                t = r.choice(MAPT)
            else:
                t = r.choice(POS + SUBT)
            if t not in tags:
                tags.append(t)
        return tags

    def cohort(self, word=None):
        r = self.r
        w = word or r.choice(WORDS)
        L = '"<%s>"' % w
        if self.o['static'] and self.p('static'):
            L += ' ' + ' '.join(sorted(set(r.choice(['st1', 'st2']) for _ in range(2))))
        out = [L]
        seen = set()
        for _ in range(r.randint(*self.o['nreadings'])):
            t = self.reading()
            k = frozenset(t)
            if k in seen:
                continue
            seen.add(k)
            out.append('\t' + ' '.join(t))
            if self.o['subread'] and r.random() < self.o['subread']:
                out.append('\t\t' + ' '.join(self.reading()))
                if r.random() < 0.35:
                    out.append('\t\t\t' + ' '.join(self.reading()))
        return out

    def window(self, delim=True):
        r = self.r
        lines = []
        n = r.randint(*self.o['ncohorts'])
        cs = []
        for _ in range(n):
            w = None
            if self.o['paren'] and r.random() < self.o['paren']:
                w = r.choice(['(', ')', '(', ')', '[', ']'])
            cs.append(self.cohort(w))
        if delim:
            cs.append(['"<.>"', '\t"." PU'])
        if self.o['negdep'] or self.o['dep']:
            self.adddeps(cs)
        if self.o['reldata']:
            self.addrels(cs)
        for c in cs:
            lines += c
        return lines

    def adddeps(self, cs):
        r = self.r
        n = len(cs)
        if r.random() < 0.15:
            return
        # a random tree or forest
        order = list(range(1, n + 1))
        r.shuffle(order)
        par = {}
        done = []
        for x in order:
            if not done or r.random() < 0.15:
                par[x] = 0
            else:
                par[x] = r.choice(done)
            done.append(x)
        for i, c in enumerate(cs):
            dep = ' #%d->%d' % (i + 1, par[i + 1])
            for k in range(1, len(c)):
                if c[k].startswith('\t') and not c[k].startswith('\t\t'):
                    c[k] += dep

    def addrels(self, cs):
        r = self.r
        base = self.relbase = getattr(self, 'relbase', 0)
        n = len(cs)
        for i, c in enumerate(cs):
            if r.random() < 0.5:
                s = ' ID:%d' % (base + i + 1)
                for _ in range(r.choice([0, 1, 1, 2])):
                    s += ' R:%s:%d' % (r.choice(['r1', 'r2']), base + r.randint(1, n))
                for k in range(1, len(c)):
                    if c[k].startswith('\t') and not c[k].startswith('\t\t'):
                        c[k] += s
        self.relbase = base + n + 3

    def stream(self):
        r = self.r
        out = []
        n = r.randint(*self.o['nwindows'])
        for i in range(n):
            if self.o['variables'] and r.random() < 0.3:
                out.append('<STREAMCMD:' + r.choice(['SETVAR:v1', 'SETVAR:v1=2,v2=1', 'REMVAR:v1', 'SETVAR:w1=N',
                                                     'REMVAR:*', 'SETVAR:v2=N']) + '>')
            out += self.window(delim=i < n - 1 or r.random() < 0.8)
        return '\n'.join(out) + '\n'
