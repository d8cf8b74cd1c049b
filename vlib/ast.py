"""Grammar AST used by the generators and the reference model, with an emitter to CG-3 source text.

Sets are described structurally:
  ('list', ((tag, ...), ...))        - a LIST: alternatives of composite tags
  ('set', (setref, ...), (op, ...))  - a SET expression; op in 'OR','+','-','^'
  setref = ('n', name) | ('i', (tag, ...)) | ('u', name) [$$name] | ('U', name) [&&name]
Tags are raw grammar-tag strings, as written in the grammar.
"""

F = {}
_names = '''CAREFUL NEGATE NOT SCANFIRST SCANALL ABSOLUTE SPAN_RIGHT SPAN_LEFT SPAN_BOTH DEP_PARENT DEP_SIBLING
DEP_CHILD PASS_ORIGIN NO_PASS_ORIGIN LEFT_PAR RIGHT_PAR SELF NONE ALL DEP_DEEP MARK_SET JUMP LOOK_DELETED LOOK_DELAYED
TMPL_OVERRIDE UNKNOWN RELATION ATTACH_TO NUMERIC_BRANCH BAG_OF_TAGS DEP_GLOB B64 LEFT RIGHT LEFTMOST RIGHTMOST
NO_BARRIER WITH LOOK_IGNORED INACTIVE ACTIVE'''.split()
for _i, _n in enumerate(_names):
    F[_n] = 1 << _i
    globals()[_n] = 1 << _i
LORR = LEFT | RIGHT | LEFTMOST | RIGHTMOST
DEPREL = DEP_PARENT | DEP_SIBLING | DEP_CHILD | DEP_GLOB | RELATION
SELF_NB = SELF | NO_BARRIER

_LET = [(DEP_CHILD, 'c'), (DEP_SIBLING, 's'), (SELF, 'S'), (NO_BARRIER, 'N'), (SPAN_LEFT, '<'),
        (SPAN_RIGHT, '>'), (SPAN_BOTH, 'W'), (ABSOLUTE, '@'), (NO_PASS_ORIGIN, 'O'), (PASS_ORIGIN, 'o'),
        (LEFT_PAR, 'L'), (RIGHT_PAR, 'R'), (MARK_SET, 'X'), (LOOK_DELETED, 'D'), (LOOK_DELAYED, 'd'),
        (LOOK_IGNORED, 'I'), (ATTACH_TO, 'A'), (WITH, 'w'), (ACTIVE, 'T'), (INACTIVE, 't'), (BAG_OF_TAGS, 'B')]


class Test:
    """A contextual test. `pos` holds the flags as the user writes them; normalised flags are computed by norm()."""
    __slots__ = ('pos', 'offset', 'target', 'barrier', 'cbarrier', 'linked', 'tmpl', 'ors', 'sub', 'relation', 'jump',
                 'uid', 'n', 'notwritten')
    _c = 0

    def __init__(self, offset=0, pos=0, target=None, barrier=None, cbarrier=None, linked=None, tmpl=None, ors=None,
                 sub=0, relation=None, jump=None):
        self.offset = offset
        self.pos = pos
        self.target = target
        self.barrier = barrier
        self.cbarrier = cbarrier
        self.linked = linked
        self.tmpl = tmpl
        self.ors = ors
        self.sub = sub
        self.relation = relation
        self.jump = jump
        Test._c += 1
        self.uid = Test._c
        self.n = None
        self.notwritten = 0

    def posstr(self):
        p = self.pos
        s = ''
        if p & SCANALL:
            s += '**'
        elif p & SCANFIRST:
            s += '*'
        if p & ABSOLUTE:
            s += '@'
        if p & DEP_GLOB:
            s += 'pp' if p & DEP_PARENT else 'cc'
        elif p & DEP_PARENT:
            s += 'p'
        for bit, ch in _LET:
            if p & bit and bit != ABSOLUTE:
                s += ch
        if p & CAREFUL:
            s += 'C'
        if p & LEFT:
            s += 'l'
        if p & LEFTMOST:
            s += 'll'
        if p & RIGHT:
            s += 'r'
        if p & RIGHTMOST:
            s += 'rr'
        if self.relation is not None:
            if self.sub:
                s += '/' + ('*' if self.sub == 32767 else str(self.sub))
            s += 'r:' + self.relation
            return 'llA' + s[3:] if s.startswith('All') else s      # "ALL" is a keyword
        elif self.jump is not None:
            s += 'jM' if self.jump == 'M' else 'jA' if self.jump == 'A' else 'jT' if self.jump == 'T' else 'jC%d' % self.jump
            if self.offset:
                s = ('%d' % self.offset) + s if not s.startswith('*') else s + '%d' % self.offset
        elif not (p & (DEP_PARENT | DEP_GLOB | DEP_CHILD | DEP_SIBLING | LEFT_PAR | RIGHT_PAR | BAG_OF_TAGS)):
            # Offset goes right after the scan marks
            k = len(s) - len(s.lstrip('*'))
            s = s[:k] + ('%d' % self.offset) + s[k:]
        if self.sub:
            s += '/' + ('*' if self.sub == 32767 else str(self.sub))
        return 'llA' + s[3:] if s.startswith('All') else s      # "ALL" is a keyword

    def emit(self):
        s = ''
        if self.pos & NEGATE:
            s += 'NEGATE '
        if self.pos & ALL:
            s += 'ALL '
        if self.pos & NONE:
            s += 'NONE '
        if self.pos & NOT:
            s += 'NOT '
        if self.ors:
            s += ' OR '.join('(' + t.emit() + ')' for t in self.ors)
        elif self.tmpl is not None and not (self.pos & TMPL_OVERRIDE):
            s += 'T:' + self.tmpl
        else:
            s += self.posstr() + ' '
            if self.tmpl is not None:
                s += 'T:' + self.tmpl
            else:
                s += emit_ref(self.target)
            if self.cbarrier is not None:
                s += ' CBARRIER ' + emit_ref(self.cbarrier)
            if self.barrier is not None:
                s += ' BARRIER ' + emit_ref(self.barrier)
        if self.linked is not None:
            s += ' LINK ' + self.linked.emit()
        return s

    def norm(self, rule_look=0):
        """Flags after the adjustments the grammar language defines (deep scan for c/s, barrier only with scan/self...)."""
        p = self.pos
        if p & (DEP_CHILD | DEP_SIBLING) and p & (SCANFIRST | SCANALL):
            p &= ~(SCANFIRST | SCANALL)
            p |= DEP_DEEP
        if p & DEP_GLOB and not p & DEP_PARENT:
            p &= ~DEP_CHILD
        if self.jump is not None:
            p |= JUMP
        if self.relation is not None:
            p |= RELATION
        p |= rule_look
        t = NTest()
        t.pos = p
        t.offset = self.offset
        t.target = self.target
        t.barrier = self.barrier
        t.cbarrier = self.cbarrier
        if not (p & (SCANFIRST | SCANALL | DEP_DEEP | DEP_GLOB | SELF)):
            t.barrier = t.cbarrier = None
        t.linked = self.linked.norm(rule_look) if self.linked is not None else None
        t.tmpl = self.tmpl
        t.ors = [o.norm(rule_look) for o in self.ors] if self.ors else None
        t.sub = self.sub
        t.relation = self.relation
        t.jump = self.jump
        t.src = self
        return t


class NTest:
    __slots__ = ('pos', 'offset', 'target', 'barrier', 'cbarrier', 'linked', 'tmpl', 'ors', 'sub', 'relation', 'jump',
                 'src')


def emit_tag(t):
    return t


def emit_ref(r):
    k = r[0]
    if k == 'n':
        return r[1]
    if k == 'i':
        return '(' + ' '.join(r[1]) + ')'
    if k == 'u':
        return '$$' + r[1]
    if k == 'U':
        return '&&' + r[1]
    if k == 'e':  # inline expression: refs, ops
        out = emit_ref(r[1][0])
        for op, x in zip(r[2], r[1][1:]):
            out += ' ' + op + ' ' + emit_ref(x)
        return out
    raise ValueError(r)


class Rule:
    __slots__ = ('type', 'flags', 'wordform', 'target', 'maplist', 'sublist', 'excepts', 'tests', 'dep_tests', 'sub',
                 'name', 'varname', 'varvalue', 'with_dir', 'childset1', 'childset2', 'deptarget_pos', 'nested',
                 'number', 'line', 'extra', 'kw_dir', 'section')

    def __init__(self, type, target, tests=(), flags=(), wordform=None, maplist=None, sublist=None, excepts=None,
                 dep_tests=None, sub=0, name=None, **kw):
        self.type = type
        self.target = target
        self.tests = list(tests)
        self.flags = list(flags)
        self.wordform = wordform
        self.maplist = maplist
        self.sublist = sublist
        self.excepts = excepts
        self.dep_tests = dep_tests
        self.sub = sub
        self.name = name
        for k in ('varname', 'varvalue', 'with_dir', 'childset1', 'childset2', 'deptarget_pos', 'nested', 'number',
                  'line', 'extra', 'kw_dir', 'section'):
            setattr(self, k, kw.get(k))

    def emit(self):
        s = ''
        if self.wordform:
            s += self.wordform + ' '
        T = self.type
        s += T
        if self.name:
            s += ':' + self.name
        if T == 'EXTERNAL':
            s += ' ' + self.kw_dir + ' ' + self.varname
        fl = list(self.flags)
        if self.sub:
            fl.append('SUB:' + ('*' if self.sub == 32767 else str(self.sub)))
        if fl:
            s += ' ' + ' '.join(fl)
        if T in ('SUBSTITUTE',):
            s += ' ' + emit_ref(self.sublist) + ' ' + emit_ref(self.maplist)
        elif T in ('MAP', 'ADD', 'REPLACE', 'APPEND', 'COPY', 'COPYCOHORT', 'MERGECOHORTS', 'ADDCOHORT', 'SPLITCOHORT',
                   'ADDRELATION', 'SETRELATION', 'REMRELATION', 'RESTORE', 'ADDRELATIONS', 'SETRELATIONS',
                   'REMRELATIONS', 'SETVARIABLE', 'REMVARIABLE', 'JUMP'):
            s += ' ' + emit_ref(self.maplist)
            if self.excepts is not None:
                s += ' EXCEPT ' + emit_ref(self.excepts)
            elif self.sublist is not None:
                s += ' ' + emit_ref(self.sublist)
        if T == 'ADDCOHORT':
            s += ' ' + self.kw_dir
        elif self.kw_dir and T in ('ADD', 'MAP', 'SUBSTITUTE', 'COPY'):
            s += ' ' + self.kw_dir + ' ' + emit_ref(self.childset1)
        if self.childset1 is not None and T in ('MOVE', 'SWITCH', 'ADDCOHORT', 'COPYCOHORT', 'REMCOHORT', 'SWITCHPARENT'):
            s += ' WITHCHILD ' + emit_ref(self.childset1)
        s += ' ' + emit_ref(self.target)
        for t in self.tests:
            s += ' (' + t.emit() + ')'
        if self.dep_tests:
            s += ' ' + (self.deptarget_pos or ('WITH' if T in ('SWITCH', 'MERGECOHORTS') else 'TO'))
            if T == 'COPYCOHORT' and self.kw_dir:
                s += ' ' + self.kw_dir
            if self.childset2 is not None:
                s += ' WITHCHILD ' + emit_ref(self.childset2)
            for t in self.dep_tests:
                s += ' (' + t.emit() + ')'
        if T == 'WITH':
            s += ' { ' + ' '.join(r.emit() for r in self.nested) + ' }'
        return s + ' ;'


class Grammar:
    def __init__(self):
        self.header = []      # raw lines (delimiters, options...)
        self.sets = []        # (kind, name, def)
        self.templates = []   # (name, Test)
        self.blocks = []      # list of (section keyword, anchor name, [Rule|anchor])
        self.delims = ('"<.>"',)
        self.soft = ()
        self.prefix = '@'
        self.parentheses = []
        self.static = []

    def emit(self):
        """Returns the grammar text; assigns rule.line, so that trace tokens can be mapped to rules."""
        L = []
        if self.delims:
            L.append('DELIMITERS = ' + ' '.join(self.delims) + ' ;')
        if self.soft:
            L.append('SOFT-DELIMITERS = ' + ' '.join(self.soft) + ' ;')
        if self.prefix != '@':
            L.append('MAPPING-PREFIX = ' + self.prefix + ' ;')
        if self.parentheses:
            L.append('PARENTHESES = ' + ' '.join('(%s %s)' % p for p in self.parentheses) + ' ;')
        L += self.header
        if self.static:
            L.append('STATIC-SETS = ' + ' '.join(self.static) + ' ;')
        for kind, name, d in self.sets:
            if kind == 'LIST':
                L.append('LIST ' + name + ' = ' + ' '.join('(' + ' '.join(c) + ')' if len(c) > 1 else c[0] for c in d[1]) + ' ;')
            else:
                out = emit_ref(d[1][0])
                for op, x in zip(d[2], d[1][1:]):
                    out += ' ' + op + ' ' + emit_ref(x)
                L.append('SET ' + name + ' = ' + out + ' ;')
        for name, t in self.templates:
            if t.ors:
                L.append('TEMPLATE ' + name + ' = ' + ' OR '.join('(' + o.emit() + ')' for o in t.ors) + ' ;')
            else:
                L.append('TEMPLATE ' + name + ' = ' + t.emit() + ' ;')
        n = 0
        for kw, anchor, rules in self.blocks:
            L.append(kw + ((' ' + anchor) if anchor else ''))
            for r in rules:
                if isinstance(r, str):
                    L.append('ANCHOR ' + r + ' ;')
                    continue
                L.append(r.emit())
                r.line = len(L)
                if r.nested:
                    for q in r.nested:
                        q.line = len(L)
        return '\n'.join(L) + '\n'
