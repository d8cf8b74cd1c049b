"""Executable reference model of the CG-3 formalism, used as the oracle for the observed behaviour of vislcg3.

It evaluates every rule on every cohort by direct interpretation: no rule index, no possible-sets index, no result caches
keyed on hashes, no object pools. Where the language leaves a choice to hash order, it raises Ambiguous and the case is
not judged.
"""
import re
from .ast import *


def minimal(entries):
    """How many of the entries have no other among them, as those that do may be dropped."""
    es = {frozenset(e) for e in entries}
    return sum(not any(f < e for f in es) for e in es)


class Ambiguous(Exception):
    """The outcome depends on something the language does not define (hash order); the case is not judged."""


class Unmodelled(Exception):
    pass


class TooLong(Exception):
    pass


NUM_MIN = -281474976710656.0
NUM_MAX = 281474976710655.0

# ---------------------------------------------------------------- tags

_tagcache = {}


class GTag:
    """A parsed grammar tag."""
    __slots__ = ('raw', 'ff', 'kind', 'text', 'rx', 'ngroups', 'key', 'op', 'val', 'icase', 'special', 'vkey', 'vval',
                 'anykind', 'local', 'vs', 'expr', 'ref', 'unanch')


_num_re = re.compile(r'^<([^<>=:!]+)(<=|>=|!=|<>|=|<|>|:|!)(-?[0-9.]+|MIN|MAX)>$')
OPS = {'=': 'eq', ':': 'eq', '!=': 'ne', '<>': 'ne', '!': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
SPECIALS = {'_TARGET_', '_MARK_', '_ATTACHTO_', '_SAME_BASIC_', '_LEFT_', '_RIGHT_', '_ENCL_', '_C1_', '_C2_', '_C3_',
            '_PAREN_'}


def gtag(raw):
    t = _tagcache.get(raw)
    if t is None:
        t = _parse(raw)
        _tagcache[raw] = t
    return t


def _conv_rx(p):
    return p


def _parse(raw):
    t = GTag()
    t.raw = raw
    t.ff = False
    t.rx = None
    t.ngroups = 0
    t.icase = False
    t.kind = 'plain'
    t.text = raw
    t.unanch = False
    s = raw
    if s.startswith('^') and len(s) > 1:
        t.ff = True
        s = s[1:]
        t.text = s
        if s.startswith('"') and not s.endswith('"'):
            raise Unmodelled('failfast special')
    if s == '*':
        t.kind = 'any'
        return t
    if s in SPECIALS:
        t.kind = 'special'
        t.special = s
        if s.startswith('_C') and s[2].isdigit():
            t.special = '_C_'
            t.ref = int(s[2])
        return t
    if s.startswith('META:'):
        sub = gtag(s[5:])
        t.kind = 'meta'
        t.rx = sub.rx if sub.rx else re.compile(re.escape(s[5:]))
        return t
    if s.startswith('VAR:') or s.startswith('LVAR:'):
        t.kind = 'var'
        t.local = s[0] == 'L'
        body = s[s.index(':') + 1:]
        if '=' in body:
            k, v = body.split('=', 1)
            t.vkey, t.vval = gtag(k), gtag(v)
        else:
            t.vkey, t.vval = gtag(body), None
        return t
    if s.startswith('SET:'):
        t.kind = 'set'
        t.text = s[4:]
        return t
    vs = None
    if s.startswith('VSTR:') or s.startswith('PSTR:'):
        s = s[5:]
        t.kind = 'vstr'
        t.text = s
        t.vs = ''
        return t
    m = _num_re.match(s)
    if m:
        t.kind = 'num'
        t.key, t.op = m.group(1), OPS[m.group(2)]
        v = m.group(3)
        t.val = NUM_MIN if v == 'MIN' else NUM_MAX if v == 'MAX' else float(v)
        t.expr = v
        return t
    # suffix handling
    m = re.match(r'^((["</]).*(["> /]))([rivl]+)$', s)
    if m and ((m.group(2), m.group(3)) in (('"', '"'), ('<', '>'), ('/', '/'))):
        body, suf = m.group(1), m.group(4)
        t.text = body
        if 'v' in suf:
            t.kind = 'vstr'
            t.text = body
            t.vs = suf.replace('v', '')
            return t
        if 'i' in suf:
            t.icase = True
        if 'r' in suf:
            if body in ('".*"', '"<.*>"', '<.*>') and 'i' not in suf:
                t.kind = 'anyre'
                t.anykind = {'".*"': 'base', '"<.*>"': 'word', '<.*>': 'text'}[body]
                return t
            t.kind = 're'
            pat = body
            if body[0] == '/':
                pat = body[1:-1]
                t.unanch = True
            t.rx = re.compile(pat if t.unanch else '^' + pat + '$', re.I if t.icase else 0)
            t.ngroups = t.rx.groups
        elif 'i' in suf:
            t.kind = 'icase'
            t.text = body
        return t
    return t


# kinds of input (plain) tags, cached
_inf = {}


def in_num(s):
    r = _inf.get(s)
    if r is None:
        m = _num_re.match(s)
        if m:
            v = m.group(3)
            r = (m.group(1), OPS[m.group(2)], NUM_MIN if v == 'MIN' else NUM_MAX if v == 'MAX' else float(v))
        else:
            r = False
        _inf[s] = r
    return r


def is_word(s):
    return s.startswith('"<')


def is_base(s):
    return s.startswith('"') and not s.startswith('"<')


def num_match_range(op, cv, iop, iv):
    """Do the ranges of numbers `op cv` and `iop iv` have numbers in common? (!= and != are about being the same)"""
    if op == 'ne' and iop == 'ne':
        return cv == iv
    if 'ne' in (op, iop) and 'eq' in (op, iop):
        return cv != iv
    if 'ne' in (op, iop):
        return True
    if op == 'eq' and iop == 'eq':
        return cv == iv

    def rng(o, v):
        # (low, low included, high, high included)
        inf = float('inf')
        return {'eq': (v, 1, v, 1), 'lt': (-inf, 0, v, 0), 'le': (-inf, 0, v, 1), 'gt': (v, 0, inf, 0), 'ge': (v, 1, inf, 0)}[o]
    a, b = rng(op, cv), rng(iop, iv)
    lo, loi = max((a[0], -a[1]), (b[0], -b[1]))
    hi, hii = min((a[2], a[3]), (b[2], b[3]))
    return lo < hi or (lo == hi and loi == -1 and hii == 1)


def num_match(op, cv, iop, iv):
    """Does a grammar comparison `op cv` match an input numeric tag `iop iv`?"""
    if iop == 'eq':
        return {'eq': cv == iv, 'ne': cv != iv, 'lt': iv < cv, 'le': iv <= cv, 'gt': iv > cv, 'ge': iv >= cv}[op]
    return num_match_range(op, cv, iop, iv)


# ---------------------------------------------------------------- stream objects

class Reading:
    __slots__ = ('tags', 'baseform', 'mapping', 'mapped', 'noprint', 'deleted', 'immutable', 'active', 'number',
                 'hit_by', 'next', 'mt', 'mtests', 'parent', 'tset', '_pk')

    def __init__(self, parent):
        self.parent = parent
        self.tags = []
        self.tset = None
        self._pk = None
        self.baseform = None
        self.mapping = None
        self.mapped = self.noprint = self.deleted = self.immutable = self.active = False
        self.number = 0
        self.hit_by = []
        self.next = None
        self.mt = self.mtests = False

    def touch(self):
        self.tset = None
        self._pk = None
        if BAG_ON[0] and self.parent is not None and self.parent.window is not None:
            self.parent.window.bag.update(self.tags)

    def ts(self):
        if self.tset is None:
            self.tset = frozenset(self.tags)
        return self.tset

    def plain_key(self):
        if self._pk is None:
            s = self.ts()
            if self.mapping is not None:
                s = s - {self.mapping}
            self._pk = s
        return self._pk

    def key(self):
        return (self.ts(), self.mapping, self.next.key() if self.next else None)

    def copy(self):
        r = Reading(self.parent)
        r.tags = list(self.tags)
        r.baseform = self.baseform
        r.mapping = self.mapping
        r.mapped, r.noprint, r.deleted = self.mapped, self.noprint, self.deleted
        r.immutable, r.active = self.immutable, self.active
        r.number = self.number
        r.hit_by = list(self.hit_by)
        r.mt, r.mtests = self.mt, self.mtests
        if self.next:
            r.next = self.next.copy()
        return r


BAG_ON = [False]


class Cohort:
    __slots__ = ('wordform', 'gnum', 'wread', 'readings', 'deleted', 'delayed', 'ignored', 'window', 'dep_self',
                 'dep_parent', 'dep_children', 'relations', 'removed', 'c_ignored', 'enclosed', 'related', 'removed_by',
                 'text', 'is_pleft', 'is_pright', 'rel_in', 'rel_order', 'dep_done', 'oldln')

    def __init__(self, window, wordform):
        self.window = window
        self.wordform = wordform
        self.wread = None
        self.readings, self.deleted, self.delayed, self.ignored = [], [], [], []
        self.dep_self = 0
        self.dep_parent = None
        self.dep_children = set()
        self.relations = {}
        self.rel_in = {}
        self.removed = self.c_ignored = self.related = False
        self.enclosed = 0
        self.text = ''
        self.gnum = 0
        self.is_pleft = self.is_pright = None
        self.rel_order = 0
        self.dep_done = False
        self.oldln = -1

    @property
    def ln(self):
        # local number: position among the visible cohorts of the window
        try:
            return self.window.cohorts.index(self)
        except ValueError:
            return -1

    def gpos(self):
        return (self.window.number, self.ln)


class Window:
    def __init__(self, number):
        self.number = number
        self.cohorts = []
        self.all_cohorts = []
        self.prev = None
        self.next = None
        self.variables_set = {}
        self.variables_rem = set()
        self.vars_out = []
        self.has_encl = False
        self.text = ''
        self.text_post = ''
        self.flush_after = False
        self.bag = set()


# ---------------------------------------------------------------- evaluation context

class Ctx:
    __slots__ = ('cohort', 'reading', 'sub', 'att_cohort', 'att_reading', 'att_sub', 'mark', 'context', 'utags', 'usets',
                 'caps', 'nct', 'is_with')

    def __init__(self):
        self.cohort = self.reading = self.sub = None
        self.att_cohort = self.att_reading = self.att_sub = None
        self.mark = None
        self.context = []
        self.utags = {}
        self.usets = {}
        self.caps = None
        self.nct = 0
        self.is_with = False

    def clone(self):
        c = Ctx()
        for k in Ctx.__slots__:
            setattr(c, k, getattr(self, k))
        c.context = list(self.context)
        return c


class DS:
    """Per-test state while matching one cohort."""
    __slots__ = ('test', 'deep', 'origin', 'options', 'did_test', 'matched_target', 'matched_tests', 'in_barrier')

    def __init__(self, test, deep, origin, options, in_barrier=False):
        self.test = test
        self.deep = deep
        self.origin = origin
        self.options = options
        self.did_test = self.matched_target = self.matched_tests = False
        self.in_barrier = in_barrier


TRV_BREAK, TRV_BARRIER, TRV_BREAK_DEFAULT = 1, 2, 4


class SetInfo:
    __slots__ = ('kind', 'any', 'entries', 'ff', 'subs', 'ops', 'unify', 'setunify', 'special', 'mapping', 'child_unify',
                 'key', 'ordered')


class Eval:
    """Set matching and contextual tests over the current state."""

    def __init__(self, g):
        self.g = g
        self.sets = {n: d for k, n, d in g.sets}
        self.setinfo = {}
        self.templates = {n: t.norm(0) for n, t in g.templates}
        self.rx_tags = []
        self.vars = {}
        self.stack = []
        self.rule_target = None
        self.same_basic = None
        self.current = None
        self.cur_rule = None
        self.cmap = {}
        self.par_left = self.par_right = None   # (tag, position)
        self.capture_unif = False
        self.steps = 0
        self.max_steps = 400000
        self.merge_with = None
        self.always_span = False
        self.set_tags = {}
        self.dep_seen = set()
        self.tm_min = self.tm_max = None
        self.tm_in = False
        self.tm_linked = []
        self.tmpl_over = None
        self.lu_base = self.lu_word = self.lu_text = None
        self.seen_barrier = False

    # ---- sets

    def si(self, ref):
        s = self.setinfo.get(ref)
        if s is None:
            s = self._mkset(ref)
            self.setinfo[ref] = s
        return s

    def _mkset(self, ref):
        k = ref[0]
        if k == 'n':
            if ref[1] in ('_TARGET_', '_MARK_', '_ATTACHTO_', '_SAME_BASIC_', '_LEFT_', '_RIGHT_', '_ENCL_', '_C1_',
                          '_C2_', '_C3_'):
                return self._mkset(('i', (ref[1],)))
            if ref[1] == '_PAREN_':
                return self._mkset(('e', (('n', '_LEFT_'), ('n', '_RIGHT_')), ('OR',)))
            return self._mkset(self.sets[ref[1]])
        s = SetInfo()
        s.any = s.unify = s.setunify = s.child_unify = s.special = s.mapping = False
        s.entries = s.ff = s.subs = None
        s.ops = ()
        s.key = ref
        s.ordered = False
        if k in ('i', 'list'):
            entries = (ref[1],) if k == 'i' else ref[1]
            s.kind = 'list'
            s.ordered = k == 'i'
            s.entries, s.ff = [], []
            for e in entries:
                tg = tuple(gtag(x) for x in e)
                if len(tg) == 1 and tg[0].kind == 'any' and not tg[0].ff:
                    s.any = True
                if any(x.ff for x in tg):
                    if len(tg) > 1:
                        raise Unmodelled('failfast in composite')
                    s.ff.append(tg[0])
                else:
                    s.entries.append(tg)
                for x in tg:
                    if x.kind not in ('plain', 'any'):
                        s.special = True
                    if x.raw.startswith(self.g.prefix):
                        s.mapping = True
            s.key = ('list', frozenset(frozenset(e) for e in entries))
            return s
        if k == 'u':
            sub = self.si(('n', ref[1]))
            s.kind = 'set'
            s.subs = [sub]
            s.unify = s.child_unify = True
            s.special, s.mapping = sub.special, sub.mapping
            s.key = ('u', sub.key)
            return s
        if k == 'U':
            sub = self.si(('n', ref[1]))
            if sub.kind == 'list' or (sub.kind == 'set' and all(o == 'OR' or o == '|' for o in sub.ops) and
                                      all(x.kind == 'list' and minimal(x.entries) == 1 for x in sub.subs)):
                raise Unmodelled('&& of a set of plain tags')   # known finding, probed by P10
            s.kind = 'setunify'
            s.subs = [sub]
            s.setunify = s.child_unify = True
            s.special, s.mapping = sub.special, sub.mapping
            s.key = ('U', sub.key)
            return s
        if k in ('set', 'e'):
            if len(ref[1]) == 1:
                return self.si(ref[1][0])
            s.kind = 'set'
            subs = [self.si(x) for x in ref[1]]
            ops = list(ref[2])
            s.subs = subs
            s.ops = tuple(ops)
            s.special = any(x.special for x in subs)
            s.mapping = any(x.mapping for x in subs)
            s.child_unify = any(x.child_unify for x in subs)
            s.key = ('set', tuple(x.key for x in subs), s.ops)
            if any(o in ('\\', '∩', '∆') for o in ops):
                return self._algebra(s, subs, ops)
            return s
        raise Unmodelled(ref)

    def flat(self, s):
        """The elements of a set that is, or may be made into, a list."""
        if s.kind == 'list':
            return s.key[1]
        if s.kind == 'set' and all(o in ('OR', '|') for o in s.ops) and not s.unify:
            fs = [self.flat(x) for x in s.subs]
            if all(fs):
                return frozenset().union(*fs)
        return None

    def _algebra(self, s, subs, ops):
        if len(subs) != 2 or subs[0].kind != 'list' or subs[1].kind != 'list':
            raise Unmodelled('set algebra on non-lists')
        def vec(x):
            return {frozenset(t.raw for t in e): e for e in list(x.entries) + [(f,) for f in x.ff]}
        a, b = vec(subs[0]), vec(subs[1])
        for v in (a, b):
            if any(x < y for x in v for y in v):
                raise Unmodelled('set algebra with redundant elements')
        if ops[0] == '\\':
            r = {k: v for k, v in a.items() if k not in b}
        elif ops[0] == '∩':
            r = {k: v for k, v in a.items() if k in b}
        else:
            r = {k: v for k, v in a.items() if k not in b}
            r.update({k: v for k, v in b.items() if k not in a})
        if not r:
            raise Unmodelled('empty set')
        return self._mkset(('list', tuple(tuple(t.raw for t in e) for e in r.values())))

    # ---- tags

    def textual(self, s):
        return s[0] in '"<' or s[0] == '"'

    def rx_match(self, t, text):
        m = t.rx.search(text)
        if m and t.ngroups and self.stack and self.stack[-1].caps is not None:
            c = self.stack[-1]
            for i in range(1, t.ngroups + 1):
                while len(c.caps) <= c.nct:
                    c.caps.append('')
                c.caps[c.nct] = m.group(i) or ''
                c.nct += 1
        return bool(m)

    def tag_matches(self, r, t, unif=False):
        """Returns a truthy value (the matched tag text where there is one)."""
        if t.kind == 'plain' or t.ff:
            return t.text if t.text in r.ts() and not in_num(t.text) else None
        k = t.kind
        if k == 'any':
            return '*' if '*' in r.ts() else None
        if k == 'vstr':
            return self.tag_matches(r, gtag(self.varstring(t)), unif)
        if k == 're':
            hits = [x for x in sorted(r.ts()) if t.rx.search(x)]
            if not hits:
                return None
            if len(hits) > 1 and t.ngroups:
                raise Ambiguous('regex capture over several tags')
            self.rx_match(t, hits[0])
            return hits[0]
        if k == 'icase':
            lo = t.text.casefold()
            for x in r.ts():
                if x.casefold() == lo:
                    return x
            return None
        if k == 'anyre':
            if t.anykind == 'base':
                m = r.baseform
                if unif:
                    if self.lu_base:
                        if self.lu_base != r.baseform:
                            m = None
                    else:
                        self.lu_base = r.baseform
                return m
            if t.anykind == 'word':
                m = r.parent.wordform
                if unif:
                    if self.lu_word:
                        if self.lu_word != m:
                            m = None
                    else:
                        self.lu_word = m
                return m
            c = [x for x in r.ts() if x.startswith('<') and x.endswith('>') or (x[0] == '"' and False)]
            c = [x for x in r.ts() if x[0] == '<']
            if not c:
                return None
            if unif:
                if len(c) > 1:
                    raise Ambiguous('several textual tags')
                if self.lu_text:
                    return c[0] if self.lu_text == c[0] else None
                self.lu_text = c[0]
            return c[0]
        if k == 'num':
            m = None
            n = 0
            for x in r.ts():
                i = in_num(x)
                if i and i[0] == t.key:
                    cv = t.val
                    if cv <= NUM_MIN:
                        cv = self.num_bound(r.parent, t.key, False)
                    elif cv >= NUM_MAX:
                        cv = self.num_bound(r.parent, t.key, True)
                    if num_match(t.op, cv, i[1], i[2]):
                        m = x
                        n += 1
            return m
        if k == 'var':
            vs = self.vars if (not t.local or r.parent.window is self.current) else r.parent.window.variables_set
            kk = t.vkey
            if kk.kind == 're':
                c = [x for x in vs if kk.rx.search(x)]
                if len(c) > 1 and t.vval is not None:
                    raise Ambiguous('several variables match')
            elif kk.kind == 'icase':
                c = [x for x in vs if x.casefold() == kk.text.casefold()]
                if len(c) > 1 and t.vval is not None:
                    raise Ambiguous('several variables match')
            else:
                c = [kk.raw] if kk.raw in vs else []
            if not c:
                return None
            if t.vval is None:
                return t.raw
            v = vs[c[0]]
            if t.vval.kind == 're':
                ok = bool(t.vval.rx.search(v))
            elif t.vval.kind == 'icase':
                ok = v.casefold() == t.vval.text.casefold()
            else:
                ok = v == t.vval.raw
            return t.raw if ok else None
        if k == 'meta':
            tx = r.parent.text
            if tx and self.rx_match(t, tx):
                return t.raw
            return None
        if k == 'set':
            if t.text not in self.set_tags:
                self.set_tags[t.text] = True
                f = self.flat(self.si(('n', t.text)))
                if f and any(n != t.text and self.flat(self.si(('n', n))) == f for n in self.g.static):
                    raise Unmodelled('equal static sets')   # known finding, probed by P02
            return t.raw if self.set_matches(r, self.si(('n', t.text)), unif) else None
        if k == 'special':
            p = r.parent
            sp = t.special
            if sp == '_TARGET_':
                return '*' if self.rule_target is not None and p is self.rule_target else None
            if sp == '_MARK_':
                return '*' if p is (self.stack[-1].mark if self.stack else None) else None
            if sp == '_ATTACHTO_':
                return '*' if self.stack and p is self.stack[-1].att_cohort else None
            if sp == '_SAME_BASIC_':
                return '*' if r.plain_key() == self.same_basic else None
            if sp == '_LEFT_':
                pl = self.par_left
                return '*' if pl and p.ln == pl[1] and pl[0] in r.ts() else None
            if sp == '_RIGHT_':
                pl = self.par_right
                return '*' if pl and p.ln == pl[1] and pl[0] in r.ts() else None
            if sp == '_ENCL_':
                w = p.window
                try:
                    i = w.all_cohorts.index(p) + 1
                except ValueError:
                    return None
                return '*' if i < len(w.all_cohorts) and w.all_cohorts[i].enclosed else None
            if sp == '_C_':
                if len(self.stack) > 1:
                    l = self.stack[-2].context
                    if t.ref <= len(l) and p is l[t.ref - 1]:
                        return '*'
                return None
        raise Unmodelled(k)

    def num_bound(self, cohort, key, mx):
        vals = []
        for r in cohort.readings:
            for x in r.tags:
                i = in_num(x)
                if i and i[0] == key:
                    vals.append(i[2])
        if not vals:
            return NUM_MAX if mx else NUM_MIN
        return max(vals) if mx else min(vals)

    def varstring(self, t):
        c = self.stack[-1]
        s = t.text
        for i in range(min(c.nct, 9)):
            s = s.replace('$%d' % (i + 1), c.caps[i])
        # case conversion markers, processed right to left
        while True:
            p = max(s.rfind('%u'), s.rfind('%U'), s.rfind('%l'), s.rfind('%L'))
            if p < 0:
                break
            mode = s[p + 1]
            s = s[:p] + s[p + 2:]
            if mode == 'u':
                s = s[:p] + s[p:p + 1].upper() + s[p + 1:]
            elif mode == 'U':
                s = s[:p] + s[p:].upper()
            elif mode == 'l':
                s = s[:p] + s[p:p + 1].lower() + s[p + 1:]
            else:
                s = s[:p] + s[p:].lower()
        if re.search(r'\$[1-9]', s):
            raise Unmodelled('unfilled group')
        return s

    # ---- sets on readings

    def check_unif(self, key, val):
        u = self.stack[-1].utags
        if key in u:
            return u[key] == val
        u[key] = val
        return True

    def list_matches(self, r, s, unif):
        for t in s.ff:
            if self.tag_matches(r, t, unif):
                return False
        if unif:
            hits = []
            for e in s.entries:
                ok = True
                if len(e) > 1 and any(t.kind == 'anyre' for t in e):
                    raise Ambiguous('unified wildcard in a composite tag')
                for t in e:
                    if not self.tag_matches(r, t, unif):
                        ok = False
                        break
                if ok:
                    hits.append(e)
            u = self.stack[-1].utags
            if s.key in u:
                return any(u[s.key] == (s.key, tuple(t.raw for t in e)) for e in hits)
            if not hits:
                return False
            if len(hits) > 1:
                raise Ambiguous('several unification candidates')
            u[s.key] = (s.key, tuple(t.raw for t in hits[0]))
            return True
        anyhit = False
        for e in s.entries:
            n0 = self.stack[-1].nct if self.stack else 0
            ok = True
            for t in e:
                if not self.tag_matches(r, t, unif):
                    ok = False
                    break
            if self.stack and self.stack[-1].nct != n0 and (len(s.entries) > 1 or not ok):
                raise Ambiguous('capture order')
            if ok:
                return True
        return False

    def set_matches(self, r, s, unif=False):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooLong()
        if s.any:
            return True
        if s.kind == 'list':
            return self.list_matches(r, s, s.unify or unif)
        if s.setunify:
            us = self.stack[-1].usets.setdefault(s.key, set())
            sub = s.subs[0]
            if not us:
                if sub.kind == 'list':
                    return False
                for x in sub.subs:
                    if self.set_matches(r, x, unif):
                        us.add(x.key)
                return bool(us)
            by = {x.key: x for x in sub.subs}
            res = False
            for k in sorted(us, key=repr):
                if self.set_matches(r, by[k], unif):
                    res = True
            return res
        u2 = s.unify or unif
        n = len(s.subs)
        res = False
        i = 0
        while i < n:
            m = self.set_matches(r, s.subs[i], u2)
            ff = False
            while i < n - 1 and s.ops[i] != 'OR':
                op = s.ops[i]
                if op == '+':
                    if m:
                        m = self.set_matches(r, s.subs[i + 1], u2)
                elif op == '-':
                    if m and self.set_matches(r, s.subs[i + 1], u2):
                        m = False
                elif op == '^':
                    if self.set_matches(r, s.subs[i + 1], u2):
                        m = False
                        ff = True
                else:
                    raise Unmodelled(op)
                i += 1
            if m:
                res = True
                break
            if ff:
                break
            i += 1
        if u2 and self.stack:
            ut = self.stack[-1].utags
            tag = None
            for x in s.subs:
                if x.key in ut:
                    tag = ut[x.key]
                    break
            if tag is not None:
                for x in s.subs:
                    ut[x.key] = tag
        return res

    # ---- sets on cohorts

    def linked(self, cohort, s, d):
        rv = True
        reset = False
        lk = None
        mn = mx = None
        if d.test is not None and d.test.linked is not None:
            lk = d.test.linked
        elif self.tm_linked:
            mn, mx = self.tm_min, self.tm_max
            lk = self.tm_linked.pop()
            reset = True
        if lk is not None:
            if not d.did_test:
                o = cohort if lk.pos & NO_PASS_ORIGIN else d.origin
                d.matched_tests = self.ctest(cohort.window, cohort.ln, lk, d.deep, o) is not None
                if not s.child_unify:
                    d.did_test = True
            rv = d.matched_tests
        if reset:
            self.tm_linked.append(lk)
        if not rv:
            self.tm_min, self.tm_max = mn, mx
        return rv

    def smc_helper(self, cohort, reading, s, d):
        rv = False
        st = self.stack[-1] if self.stack else None
        orz = st.nct if st else 0
        snap = d is not None and not self.capture_unif and s.child_unify and st
        ut = us = None
        if snap:
            ut = dict(st.utags)
            us = {k: set(v) for k, v in st.usets.items()}
        if self.set_matches(reading, s):
            rv = True
            if d is not None:
                if d.options & ATTACH_TO:
                    reading.mt = True
                d.matched_target = True
        if rv and d is not None and d.options & NOT:
            rv = False
        if rv and d is not None and not d.in_barrier:
            rv = self.linked(cohort, s, d)
            if d.options & ATTACH_TO:
                reading.mtests = rv
                if rv and st:
                    st.att_cohort = cohort
                    st.att_reading = None
                    st.att_sub = reading
        if not rv and snap:
            if ut != st.utags:
                st.utags.clear()
                st.utags.update(ut)
            if len(us) != len(st.usets):
                st.usets.clear()
                st.usets.update(us)
        if not rv and st:
            st.nct = orz
        return rv

    def lists(self, cohort, d):
        ls = [cohort.readings]
        if d is not None:
            if d.options & LOOK_DELETED:
                ls.append(cohort.deleted)
            if d.options & LOOK_DELAYED:
                ls.append(cohort.delayed)
            if d.options & LOOK_IGNORED:
                ls.append(cohort.ignored)
        return ls

    def normal(self, cohort, s, d=None):
        rv = False
        if cohort.wread is not None and (d is None or not d.in_barrier):
            rv = self.smc_helper(cohort, cohort.wread, s, d)
        if rv and (d is None or d.did_test):
            return rv
        for ls in self.lists(cohort, d):
            for head in list(ls):
                r = head
                if d is not None and d.test is not None:
                    r = self.subreading(r, d.test.sub)
                    if r is None:
                        continue
                if d is not None:
                    if not r.active and d.options & ACTIVE:
                        continue
                    if r.active and d.options & INACTIVE:
                        continue
                if self.smc_helper(cohort, r, s, d):
                    rv = True
                    st = self.stack[-1] if self.stack else None
                    if st and st.att_cohort is cohort and st.att_sub is r:
                        st.att_reading = head
                if rv and (d is None or not (d.test is not None and d.test.linked is not None) or d.did_test):
                    return rv
        if d is not None and not d.matched_target and d.options & NOT:
            rv = self.linked(cohort, s, d)
        return rv

    def careful(self, cohort, s, d):
        rv = False
        stop = False
        for ls in self.lists(cohort, d):
            for head in list(ls):
                r = head
                if d.test is not None:
                    r = self.subreading(r, d.test.sub)
                    if r is None:
                        continue
                if not r.active and d.options & ACTIVE:
                    continue
                if r.active and d.options & INACTIVE:
                    continue
                rv = self.smc_helper(cohort, r, s, d)
                st = self.stack[-1] if self.stack else None
                if rv and st and st.att_cohort is cohort and st.att_sub is r:
                    st.att_reading = head
                if not rv:
                    stop = True
                    break
            if not rv:
                break
        if not d.matched_target and d.options & NOT:
            rv = self.linked(cohort, s, d)
        return rv

    def subreading(self, r, n):
        if n == 0:
            return r
        if n == 32767:
            if r.next is None:
                return r
            m = r.copy()
            m.next = None
            x = r.next
            while x:
                m.tags = m.tags + x.tags
                if x.mapped:
                    m.mapped = True
                if x.mapping:
                    m.mapping = x.mapping
                if x.mt:
                    m.mt = True
                if x.mtests:
                    m.mtests = True
                x = x.next
            m.parent = r.parent
            m.touch()
            return m
        if n > 0:
            while n and r:
                r = r.next
                n -= 1
            return r
        chain = []
        x = r
        while x:
            chain.append(x)
            x = x.next
        if len(chain) == 1:
            return None
        i = len(chain) + n
        if i < 0:
            return r   # counting from the end beyond the start stays at the first
        return chain[i] if i < len(chain) else None

    # ---- contextual tests

    def single(self, cohort, test, st, deep, origin):
        """st = [rvs, retval]. Returns the cohort or None."""
        c = self.stack[-1]
        rz = c.nct
        p = test.pos
        if p & MARK_SET:
            c.mark = cohort
        if p & ATTACH_TO and c.att_cohort is not cohort:
            d0 = DS(None, None, None, p)
            for ls in self.lists(cohort, d0):
                for r in ls:
                    r.mt = r.mtests = False
        if p & WITH:
            self.merge_with = cohort
        if deep is not None:
            deep[0] = cohort
        d = DS(test, deep, origin, p)
        s = self.si(test.target)
        if p & CAREFUL:
            st[1] = self.careful(cohort, s, d)
            if not d.matched_target and p & SCANFIRST:
                d.did_test = True
                self.normal(cohort, s, d)
        else:
            st[1] = self.normal(cohort, s, d)
        rc = cohort
        if origin is not None and (test.offset != 0 or p & (SCANALL | SCANFIRST)) and origin is cohort and origin.ln != 0:
            rc = None
            st[0] |= TRV_BREAK
        if d.matched_target and p & SCANFIRST:
            st[0] |= TRV_BREAK
        elif not p & (SCANALL | SCANFIRST | DEP_DEEP | DEP_GLOB):
            st[0] |= TRV_BREAK | TRV_BREAK_DEFAULT
        broken = bool(st[0] & TRV_BREAK)
        if test.barrier is not None and rc is not None:
            if self.normal(cohort, self.si(test.barrier), DS(None, None, None, p & ~CAREFUL, True)):
                self.seen_barrier = True
                st[0] |= TRV_BREAK | TRV_BARRIER
                st[0] &= ~TRV_BREAK_DEFAULT
        if test.cbarrier is not None and rc is not None:
            if self.careful(cohort, self.si(test.cbarrier), DS(None, None, None, p | CAREFUL, True)):
                self.seen_barrier = True
                st[0] |= TRV_BREAK | TRV_BARRIER
                st[0] &= ~TRV_BREAK_DEFAULT
        if d.matched_target and st[1]:
            st[0] |= TRV_BREAK
        if not broken and st[0] & TRV_BARRIER and p & SELF_NB == SELF_NB:
            st[0] &= ~(TRV_BREAK | TRV_BARRIER)
        if not st[1]:
            c.nct = rz
        return rc

    def single_at(self, w, i, test, st, deep, origin):
        if i < 0 or i >= len(w.cohorts):
            st[0] |= TRV_BREAK
            st[1] = False
            return None
        return self.single(w.cohorts[i], test, st, deep, origin)

    def cohort_at(self, w, position, test):
        p = test.pos
        pos = position + test.offset
        if p & ABSOLUTE and p & (SPAN_LEFT | SPAN_RIGHT):
            if w.prev is not None and p & SPAN_LEFT:
                w = w.prev
            elif w.next is not None and p & SPAN_RIGHT:
                w = w.next
            else:
                return None, w, pos
        if p & ABSOLUTE:
            pos = len(w.cohorts) + test.offset if test.offset < 0 else test.offset
        if pos >= 0:
            if pos >= len(w.cohorts) and p & (SPAN_RIGHT | SPAN_BOTH) and w.next is not None:
                w = w.next
                pos = 0
        elif p & (SPAN_LEFT | SPAN_BOTH) and w.prev is not None:
            w = w.prev
            pos = len(w.cohorts) - 1
        if 0 <= pos < len(w.cohorts):
            return w.cohorts[pos], w, pos
        return None, w, pos

    @staticmethod
    def tm_pos(c):
        return (c.window.number, c.ln)

    def tmpl_test(self, w, position, test, tmpl, deep, origin):
        mn, mx, int_ = self.tm_min, self.tm_max, self.tm_in
        self.tm_in = True
        if test.linked is not None:
            self.tm_linked.append(test.linked)
        t = tmpl
        over = bool(test.pos & TMPL_OVERRIDE)
        saved = None
        if over:
            saved = (t.pos, t.offset, t.cbarrier, t.barrier)
            t.pos = test.pos & ~(NEGATE | NOT | JUMP)
            t.offset = test.offset
            if test.offset != 0 and not test.pos & (SCANFIRST | SCANALL | ABSOLUTE):
                t.pos |= SCANALL
            if test.cbarrier is not None:
                t.cbarrier = test.cbarrier
            if test.barrier is not None:
                t.barrier = test.barrier
        try:
            c = self.ctest(w, position, t, deep, origin)
        finally:
            if over:
                t.pos, t.offset, t.cbarrier, t.barrier = saved
        if over:
            if c is not None and deep[0] is not None and test.offset != 0 and \
                    not self.pos_out(w, position, test, c, deep[0]):
                c = None
        if test.linked is not None:
            self.tm_linked.pop()
        if c is None:
            self.tm_min, self.tm_max, self.tm_in = mn, mx, int_
        return c

    def pos_out(self, w, position, test, c, cd):
        cs = [c, cd, c, cd]
        if self.tm_min is not None:
            cs[2] = self.tm_min
        if self.tm_max is not None:
            cs[3] = self.tm_max
        cs.sort(key=self.tm_pos)
        good = False
        if test.pos & (SCANFIRST | SCANALL | ABSOLUTE):
            good = True
        elif test.offset > 0 and cs[0].ln - position == test.offset:
            good = True
        elif test.offset < 0 and cs[3].ln - position == test.offset:
            good = True
        if not test.pos & (SPAN_BOTH | SPAN_LEFT | SPAN_RIGHT) and cd.window is not w:
            good = False
        if not test.pos & PASS_ORIGIN:
            if test.offset < 0 and cs[3].ln > position:
                good = False
            elif test.offset > 0 and cs[0].ln < position:
                good = False
        return good

    def ctest(self, w, position, test, deep=None, origin=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooLong()
        p = test.pos
        org_w, org_position = w, position
        cohort = None
        rv = True
        if p & JUMP:
            j = None
            if test.jump == 'M':
                j = self.stack[-1].mark
            elif test.jump == 'A':
                j = self.stack[-1].att_cohort
            elif test.jump == 'T':
                for c in reversed(self.stack):
                    if c.is_with:
                        j = c.cohort
            else:
                if len(self.stack) > 1:
                    l = self.stack[-2].context
                    if len(l) >= test.jump:
                        j = l[test.jump - 1]
            if j is not None:
                w = j.window
                position = j.ln
                if position < 0:
                    raise Unmodelled('jump to a removed cohort')
            else:
                rv = False
        if rv:
            cohort, rv, w = self._ctest_inner(w, position, test, deep, origin, org_w)
        if cohort is None:
            rv = False
        if cohort is None and p & NOT and test.linked is None:
            rv = not rv
        if p & NEGATE:
            rv = not rv
        if not rv:
            return None
        return cohort if cohort is not None else w.cohorts[0]

    def _ctest_inner(self, w, position, test, deep, origin, org_w):
        p = test.pos
        pos = position + test.offset
        rv = True
        if test.tmpl is not None or test.ors:
            cd = [None]
            if test.tmpl is not None:
                cohort = self.tmpl_test(w, position, test, self.templates[test.tmpl], cd, origin)
            else:
                cohort = None
                for o in test.ors:
                    was = self.dep_seen
                    self.dep_seen = set()
                    cohort = self.tmpl_test(w, position, test, o, cd, origin)
                    self.dep_seen = was
                    if cohort is not None:
                        break
            if deep is not None:
                deep[0] = cd[0]
            return cohort, cohort is not None, w
        cohort, w, pos = self.cohort_at(w, position, test)
        if cohort is None:
            return None, False, w
        if p & PASS_ORIGIN:
            origin = w.cohorts[0]
        if deep is not None:
            deep[0] = cohort
        if self.tm_in:
            g = self.tm_pos(cohort)
            if self.tm_min is None or g < self.tm_pos(self.tm_min):
                self.tm_min = cohort
            if self.tm_max is None or g > self.tm_pos(self.tm_max):
                self.tm_max = cohort
        it = None
        st = [0, True]
        if p & DEP_PARENT and p & DEP_GLOB:
            it = self.anc_iter(cohort, test)
        elif p & DEP_PARENT:
            it = self.par_iter(cohort, test)
        elif p & DEP_GLOB:
            it = self.desc_iter(cohort, test)
        elif p & (DEP_CHILD | DEP_SIBLING):
            nc = self.dep_test(w, cohort, test, deep, origin, None)
            if nc is not None:
                cohort, rv, w = nc, True, nc.window
            else:
                rv = False
            if p & NONE:
                rv = not rv
            return cohort, rv, w
        elif p & (LEFT_PAR | RIGHT_PAR):
            nc = self.par_test(w, cohort, test, deep, origin)
            if nc is not None:
                return nc, True, w
            return cohort, False, w
        elif p & RELATION:
            nc = self.rel_test(w, cohort, test, deep, origin)
            if nc is not None:
                cohort, rv = nc, True
            else:
                rv = False
            if p & NONE:
                rv = not rv
            return cohort, rv, w
        elif p & BAG_OF_TAGS:
            m = self.bag_test(w, test)
            if p & NOT:
                m = not m
            if m:
                if test.linked is not None:
                    cohort = self.ctest(w, position, test.linked, deep, origin)
                return cohort, rv, w
            return cohort, False, w
        elif test.offset == 0 and p & (SCANFIRST | SCANALL):
            return self._scan0(w, pos, cohort, test, deep, origin)
        elif test.offset < 0:
            it = self.topo(cohort, test, -1)
        elif test.offset > 0:
            it = self.topo(cohort, test, 1)
        else:
            it = iter((cohort,))
        nc = None
        seen = 0
        if p & SELF and (not p & LORR or (p & DEP_PARENT and not p & DEP_GLOB)):
            seen += 1
            me = org_w.cohorts[position] if position < len(org_w.cohorts) else None
            if me is None:
                raise Unmodelled('position outside window')
            nc = self.single(me, test, st, deep, origin)
            if not st[1] and st[0] & TRV_BREAK_DEFAULT:
                st[0] &= ~(TRV_BREAK | TRV_BREAK_DEFAULT)
        if not st[0] & TRV_BREAK:
            cur = cohort
            for x in it:
                seen += 1
                if p & LEFT and self.tm_pos(cur) < self.tm_pos(x):
                    nc = None
                    st[1] = False
                    break
                if p & RIGHT and not self.tm_pos(cur) < self.tm_pos(x):
                    nc = None
                    st[1] = False
                    break
                nc = self.single(x, test, st, deep, origin)
                if p & ALL and not st[1]:
                    nc = None
                    break
                if p & NONE and st[1]:
                    nc = None
                    break
                if st[0] & TRV_BREAK:
                    break
                cur = x
        rv = st[1]
        if seen == 0:
            rv = False
        if not rv and p & NONE:
            rv = True
            nc = cohort
        return nc, rv, w

    def _scan0(self, w, pos, cohort, test, deep, origin):
        p = test.pos
        st = [0, True]
        if p & SELF:
            cohort = self.single(cohort, test, st, deep, origin)
            if not st[1] and st[0] & TRV_BREAK_DEFAULT:
                st[0] &= ~(TRV_BREAK | TRV_BREAK_DEFAULT)
        if st[0] & TRV_BREAK and st[1]:
            return cohort, st[1], w
        left = right = w
        lpos = rpos = pos
        i = 1
        while left is not None or right is not None:
            if left is not None:
                st[0] = 0
                cohort = self.single_at(left, lpos - i, test, st, deep, origin)
                if st[0] & TRV_BREAK and st[1]:
                    return cohort, True, w
                elif st[0] & TRV_BREAK:
                    left = None
                    if p & NOT:
                        right = None
                elif lpos - i == 0:
                    if p & (SPAN_BOTH | SPAN_LEFT) or self.always_span:
                        left = left.prev
                        if left is not None:
                            lpos = i + len(left.cohorts)
                    else:
                        left = None
            if right is not None:
                st[0] = 0
                cohort = self.single_at(right, rpos + i, test, st, deep, origin)
                if st[0] & TRV_BREAK and st[1]:
                    return cohort, True, w
                elif st[0] & TRV_BREAK:
                    right = None
                    if p & NOT:
                        left = None
                elif rpos + i == len(right.cohorts) - 1:
                    if p & (SPAN_BOTH | SPAN_RIGHT) or self.always_span:
                        right = right.next
                        rpos = -i - 1
                    else:
                        right = None
            i += 1
        return cohort, st[1], w

    # ---- cohort iterators

    def step(self, c, d):
        w = c.window
        i = c.ln
        if i < 0:
            raise Unmodelled('iterating from a removed cohort')
        if d > 0:
            if i + 1 < len(w.cohorts):
                return w.cohorts[i + 1]
            return w.next.cohorts[0] if w.next is not None else None
        if i > 0:
            return w.cohorts[i - 1]
        return w.prev.cohorts[-1] if w.prev is not None else None

    def topo(self, c, test, d):
        span = test.pos & (SPAN_BOTH | (SPAN_RIGHT if d > 0 else SPAN_LEFT)) or self.always_span
        while c is not None:
            yield c
            n = self.step(c, d)
            if n is not None and n.window is not c.window and not span:
                return
            while n is not None and n.enclosed:
                n = self.step(n, d)
            c = n

    def span_ok(self, test, frm, to, both_only_ok=True):
        if frm.window is to.window:
            return True
        p = test.pos
        if not p & (SPAN_BOTH | SPAN_LEFT) and to.window.number < frm.window.number:
            return False
        if not p & (SPAN_BOTH | SPAN_RIGHT) and to.window.number > frm.window.number:
            return False
        return True

    def par_iter(self, c, test):
        seen = set()
        p = test.pos
        while True:
            if c.dep_parent is None:
                return
            n = self.cmap.get(c.dep_parent)
            if n is None or n.removed or n in seen:
                return
            seen.add(c)
            if n.window is c.window or p & SPAN_BOTH or self.always_span:
                pass
            elif n.window.number < c.window.number and p & SPAN_LEFT:
                pass
            elif n.window.number > c.window.number and p & SPAN_RIGHT:
                pass
            else:
                return
            c = n
            yield c

    def lorr(self, cs, cohort, p):
        cs = sorted(cs, key=self.tm_pos)
        me = self.tm_pos(cohort)
        if p & LEFT:
            cs = [x for x in cs if self.tm_pos(x) < me]
        if p & RIGHT:
            cs = [x for x in cs if self.tm_pos(x) >= me]
        if p & SELF and cohort not in cs:
            cs.append(cohort)
            cs.sort(key=self.tm_pos)
        if p & RIGHTMOST:
            cs.reverse()
        return iter(cs)

    def desc_iter(self, cohort, test):
        ds = set()
        for n in cohort.dep_children:
            c = self.cmap.get(n)
            if c is not None and self.span_ok(test, cohort, c):
                ds.add(c)
        seen = {cohort}
        while True:
            add = set()
            added = False
            for x in list(ds):
                if x in seen:
                    continue
                seen.add(x)
                for n in x.dep_children:
                    c = self.cmap.get(n)
                    if c is not None and self.span_ok(test, cohort, c):
                        add.add(c)
                        added = True
            ds |= add
            if not added:
                break
        self.chk_vis(ds)
        return self.lorr(ds, cohort, test.pos)

    def chk_vis(self, cs):
        for c in cs:
            if c.ln < 0:
                raise Ambiguous('order of an invisible cohort')

    def anc_iter(self, cohort, test):
        an = []
        c = cohort
        n = 0
        while True:
            q = self.cmap.get(c.dep_parent) if c.dep_parent is not None else None
            if q is None:
                break
            c = q
            if self.span_ok(test, cohort, c):
                if c in an:
                    break
                an.append(c)
            n += 1
            if n > 5000:
                raise Unmodelled('endless ancestor loop')
        self.chk_vis(an)
        return self.lorr(an, cohort, test.pos)

    def dep_test(self, w, cur, test, deep, origin, me):
        p = test.pos
        rv = None
        if me is not None:
            if me is cur:
                return None
        else:
            me = cur
        if p & DEP_DEEP:
            k = (id(test), cur.gnum)
            if k in self.dep_seen:
                return None
            self.dep_seen.add(k)
        if p & SELF and not p & LORR:
            st = [0, False]
            t = self.single(cur, test, st, deep, origin)
            if st[1]:
                return t
            if st[0] & TRV_BARRIER:
                return None
        if p & DEP_CHILD:
            deps = cur.dep_children
        elif cur.dep_parent == 0:
            deps = cur.window.cohorts[0].dep_children
        else:
            q = self.cmap.get(cur.dep_parent) if cur.dep_parent is not None else None
            if q is None or not q.dep_children:
                return None
            deps = q.dep_children
        deps = sorted(deps)
        if p & LORR:
            nd = set()
            for n in deps:
                c = self.cmap.get(n)
                if c is None or c.gnum != n:
                    continue
                if p & LEFT:
                    if self.tm_pos(c) < self.tm_pos(cur):
                        nd.add(n)
                elif p & RIGHT:
                    if self.tm_pos(cur) < self.tm_pos(c):
                        nd.add(n)
                else:
                    nd.add(n)
            if p & SELF:
                nd.add(cur.gnum)
            deps = sorted(nd)
            if p & RIGHTMOST:
                deps.reverse()
        for n in deps:
            if n == cur.gnum and not p & SELF:
                continue
            c = self.cmap.get(n)
            if c is None or c.removed:
                continue
            good = self.span_ok(test, cur, c)
            st = [0, False]
            if good:
                self.single(c, test, st, deep, origin)
            if p & ALL:
                if not st[1]:
                    rv = None
                    break
                rv = c
            elif st[1]:
                rv = c
                break
            elif st[0] & TRV_BARRIER:
                continue
            elif p & DEP_DEEP:
                t = self.dep_test(c.window, c, test, deep, origin, me)
                if t is not None:
                    rv = t
                    break
        return rv

    def par_test(self, w, cur, test, deep, origin):
        if self.par_left is None or self.par_right is None:
            lo = hi = 0
        else:
            lo, hi = self.par_left[1], self.par_right[1]
        if w is not self.current or hi >= len(w.cohorts):
            return None
        if cur.ln < lo or cur.ln > hi:
            return None
        c = w.cohorts[lo if test.pos & LEFT_PAR else hi]
        st = [0, False]
        self.single(c, test, st, deep, origin)
        return c if st[1] else None

    def rel_test(self, w, cur, test, deep, origin):
        if not cur.related or not cur.relations:
            return None
        c0 = self.stack[-1]
        rz = c0.nct
        t = gtag(test.relation)
        rels = set()
        for name, ids in cur.relations.items():
            if t.kind == 'any':
                ok = True
            elif t.kind == 're':
                if t.ngroups:
                    raise Unmodelled('relation capture')
                ok = bool(t.rx.search(name))
            else:
                ok = name == t.raw
            if ok:
                for i in ids:
                    x = self.cmap.get(i)
                    if x is not None:
                        rels.add(x)
        self.chk_vis(rels)
        rels = sorted(rels, key=self.tm_pos)
        me = self.tm_pos(cur)
        p = test.pos
        if p & LEFT:
            rels = [x for x in rels if self.tm_pos(x) < me]
        if p & RIGHT:
            rels = [x for x in rels if self.tm_pos(x) >= me]
        if p & SELF and cur not in rels:
            rels.append(cur)
            rels.sort(key=self.tm_pos)
        if p & LEFTMOST and rels:
            rels = rels[:1]
        if p & RIGHTMOST and rels:
            rels = rels[-1:]
        rv = None
        for x in rels:
            st = [0, False]
            self.single(x, test, st, deep, origin)
            if p & ALL:
                if not st[1]:
                    rv = None
                    break
                rv = x
            elif st[1]:
                rv = x
                break
        if rv is None:
            c0.nct = rz
        return rv

    def bag_test(self, w, test):
        # The bag of a window is every tag that any reading in it has had
        ws = [w]
        if test.pos & (SPAN_BOTH | SPAN_LEFT):
            x = w.prev
            while x is not None:
                ws.append(x)
                x = x.prev
        if test.pos & (SPAN_BOTH | SPAN_RIGHT):
            x = w.next
            while x is not None:
                ws.append(x)
                x = x.next
        for x in ws:
            r = Reading(None)
            r.tags = sorted(x.bag)
            r.parent = x.cohorts[0]
            r.baseform = next((t for t in r.tags if is_base(t)), None)
            if self.set_matches(r, self.si(test.target)):
                return True
        return False
