"""Executable reference engine: applies a grammar (vlib.ast) to a CG stream by direct interpretation of the rules.

Built on vlib.model.Eval (sets and contextual tests). No rule index, no possible-sets, no validity tracking: every rule is
tried on every cohort of the window, in order.
"""
import bisect
import re

from .ast import *
from .model import (Ambiguous, Unmodelled, TooLong, Eval, Reading, Cohort, Window, Ctx, BAG_ON, gtag, is_word, is_base)
from . import streamio

NEVER = 10 ** 9
ITER_DEFAULT = {'SELECT', 'REMOVE', 'IFF', 'DELIMIT', 'REMCOHORT', 'MOVE', 'SWITCH'}
REL1 = ('ADDRELATION', 'SETRELATION', 'REMRELATION')
REL2 = ('ADDRELATIONS', 'SETRELATIONS', 'REMRELATIONS')
END, BEGIN = '<<<', '>>>'
_dep_re = re.compile(r'^#(\d+)(?:->|→)(\d+)$')
_rel_re = re.compile(r'^R:(.+?):(\d+)$')
_id_re = re.compile(r'^ID:(\d+)$')


class RI:
    """A rule as the engine sees it."""
    __slots__ = ('r', 'type', 'number', 'section', 'target', 'tests', 'dep_target', 'dep_tests', 'fl', 'sub', 'wordform',
                 'maplist', 'sublist', 'excepts', 'nested', 'iterate', 'token', 'mapset', 'childset1', 'childset2', 'name',
                 'before', 'after')


class State:
    __slots__ = ('changed', 'repeat', 'bail', 'jump')

    def __init__(self):
        self.changed = self.repeat = self.bail = False
        self.jump = None


class Engine(Eval):
    def __init__(self, g, num_windows=2, trace=True, opts=None, split=True, dep=None):
        Eval.__init__(self, g)
        self.num_windows = num_windows
        self.opts = opts or {}
        self.trace = trace
        self.rules = []       # by number
        self.anchors = {}
        self.secs = []        # section number of each rule
        self.nsec = 0
        self.has_dep = self.has_rel = self.spanned = False
        self.parse_dep = False
        self.g_rel = False
        BAG_ON[0] = getattr(self.g, 'has_bag', False)
        self.has_protect = False
        self.build()
        self.prevw, self.nextw = [], []
        self.counter = 0
        self.wcounter = 0
        self.dep_window = {}
        self.relation_map = {}
        self.out = []
        self.tried = set()
        self.rule_hits = {}
        self.in_nested = 0
        self.eof = False
        self.max_iter = 60000
        self.iters = 0
        self.applied = {}
        self.did_final = False
        self.split_windows = False
        self.events = {}

    # ---- grammar

    def build(self):
        sec = -1
        cum = 0
        self.sections = {}
        pending = []
        for kw, anchor, rules in self.g.blocks:
            if kw == 'BEFORE-SECTIONS':
                s = -1
            elif kw == 'AFTER-SECTIONS':
                s = -2
            else:
                s = cum
                cum += 1
            if anchor:
                self.anchors.setdefault(anchor, len(self.rules))
            for r in rules:
                if isinstance(r, str):
                    self.anchors[r] = len(self.rules)
                    continue
                ri = self.mkrule(r, s)
                self.sections.setdefault(s, []).append(ri)
        self.nsec = max(list(self.sections) + [-1]) + 1     # trailing sections without rules don't count
        for r in self.rules:
            if r.name and r.name not in self.anchors:
                self.anchors[r.name] = r.number
        for t in self.templates.values():
            self.scan_test(t, self.dep_pos)
        self.anchors['START'] = 0
        self.anchors['END'] = max(0, len(self.rules) - 1)

    def dep_pos(self, q):
        if q.pos & (DEP_PARENT | DEP_CHILD | DEP_SIBLING | DEP_GLOB):
            self.parse_dep = True
        if q.pos & RELATION:
            self.g_rel = True

    def scan_test(self, t, f):
        while t is not None:
            f(t)
            for o in t.ors or ():
                self.scan_test(o, f)
            t = t.linked

    def mkrule(self, r, s):
        x = RI()
        x.r = r
        x.type = r.type
        nested = [self.mkrule(q, -3) for q in (r.nested or ())]
        x.nested = nested
        x.number = len(self.rules)
        self.rules.append(x)
        x.section = s
        x.fl = set(r.flags)
        look = 0
        for f, b in (('LOOKDELETED', LOOK_DELETED), ('LOOKDELAYED', LOOK_DELAYED), ('LOOKIGNORED', LOOK_IGNORED)):
            if f in x.fl:
                look |= b
        x.target = self.si(r.target)
        x.tests = [t.norm(look) for t in r.tests]
        dt = [t.norm(look) for t in (r.dep_tests or ())]
        x.dep_target, x.dep_tests = None, []
        if dt and r.type == 'MERGECOHORTS':
            x.dep_tests = dt
        elif dt:
            x.dep_target, x.dep_tests = dt[-1], dt[:-1]
        x.sub = r.sub
        x.wordform = gtag(r.wordform) if r.wordform else None
        x.name = r.name
        x.mapset = r.maplist
        x.maplist = list(r.maplist[1]) if r.maplist and r.maplist[0] == 'i' else None
        x.sublist = list(r.sublist[1]) if r.sublist and r.sublist[0] == 'i' else None
        x.excepts = list(r.excepts[1]) if r.excepts and r.excepts[0] == 'i' else None
        x.childset1, x.childset2 = r.childset1, r.childset2
        x.after = 'AFTER' in (r.kw_dir, r.deptarget_pos)
        x.before = 'BEFORE' in (r.kw_dir, r.deptarget_pos)
        if r.type == 'UNMAP' and not x.fl & {'SAFE', 'UNSAFE'}:
            x.fl.add('SAFE')
        if 'UNMAPLAST' in x.fl:
            x.fl.add('UNSAFE')
        if r.deptarget_pos == 'FROM':
            x.fl.add('REVERSE')
        x.iterate = (r.type in ITER_DEFAULT or 'ITERATE' in x.fl) and 'NOITERATE' not in x.fl
        if any(t.jump == 'M' for t in x.tests + dt):     # not those linked
            x.fl |= {'REMEMBERX', 'KEEPORDER'}
        for t in x.tests + dt:
            self.scan_test(t, self.dep_pos)
        if r.type in ('SETPARENT', 'SETCHILD', 'REMPARENT', 'SWITCHPARENT', 'SPLITCOHORT', 'MERGECOHORTS') or r.childset2 is not None or \
                (r.childset1 is not None and r.type in ('MOVE', 'SWITCH', 'ADDCOHORT', 'COPYCOHORT', 'REMCOHORT', 'SWITCHPARENT')):
            self.parse_dep = True
        if r.type in REL1 or r.type in REL2 or r.type == 'MERGECOHORTS':
            self.g_rel = True
        if r.type == 'PROTECT':
            self.has_protect = True
        tok = r.type
        if r.type == 'MOVE':
            tok = 'MOVE-AFTER' if r.deptarget_pos == 'AFTER' else 'MOVE-BEFORE'
        elif r.type == 'ADDCOHORT':
            tok = 'ADDCOHORT-' + r.kw_dir
        elif r.type in REL1:
            tok += '(%s)' % x.maplist[0]
        elif r.type in REL2:
            tok += '(%s,%s)' % (x.maplist[0], x.sublist[0])
        x.token = tok
        return x

    def rtoken(self, ri):
        return '%s:%d%s' % (ri.token, ri.r.line, ':' + ri.name if ri.name else '')

    # ---- windows and cohorts

    def new_window(self):
        self.wcounter += 1
        w = Window(self.wcounter)
        return w

    def links(self):
        p = None
        for w in self.prevw + ([self.current] if self.current else []) + self.nextw:
            w.prev = p
            w.next = None
            if p is not None:
                p.next = w
            p = w

    def begin_cohort(self, w):
        c = Cohort(w, '">>>"')
        c.wordform = BEGIN
        c.gnum = self.counter
        self.counter += 1
        r = Reading(c)
        r.baseform = BEGIN
        self.add_tag(r, BEGIN)
        self.append_reading(c, r)
        self.append_cohort(w, c)

    def append_cohort(self, w, c):
        c.window = w
        w.cohorts.append(c)
        w.all_cohorts.append(c)
        self.cmap[c.gnum] = c
        self.dep_window[c.gnum] = c
        if BAG_ON[0]:
            for r in c.readings + c.deleted + c.delayed + c.ignored + ([c.wread] if c.wread else []):
                while r:
                    w.bag.update(r.tags)
                    r = r.next

    def append_reading(self, c, r):
        c.readings.append(r)
        if r.number == 0:
            r.number = len(c.readings) * 1000 + 1000

    def new_reading(self, c):
        r = Reading(c)
        r.number = len(c.readings) * 1000 + 1000
        return r

    def set_related(self, c):
        c.related = True
        for r in c.readings:
            r.noprint = False

    def is_map(self, s):
        return s.startswith(self.g.prefix)

    def add_tag(self, r, tag):
        c = r.parent
        r.tags.append(tag)
        r.touch()
        for l, rt in self.g.parentheses:
            if tag == l:
                c.is_pleft = tag
            if tag == rt:
                c.is_pright = tag
        if self.is_map(tag):
            if r.mapping is not None and r.mapping != tag:
                raise Unmodelled('second mapping')
            r.mapping = tag
        if r.baseform is None and is_base(tag):
            r.baseform = tag
        if tag[0] == '#' and self.parse_dep and not c.dep_done:
            m = _dep_re.match(tag)
            if m:
                c.dep_self = int(m.group(1))
                c.dep_parent = int(m.group(2))
                if c.dep_parent == c.dep_self:
                    c.dep_parent = None
                self.has_dep = True
        if self.g_rel and (tag.startswith('R:') or tag.startswith('ID:')):
            m = _rel_re.match(tag)
            if m:
                n = int(m.group(2))
                if n and n not in c.relations.get(m.group(1), ()):
                    c.rel_in.setdefault(m.group(1), set()).add(n)
            m2 = _id_re.match(tag)
            if m2 and int(m2.group(1)):
                self.relation_map[int(m2.group(1))] = c.gnum
            if m or m2:
                self.has_rel = True
                self.set_related(c)

    def del_tag(self, r, tag):
        r.tags = [x for x in r.tags if x != tag]
        if r.mapping == tag:
            r.mapping = None
        if r.baseform == tag:
            r.baseform = None
        r.touch()

    def reflow(self, r):
        tl = r.tags
        r.tags = []
        r.mapping = None
        for t in tl:
            self.add_tag(r, t)
        r.touch()

    def empty_cohort(self, c):
        r = self.new_reading(c)
        w = c.wordform
        r.baseform = '"' + w[2:-2] + '"' if len(w) >= 4 else w
        self.add_tag(r, w)
        r.noprint = True
        self.append_reading(c, r)

    # ---- mappings

    def vs(self, s):
        n = 0
        while gtag(s).kind == 'vstr':
            t = gtag(s)
            if t.vs:
                raise Unmodelled('varstring flags')
            s = self.varstring(t)
            n += 1
            if not s:
                raise Unmodelled('empty tag')
            if n > 20:
                raise Unmodelled('varstring loop')
            if s[0] == '(' or ' ' in s:
                raise Unmodelled('odd generated tag')
        return s

    def split_mappings(self, maps, c, r, mapped=False):
        maps = [self.vs(x) for x in maps]
        for x in list(maps):
            if not self.is_map(x):
                self.add_tag(r, x)
        maps = [x for x in maps if self.is_map(x)]
        if r.mapping is not None:
            maps.append(r.mapping)
            self.del_tag(r, r.mapping)
        last = maps.pop()
        i = len(maps)
        if maps and not any(q is r for q in c.readings):
            raise Unmodelled('sub-reading split by mappings')
        for m in maps:
            if any(q.plain_key() == r.plain_key() and q.mapping == m for q in c.readings):
                continue
            nr = r.copy()
            nr.parent = r.parent
            nr.mapped = mapped
            nr.number = r.number - i
            i -= 1
            self.add_tag(nr, m)
            nr.mapping = m
            self.append_reading(c, nr)
        r.mapped = mapped
        self.add_tag(r, last)
        r.mapping = last

    def append_tags(self, r, tags, maps):
        for t in tags:
            t = self.vs(t)
            if self.is_map(t):
                maps.append(t)
            else:
                self.add_tag(r, t)

    def unmap(self, r, ri):
        ch = False
        if r.mapping is not None:
            r.noprint = False
            self.del_tag(r, r.mapping)
            ch = True
        if r.mapped:
            r.mapped = False
            ch = True
        if ch:
            r.hit_by.append(ri)
        return ch

    # ---- running a rule

    def at(self):
        """(cohort, reading, subreading) the rule is applied to."""
        c = self.stack[-1]
        if c.att_cohort is not None:
            return c.att_cohort, c.att_reading, c.att_sub
        return c.cohort, c.reading, c.sub

    def trace_hit(self, ri):
        c, r, s = self.at()
        s.hit_by.append(ri)
        if ri.sub == 32767:
            r.hit_by.append(ri)
        self.note(ri)

    def note(self, ri):
        self.applied[ri.type] = self.applied.get(ri.type, 0) + 1

    def wf_ok(self, ri, c):
        t = ri.wordform
        if t is None:
            return True
        if t.kind in ('re',):
            return bool(t.rx.search(c.wordform))
        if t.kind == 'icase':
            return t.text.casefold() == c.wordform.casefold()
        if t.kind == 'anyre':
            return True
        return t.text == c.wordform

    def clear_attach(self):
        x = self.stack[-1]
        x.att_cohort = x.att_reading = x.att_sub = None

    def reset_test(self):
        self.dep_seen = set()
        self.tm_min = self.tm_max = None
        self.tm_in = False
        self.tm_linked = []

    def run_single(self, cur, ri, st):
        """Returns nothing; what happened is in st and the flags."""
        self.fin_cohort = True
        fl = ri.fl
        T = ri.type
        nested = self.in_nested

        def snapshot():
            if nested:
                cs = {self.at()[0]}
                for e in (ri.target.entries or ()) if ri.target.kind == 'list' else ():
                    if len(e) == 1 and e[0].kind == 'special' and e[0].special == '_C_':
                        if e[0].ref <= len(self.stack[-1].context):
                            x = self.stack[-1].context[e[0].ref - 1]
                            if x is not None:
                                cs.add(x)
                return sorted(cs, key=self.tm_pos)
            return [c for c in cur.cohorts if self.wf_ok(ri, c)]
        cohorts = snapshot()
        i = 0
        while i < len(cohorts):
            cohort = cohorts[i]
            i += 1
            self.iters += 1
            if self.iters > self.max_iter:
                raise TooLong()
            self.fin_reading = True
            typ = 'REMOVE' if T == 'IFF' else T
            if cohort.removed or cohort.c_ignored or cohort.enclosed or cohort.window is not cur or not cohort.readings:
                continue
            c = cohort.ln
            if c <= 0:
                continue
            if nested and not self.wf_ok(ri, cohort):
                continue
            if T == 'RESTORE':
                ls = cohort.delayed if 'DELAYED' in fl else cohort.ignored if 'IGNORED' in fl else cohort.deleted
                if not ls:
                    continue
            if len(cohort.readings) == 1:
                if typ == 'SELECT':
                    continue
                if typ == 'REMOVE':
                    if cohort.readings[0].noprint or 'SAFE' in fl or 'UNSAFE' not in fl:
                        continue
            elif typ == 'UNMAP' and 'SAFE' in fl:
                continue
            if typ == 'DELIMIT' and c == len(cur.cohorts) - 1:
                continue
            if 'ENCL_INNER' in fl:
                if not self.par_left or c < self.par_left[1] or c > self.par_right[1]:
                    continue
            elif 'ENCL_OUTER' in fl:
                if self.par_left and self.par_left[1] <= c <= self.par_right[1]:
                    continue
            if typ == 'SETPARENT' and 'SAFE' in fl and cohort.dep_parent is not None:
                continue
            if 'NOPARENT' in fl and cohort.dep_parent is not None:
                continue
            if typ in ('REMPARENT', 'SWITCHPARENT') and cohort.dep_parent is None:
                continue
            k = (ri.number, cohort.gnum)
            if k in self.tried:
                continue
            self.tried.add(k)
            reset = self.try_cohort(cur, ri, st, cohort, c, typ)
            if reset == 'stop':
                return
            if reset:
                # (the context is still the one the rule was applied in)
                gac = self.at()[0]
                if gac.window is not cur:
                    gac = self.stack[-1].cohort
                self.stack.pop()
                if nested:
                    raise Unmodelled('nested cohort change')
                ln = gac.ln if gac.ln >= 0 else gac.oldln
                if ln < len(cur.cohorts):
                    pos = cur.cohorts[ln]
                    if pos is gac and not (gac.removed or gac.c_ignored):
                        ln += 1
                    left = cur.cohorts[ln:]
                else:
                    left = []
                cohorts = [x for x in left if self.wf_ok(ri, x)]
                i = 0

    def try_cohort(self, cur, ri, st, cohort, c, typ):
        fl = ri.fl
        T = ri.type
        tset = ri.target
        active = iff = 0
        ctxs = []
        ctx = Ctx()
        ctx.cohort = cohort
        ctx.is_with = T == 'WITH'
        self.stack.append(ctx)
        plain = {}
        unifs = {}
        any_caps = False
        dupable = not (tset.special or tset.mapping or tset.child_unify)
        n0 = len(cohort.readings)
        for idx in range(n0):
            head = cohort.readings[idx]
            r = self.subreading(head, ri.sub)
            if r is None:
                head.mt = head.mtests = False
                continue
            ctx.reading, ctx.sub = head, r
            r.mt = r.mtests = False
            if r.mapped and (T in ('MAP', 'ADD', 'REPLACE') or 'NOMAPPED' in fl):
                continue
            if r.immutable and T != 'UNPROTECT':
                if T in ('PROTECT', 'ADD', 'MAP', 'REPLACE', 'SELECT', 'REMOVE', 'IFF', 'SUBSTITUTE', 'UNMAP'):
                    active += 1
                if typ == 'SELECT':
                    r.mt = r.mtests = True
                    ctxs.append(ctx.clone())
                iff += 1
                continue
            if dupable and r.plain_key() in plain:
                o = plain[r.plain_key()]
                r.mt, r.mtests = o[0].mt, o[0].mtests
                if r.mtests and not o[5]:
                    raise Ambiguous('failed after attaching to itself')
                if r.mtests:
                    active += 1
                if o[1]:
                    ctx.caps, ctx.nct = o[2], o[1]
                elif any_caps:
                    raise Ambiguous('captures of an equal reading')
                ctx.utags, ctx.usets = o[3], o[4]
                ctxs.append(ctx.clone())
                continue
            ctx.caps = []
            ctx.nct = 0
            ctx.utags, ctx.usets = {}, {}
            self.lu_base = self.lu_word = self.lu_text = None
            self.same_basic = r.plain_key()
            m = self.stack[-2].mark if len(self.stack) > 1 else None
            ctx.mark = m if m is not None else cohort
            x = head
            while x:
                x.active = True
                x = x.next
            if r is not head and ri.sub == 32767:
                pass
            self.rule_target = cohort
            good = False
            if self.set_matches(r, tset):
                r.mt = True
                good = True
                ctx.context = []
                for ti, t in enumerate(ri.tests):
                    if 'RESETX' in fl or 'REMEMBERX' not in fl:
                        ctx.mark = cohort
                    self.seen_barrier = False
                    self.reset_test()
                    deep = None
                    if T == 'WITH':
                        deep = [None]
                        self.merge_with = None
                    org = cohort if (t.pos & NO_PASS_ORIGIN and not t.pos & PASS_ORIGIN) else None
                    res = self.ctest(cur, c, t, deep, org)
                    ctx.context.append(self.merge_with if self.merge_with is not None else (deep[0] if deep else None))
                    if res is None:
                        good = False
                        if ti and 'KEEPORDER' not in fl:
                            del ri.tests[ti]
                            ri.tests.insert(0, t)
                        break
                if good:
                    if T == 'IFF' and typ != 'SELECT':
                        typ = 'SELECT'
                        if self.has_protect:
                            for j in range(idx):
                                q = self.subreading(cohort.readings[j], ri.sub)
                                if q is not None and q.immutable:
                                    if ri.sub == 32767 and q is not cohort.readings[j]:
                                        raise Unmodelled('IFF SUB:* with protect')
                                    q.mt = q.mtests = True
                                    active += 1
                                    iff += 1
                    r.mtests = True
                    active += 1
                else:
                    ctx.nct = 0
                iff += 1
            else:
                ctx.nct = 0
            plain.setdefault(r.plain_key(), (r, ctx.nct, ctx.caps, ctx.utags, ctx.usets, good))
            x = head
            while x:
                x.active = False
                x = x.next
            if r is not head:
                head.mt, head.mtests = r.mt, r.mtests
            if ctx.nct:
                any_caps = True
            ctxs.append(ctx.clone())
        if active == 0 and (iff == 0 or T != 'IFF'):
            self.stack.pop()
            return False
        if active == len(cohort.readings):
            if typ == 'SELECT' or (typ == 'REMOVE' and ('SAFE' in fl or 'UNSAFE' not in fl)):
                self.stack.pop()
                return False
        if T == 'SELECT' and all(cx.sub.immutable for cx in ctxs if cx.sub.mtests):
            # Whether that happens hangs on whether the cohort is still in the rule's list (known finding, probed by P01)
            raise Ambiguous('SELECT where only protected readings remain')
        self.selected, self.removed = [], []
        for cx in ctxs:
            if not cx.sub.mt:
                continue
            if not cx.sub.mtests and T != 'IFF':
                continue
            self.stack[-1] = cx
            self.reset = False
            self.rcb(cur, ri, st)
            if not self.fin_cohort:
                self.stack.pop()
                return 'stop'
            if self.reset:
                self.after_reset = True
                break
            if not self.fin_reading:
                break
        did = self.reset
        self.reset = False
        keep = self.stack[-1]
        self.ccb(cur, ri, st)
        if not self.fin_cohort:
            self.stack.pop()
            return 'stop'
        did = did or self.reset
        self.reset = False
        if not did:
            self.stack.pop()
        return did

    reset = False

    # ---- what rules do to cohorts

    def ccb(self, cur, ri, st):
        T = ri.type
        fl = ri.fl
        if T in ('SELECT', 'REMOVE', 'IFF'):
            # only readings of the one cohort, in its order
            self.selected, self.removed = ([r for r in self.at()[0].readings if any(r is x for x in q)] for q in (self.selected, self.removed))
        if T == 'SELECT' or (T == 'IFF' and self.selected):
            c = self.at()[0]
            sel = self.selected
            if sel and len(sel) < len(c.readings):
                drop = []
                for rd in c.readings:
                    x = rd if ri.sub == 32767 else self.subreading(rd, ri.sub)
                    if x is not None:
                        x.hit_by.append(ri)
                        self.note(ri)
                    if rd not in sel:
                        rd.deleted = True
                        drop.append(rd)
                c.readings = [r for r in c.readings if r in sel]
                self.dest(c, fl).extend(drop)
                st.changed = True
        elif T in ('REMOVE', 'IFF'):
            c = self.at()[0]
            rem = self.removed
            if rem and (len(rem) < len(c.readings) or 'UNSAFE' in fl):
                self.dest(c, fl).extend(rem)
                oz = len(c.readings)
                while rem:
                    rem[-1].deleted = True
                    j = 0
                    while j < oz:
                        if c.readings[j] is rem[-1]:
                            oz -= 1
                            c.readings[j], c.readings[oz] = c.readings[oz], c.readings[j]
                        j += 1
                    rem.pop()
                del c.readings[oz:]
                st.changed = True
            if not c.readings:
                self.empty_cohort(c)
        elif T == 'JUMP':
            to = self.vs(ri.maplist[0])
            if to in self.anchors:
                st.jump = self.anchors[to]
                st.repeat = True
                self.fin_cohort = False
        elif T == 'REMVARIABLE':
            for n in ri.maplist:
                n = self.vs(n)
                if gtag(n).kind != 'plain':
                    raise Unmodelled('special variable name')
                if n in self.vars:
                    if 'OUTPUT' in fl and n not in cur.vars_out:
                        cur.vars_out.append(n)
                    del self.vars[n]
                    self.tried.clear()
        elif T == 'SETVARIABLE':
            n, v = self.vs(ri.maplist[0]), self.vs(ri.sublist[0])
            if self.vars.get(n) != v:
                self.vars[n] = v
                self.tried.clear()
            if 'OUTPUT' in fl and n not in cur.vars_out:
                cur.vars_out.append(n)
        elif T == 'DELIMIT':
            c = self.at()[0]
            if c.window is cur and c.ln >= 0 and len(cur.cohorts) > c.ln + 1:
                self.delimit_at(cur, c)
                self.delimited = True
                st.changed = True
        elif T == 'REMCOHORT':
            c = self.at()[0]
            if c.ln == 0:
                return
            if 'IGNORED' in fl:
                cs = self.subtree(c, ri.childset1)
                for x in reversed(cs):
                    self.ignore_cohort(x, ri)
                self.reflow_dep()
            else:
                self.rem_cohort(c, ri)
            if END in c.readings[0].ts():
                for r in cur.cohorts[-1].readings:
                    self.add_tag(r, END)
            self.tried.clear()
            st.changed = True
            self.reset = True

    def dest(self, c, fl):
        return c.delayed if 'DELAYED' in fl else c.ignored if 'IGNORED' in fl else c.deleted

    def can_pick(self, picked):
        c, r, s = self.at()
        return r is not None and any(x is r for x in c.readings) and not any(x is r for x in picked)

    def spot(self, r, spot, after, bounded):
        """Position of the run of spot tags in the reading, or None."""
        spot = [t for t in spot if t in r.ts()]
        n = len(r.tags)
        for k in range(n):
            if k + len(spot) > n:
                continue
            if all(r.tags[k + j] == t for j, t in enumerate(spot)):
                if after:
                    k += len(spot)
                return k
        return None

    def insert_tags(self, r, k, tags, maps):
        for t in tags:
            if gtag(t).kind == 'vstr':
                t = self.vs(t)
            if t == '*':
                break
            if self.is_map(t):
                maps.append(t)
            else:
                r.tags.insert(k, t)
                k += 1
        r.touch()
        self.reflow(r)

    def rcb(self, cur, ri, st):
        T = ri.type
        fl = ri.fl
        ac, ar, asub = self.at()
        if T == 'SELECT' or (T == 'IFF' and asub.mtests):
            if self.can_pick(self.selected):
                self.selected.append(ar)
            self.tried.clear()
        elif T in ('REMOVE', 'IFF'):
            if not self.can_pick(self.removed):
                return
            if T == 'REMOVE' and 'UNMAPLAST' in fl and len(self.removed) == len(ac.readings) - 1:
                if self.unmap(asub, ri):
                    st.changed = True
                    self.note(ri)
            else:
                self.trace_hit(ri)
                self.removed.append(ar)
            self.tried.clear()
        elif T in ('PROTECT', 'UNPROTECT'):
            self.trace_hit(ri)
            self.tried.clear()
            asub.immutable = T == 'PROTECT'
        elif T == 'UNMAP':
            if self.unmap(asub, ri):
                self.tried.clear()
                self.note(ri)
                st.changed = True
        elif T in ('ADD', 'MAP'):
            self.trace_hit(ri)
            k0 = asub.key()
            self.tried.clear()
            asub.noprint = False
            maps = []
            did = False
            if ri.childset1 is not None:
                k = self.spot(asub, ri.childset1[1], ri.after, False)
                if k is not None and k < len(asub.tags):
                    self.insert_tags(asub, k, ri.maplist, maps)
                    did = True
            if not did:
                self.append_tags(asub, ri.maplist, maps)
            if maps:
                self.split_mappings(maps, ac, asub, T == 'MAP')
            if T == 'MAP':
                asub.mapped = True
            if asub.key() != k0:
                st.changed = True
        elif T == 'RESTORE':
            ls = self.dest(ac, fl)
            did = False
            s = self.si(ri.mapset)
            for r in list(ls):
                if self.set_matches(r, s):
                    r.deleted = False
                    r.hit_by.append(ri)
                    ac.readings.append(r)
                    x = r
                    while x:
                        self.reflow(x)
                        x = x.next
                    ls.remove(r)
                    did = True
            if did:
                self.tried.clear()
                self.trace_hit(ri)
            self.fin_reading = False
        elif T == 'REPLACE':
            k0 = asub.key()
            self.tried.clear()
            self.trace_hit(ri)
            asub.noprint = False
            ex = [t for t in (ri.excepts or ()) if t in asub.ts()]
            bf = asub.baseform
            asub.tags = [ac.wordform]
            asub.baseform = None
            self.reflow(asub)
            maps = []
            self.append_tags(asub, ri.maplist, maps)
            for t in ex:
                self.add_tag(asub, t)
            if asub.baseform is None and bf is not None:
                self.add_tag(asub, bf)
            if maps:
                self.split_mappings(maps, ac, asub, True)
            if asub.key() != k0:
                st.changed = True
        elif T == 'SUBSTITUTE':
            self.substitute(cur, ri, st, ac, asub)
        elif T == 'APPEND':
            self.tried.clear()
            self.trace_hit(ri)
            rs = []
            for t in ri.maplist:
                t = self.vs(t)
                if is_base(t):
                    rs.append([])
                if not rs:
                    raise Unmodelled('APPEND without baseform')
                rs[-1].append(t)
            for tags in rs:
                nr = self.new_reading(ac)
                self.add_tag(nr, ac.wordform)
                nr.hit_by.append(ri)
                maps = []
                for t in tags:
                    if self.is_map(t):
                        maps.append(t)
                    else:
                        self.add_tag(nr, t)
                if maps:
                    self.split_mappings(maps, ac, nr)
                self.append_reading(ac, nr)
            if len(ac.readings) > 1:
                ac.readings = [r for r in ac.readings if not r.noprint]
            st.changed = True
            self.fin_reading = False
        elif T == 'COPY':
            if ar is None:
                return
            nr = ar.copy()
            nr.number = ar.number + 100
            self.append_reading(ac, nr)
            self.tried.clear()
            self.trace_hit(ri)
            nr.hit_by.append(ri)
            nr.noprint = False
            if ri.excepts:
                x = nr
                while x:
                    for t in ri.excepts:
                        self.del_tag(x, t)
                    x = x.next
            maps = []
            did = False
            if ri.childset1 is not None:
                # tags present are looked up on the original
                sp = [t for t in ri.childset1[1] if t in asub.ts()]
                k = None
                n = len(nr.tags)
                for q in range(n):
                    if q + len(sp) > n:
                        continue
                    if all(nr.tags[q + j] == t for j, t in enumerate(sp)):
                        k = q
                        break
                if k is not None:
                    if ri.after:
                        k = min(n, k + len(sp))
                    if k < n:
                        self.insert_tags(nr, k, ri.maplist, maps)
                        did = True
            if not did:
                self.append_tags(nr, ri.maplist, maps)
            if maps:
                self.split_mappings(maps, ac, nr, True)
            st.changed = True
            self.reflow(nr)
        elif T in REL1 or T in REL2 or T in ('SETPARENT', 'SETCHILD'):
            self.dep_rule(cur, ri, st)
        elif T == 'REMPARENT':
            self.fin_reading = False
            self.trace_hit(ri)
            self.tried.clear()
            self.detach(ac)
        elif T == 'SWITCHPARENT':
            self.fin_reading = False
            self.trace_hit(ri)
            self.tried.clear()
            child = ac
            parent = self.cmap.get(child.dep_parent) if child.dep_parent is not None else None
            if parent is None or parent.ln == 0:
                return
            gp = parent.dep_parent
            sib = []
            if ri.childset1 is not None:
                cs = self.si(ri.childset1)
                sib = [x for x in cur.cohorts if x.dep_parent == parent.gnum and self.normal(x, cs, None)]
            self.detach(child)
            self.detach(parent)
            for s in sib:
                self.detach(s)
            q = self.cmap.get(gp) if gp is not None else None
            if q is not None:
                self.attach(q, child)
            self.attach(child, parent)
            for s in sib:
                self.attach(child, s)
        elif T in ('MOVE', 'SWITCH'):
            self.move(cur, ri, st)
        elif T == 'WITH':
            self.trace_hit(ri)
            anych = False
            self.in_nested += 1
            for sr in ri.nested:
                while True:
                    s2 = State()
                    sv = self.selected, self.removed
                    self.run_single(cur, sr, s2)
                    self.selected, self.removed = sv
                    anych = anych or s2.changed
                    if s2.bail or s2.repeat:
                        raise Unmodelled('nested flow')
                    if not (s2.changed and 'REPEAT' in sr.fl):
                        break
            self.in_nested -= 1
            st.changed = anych
            self.fin_reading = False
        elif T == 'ADDCOHORT':
            self.tried.clear()
            self.trace_hit(ri)
            w = ac.window
            nc = self.add_cohort(ri, ac, None)
            if w.cohorts[-1] is nc:
                for r in w.cohorts[-2].readings:
                    self.del_tag(r, END)
                for r in nc.readings:
                    self.add_tag(r, END)
            st.changed = True
            self.reset = True
        elif T == 'SPLITCOHORT':
            self.splitcohort(cur, ri, st, ac)
        elif T == 'MERGECOHORTS':
            self.mergecohorts(cur, ri, st, ac)
        elif T == 'COPYCOHORT':
            self.copycohort(cur, ri, st)
        elif T != 'REMCOHORT':
            self.trace_hit(ri)

    def substitute(self, cur, ri, st, ac, r):
        k0 = r.key()
        the = list(ri.sublist)
        appending = len(the) == 1 and the[0] == '*'
        out = []
        for t in the:
            if t in r.ts():
                out.append(t)
                continue
            tg = gtag(t)
            if tg.kind in ('plain', 'any'):
                continue
            if tg.kind == 'vstr':
                raise Unmodelled('varstring in sublist')
            if tg.kind == 're':
                hits = [x for x in r.ts() if tg.rx.search(x)]
                if len(hits) > 1:
                    raise Ambiguous('several tags match')
                if hits:
                    out.append(hits[0])
                continue
            m = self.tag_matches(r, tg)
            if m:
                out.append(m)
        # an inserted match is looked at again, in place
        the = out
        SUB = '\0subst'
        tpos = NEVER
        plain = True
        tl = r.tags
        i = 0
        while i < len(tl):
            if plain and the and tl[i] == the[0]:
                if r.baseform == tl[i]:
                    r.baseform = None
                tl[i] = SUB
                tpos = i
                j = 1
                while j < len(the) and i < len(tl):
                    if tl[i] != the[j]:
                        plain = False
                        break
                    del tl[i]
                    if r.baseform == the[j]:
                        r.baseform = None
                    j += 1
                    i += 1
                continue
            for t in the:
                if tl[i] != t:
                    continue
                tpos = i
                tl[i] = SUB
                if r.baseform == t:
                    r.baseform = None
            i += 1
        if appending:
            tl.append(SUB)
            tpos = len(tl)
        r.touch()
        if tpos != NEVER:
            if not plain:
                i = 0
                while i < len(tl) and i < tpos:
                    if tl[i] == SUB:
                        del tl[i]
                        tpos -= 1
                    else:
                        i += 1
            wf = None
            self.tried.clear()
            self.trace_hit(ri)
            r.noprint = False
            maps = []
            i = 0
            while i < len(tl):
                if tl[i] == SUB:
                    del tl[i]
                    tpos = i
                    for t in ri.maplist:
                        if gtag(t).kind == 'vstr':
                            t = self.vs(t)
                        if t == '*':
                            break
                        if self.is_map(t):
                            maps.append(t)
                        else:
                            if is_word(t):
                                wf = t
                            tl.insert(tpos, t)
                            tpos += 1
                else:
                    i += 1
            self.reflow(r)
            if maps:
                self.split_mappings(maps, ac, r, True)
            c = r.parent
            if wf is not None and wf != c.wordform:
                for ls in (c.readings, c.deleted, c.delayed, c.ignored, [c.wread] if c.wread is not None else []):
                    for q in ls:
                        while q:
                            self.del_tag(q, c.wordform)
                            self.add_tag(q, wf)
                            q = q.next
                c.wordform = wf
        r.touch()
        if r.key() != k0:
            st.changed = True

    # ---- dependencies and relations

    def is_child_of(self, child, parent):
        if parent is child or parent.gnum == child.dep_parent:
            return True
        x = child
        for _ in range(1000):
            if not x.dep_parent:
                return False
            q = self.cmap.get(x.dep_parent)
            if q is None:
                return False
            x = q
            if x.dep_parent == parent.gnum:
                return True
        return False

    def would_loop(self, parent, child):
        if parent is child or parent.gnum == child.gnum:
            return True
        if parent.gnum == child.dep_parent:
            return False
        if parent.gnum == parent.dep_parent:
            return False
        root = child.window is parent.window and child is child.window.cohorts[0]
        if parent.dep_parent == child.gnum or (root and parent.dep_parent == 0):
            return True
        x = parent
        for _ in range(1000):
            if not x.dep_parent:
                return False
            q = self.cmap.get(x.dep_parent)
            if q is None:
                return False
            x = q
            if x.dep_parent == child.gnum or (root and x.dep_parent == 0):
                return True
        return False

    def attach(self, parent, child, allowloop=False, cross=False):
        parent.dep_self = parent.gnum
        child.dep_self = child.gnum
        if not allowloop and self.would_loop(parent, child):
            return False
        if child.dep_parent is None:
            child.dep_parent = child.dep_self
        q = self.cmap.get(child.dep_parent)
        if q is not None:
            q.dep_children.discard(child.dep_self)
        child.dep_parent = parent.gnum
        parent.dep_children.add(child.gnum)
        parent.dep_done = child.dep_done = True
        if child.window is not parent.window:
            self.spanned = True
        return True

    def detach(self, c):
        q = self.cmap.get(c.dep_parent) if c.dep_parent is not None else None
        if q is not None:
            q.dep_children.discard(c.dep_self)
        c.dep_parent = None

    def rtag(self, name, n):
        return 'R:%s:%d' % (name, n)

    def rel_do(self, kind, a, name, b):
        """kind ADD/SET/REM relation `name` from a to b; returns whether anything changed."""
        t = self.rtag(name, b.gnum)
        cur = a.relations.get(name, set())
        if kind == 'ADD':
            self.set_related(a)
            ch = b.gnum not in cur
            a.relations[name] = cur | {b.gnum}
            for r in a.readings:
                self.add_tag(r, t)
        elif kind == 'SET':
            self.set_related(a)
            ch = cur != {b.gnum}
            a.relations[name] = {b.gnum}
            a.rel_in.pop(name, None)
            for r in a.readings:
                r.tags = [x for x in r.tags if not x.startswith('R:' + name + ':')]
                self.add_tag(r, t)
        else:
            ch = b.gnum in cur
            if name in a.relations and name in a.rel_in:
                a.rel_in[name].discard(b.gnum)
            if ch:
                a.relations[name] = cur - {b.gnum}
                if not a.relations[name]:
                    del a.relations[name]
            for r in a.readings:
                self.del_tag(r, t)
        return ch

    def force_trace(self, ri):
        x = self.stack[-1]
        sv = x.att_cohort
        x.att_cohort = None
        self.trace_hit(ri)
        x.att_cohort = sv
        x.sub.noprint = False

    def dep_target_cb(self, ri, st):
        x = self.stack[-1]
        target, att = x.cohort, x.att_cohort
        if 'REVERSE' in ri.fl:
            target, att = att, target
        T = ri.type
        if T in ('SETPARENT', 'SETCHILD'):
            self.has_dep = True
            p, ch = (att, target) if T == 'SETPARENT' else (target, att)
            ok = self.attach(p, ch, 'ALLOWLOOP' in ri.fl, 'ALLOWCROSS' in ri.fl)
            if ok:
                self.tried.clear()
                self.force_trace(ri)
                st.changed = True
            return ok
        self.has_rel = True
        ch = False
        kind = T[:3]
        if T in REL1:
            for n in ri.maplist:
                n = self.vs(n)
                if kind != 'REM':
                    self.set_related(att)
                ch |= self.rel_do(kind, target, n, att)
        else:
            for n in ri.maplist:
                ch |= self.rel_do(kind, target, self.vs(n), att)
            for n in ri.sublist:
                ch |= self.rel_do(kind, att, self.vs(n), target)
        if ch:
            self.tried.clear()
            self.force_trace(ri)
            st.changed = True
        return True

    def run_target(self, ri, w, pos):
        """Locates the cohort a rule refers to; returns it or None."""
        deep = [None]
        self.reset_test()
        self.clear_attach()
        r = self.ctest(w, pos, ri.dep_target, deep, None)
        if r is None or deep[0] is None:
            return None
        a = deep[0]
        if self.stack[-1].att_cohort is not None:
            a = self.stack[-1].att_cohort
        return a

    def check_deps(self, ri, a):
        for t in ri.dep_tests:
            self.stack[-1].mark = a
            self.reset_test()
            if self.ctest(a.window, a.ln, t, None, None) is None:
                return False
        return True

    def dep_rule(self, cur, ri, st):
        x = self.stack[-1]
        org = ri.dep_target.offset
        seen = set()
        orgt = (x.cohort, x.reading, x.sub)
        try:
            while True:
                ut = dict(x.utags)
                us = {k: set(v) for k, v in x.usets.items()}
                t = x.cohort
                seen.add(t.gnum)
                self.seen_barrier = False
                if t.ln < 0:
                    raise Unmodelled('target not visible')
                a = self.run_target(ri, t.window, t.ln)
                if a is None:
                    break
                brk = self.seen_barrier or 'NEAREST' in ri.fl
                good = self.check_deps(ri, a)
                if x.att_cohort is None:
                    x.att_cohort = a
                    x.att_reading = x.att_sub = None
                if good:
                    tmp = (x.cohort, x.reading, x.sub)
                    x.cohort, x.reading, x.sub = orgt
                    if self.dep_target_cb(ri, st):
                        break
                    x.cohort, x.reading, x.sub = tmp
                if brk:
                    break
                if a.gnum in seen:
                    break
                seen.add(a.gnum)
                x.cohort, x.reading, x.sub = x.att_cohort, x.att_reading, x.att_sub
                x.utags.clear()
                x.utags.update(ut)
                x.usets.clear()
                x.usets.update(us)
                if ri.dep_target.offset != 0:
                    ri.dep_target.offset = -1 if ri.dep_target.offset < 0 else 1
        finally:
            ri.dep_target.offset = org
        self.fin_reading = False

    def subtree(self, head, cset):
        if cset is None:
            return [head]
        w = head.window
        s = self.si(cset)
        cs = []
        for c in w.cohorts:
            if c.gnum == head.gnum:
                cs.append(c)
            elif c.dep_parent == head.gnum and self.normal(c, s, None):
                cs.append(c)
        more = []
        for c in w.cohorts:
            for q in cs:
                if q.gnum == head.gnum:
                    continue
                if self.is_child_of(c, q):
                    more.append(c)
        out = set(cs) | set(more)
        return sorted(out, key=self.tm_pos)

    def move(self, cur, ri, st):
        self.fin_reading = False
        x = self.stack[-1]
        cohort = x.cohort
        before = [c.gnum for c in cur.cohorts]
        a = self.run_target(ri, cur, cohort.ln)
        if a is None:
            return
        if self.deep_other_window(cohort, a):
            return
        if not self.check_deps(ri, a):
            return
        if cohort is a or cohort.ln == 0:
            return
        att = a
        if 'REVERSE' in ri.fl:
            att, cohort = cohort, att
        if ri.type == 'SWITCH':
            if att.ln == 0:
                return
            i, j = cohort.ln, att.ln
            cur.cohorts[i], cur.cohorts[j] = att, cohort
            i, j = cur.all_cohorts.index(cohort), cur.all_cohorts.index(att)
            cur.all_cohorts[i], cur.all_cohorts[j] = att, cohort
            moved = sorted({att, cohort}, key=self.tm_pos)
        else:
            edges = self.subtree(att, ri.childset2)
            moved = self.subtree(cohort, ri.childset1)
            if set(edges) & set(moved):
                if self.is_child_of(cohort, att):
                    edges = [e for e in edges if e not in moved]
                else:
                    moved = [m for m in moved if m not in edges]
            if not moved or not edges:
                return
            if any(e.window is not cur for e in edges):
                raise Unmodelled('move across windows')
            for c in moved:
                cur.cohorts.remove(c)
                cur.all_cohorts.remove(c)
            if ri.r.deptarget_pos == 'BEFORE':
                spot = max(1, edges[0].ln)
                aspot = cur.all_cohorts.index(edges[0])
                if edges[0].ln == 0:
                    aspot += 1
            else:
                spot = edges[-1].ln + 1
                aspot = cur.all_cohorts.index(edges[-1]) + 1
            cur.cohorts[spot:spot] = moved
            cur.all_cohorts[aspot:aspot] = moved
        if [c.gnum for c in cur.cohorts] != before:
            h = self.rule_hits.get(ri.number, 0) + 1
            self.rule_hits[ri.number] = h
            if h > len(cur.cohorts) * 100:
                st.bail = True
                self.fin_cohort = False
                return
            for c in moved:
                for r in c.readings:
                    r.hit_by.append(ri)
            self.note(ri)
            st.changed = True

    def deep_other_window(self, cohort, a):
        # The found cohort itself must be in the window; one attached to in another is not modelled
        if a.window is not cohort.window:
            if self.stack[-1].att_cohort is not None:
                raise Unmodelled('move to an attached cohort elsewhere')
            return True
        return False

    # ---- adding and removing cohorts

    def star(self, tags, cohort):
        out = []
        for t in tags:
            if t != '*':
                out.append(t)
                continue
            nt = cohort.readings[0].tags
            if len(nt) <= 2:
                out.append(t)
                continue
            out.append(nt[2])
            out += [y for y in nt[3:] if not _dep_re.match(y)]
        return out

    def mk_readings(self, nc, readings, ri):
        for tags in readings:
            nr = self.new_reading(nc)
            nr.hit_by.append(ri)
            maps = []
            for t in tags:
                t = self.vs(t)
                if self.is_map(t):
                    maps.append(t)
                else:
                    self.add_tag(nr, t)
            if maps:
                self.split_mappings(maps, nc, nr)
            self.append_reading(nc, nr)

    def add_cohort(self, ri, cohort, withs):
        w = cohort.window
        nc = Cohort(w, None)
        nc.gnum = self.counter
        self.counter += 1
        rs = []
        for t in ri.maplist:
            t = self.vs(t)
            if is_word(t):
                nc.wordform = t
                continue
            if is_base(t):
                rs.append([nc.wordform])
            rs[-1].append(t)
        rs = [self.star(x, cohort) for x in rs]
        self.mk_readings(nc, rs, ri)
        self.cmap[nc.gnum] = nc
        self.dep_window[nc.gnum] = nc
        if ri.type == 'MERGECOHORTS' and 'DETACH' not in ri.fl:
            t = self.stack[-1].cohort
            if t.dep_parent is None or t.dep_parent not in self.cmap:
                if self.has_dep:
                    if cohort not in withs:
                        self.attach(cohort, nc)
                    else:
                        nx, pv = self.step(cohort, 1), self.step(cohort, -1)
                        while nx is not None or pv is not None:
                            if nx is not None and nx.window is not w:
                                nx = None
                            if nx is not None and nx not in withs:
                                self.attach(nx, nc)
                                break
                            if nx is not None:
                                nx = self.step(nx, 1)
                            if pv is not None and pv.window is not w:
                                pv = None
                            if pv is not None and pv not in withs:
                                self.attach(pv, nc)
                                break
                            if pv is not None:
                                pv = self.step(pv, -1)
            else:
                self.attach(self.cmap[t.dep_parent], nc)
            ps = set()
            for c in withs:
                ps.add(c.gnum)
                if c.related:
                    for k, v in c.relations.items():
                        nc.relations.setdefault(k, set()).update(v)
                    nc.related = True
            for c in w.all_cohorts:
                if c.dep_parent in ps:
                    self.attach(nc, c)
                for k, v in c.relations.items():
                    for q in sorted(ps):
                        if q in v:
                            c.relations[k] = v = (v - {q}) | {nc.gnum}
                            nc.related = True
        if not nc.readings:
            self.empty_cohort(nc)
            if self.trace:
                nc.readings[0].hit_by.append(ri)
                nc.readings[0].noprint = False
        cs = self.subtree(cohort, ri.childset1)
        if ri.type == 'ADDCOHORT' and ri.r.kw_dir == 'BEFORE':
            e = cs[0]
            i = w.all_cohorts.index(e)
            k = 1 if e.ln == 0 else 0     # nothing comes before >>>
            w.cohorts.insert(e.ln + k, nc)
            w.all_cohorts.insert(i + k, nc)
        else:
            e = cs[-1]
            i = w.all_cohorts.index(e)
            w.cohorts.insert(e.ln + 1, nc)
            w.all_cohorts.insert(i + 1, nc)
        return nc

    def unlink(self, c):
        """Takes a cohort out of the window's visible cohorts and out of the trees."""
        for x in self.cmap.values():
            x.dep_children.discard(c.dep_self)
        self.cmap.pop(c.gnum, None)

    def rem_cohort(self, c, ri):
        w = c.window
        for r in c.readings:
            r.hit_by.append(ri)
            r.deleted = True
            if self.trace:
                r.noprint = False
        self.note(ri)
        while c.dep_children:
            ch = max(c.dep_children)
            child = self.cmap.get(ch)
            parent = self.cmap.get(c.dep_parent) if c.dep_parent is not None else None
            if parent is None:
                parent = self.cmap.get(0)
            if child is not None and parent is not None:
                self.attach(parent, child, True, True)
            c.dep_children.discard(ch)
        c.removed = True
        c.oldln = c.ln
        self.unlink(c)
        w.cohorts.remove(c)
        if len(w.cohorts) == 1 and w is not self.current:
            b = w.cohorts[0]
            self.unlink(b)
            rest = [x for x in w.all_cohorts if x is not b]
            if w.prev is not None:
                w.prev.all_cohorts += rest
            elif w.next is not None:
                w.next.all_cohorts[1:1] = rest
            w.all_cohorts = []
            if w in self.prevw:
                self.prevw.remove(w)
            if w in self.nextw:
                self.nextw.remove(w)
            if w.vars_out:
                raise Unmodelled('window with variables goes away')
            self.links()

    def ignore_cohort(self, c, ri):
        for r in c.readings:
            r.hit_by.append(ri)
        self.note(ri)
        c.c_ignored = True
        c.oldln = c.ln
        self.cmap.pop(c.gnum, None)
        c.window.cohorts.remove(c)

    def splitcohort(self, cur, ri, st, ac):
        self.tried.clear()
        w = ac.window
        news = []
        for t in [self.vs(x) for x in ri.maplist]:
            if is_word(t):
                nc = Cohort(w, t)
                nc.gnum = self.counter
                self.counter += 1
                news.append([nc, []])
                continue
            if is_base(t):
                news[-1][1].append([news[-1][0].wordform])
            if '->' in t or t == 'R:*':
                raise Unmodelled('split mapping')
            news[-1][1][-1].append(t)
        n = len(news)
        dep = [[0, i] for i in range(n)]
        dep[0][1] = None
        dep[-1] = [None, n - 1]
        reltrg = n - 1
        for i, (nc, rs) in enumerate(news):
            self.mk_readings(nc, [self.star(x, ac) for x in rs], ri)
            if not nc.readings:
                self.empty_cohort(nc)
            self.dep_window[nc.gnum] = nc
            self.cmap[nc.gnum] = nc
            w.cohorts.insert(ac.ln + i + 1, nc)
            w.all_cohorts.insert(w.all_cohorts.index(ac) + i + 1, nc)
        for i, (nc, rs) in enumerate(news):
            if dep[i][0] is None:
                while ac.dep_children:
                    ch = max(ac.dep_children)
                    q = self.cmap.get(ch)
                    if q is not None:
                        self.attach(nc, q, True, True)
                    ac.dep_children.discard(ch)
            if dep[i][1] is None:
                if ac.dep_parent is not None and ac.dep_parent in self.cmap:
                    self.attach(self.cmap[ac.dep_parent], nc, True, True)
            else:
                self.attach(self.cmap[news[0][0].gnum + dep[i][1] - 1], nc, True, True)
            if reltrg == i and ac.related:
                self.set_related(nc)
                nc.relations, ac.relations = ac.relations, nc.relations
                for ww in self.prevw + [self.current] + self.nextw:
                    for c in ww.cohorts:
                        for k, v in c.relations.items():
                            if ac.gnum in v:
                                c.relations[k] = (v - {ac.gnum}) | {nc.gnum}
        for r in ac.readings:
            r.hit_by.append(ri)
            r.deleted = True
        self.note(ri)
        ac.removed = True
        ac.oldln = ac.ln
        self.unlink(ac)
        w.cohorts.remove(ac)
        st.changed = True
        self.reset = True

    def mergecohorts(self, cur, ri, st, target):
        self.tried.clear()
        x = self.stack[-1]
        withs = {target}
        at = target
        for t in ri.dep_tests:
            self.clear_attach()
            self.merge_with = None
            x.mark = target
            self.reset_test()
            deep = [None]
            if target.ln < 0:
                raise Unmodelled('target not visible')
            r = self.ctest(target.window, target.ln, t, deep, None)
            if r is None or deep[0] is None:
                self.fin_reading = False
                return
            if x.att_cohort is not None:
                at = x.att_cohort
                if self.merge_with is not None:
                    withs.add(self.merge_with)
            elif self.merge_with is not None:
                withs.add(self.merge_with)
            else:
                withs.add(deep[0])
        if any(c.ln == 0 for c in withs):
            self.fin_reading = False
            return
        ws = sorted(withs, key=self.tm_pos)
        w = at.window
        x.cohort = self.add_cohort(ri, at, ws)
        for c in ws:
            self.rem_cohort(c, ri)
        if END not in w.cohorts[-1].readings[0].ts():
            for r in w.cohorts[-2].readings:
                self.del_tag(r, END)
            for r in w.cohorts[-1].readings:
                self.add_tag(r, END)
        st.changed = True
        self.reset = True

    def copycohort(self, cur, ri, st):
        x = self.stack[-1]
        cohort = x.cohort
        a = self.run_target(ri, cur, cohort.ln)
        if a is None or not self.check_deps(ri, a):
            return
        rev = 'REVERSE' in ri.fl
        if cohort is a or cohort.ln == 0 or (rev and a.ln == 0):
            return
        sub = self.at()[2]
        cset = ri.childset2
        if rev:
            cohort, a = a, cohort
            cset = ri.childset1
        nc = Cohort(a.window, cohort.wordform)
        nc.gnum = self.counter
        self.counter += 1
        the = [self.vs(t) for t in ri.maplist]
        for h in cohort.readings:
            first = last = None
            r = h
            while r:
                nr = self.new_reading(nc)
                nr.hit_by.append(ri)
                maps = []
                for t in list(r.tags) + [t for t in the if t != '*']:
                    if self.is_map(t):
                        maps.append(t)
                    else:
                        self.add_tag(nr, t)
                if maps:
                    self.split_mappings(maps, nc, nr)
                if first is None:
                    first = nr
                else:
                    last.next = nr
                last = nr
                r = r.next
            self.append_reading(nc, first)
        self.note(ri)
        if not nc.readings:
            self.empty_cohort(nc)
            if self.trace:
                nc.readings[0].hit_by.append(ri)
                nc.readings[0].noprint = False
        for h in nc.readings:
            r = h
            while r:
                for t in ri.excepts or ():
                    self.del_tag(r, t)
                r = r.next
        if cohort.wread is not None:
            nc.wread = Reading(nc)
            for t in cohort.wread.tags:
                self.add_tag(nc.wread, t)
        self.cmap[nc.gnum] = nc
        self.dep_window[nc.gnum] = nc
        edges = self.subtree(a, cset)
        w = a.window
        if ri.before:
            e = edges[0]
            k, ak = e.ln, w.all_cohorts.index(e)
            if k == 0:
                k += 1
                ak += 1
        else:
            e = edges[-1]
            k, ak = e.ln + 1, w.all_cohorts.index(e) + 1
        w.cohorts.insert(k, nc)
        w.all_cohorts.insert(ak, nc)
        self.attach(e, nc)
        st.changed = True
        self.reset = True

    def delimit_at(self, cur, cohort):
        if BAG_ON[0]:
            raise Ambiguous('bag of tags of a split window')
        nw = self.new_window()
        self.split_windows = True
        self.nextw.insert(0, nw)
        nw.flush_after, cur.flush_after = cur.flush_after, nw.flush_after
        nw.has_encl = cur.has_encl
        self.begin_cohort(nw)
        k = cur.all_cohorts.index(cohort) + 1
        for c in cur.all_cohorts[k:]:
            c.window = nw
            if c.enclosed or c.removed or c.c_ignored:
                nw.all_cohorts.append(c)
            else:
                self.append_cohort(nw, c)
        del cur.cohorts[cohort.ln + 1:]
        del cur.all_cohorts[k:]
        for r in cur.cohorts[-1].readings:
            self.add_tag(r, END)
        self.links()

    # ---- scheduling

    def run_rules(self, cur, rules):
        self.delimited = False
        did = False
        self.cmap[0] = cur.cohorts[0]
        i = 0
        nums = [r.number for r in rules]
        while i < len(rules):
            ri = rules[i]
            if cur.has_encl:
                if 'ENCL_FINAL' in ri.fl:
                    if not self.did_final:
                        i += 1
                        continue
                elif self.did_final:
                    i += 1
                    continue
            st = State()
            self.cur_rule = ri
            self.stack = []
            if self.skipped(ri):
                i += 1
                continue
            self.run_single(cur, ri, st)
            rdid = False
            if st.changed:
                if ri.iterate and self.opts.get('max_runs') != 1:
                    did = True
                rdid = True
            if st.bail:
                self.rule_hits[ri.number] = 0
                self.tried.clear()
                i += 1
                continue
            if st.repeat:
                i = bisect.bisect_left(nums, st.jump)
                self.iters += 1
                self.events['jump'] = self.events.get('jump', 0) + 1
                continue
            if self.delimited:
                break
            if rdid and 'REPEAT' in ri.fl:
                self.iters += 10
                if self.iters > self.max_iter:
                    raise TooLong()
                self.tried.clear()
                continue
            i += 1
        return did, self.delimited

    def run_sections(self, cur):
        """One pass over BEFORE-SECTIONS, the sections, and AFTER-SECTIONS; returns whether the window was delimited."""
        if self.sections.get(-1) and not self.opts.get('no_before'):
            if self.run_rules(cur, self.sections[-1])[1]:
                return True
        order = self.opts.get('sections')
        if order is None:
            passes = [range(s + 1) for s in range(self.nsec)]
        else:
            passes = [[x - 1 for x in order[:k + 1]] for k in range(len(order))]
        if self.opts.get('no_sections'):
            passes = []
        for p in passes:
            rules = sorted((r for k in set(p) if k >= 0 for r in self.sections.get(k, ())), key=lambda r: r.number)
            if not rules:
                continue
            n = 0
            while True:
                did, dl = self.run_rules(cur, rules)
                self.events['sections run'] = self.events.get('sections run', 0) + 1
                if dl:
                    return True
                n += 1
                if not did or n == self.opts.get('max_runs', 0):
                    break
                if n > 100:
                    raise Unmodelled('endless section')
        if self.sections.get(-2) and not self.opts.get('no_after'):
            if self.run_rules(cur, self.sections[-2])[1]:
                return True
        return False

    def skipped(self, ri):
        """The command line says that this rule isn't to be run."""
        o = self.opts
        if 'lines' in o and ri.r.line not in o['lines']:
            return True
        if o.get('no_mappings') and ri.type in ('MAP', 'ADD', 'REPLACE'):
            return True
        return bool(o.get('no_corrections')) and ri.type in ('SUBSTITUTE', 'APPEND')

    def reflow_dep(self):
        dw = self.dep_window
        cur = self.current
        if not dw or dw[min(dw)].window is None:
            dw[0] = cur.cohorts[0]
        elif 0 not in dw:
            dw[0] = dw[min(dw)].window.cohorts[0]
        if not self.cmap:
            self.cmap[0] = cur.cohorts[0]
        elif 0 not in self.cmap:
            self.cmap[0] = self.cmap[min(self.cmap)].window.cohorts[0]
        keys = sorted(dw)
        b = 0
        while b < len(keys):
            while b < len(keys) and (dw[keys[b]].dep_done or not dw[keys[b]].dep_self):
                b += 1
            dm = {}
            e = b
            while e < len(keys):
                c = dw[keys[e]]
                if not c.dep_done and c.dep_self:
                    if c.dep_self in dm:
                        break
                    dm[c.dep_self] = c.gnum
                    c.dep_self = c.gnum
                e += 1
            if not dm:
                break
            dm[0] = 0
            while b < e:
                c = dw[keys[b]]
                b += 1
                if c.dep_parent is None:
                    continue
                if c.dep_self == c.gnum:
                    if not c.dep_done and c.dep_parent not in dm:
                        c.dep_parent = None
                    else:
                        if not c.dep_done:
                            c.dep_parent = dm[c.dep_parent]
                        self.cmap[0] = c.window.cohorts[0]
                        q = self.cmap.get(c.dep_parent)
                        if q is not None:
                            q.dep_children.add(c.dep_self)
                        c.dep_done = True
        self.dep_window = {}

    def reflow_rel(self):
        mx = None
        if not self.eof and self.nextw and len(self.nextw[-1].cohorts) > 1:
            mx = self.nextw[-1].cohorts[0].gnum
        for w in self.prevw + [self.current] + self.nextw:
            for c in w.cohorts:
                if mx is not None and c.gnum >= mx:
                    return
                for name in list(c.rel_in):
                    left = set()
                    for t in c.rel_in[name]:
                        if t in self.relation_map:
                            c.relations.setdefault(name, set()).add(self.relation_map[t])
                        else:
                            left.add(t)
                    if left:
                        c.rel_in[name] = left
                    else:
                        del c.rel_in[name]

    def run_window(self):
        cur = self.current
        self.did_final = False
        self.vars.update(cur.variables_set)
        for v in cur.variables_rem:
            self.vars.pop(v, None)
        self.vars['_MPREFIX'] = self.g.prefix
        if self.has_dep:
            self.reflow_dep()
            if not self.eof and self.nextw and len(self.nextw[-1].cohorts) > 1:
                for c in self.nextw[-1].cohorts:
                    self.dep_window[c.gnum] = c
        if self.has_rel:
            self.reflow_rel()
        if self.g.parentheses:
            self.wrap(cur)
        self.par_left = self.par_right = None
        npass = 0
        while True:
            while len(self.prevw) > self.num_windows:
                self.emit(self.prevw.pop(0))
            self.rule_hits = {}
            self.tried.clear()
            cur = self.current
            self.links()
            npass += 1
            if npass > 100:
                raise Unmodelled('endless window')
            self.events['window passes'] = self.events.get('window passes', 0) + 1
            if self.run_sections(cur):
                self.events['delimited'] = self.events.get('delimited', 0) + 1
                continue
            if cur.has_encl:
                if self.unwrap(cur):
                    self.events['enclosure unwrapped'] = self.events.get('enclosure unwrapped', 0) + 1
                    continue
                if not self.did_final:
                    self.par_left = self.par_right = None
                    self.did_final = True
                    continue
            break
        ref = False
        for i in range(len(cur.all_cohorts), 0, -1):
            c = cur.all_cohorts[i - 1]
            if c.c_ignored:
                for k in range(i, 0, -1):
                    q = cur.all_cohorts[k - 1]
                    if not (q.removed or q.enclosed or q.c_ignored):
                        cur.cohorts.insert(q.ln + 1, c)
                        c.c_ignored = False
                        self.cmap.setdefault(c.gnum, c)
                        ref = True
                        break
        if ref:
            self.reflow_dep()

    def wrap(self, cur):
        par = dict(self.g.parentheses)
        again = True
        while again:
            again = False
            for i in range(len(cur.cohorts) - 1, -1, -1):
                c = cur.cohorts[i]
                if c.is_pleft is None or c.is_pleft not in par:
                    continue
                encs = []
                found = False
                for j in range(i, len(cur.cohorts)):
                    s = cur.cohorts[j]
                    encs.append(s)
                    if s.is_pright == par[c.is_pleft]:
                        found = True
                        break
                if found:
                    cur.cohorts = cur.cohorts[:i] + cur.cohorts[j + 1:]
                    a, b = cur.all_cohorts.index(encs[0]), cur.all_cohorts.index(encs[-1])
                    for q in cur.all_cohorts[a:b + 1]:
                        q.enclosed += 1
                    cur.has_encl = True
                    self.events['enclosure wrapped'] = self.events.get('enclosure wrapped', 0) + 1
                    again = True
                    break

    def unwrap(self, cur):
        al = cur.all_cohorts
        hid = lambda c: c.enclosed or c.removed or c.c_ignored
        for i in range(len(al)):
            if al[i].enclosed != 1:
                continue
            la = i
            while la > 0:
                if not hid(al[la - 1]):
                    la -= 1
                    break
                la -= 1
            ni = al[la].ln
            ra = i
            new = []
            last = al[i]
            while ra < len(al):
                if not hid(al[ra]):
                    break
                if al[ra].enclosed:
                    last = al[ra]
                    last.enclosed -= 1
                    if last.enclosed == 0:
                        new.append(last)
                ra += 1
            cur.cohorts[ni + 1:ni + 1] = new
            self.par_left = (al[i].is_pleft, ni + 1)
            self.par_right = (last.is_pright, ni + len(new))
            return True
        return False

    # ---- reading the stream

    def shuffle(self):
        if self.current is not None:
            self.current.variables_set = dict(self.vars)
            self.current.variables_rem = set()
            self.prevw.append(self.current)
            self.current = None
        if self.nextw:
            self.current = self.nextw.pop(0)
        self.links()

    def run(self, text):
        """Applies the grammar to the stream; returns the list of output items."""
        vset, vrem, vout = {}, set(), []
        csw = None
        cc = None
        allmap = []      # (reading, mappings)
        stackr = []
        delims = [gtag(d) for d in self.g.delims]

        def vadd(k):
            if k not in vout:
                vout.append(k)

        def finish(c):
            if allmap:
                for r, ms in allmap:
                    if any(x is r for x in c.readings):
                        self.split_mappings(ms, c, r, True)
                allmap.clear()
                nums = [r.number for r in c.readings]
                c.readings.sort(key=lambda r: r.number)
                if len(set(nums)) != len(nums):
                    ks = {}
                    for r in c.readings:
                        ks.setdefault(r.number, set()).add(r.key())
                    if any(len(v) > 1 for v in ks.values()):
                        raise Ambiguous('reading order')

        def delim(c):
            return c.wordform in self.g.delims

        for line in text.split('\n'):
            if line.startswith('"<'):
                tg = streamio.split_tags(line)
                if cc is not None and not cc.readings:
                    self.empty_cohort(cc)
                if cc is not None and delim(cc):
                    for r in cc.readings:
                        self.add_tag(r, END)
                    finish(cc)
                    self.append_cohort(csw, cc)
                    csw = cc = None
                if csw is None:
                    csw = self.new_window()
                    self.nextw.append(csw)
                    self.begin_cohort(csw)
                    cc = None
                    self.links()
                if cc is not None:
                    finish(cc)
                    self.append_cohort(csw, cc)
                if len(self.nextw) > self.num_windows + 1:
                    self.shuffle()
                    self.run_window()
                if len(csw.all_cohorts) == 1:
                    for k, v in vset.items():
                        csw.variables_set.setdefault(k, v)
                    csw.variables_rem |= vrem
                    for k in vout:
                        if k not in csw.vars_out:
                            csw.vars_out.append(k)
                    vset, vrem, vout = {}, set(), []
                cc = Cohort(csw, tg[0])
                cc.gnum = self.counter
                self.counter += 1
                stackr = []
                if len(tg) > 1:
                    cc.wread = Reading(cc)
                    self.add_tag(cc.wread, tg[0])
                    for t in tg[1:]:
                        self.add_tag(cc.wread, t)
            elif line.startswith('\t'):
                d = len(line) - len(line.lstrip('\t'))
                tags = streamio.split_tags(line)
                if d > 1 and not stackr:
                    raise Unmodelled('sub-reading first')
                r = self.new_reading(cc)
                if d == 1:
                    stackr = [r]
                else:
                    if d != len(stackr) + 1:
                        raise Unmodelled('indentation')
                    r.number = 0
                    stackr[-1].next = r
                    stackr.append(r)
                self.add_tag(r, cc.wordform)
                ms = []
                for t in tags:
                    if self.is_map(t):
                        ms.append(t)
                    else:
                        self.add_tag(r, t)
                if d == 1:
                    self.append_reading(cc, r)
                    if ms:
                        allmap.append((r, ms))
                elif ms:
                    if len(ms) > 1:
                        raise Unmodelled('several mappings on a sub-reading')
                    self.split_mappings(ms, cc, r, True)
            elif line.startswith('<STREAMCMD:SETVAR:'):
                body = line[len('<STREAMCMD:SETVAR:'):-1]
                if ',' not in body and '=' not in body:
                    vset[body] = '*'
                    vrem.discard(body)
                    vadd(body)
                    if csw is None:
                        self.vars[body] = '*'
                else:
                    for part in body.split(','):
                        k, _, v = part.partition('=')
                        vset[k] = v or '*'
                        vrem.discard(k)
                        vadd(k)
            elif line.startswith('<STREAMCMD:REMVAR:'):
                for k in line[len('<STREAMCMD:REMVAR:'):-1].split(','):
                    vset.pop(k, None)
                    vrem.add(k)
                    vadd(k)
            elif line.strip():
                raise Unmodelled('text line')
        self.eof = True
        if cc is not None:
            finish(cc)
            self.append_cohort(csw, cc)
            if not cc.readings:
                self.empty_cohort(cc)
            for r in cc.readings:
                self.add_tag(r, END)
        while self.nextw:
            self.shuffle()
            self.run_window()
        self.shuffle()
        while self.prevw:
            self.emit(self.prevw.pop(0))
        for k in vout:
            self.out.append(('cmd', 'SETVAR:%s' % (k if vset[k] == '*' else k + '=' + vset[k]) if k in vset
                             else 'REMVAR:' + k))
        return self.out

    # ---- output

    def emit(self, w):
        for k in w.vars_out:
            v = w.variables_set.get(k)
            self.out.append(('cmd', 'REMVAR:' + k if v is None else 'SETVAR:' + (k if v == '*' else k + '=' + v)))
        for c in w.all_cohorts:
            self.emit_cohort(w, c)
        last = max((c.gnum for c in w.all_cohorts), default=0)
        for c in w.all_cohorts:
            self.cmap.pop(c.gnum, None) if self.cmap.get(c.gnum) is c else None
            self.dep_window.pop(c.gnum, None)
            if self.cmap.get(0) is c:
                pass
        if w.cohorts:
            last = w.cohorts[-1].gnum
            for k in [k for k, v in self.relation_map.items() if v <= last]:
                del self.relation_map[k]
        self.links()

    def emit_cohort(self, w, c):
        if c.wordform == BEGIN:
            return
        s = ''
        if c.removed:
            if not self.trace:
                return
            s = '; '
        s += c.wordform
        if c.wread is not None:
            s += ''.join(' ' + t for t in c.wread.tags if t != c.wordform)
        self.out.append(('cohort', s))
        for r in c.ignored:
            r.deleted = False
            c.readings.append(r)
        c.ignored = []
        if c.removed:
            for r in c.readings:
                r.deleted = True
        for ls in [c.readings] + ([c.delayed, c.deleted] if self.trace else []):
            groups = {}
            for r in ls:
                groups.setdefault(r.number, []).append(r)
            for n in sorted(groups):
                bl = [b for b in (self.fmt(w, c, r, 1) for r in groups[n]) if b]
                if bl:
                    self.out.append(('group', bl))

    def fmt(self, w, c, r, depth):
        if r.noprint or (r.deleted and not self.trace):
            return []
        s = ';' if r.deleted else ''
        s += '\t' * depth
        if r.baseform is not None:
            s += r.baseform
        tail = ''
        for t in r.tags:
            if t in (END, BEGIN) or t == r.baseform or t == c.wordform:
                continue
            if self.has_dep and _dep_re.match(t):
                continue
            if self.has_rel and (_rel_re.match(t) or _id_re.match(t)):
                continue
            if self.is_map(t):
                tail += ' ' + t
            else:
                s += ' ' + t
        s += tail
        if self.has_dep and not c.removed:
            pr = c
            if c.dep_parent is not None:
                if c.dep_parent == 0:
                    pr = w.cohorts[0]
                elif c.dep_parent in self.cmap:
                    pr = self.cmap[c.dep_parent]
            if not self.spanned:
                s += ' #%d->%d' % (self.pln(c), self.pln(pr))
            else:
                if pr.window.number > 999 or w.number > 999:
                    raise Unmodelled('big numbers')
                if c.dep_parent is None:
                    pr = c
                s += ' #%d%03d->%d%03d' % (w.number, self.pln(c), pr.window.number, self.pln(pr))
        if c.related:
            s += ' ID:%d' % c.gnum
            for k in c.relations:
                for n in sorted(c.relations[k]):
                    s += ' R:%s:%d' % (k, n)
        if self.trace:
            for h in r.hit_by:
                s += ' ' + self.rtoken(h)
        out = [s]
        if r.next:
            r.next.deleted = r.deleted
            out += self.fmt(w, c, r.next, depth + 1)
        return out

    def pln(self, c):
        return c.ln if c.ln >= 0 else c.oldln
