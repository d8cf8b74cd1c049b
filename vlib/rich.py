"""Documents with a wide vocabulary, and what an analysis that changes nothing must print for them."""

LET = ['a', 'b', 'x', 'Q', 'é', 'ß', 'Ж', '漢', '😀', 'İ', 'ﬁ', 'e\u0301', '-', '.', ',', "'", '%', '=', '+', '/', '(', ')', '[',
       ']', '{', '}', '*', '?', '!', ':', '^', '$', '&', '~', '|', '0', '7', '_', '@', '#', ';', '>', '<', '§']
TLET = [c for c in LET if c not in ('@', '#', ';')]


class RC:
    """A cohort: wordform, static tags, readings (lists of levels [base, tags, mappings]), following text lines."""
    __slots__ = ('word', 'static', 'readings', 'text', 'cmd')

    def __init__(self, word):
        self.word, self.static, self.readings, self.text = word, [], [], []


class Rich:
    def __init__(self, rng, delim='"<.>"', sub=0.2, maps=0.3, static=0.25, text=0.3, plain=0.3, cohorts=(0, 25), pdelim=0.15, long=0.003):
        self.long = long
        self.r = rng
        self.delim, self.sub, self.maps, self.pstatic, self.ptext = delim, sub, maps, static, text
        self.plain, self.ncoh, self.pdelim = plain, cohorts, pdelim

    def word(self, quoted=False):
        r = self.r
        n = r.choice([1, 1, 2, 3, 5, 9])
        if r.random() < self.long:
            n = r.choice([255, 1000, 1022, 1024, 1030, 2100, 5000])
        if r.random() < self.plain:
            return ''.join(r.choice('abcdefgh') for _ in range(n))
        s = ''.join(r.choice(LET) for _ in range(n))
        if quoted and r.random() < 0.15:
            s += ' ' + ''.join(r.choice(LET[:9]) for _ in range(n))
        return s

    def tag(self):
        r = self.r
        if r.random() < self.plain:
            return r.choice(['N', 'V', 'Sg', 'Pl', 'Prs', 'Adj', 'ABC', 'n'])
        while True:
            s = ''.join(r.choice(TLET) for _ in range(r.choice([1, 2, 3, 6])))
            if s[0] in '"<':
                s = '<' + s.strip('<>"') + '>'
            if s not in ('<>', '>>>', '<<<') and not s.startswith('R:') and not s.startswith('ID:') and s[0] not in '*':
                # numbers in brackets are compared as numbers but printed as written
                return s

    def level(self):
        r = self.r
        tags = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            t = self.tag()
            if t not in tags:
                tags.append(t)
        if r.random() < 0.1:
            # not the cohort's own wordform, which is not repeated in the output
            tags.insert(0, '"<' + self.word(True).strip('<>') + 'WF>"')
        b = self.word(True)
        if b[0] == '<':
            b = 'b' + b
        return ['"' + b + '"', tags, []]

    def reading(self):
        r = self.r
        lv = [self.level()]
        while r.random() < self.sub and len(lv) < 4:
            lv.append(self.level())
        if r.random() < self.maps:
            k = r.choice([1, 1, 2, 3])
            lv[0][2] = r.sample(['@x', '@yy', '@→A', '@z<', '@é'], k)
        if len(lv) > 1 and r.random() < 0.15:
            lv[r.randrange(1, len(lv))][2] = ['@s']
        return lv

    def cohort(self, word=None):
        r = self.r
        c = RC(word or '"<' + self.word(True) + '>"')
        if r.random() < self.pstatic:
            for _ in range(r.choice([1, 2, 3])):
                c.static.append(self.tag())
        keys = set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            rd = self.reading()
            k = tuple((l[0], frozenset(l[1])) for l in rd)
            if k in keys:
                continue
            keys.add(k)
            c.readings.append(rd)
        return c

    def textlines(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.35:
                out.append('')
            elif x < 0.5:
                out.append(r.choice(['</s>', '<s id="1">', '; comment', '#x', ';"<no>"', '"quoted', '<STREAMCMD:OTHER>', '\\n']))
            else:
                out.append(' '.join(self.word() for _ in range(r.choice([1, 2, 4]))).replace('<', '').strip() or 'T')
        # anything that would be read as a cohort or reading is not text
        return [l for l in out if not l.startswith('"<') and not (l[:1] in ' \t' and l.strip().startswith('"'))]

    def doc(self):
        r = self.r
        cs = []
        for _ in range(r.randint(*self.ncoh)):
            c = self.cohort(self.delim if r.random() < self.pdelim else None)
            if r.random() < self.ptext:
                c.text = self.textlines()
            cs.append(c)
        head = self.textlines() if r.random() < self.ptext else []
        return head, cs


def render(doc, rng=None):
    """The input; with rng, written with the freedom the format allows (indentation, order of mappings, trailing space)."""
    head, cs = doc
    out = list(head)
    for c in cs:
        out.append(' '.join([c.word] + c.static))
        style = rng.choice(['\t', '\t', ' ', '    ']) if rng else '\t'
        for rd in c.readings:
            for d, (b, t, m) in enumerate(rd):
                t = list(t)
                if rng:
                    i = 0
                    for x in m:
                        i = rng.randint(i, len(t))
                        t.insert(i, x)
                        i += 1
                else:
                    t += m
                sep = ' '
                if rng and rng.random() < 0.05:
                    sep = rng.choice(['  ', '\t', ' \t '])
                    if rng.random() < 0.1:
                        sep = rng.choice([' ', '\t']) * rng.choice([500, 1000, 1020, 1021, 1022, 1023, 1024, 3000])
                out.append(style * (d + 1) + sep.join([b] + t) + (rng.choice(['', '', '', ' ', '\t ']) if rng else ''))
        out += c.text
    return '\n'.join(out) + '\n' if out else ''


def expected(doc):
    return render(doc)
