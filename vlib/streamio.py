"""An independent reader for the CG stream format, used by the monitors."""
import re

COHORT = re.compile(r'^; "<|^"<')
RULES = ('ADD|MAP|REPLACE|SELECT|REMOVE|IFF|APPEND|SUBSTITUTE|EXECUTE|JUMP|REMVARIABLE|SETVARIABLE|DELIMIT|MATCH|SETPARENT|'
         'SETCHILD|ADDRELATION|SETRELATION|REMRELATION|ADDRELATIONS|SETRELATIONS|REMRELATIONS|MOVE|MOVE-AFTER|MOVE-BEFORE|'
         'SWITCH|REMCOHORT|UNMAP|COPY|ADDCOHORT|ADDCOHORT-AFTER|ADDCOHORT-BEFORE|EXTERNAL|EXTERNAL-ONCE|EXTERNAL-ALWAYS|'
         'REPARENT|PROTECT|UNPROTECT|SPLITCOHORT|MERGECOHORTS|RESTORE|WITH|COPYCOHORT|REMPARENT|SWITCHPARENT|IGNORE')
TRACE = re.compile(r' (?:%s)(?:\([^ ]*\))?(?::\d+(?::[^ ]+)?|:[^ ]+)(?= |$)' % RULES)


class C:
    """A cohort of a parsed stream."""
    __slots__ = ('word', 'static', 'readings', 'removed', 'text')

    def __init__(self, word, static, removed):
        self.word, self.static, self.removed = word, static, removed
        self.readings = []     # (deleted, [line of the reading, lines of its sub-readings])
        self.text = []


def split_tags(s):
    """Splits a reading line into tags; a tag in double quotes may hold spaces."""
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ' ' or s[i] == '\t':
            i += 1
            continue
        j = i
        if s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                if s[j] == '\\':
                    j += 1
                j += 1
            while j < n and s[j] not in ' \t':
                j += 1
        else:
            while j < n and s[j] not in ' \t':
                j += 1
        out.append(s[i:j])
        i = j
    return out


def parse(text):
    """Returns a list of items: C objects and text lines (str)."""
    items = []
    cur = None
    for line in text.split('\n'):
        if line.startswith('"<') or line.startswith('; "<'):
            rem = line.startswith(';')
            body = line[2:] if rem else line
            m = re.match(r'"<.*?>"', body)
            tg = split_tags(body)
            cur = C(tg[0], tg[1:], rem)
            items.append(cur)
            continue
        m = re.match(r'^(;?)(\s+)(".*)$', line)
        if m and cur is not None and m.group(2)[0] in '\t ':
            depth = len(m.group(2))
            if depth > 1 and cur.readings and (m.group(1) == ';') == cur.readings[-1][0]:
                cur.readings[-1][1].append((depth, m.group(3)))
            else:
                cur.readings.append((m.group(1) == ';', [(depth, m.group(3))]))
            continue
        items.append(line)
    return items


def strip_trace(s):
    prev = None
    while prev != s:
        prev = s
        s = TRACE.sub('', s)
    return s


def untrace(text):
    """Removes from a traced output what only --trace adds: trace tokens, deleted readings, removed cohorts."""
    out = []
    for line in text.split('\n'):
        if line.startswith(';') and (re.match(r'^;\s+"', line)):
            continue
        if line.startswith('\t') or line.startswith('"<'):
            line = strip_trace(line)
        out.append(line)
    return '\n'.join(out)
