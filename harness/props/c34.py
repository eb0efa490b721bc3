"""C34: annotations of the generated sources agree with what they annotate."""
import types

from harness.ctx import *
from harness import env
from harness.run import Job
from harness.env import run_main, default_opts
from harness.tz import *
from harness.text import File, Bad, Str, lines_of, atext, num as number
from harness.props.c23 import rule_of, era_of, FIX, same

BOUNDS = ('policies of 1..3 rules and zones of 1..3 eras with symbolic FROM, '
          'TO, IN, ON, AT, SAVE, LETTER and STDOFF, RULES, FORMAT, UNTIL '
          '(one record symbolic at a time in quick); symbolic window (which '
          'records survive), buffer sizes and their years; links; extended '
          'and complete scopes; Python, C++, C and Go')
OUTSIDE = ('the removal and notable-record notes (C27, C28) and the file '
           'header (C26); a value that carries no annotation is not reported')
COVERS = ['rule-line', 'anchor-line', 'era-line', 'first-era-line',
          'extended-line', 'name-heading', 'count-heading', 'tiny-year',
          'time-code', 'time-modifier', 'delta-code', 'offset-code',
          'offset-remainder', 'letter-text', 'policy-name', 'policy-none',
          'format-text', 'field-label', 'symbol-name', 'symbol-target',
          'registry-id', 'buf-year', 'link-heading', 'string-table', 'policy-index',
          'python', 'arduino', 'c', 'go', 'record-dropped', 'negative-offset']

SUFFIX = {'w': 0, 's': 16, 'u': 32}
FIELDS = {'from_year', 'to_year', 'from_year_tiny', 'to_year_tiny',
          'in_month', 'on_day_of_week', 'on_day_of_month', 'letter_index',
          'until_year', 'until_year_tiny', 'until_month', 'until_day',
          'start_year', 'start_year_accurate', 'until_year_accurate'}
PLACE = {'arduino': (('zone_policies.cpp', 'zone_infos.cpp'),
                     ('zone_infos.h', 'zone_registry.cpp')),
         'c': (('zone_policies.c', 'zone_infos.c'),
               ('zone_infos.h', 'zone_registry.c')),
         'python': (('zone_policies.py', 'zone_infos.py'), ()),
         'go': (('zone_policies_test.go', 'zone_infos_test.go'),
                ('zone_registry.go', 'zone_registry_test.go'))}


# -- reading ------------------------------------------------------------

def strip(a):
    i, n = 0, len(a)
    while i < n and isinstance(a[i], str) and a[i] in ' \t\r':
        i += 1
    while n > i and isinstance(a[n - 1], str) and a[n - 1] in ' \t\r':
        n -= 1
    return a[i:n]


def split_line(ln, lang):
    """(code atoms, comments)"""
    code, notes, i, quote = [], [], 0, None
    while i < len(ln):
        a = ln[i]
        b = ln[i + 1] if i + 1 < len(ln) else None
        if quote:
            if isinstance(a, str) and a == quote:
                quote = None
        elif isinstance(a, str):
            if a in '"\'':
                quote = a
            elif lang == 'python' and a == '#':
                notes.append(strip(ln[i + 1:]))
                break
            elif lang != 'python' and a == '/' and isinstance(b, str) and \
                    b == '/':
                notes.append(strip(ln[i + 2:]))
                break
            elif lang in ('c', 'arduino') and a == '/' and \
                    isinstance(b, str) and b == '*':
                j = i + 2
                while not (j + 1 < len(ln) and ln[j] == '*'
                           and ln[j + 1] == '/'):
                    j += 1
                    if j >= len(ln):
                        return strip(code), notes
                notes.append(strip(ln[i + 2:j]))
                i = j + 2
                continue
        code.append(a)
        i += 1
    return strip(code), notes


def words(atoms):
    out, cur = [], []
    for a in atoms:
        if isinstance(a, str) and a in ' \t':
            if cur:
                out.append(atext(cur))
            cur = []
        else:
            cur.append(a)
    if cur:
        out.append(atext(cur))
    return out


def flat(atoms):
    """The text with symbolic parts as '?'."""
    return ''.join(a if isinstance(a, str) else '?' for a in atoms)


def tokens_eq(a, b):
    return len(a) == len(b) and And(*[eq(x, y) for x, y in zip(a, b)])


def value_of(atoms):
    """Integer of a (possibly negative or hexadecimal) number."""
    if len(atoms) > 1 and atoms[0] == '-':
        return -number(atext(atoms[1:]))
    return number(atext(atoms))


class Expr:
    """+ / % << over numbers, name=number, suffix names."""

    def __init__(self, atoms):
        self.t = []
        cur = []

        def flush():
            if cur:
                self.t.append(list(cur))
                cur.clear()
        for k, a in enumerate(atoms):
            if isinstance(a, str) and a == '-' and not cur:
                cur.append(a)
            elif isinstance(a, str) and a in '()+/%<= ':
                flush()
                if a != ' ':
                    self.t.append(a)
            else:
                cur.append(a)
        flush()
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, want=None):
        t = self.peek()
        if t is None or want and t != want:
            raise Bad('annotation: %s expected' % want)
        self.i += 1
        return t

    def sum(self):
        v = self.shift()
        while self.peek() == '+':
            self.take()
            v = v + self.shift()
        return v

    def shift(self):
        v = self.product()
        while self.peek() == '<':
            self.take('<')
            self.take('<')
            v = v * 2 ** self.product()
        return v

    def product(self):
        v = self.atom()
        while self.peek() in ('/', '%'):
            op = self.take()
            d = self.atom()
            v = v // d if op == '/' else v % d
        return v

    def atom(self):
        t = self.take()
        if t == '(':
            v = self.sum()
            self.take(')')
            return v
        if isinstance(t, str):
            raise Bad('annotation: %s' % t)
        if self.peek() == '=':
            self.take('=')
            return self.atom()
        name = flat(t)
        if 'Suffix' in name:
            last = t[-1]
            if isinstance(last, str):
                return SUFFIX[last.lower()]
            raise Bad('annotation: symbolic suffix')
        return value_of(t)

    def value(self):
        v = self.sum()
        if self.peek() is not None:
            raise Bad('annotation: rest of an expression')
        return v


def snake(s):
    return ''.join('_' + c.lower() if c.isupper() else c
                   for c in s).lstrip('_')


# -- verification -------------------------------------------------------

class Source:
    """Source lines of the records: policy/zone -> [(words, fields)]."""

    def __init__(self, lines):
        self.rules, self.eras = {}, {}
        zone = None
        for ln in lines:
            a = []
            from pysym.strings import atoms_of
            w = words(atoms_of(ln))
            if w[0] == 'Rule':
                self.rules.setdefault(w[1], []).append(w)
                zone = None
            elif w[0] == 'Zone':
                zone = w[1]
                self.eras[zone] = [(w, w[2:])]
            elif w[0] == 'Link':
                zone = None
            elif zone is not None:
                self.eras[zone].append((w, w))


class Check:
    def __init__(self, cx, lang, res, src, high):
        self.cx, self.lang, self.src, self.high = cx, lang, src, high
        self.j = res.json
        self.res = res
        self.links = dict(self.j['links_map'].items())
        self.zones = list(self.j['zones_map'].keys())

    # records ---------------------------------------------------------

    def rule(self, note, p, r):
        cx = self.cx
        w = words(note)
        anchor = flat(note).startswith('Anchor:')
        if anchor:
            w = w[1:]
        hits = []
        for s in self.src.rules.get(p, ()):
            let = '' if isinstance(s[9], str) and s[9] == '-' else s[9]
            ok = [tokens_eq(w, s), eq(r['letter'], let)]
            if not anchor:
                ok += [r['from_year'] == number(s[2]),
                       r['to_year'] == (TO_MAX if isinstance(s[3], str)
                                        and s[3] == 'max' else number(s[3])),
                       MONTHS[idx(r['in_month'])] == s[5]]
            hits.append(And(*ok))
        cx.check(Iff(anchor, r['from_year'] == NEG),
                 'a rule is annotated as an anchor and is not one')
        cx.check(Or(*hits), 'a rule is annotated with a line that is not '
                            'the one it was made from')
        cx.cover('anchor-line' if anchor else 'rule-line')

    def era(self, note, z, i, e):
        cx = self.cx
        w = words(note)
        extended = flat(note).startswith('Extended:')
        if extended:
            w = w[1:]
        hits = []
        for full, s in self.src.eras[z]:
            ok = [Or(tokens_eq(w, s), tokens_eq(w, full)),
                  eq(e['format'], s[2])]
            if not extended:
                ok.append(e['until_year'] == (number(s[3]) if len(s) > 3
                                              else INF))
            hits.append(And(*ok))
        if extended:
            cx.check(e['until_year'] == INF, 'an era is annotated as '
                     'extended and ends')
        cx.check(Or(*hits), 'an era is annotated with a line that is not '
                            'the one it was made from')
        cx.cover('extended-line' if extended else 'era-line')
        if not i and not extended:
            cx.cover('first-era-line')

    # values ----------------------------------------------------------

    def int_field(self, key, val, rec):
        if rec is None or key not in FIELDS or key not in rec:
            return False
        self.cx.check(val == rec[key], 'value of the field labelled ' + key)
        self.cx.cover('field-label')
        return True

    def text_note(self, note, want, label):
        n = len(note)
        if n < 2 or note[0] != '"' or note[-1] != '"':
            return False
        self.cx.check_eq(atext(note[1:-1]), want, label)
        return True

    def c_value(self, code, note, rec):
        """VALUE /*label (expression)*/"""
        cx = self.cx
        text = flat(note)
        label = text.split(' ')[0] if text else ''
        rest = strip(note[len(label):])
        label = snake(label)
        if code and code[-1] == ',':
            code = strip(code[:-1])
        if len(rest) > 1 and rest[0] == '(' and rest[-1] == ')':
            rest = rest[1:-1]
        if not label.isidentifier() or code and code[0] in ('"', '&'):
            return
        try:
            val = value_of(code)
        except Bad:
            return
        if label.endswith('_tiny') and rest:
            y = value_of(rest)
            cx.check(val == If(y == NEG, -127, If(
                y == TO_MAX, 126, If(y == INF, 127, y - 2100))),
                'year of a tiny year')
            cx.cover('tiny-year')
        if self.int_field(label, val, rec) or not rest:
            pass
        if not rest:
            return
        if label == 'letter_index':
            if self.text_note(rest, rec['letter'], 'letter of an index'):
                cx.cover('letter-text')
            return
        if label.endswith('_tiny'):
            return
        cx.check(val == Expr(rest).value(), 'expression that explains '
                 + label)
        for k, c in (('time_code', 'time-code'), ('modifier',
                     'time-modifier'), ('delta_code', 'delta-code'),
                     ('offset_code', 'offset-code'),
                     ('offset_remainder', 'offset-remainder')):
            if k in label:
                cx.cover(c)
        if label == 'offset_code':
            cx.cover('negative-offset', val < 0)

    def go_value(self, code, note, rec):
        """Field: VALUE, // note"""
        cx = self.cx
        text = flat(code)
        if ':' not in text:
            return
        field = text.split(':')[0]
        if not field.isidentifier():
            return
        v = strip(code[len(field) + 1:])
        if v and v[-1] == ',':
            v = strip(v[:-1])
        try:
            val = value_of(v)
        except Bad:
            return
        key = snake(field)
        self.int_field(key, val, rec)
        if not note:
            return
        nt = flat(note)
        if key == 'letter_index':
            if self.text_note(note, rec['letter'], 'letter of an index'):
                cx.cover('letter-text')
        elif key == 'format_index':
            if self.text_note(note, rec['format_short'],
                              'format of an index'):
                cx.cover('format-text')
        elif key == 'policy_index':
            if nt.startswith('PolicyName: '):
                p = rec['policy_name']
                want = '(none)' if p is None else p
                cx.check_eq(atext(note[12:]), want, 'policy of an index')
                cx.cover('policy-none' if p is None else 'policy-name')
        elif key.endswith('code') or key.endswith('modifier'):
            cx.check(val == Expr(note).value(),
                     'expression that explains ' + key)
            cx.cover('time-modifier' if key.endswith('modifier') else
                     'offset-code' if 'offset' in key else 'time-code')

    # lines -----------------------------------------------------------

    def records(self, fname, kind):
        cx = self.cx
        m = self.j['policies_map' if kind == 'rules' else 'zones_map']
        prev, cur, recs, pos, total = [], None, [], 0, 0
        rec, fresh, seen, spans, k = None, 0, [], {}, 0
        for ln in lines_of(self.res.files[fname]):
            code, notes = split_line(ln, self.lang)
            if not code and notes:
                note, text = notes[-1], flat(notes[-1])
                got = self.heading(note, text, kind)
                if got is not None:
                    if cur is not None:
                        cx.check(pos == len(recs), 'records under a heading')
                    cx.check(got in m and got not in seen,
                             'heading of unknown or repeated records')
                    if got not in m:
                        cur = None
                        continue
                    total += len(recs)
                    seen.append(got)
                    spans[got] = (total, len(m[got][kind]))
                    cur, pos, fresh = got, 0, 3
                    recs = list(m[got][kind])
                    cx.cover('name-heading')
                elif fresh:
                    fresh -= 1
                    low = text.lower()
                    if ':' in low and low.split(':')[0].replace(
                            ' ', '') in ('rules', 'rulecount', 'eras',
                                         'zoneeras', 'eracount'):
                        cx.check(self.count(note) == len(recs),
                                 'number of records in a heading')
                        cx.cover('count-heading')
                    elif low.split(':')[0] in ('ruleindex', 'eraindex'):
                        cx.check(self.count(note) == total,
                                 'index in a heading')
                if text.startswith('Link name: '):
                    a, _, b = text[11:].partition(' -> ')
                    cx.check(self.links.get(a) == b, 'heading of a link')
                    cx.cover('link-heading')
                    cur = None
            elif flat(code) == '{' and prev and cur is not None:
                if pos < len(recs):
                    rec = recs[pos]
                    if kind == 'rules':
                        self.rule(prev, cur, rec)
                    else:
                        self.era(prev, cur, pos, rec)
                else:
                    cx.fail('more records than in the database')
                pos += 1
            elif flat(code) in ('}', '},', '};', ']'):
                if flat(code) in ('}', '];', '};') and cur is not None and \
                        pos == len(recs):
                    total += len(recs)
                    cur, recs, pos = None, [], 0
                rec = None
            elif rec is None and notes and flat(code).startswith(
                    '{RuleIndex:'):
                w, c = flat(notes[-1]).split(), flat(code).strip('{},')
                a, b = (int(x.split(':')[1]) for x in c.split(','))
                cx.check(w[0] == '%d:' % k and w[1] == 'PolicyName:' and
                         (a, b) == ((0, 0) if not k else spans.get(w[2])),
                         'policy that annotates a pair of indexes')
                cx.cover('policy-index')
                k += 1
            elif rec is not None and self.lang == 'go':
                self.go_value(code, notes[-1] if notes else [], rec)
            elif rec is not None and notes:
                self.c_value(code, notes[-1], rec)
            elif notes and self.lang in ('arduino', 'c') and \
                    kind == 'eras':
                self.c_value(code, notes[-1], self.j)
            prev = notes[-1] if notes and not code else []
        cx.check(And(*[n in seen for n in m.keys()]),
                 'records without a heading')

    def heading(self, note, text, kind):
        w = ('Policy name: ', 'PolicyName: ') if kind == 'rules' else \
            ('Zone name: ', 'ZoneName: ')
        for p in w:
            if text.startswith(p):
                return text[len(p):]
        return None

    def count(self, note):
        k = [i for i, a in enumerate(note) if a == ':'][0]
        return value_of(strip(note[k + 1:]))

    def symbols(self, fname):
        """Declarations and table entries with a trailing name."""
        cx = self.cx
        ids = dict(self.j['zone_ids'].items())
        ids.update(self.j['link_ids'].items())
        for ln in lines_of(self.res.files[fname]):
            code, notes = split_line(ln, self.lang)
            if not code or not notes:
                continue
            note, text, c = notes[-1], flat(notes[-1]), flat(code)
            w = text.split()
            if not w:
                continue
            if w[0].startswith('0x') and w[0].endswith(','):
                cx.check(int(w[0][:-1], 16) == ids.get(w[1]),
                         'identifier in a registry annotation')
                cx.cover('registry-id')
                w = w[1:]
            name = w[0]
            if name not in ids:
                if 'kZoneRegistry' in c or 'Zone' in c and ('&k' in c or
                                                            'extern' in c):
                    cx.fail('annotation with an unknown name')
                continue
            norm = name.replace('/', '_')
            hits = [t for t in c.replace('=', ' ').replace('&', ' ').replace(
                ',', ' ').replace(';', ' ').split()
                if t.endswith(norm)]
            others = [n.replace('/', '_') for n in ids if n != name]
            bad = [t for t in hits if any(t.endswith(o) and len(o) > len(norm)
                                          for o in others)]
            cx.check(len(hits) >= 1 and not bad,
                     'name that annotates another symbol')
            cx.cover('symbol-name')
            if len(w) == 3 and w[1] == '->':
                cx.check(self.links.get(name) == w[2],
                         'target in an annotation')
                cx.cover('symbol-target')
            elif len(w) == 3 and w[1] == 'in':
                nt = strip(note[len(name) + 4:])
                bs = self.j['buf_sizes'][name]
                cx.check(value_of(nt) == bs[1], 'year of a buffer size')
                cx.cover('buf-year')

    def go_infos(self):
        """ZoneInfoRecords: `index: Zone name` / `index: Link a -> b`."""
        cx = self.cx
        prev, rec, k = [], None, 0
        links, on = self.links, False
        ids = dict(self.j['zone_ids'].items())
        ids.update(self.j['link_ids'].items())
        table = {}
        for ln in lines_of(self.res.files['zone_infos_test.go']):
            code, notes = split_line(ln, 'go')
            c = flat(code)
            if 'ZoneInfoRecords =' in c:
                on = True
            elif on and c == '{' and prev:
                w = flat(prev).split()
                cx.check(w[0] == '%d:' % k, 'index of a zone record')
                name = w[2]
                cx.check(w[1] == ('Link' if name in links else 'Zone')
                         and name in ids, 'kind of a zone record')
                if w[1] == 'Link':
                    cx.check(links.get(name) == w[4],
                             'target of a link record')
                table[name] = k
                rec = name
                k += 1
            elif on and c in ('},', '}'):
                rec = None
                on = c == '},'
            elif on and rec and notes:
                v = flat(notes[-1])
                if c.startswith('NameIndex'):
                    cx.check(v == '"%s"' % rec, 'name of a zone record')
                elif c.startswith('TargetIndex'):
                    cx.check(v == links.get(rec), 'target of a zone record')
                elif c.startswith('EraCount'):
                    cx.check((v == 'IsLink=true') == (rec in links),
                             'link mark of a zone record')
            elif on and rec and c.startswith('ZoneID'):
                cx.check(int(c.split()[1].strip(','), 16) == ids[rec],
                         'identifier under the annotation of a zone')
            prev = notes[-1] if notes and not code else []
        for ln in lines_of(self.res.files['zone_registry_test.go']):
            code, notes = split_line(ln, 'go')
            c = flat(code).split()
            if notes and c and c[0].startswith('ZoneInfoIndex') and '=' in c:
                cx.check(table.get(flat(notes[-1])) == int(c[-1]),
                         'name that annotates an index')

    def strings(self):
        """Letters and fragments: declaration, pointer table, index."""
        cx = self.cx
        ext = 'cpp' if self.lang == 'arduino' else 'c'
        f = File(self.res.files['zone_infos.' + ext], ext)
        if self.lang == 'arduino':
            for ln in lines_of(self.res.files['zone_infos.cpp']):
                code, notes = split_line(ln, 'arduino')
                c = flat(code).strip(',')
                if notes and c.isidentifier() and c[:7] in ('kLetter',
                                                            'kFragme'):
                    note = notes[-1]
                    q = [i for i, a in enumerate(note) if a == '"']
                    if len(q) != 2:
                        continue
                    cx.check_eq(atext(note[q[0] + 1:q[1]]),
                                f.get(c).text(), 'text of ' + c[:-1])
                    if q[0] and note[0] == "'":
                        cx.check(int(flat(note[3:5]), 16) == int(c[9:]),
                                 'character of a fragment')
                    cx.cover('string-table')
        else:
            for m, k in (('letters_map', 10), ('fragments_map', 16)):
                on = {'letters_map': 'Letters', 'fragments_map':
                      'Fragments'}[m]
                inside = False
                for ln in lines_of(self.res.files['zone_infos.c']):
                    code, notes = split_line(ln, 'c')
                    c = flat(code)
                    if on + '[]' in c or on + '[' in c:
                        inside = True
                    elif c.startswith('}'):
                        inside = False
                    elif inside and notes and c.startswith('"'):
                        t = flat(notes[0])
                        i = int(t.lstrip('\\x'), 16) if k == 16 else int(t)
                        q = [n for n, a in enumerate(code) if a == '"']
                        s = atext(code[q[0] + 1:q[-1]])
                        hit = [And(eq(a, s), b == i)
                               for a, b in self.j[m].items()]
                        cx.check(Or(*hit), 'index of an entry of ' + m)
                        cx.cover('string-table')

    def all(self):
        (pol, inf), more = PLACE[self.lang]
        self.records(pol, 'rules')
        self.records(inf, 'eras')
        for f in more:
            self.symbols(f)
        if self.lang == 'go':
            self.go_infos()
        if self.lang in ('arduino', 'c'):
            self.strings()
        self.cx.cover(self.lang)


def idx(m):
    return m if isinstance(m, int) else m.conc()


def run(cx, lang, scope, L, start=2000, end=2030, zp=None, **kw):
    kw.setdefault('skip_bufestimator', lang in ('python', 'go'))
    res = run_main(cx, L, default_opts(scope, start, end, languages=lang,
                                       actions='json,zonedb', **kw), zp=zp)
    if res.exc is not None:
        return None
    try:
        Check(cx, lang, res, Source(L), scope == 'complete').all()
    except Bad as e:
        cx.fail('generated %s source: %s' % (lang, e))
    return res


# -- jobs ---------------------------------------------------------------

TAIL = [('2:00', 'Q', 'B%s', until(2005)), ('3:00', 'P', 'C%s')]


def rules_job(cx, lang, scope, ons, saves, lax=False):
    L = []
    for i, (on, sv) in enumerate(zip(ons, saves)):
        L.append(rule_of(cx, 'r%d' % i, 'P', (3, 8, 5)[i], sv, scope, on,
                         i == 0, lax and i == 0, L))
    L.append(rule_line('P', 1990, 2010, 12, '3', '1:00', '0', 'T'))
    L += FIX
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s')]) + zone_lines('Z/B', TAIL)
    L.append(link_line('Z/B', 'Z/L'))
    run(cx, lang, scope, L, nostrict=lax)


def eras_job(cx, lang, scope, specs, lax=False):
    es = [era_of(cx, 'e%d' % i, r, f, 2003 + 7 * i, scope, ng,
                 lax)
          for i, (r, f, ng) in enumerate(specs)]
    L = [rule_line('P', 1990, 2004, 3, '8', '2:00', '1:00', 'D'),
         rule_line('P', 1990, 2004, 10, '8', '2:00', '0', 'S')] + FIX
    L += zone_lines('Z/A', es) + zone_lines('Z/B', [('5:00', 'Q', 'B%s')])
    L += zone_lines('Z/C', [('6:00', 'P', 'B%s')])
    L += [link_line('Z/C', 'Z/Aa'), link_line('Z/A', 'Z/Zz')]
    run(cx, lang, scope, L, nostrict=lax)


def window_job(cx, lang, scope):
    """Which rules and eras survive depends on the window."""
    start = cx.int('start', 1990, 1996)
    end = cx.int('until', 2006, 2012)
    L = []
    for i, (f, t) in enumerate(((1980, 1988), (1989, 1991), (1992, 1994),
                                (1995, 2040))):
        L += [rule_line('P', f, t, 3, 8, '2:00', '1:00', 'D%d' % i),
              rule_line('P', f, t, 10, 8, '3:15', '0', 'S%d' % i)]
    L += [rule_line('Q', 1980, 2040, 4, 9, '1:00', '0:30', 'U'),
          rule_line('Q', 1980, 2040, 9, 9, '1:00', '0', '-'),
          rule_line('R', 2009, 2011, 4, 9, '1:00', '0:30', 'V'),
          rule_line('R', 2009, 2011, 9, 9, '1:00', '0', 'W')]
    L += zone_lines('Z/A', [
        ('1:00', 'P', 'A%s', until(1985)), ('2:00', '-', 'B', until(1993, 4)),
        ('-3:15', 'Q', 'C%s', until(2007, 6, 9, '2:30s')),
        ('4:00', 'R', 'D%s', until(2011)), ('5:00', 'P', 'E%s')])
    L += zone_lines('Z/B', [('6:00', 'R', 'F%s', until(2020)),
                            ('7:00', '0:30', 'G')])
    L += zone_lines('Z/Ba', [('8:00', 'P', 'H%s', until(1994, 'Oct', 'lastSun',
                                                       '2:00u')),
                             ('9:00', 'Q', 'I%s', until(2060))])
    L += [link_line('Z/Ba', 'Z/Bab'), link_line('Z/A', 'Aa')]
    r = run(cx, lang, scope, L, start, end)
    if r is not None and 'P' in r.json['policies_map']:
        cx.cover('record-dropped', len(r.json['policies_map']['P'][
            'rules']) < 8)


def buf_job(cx, lang, scope):
    sizes = {n: (cx.int('b' + n, *r), cx.int('y' + n, 2000, 2004))
             for n, r in (('A', (5, 8)), ('B', (1, 4)))}

    class ZP(env.DefaultZP):
        def get_buffer_sizes(self):
            n = str(self.zone_info['name'])[-1]
            v, y = sizes.get(n, (2, 2000))
            v = If(self.year == y, v, 1)
            return types.SimpleNamespace(active_size=v, buffer_size=v)

        def is_terminal_year(self, year):
            return False
    L = zone_lines('Europe/A', [('1:00', '-', 'A')]) + \
        zone_lines('Europe/B', [('1:00', '-', 'A')]) + \
        zone_lines('Europe/C', [('1:00', '-', 'A')]) + \
        zone_lines('Europe/D', [('1:00', '-', 'A')]) + \
        [link_line('Europe/A', 'Europe/E')]
    run(cx, lang, scope, L, 2001, 2003, ZP)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, **kw):
        out.append(Job(name, fn, **kw))
    for lang in ('python', 'arduino', 'c', 'go'):
        for scope in ('extended', 'complete'):
            if scope == 'complete' and lang in ('python', 'go') and q:
                continue
            sh = [(('n',), (1,)), (('n',), (0,)), (('ge', 'n'), (1, 0))]
            if not q:
                sh += [(('n', 'n'), (1, 1)), (('le',), (0,)),
                       (('last',), (1,)), (('ge', 'le', 'n'), (1, 0, 1))]
            for ons, saves in sh:
                add('rules-%s-%s-%s-%s' % (lang, scope, '.'.join(ons),
                                           ''.join(map(str, saves))),
                    rules_job, lang=lang, scope=scope, ons=ons, saves=saves)
            if lang != 'python':
                add('rules-%s-%s-lax' % (lang, scope), rules_job, lang=lang,
                    scope=scope, ons=('n',), saves=(0,), lax=True)
                add('eras-%s-%s-lax' % (lang, scope), eras_job, lang=lang,
                    scope=scope, specs=(('-', 'ym', 0), ('P', '', 1)),
                    lax=True)
            es = [(('-', 'y', 0), ('P', '', 1)),
                  (('fixed', 'ymdts', 1), ('-', '', 0)),
                  (('Q', 'ym', 0), ('fixed', '', 1))]
            if not q:
                es += [(('P', 'ymd', 1), ('fixed', 'ymdt', 0), ('-', '', 1)),
                       (('fixed', 'y', 1), ('P', 'ymdts', 0), ('Q', '', 1))]
            for specs in es:
                add('eras-%s-%s-%s' % (lang, scope, '.'.join(
                    '%s+%s+%d' % s for s in specs)), eras_job, lang=lang,
                    scope=scope, specs=specs)
            add('window-%s-%s' % (lang, scope), window_job, lang=lang,
                scope=scope)
            if lang in ('arduino', 'c') and (not q or scope == 'extended'):
                add('buf-%s-%s' % (lang, scope), buf_job, lang=lang,
                    scope=scope)
    return out
