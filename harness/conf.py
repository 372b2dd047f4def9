"""Configuration files: abstract syntax, rendering to text in many styles, and reading the shipped file."""
import random, re

CLOCKWISE = ['NW', 'NNW', 'N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW']


def cps(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------ regular expressions (the subset of the specification)
class Unsupported(Exception):
    pass


def parse_regex(s):
    pos = [0]
    grp = [0]
    BIG = 1000

    def peek():
        return s[pos[0]] if pos[0] < len(s) else None

    def take():
        c = s[pos[0]]
        pos[0] += 1
        return c

    def alt():
        es = [cat()]
        while peek() == '|':
            take()
            es.append(cat())
        return es[0] if len(es) == 1 else {'t': 'alt', 'es': es}

    def cat():
        es = []
        while peek() is not None and peek() not in '|)':
            es.append(rep())
        return es[0] if len(es) == 1 else {'t': 'cat', 'es': es}

    def rep():
        e = atom()
        while peek() is not None and peek() in '*+?{':
            c = peek()
            if c == '{':
                m = re.match(r'\{(\d+)(,(\d*))?\}', s[pos[0]:])
                if not m:
                    break
                pos[0] += m.end()
                lo = int(m.group(1))
                hi = lo if not m.group(2) else int(m.group(3)) if m.group(3) else BIG
            else:
                take()
                lo, hi = {'*': (0, BIG), '+': (1, BIG), '?': (0, 1)}[c]
            greedy = True
            if peek() == '?':
                take()
                greedy = False
            elif peek() == '+':
                raise Unsupported('possessive')
            e = {'t': 'rep', 'e': e, 'min': lo, 'max': hi, 'greedy': greedy}
        return e

    def esc():
        c = take()
        if c == 'x':
            m = re.match(r'[0-9a-fA-F]{1,2}', s[pos[0]:])
            pos[0] += m.end()
            return ord(chr(int(m.group(0), 16)))
        if c == 'd':
            return [[48, 57]]
        if c == 'w':
            return [[48, 57], [65, 90], [95, 95], [97, 122]]
        if c == 's':
            return [[9, 13], [32, 32]]
        if c == 't':
            return 9
        if c == 'n':
            return 10
        if c.isalnum():
            raise Unsupported('\\' + c)
        return ord(c)

    def atom():
        c = take()
        if c == '(':
            n = 0
            if s[pos[0]:pos[0] + 2] == '?:':
                pos[0] += 2
            elif s[pos[0]:pos[0] + 2] == '?!':
                pos[0] += 2
                e = alt()
                take()
                return {'t': 'not', 'e': e}
            elif peek() == '?':
                raise Unsupported('(?')
            else:
                grp[0] += 1
                n = grp[0]
            e = alt()
            if peek() != ')':
                raise Unsupported('unbalanced')
            take()
            return {'t': 'grp', 'n': n, 'e': e} if n else {'t': 'cat', 'es': [e]}
        if c == '[':
            neg = peek() == '^'
            if neg:
                take()
            r = []
            first = True
            while peek() != ']' or first:
                first = False
                x = take()
                if x == '\\':
                    x = esc()
                    if isinstance(x, list):
                        r += x
                        continue
                else:
                    x = ord(x)
                if peek() == '-' and s[pos[0] + 1] != ']':
                    take()
                    y = take()
                    y = esc() if y == '\\' else ord(y)
                    r.append([x, y])
                else:
                    r.append([x, x])
            take()
            return {'t': 'set', 'neg': neg, 'r': r}
        if c == '.':
            return {'t': 'any'}
        if c == '^':
            return {'t': 'bol'}
        if c == '$':
            return {'t': 'eol'}
        if c == '\\':
            x = esc()
            return {'t': 'set', 'neg': False, 'r': x} if isinstance(x, list) else {'t': 'lit', 'c': x}
        if c in '*+?':
            raise Unsupported('nothing to repeat')
        return {'t': 'lit', 'c': ord(c)}

    e = alt()
    if pos[0] != len(s):
        raise Unsupported('rest')
    if grp[0] > 9:
        raise Unsupported('groups')
    return e


def parse_subst(s):
    out, i = [], 0

    def add(c):
        if out and out[-1]['t'] == 'str':
            out[-1]['s'].append(ord(c))
        else:
            out.append({'t': 'str', 's': [ord(c)]})
    while i < len(s):
        c = s[i]
        if c == '$':
            m = re.match(r'\$(\d)|\$\{(\d)\}', s[i:])
            if s[i + 1:i + 2] == '$':
                add('$')
                i += 2
            elif m:
                out.append({'t': 'ref', 'n': int(m.group(1) or m.group(2))})
                i += m.end()
            else:
                raise Unsupported('$')
        elif c == '\\':
            if i + 1 >= len(s) or s[i + 1].isalnum():
                raise Unsupported('\\ in substitution')
            add(s[i + 1])
            i += 2
        else:
            add(c)
            i += 1
    return out


# ------------------------------------------------------------------ abstract syntax
def sample(*lines):
    return {'k': 'sample', 'lines': list(lines)}


def shapes(d):
    """d: name -> list of lines, or list of (name, lines)."""
    return {'k': 'shapes', 'shapes': [{'n': n, 'lines': list(l)} for n, l in (d.items() if isinstance(d, dict) else d)]}


def elastic(*names):
    return {'k': 'elastic', 'names': list(names)}


def padding(*areas):
    return {'k': 'padding', 'areas': [{'area': a, 'n': n} for a, n in areas]}


def rule(kind, search, subst, once=False):
    return {'k': kind, 'glob': not once, 'search': search, 'subst': subst, 'pat': parse_regex(search), 'with': parse_subst(subst)}


def tags(*items):
    return {'k': 'tags', 'items': list(items)}


def key(k, v):
    return {'k': 'key', 'key': k, 'val': v}


def delim(spec):
    return {'k': 'delim', 'spec': spec}


def junk(text):
    return {'k': 'junk', 'text': text}


def box(names, secs, end=None):
    names = [names] if isinstance(names, str) else list(names)
    return {'k': 'box', 'names': names, 'secs': secs, 'end': end if end is not None else names[0]}


def parent(file):
    return {'k': 'parent', 'file': file}


def design(names, sh, el, pad=(), rep=(), rev=(), indent=None, tag=(), samp=('smp',), extra=(), author=None, designer=None):
    secs = []
    if author is not None:
        secs.append(key('author', author))
    if designer is not None:
        secs.append(key('designer', designer))
    if tag:
        secs.append(tags(*tag))
    if indent is not None:
        secs.append(key('indent', indent))
    secs.append(sample(*samp))
    secs.append(shapes(sh))
    secs.append(elastic(*el))
    for r in rep:
        secs.append(rule('replace', *r))
    for r in rev:
        secs.append(rule('reverse', *r))
    if pad:
        secs.append(padding(*pad))
    return box(names, secs + list(extra))


def tla_sec(s):
    t = {'k': s['k']}
    if s['k'] == 'sample':
        t['lines'] = [cps(x) for x in s['lines']]
    elif s['k'] == 'shapes':
        t['shapes'] = [{'n': x['n'], 'lines': [cps(y) for y in x['lines']]} for x in s['shapes']]
    elif s['k'] == 'elastic':
        t['names'] = s['names']
    elif s['k'] == 'padding':
        t['areas'] = [{'area': cps(a['area']), 'n': a['n']} for a in s['areas']]
    elif s['k'] in ('replace', 'reverse'):
        t.update(glob=s['glob'], search=cps(s['search']), subst=cps(s['subst']), pat=s['pat'])
        t['with'] = s['with']
    elif s['k'] == 'tags':
        t['items'] = [cps(x) for x in s['items']]
    elif s['k'] == 'key':
        t.update(key=cps(s['key']), val=cps(s['val']))
    elif s['k'] == 'delim':
        t['spec'] = cps(s['spec'])
    return t


def tla_entry(e):
    if e['k'] == 'parent':
        return {'k': 'parent', 'file': cps(e['file'])}
    return {'k': 'box', 'names': [cps(n) for n in e['names']], 'secs': [tla_sec(s) for s in e['secs']], 'end': cps(e['end'])}


# ------------------------------------------------------------------ rendering
class Style:
    """Plain style; a random generator makes it vary everything that has no meaning."""
    ALLDEL = "\"~'`!@%&*=:;<>?/|.\\"

    def __init__(self, rng=None, eol='\n', bom=False, delims=False):
        self.rng, self.eol, self.bom, self.delims = rng, eol, bom, delims
        self.esc, self.dl = '\\', '"'

    def kw(self, w):
        if not self.rng:
            return w
        return self.rng.choice([w, w.upper(), w.lower(), ''.join(self.rng.choice([c.upper(), c.lower()]) for c in w)])

    def shape(self, n):
        return self.kw(n.lower())

    def ws(self, must=True, nl=True):
        """White space between tokens, perhaps with a comment."""
        if not self.rng:
            return ' ' if must else ''
        r = self.rng.random()
        if r < 0.5:
            return ' ' if must else self.rng.choice(['', ' '])
        if r < 0.65:
            return self.rng.choice(['  ', '\t', ' \t '])
        if not nl:
            return ' '
        if r < 0.8:
            return self.eol + self.rng.choice(['', '  ', '\t'])
        if r < 0.9:
            return ' # ' + self.rng.choice(['comment', 'end box {', '"', 'BOX x', 'ends', '\u00e4\u4e16 "']) + self.eol
        return self.eol + self.eol + ' '

    def string(self, s):
        out = ''
        for c in s:
            out += self.esc + c if c in (self.esc, self.dl) else c
        return self.dl + out + self.dl


def render_sec(s, st):
    k = s['k']
    w = st.ws
    if k == 'sample':
        return st.kw('sample') + st.eol + ''.join(l + st.eol for l in s['lines']) + st.kw('ends') + st.eol
    if k == 'shapes':
        out = st.kw('shapes') + w() + '{'
        for x in s['shapes']:
            out += w() + st.shape(x['n']) + w() + '(' + (w(False) + ',' + w(False)).join(st.string(l) for l in x['lines']) + w(False) + ')'
        return out + w() + '}' + st.eol
    if k == 'elastic':
        return st.kw('elastic') + w() + '(' + (w(False) + ',' + w(False)).join(st.shape(n) for n in s['names']) + w(False) + ')' + st.eol
    if k == 'padding':
        return st.kw('padding') + w() + '{' + ''.join(w() + a['area'] + w() + str(a['n']) for a in s['areas']) + w() + '}' + st.eol
    if k in ('replace', 'reverse'):
        flag = '' if s['glob'] and not (st.rng and st.rng.random() < .5) else st.kw('global' if s['glob'] else 'once') + w()
        return st.kw(k) + w() + flag + st.string(s['search']) + w() + st.kw('with' if k == 'replace' else 'to') + w() + st.string(s['subst']) + st.eol
    if k == 'tags':
        if len(s['items']) == 1 and not (st.rng and st.rng.random() < .5):
            return st.kw('tags') + w() + st.string(s['items'][0]) + st.eol
        return st.kw('tags') + w() + '(' + (w(False) + ',' + w(False)).join(st.string(t) for t in s['items']) + w(False) + ')' + st.eol
    if k == 'key':
        word = s['key']
        if word.lower() in ('author', 'designer', 'indent'):
            word = st.kw(word)
        return word + w() + st.string(s['val']) + st.eol
    if k == 'delim':
        if len(s['spec']) == 2:
            st.esc, st.dl = s['spec']
        return st.kw('delim') + ' ' + s['spec'] + st.eol
    if k == 'junk':
        return s['text'] + st.eol
    raise ValueError(k)


def render(entries, st=None):
    st = st or Style()
    out = '\ufeff' if st.bom else ''
    for e in entries:
        st.esc, st.dl = '\\', '"'
        if e['k'] == 'parent':
            out += st.kw('parent') + ' ' + e['file'] + st.eol
            continue
        out += st.kw('box') + st.ws() + (st.ws(False) + ',' + st.ws(False)).join(e['names']) + st.eol
        for s in e['secs']:
            if st.rng and st.rng.random() < .3:
                out += st.ws()
            if st.delims and st.rng.random() < .4:
                dl = st.rng.choice(st.ALLDEL)
                esc = st.rng.choice([c for c in "\\$%@^+-abz0~" if c != dl])
                # a character that opens a comment or is part of a token must not follow directly
                st.esc, st.dl = esc, dl
                out += st.kw(st.rng.choice(['delim', 'delimiter'])) + ' ' + esc + dl + st.eol
            out += render_sec(s, st)
        out += st.kw('end') + st.ws(nl=False) + e['end'] + st.eol
        if st.rng and st.rng.random() < .3:
            out += st.ws()
    return out


class Conf:
    """A configuration file: its text, and its meaning for the specification."""
    def __init__(self, entries, style=None, text=None):
        self.entries = entries
        self.text = text if text is not None else render(entries, style)
        self.tla = [tla_entry(e) for e in entries]


# ------------------------------------------------------------------ reading the shipped configuration file
def parse_file(path):
    """Read a configuration file in the syntax of the shipped one."""
    with open(path, encoding='utf-8') as f:
        txt = f.read()
    lines = txt.split('\n')
    toks = []
    i = 0
    esc, dl = '\\', '"'
    state = 'init'
    while i < len(lines):
        line = lines[i]
        p = 0
        while p < len(line):
            c = line[p]
            if c in ' \t\r\ufeff':
                p += 1
            elif c == '#':
                p = len(line)
            elif state != 'init' and c == dl and not (c.isalnum()):
                q, s = p + 1, ''
                while line[q] != dl:
                    if line[q] == esc:
                        q += 1
                    s += line[q]
                    q += 1
                toks.append(('s', s))
                p = q + 1
            elif c in '(){},':
                toks.append(('p', c))
                p += 1
            else:
                m = re.match(r'[+-]?\d+|[A-Za-z\u0080-\U0010ffff][\w-]*', line[p:])
                if not m:
                    raise ValueError('line %d: %s' % (i + 1, line))
                w = m.group(0)
                p += len(w)
                lw = w.lower()
                if lw == 'box' and state == 'init':
                    state, esc, dl = 'box', '\\', '"'
                    toks.append(('k', 'box'))
                elif lw == 'end' and state == 'box':
                    state = 'init'
                    toks.append(('k', 'end'))
                elif lw == 'parent' and state == 'init':
                    toks.append(('parent', line[p:].strip()))
                    p = len(line)
                elif lw == 'sample':
                    smp = []
                    i += 1
                    while lines[i].strip(' \t\r').lower() != 'ends':
                        smp.append(lines[i])
                        i += 1
                    toks.append(('sample', smp))
                    line, p = '', 0
                elif lw in ('delim', 'delimiter'):
                    spec = line[p:].split()[0]
                    esc, dl = spec
                    p = line.index(spec, p) + 2
                    toks.append(('delim', spec))
                else:
                    toks.append(('w', w))
        i += 1
    pos = 0
    entries = []

    def punct(c):
        nonlocal pos
        assert toks[pos] == ('p', c), (toks[pos - 3:pos + 2], c)
        pos += 1
    while pos < len(toks):
        t, v = toks[pos]
        if t == 'parent':
            entries.append(parent(v))
            pos += 1
            continue
        assert (t, v) == ('k', 'box'), toks[pos]
        pos += 1
        names = [toks[pos][1]]
        pos += 1
        while toks[pos] == ('p', ','):
            names.append(toks[pos + 1][1])
            pos += 2
        secs = []
        while toks[pos] != ('k', 'end'):
            t, v = toks[pos]
            pos += 1
            if t == 'sample':
                secs.append(sample(*v))
            elif t == 'delim':
                secs.append(delim(v))
            elif v.lower() == 'shapes':
                punct('{')
                sh = []
                while toks[pos] != ('p', '}'):
                    n = toks[pos][1].upper()
                    pos += 1
                    punct('(')
                    ls = []
                    while toks[pos] != ('p', ')'):
                        if toks[pos][0] == 's':
                            ls.append(toks[pos][1])
                        pos += 1
                    pos += 1
                    sh.append((n, ls))
                pos += 1
                secs.append(shapes(sh))
            elif v.lower() == 'elastic':
                punct('(')
                ns = []
                while toks[pos] != ('p', ')'):
                    if toks[pos][0] == 'w':
                        ns.append(toks[pos][1].upper())
                    pos += 1
                pos += 1
                secs.append(elastic(*ns))
            elif v.lower() == 'padding':
                punct('{')
                a = []
                while toks[pos] != ('p', '}'):
                    a.append((toks[pos][1], int(toks[pos + 1][1])))
                    pos += 2
                pos += 1
                secs.append(padding(*a))
            elif v.lower() in ('replace', 'reverse'):
                once = False
                if toks[pos][0] == 'w':
                    once = toks[pos][1].lower() == 'once'
                    pos += 1
                search, subst = toks[pos][1], toks[pos + 2][1]
                pos += 3
                secs.append(rule(v.lower(), search, subst, once))
            elif v.lower() == 'tags':
                its = []
                if toks[pos] == ('p', '('):
                    pos += 1
                    while toks[pos] != ('p', ')'):
                        if toks[pos][0] == 's':
                            its.append(toks[pos][1])
                        pos += 1
                    pos += 1
                else:
                    its.append(toks[pos][1])
                    pos += 1
                secs.append(tags(*its))
            else:
                secs.append(key(v, toks[pos][1]))
                pos += 1
        end = toks[pos + 1][1]
        pos += 2
        entries.append(box(names, secs, end))
    return Conf(entries, text=txt)
