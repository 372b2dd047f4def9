"""Random worlds: designs, texts, options.  Everything is drawn from a random.Random that is handed in."""
from bxlib import *
import conf
from conf import Conf, Style, box, design, parent, rule

MARKS = '*#|-+=/\\@%&:^!<>~$'
WIDE = '\u4e16\u754c\u3042\uff21\uac00\U0001f600'
ZERO = '\u0301\u0308'
MULTI = '\u00e4\u00f6\u00df\u20ac\u0416\u2500\u2502'
TEXT = 'abcdefghijkmopqrstuvwxyz0123456789'
CSI = ['\x1b[31m', '\x1b[1;32m', '\x1b[38;5;12m', '\x1b[4m', '\x1b[44m', '\x1b[38;2;1;2;3m']
OFF = ['\x1b[0m', '\x1b[m', '\x1b[39m', '\x1b[49m', '\x1b[10m', '\x1b[59m', '\x1b[75m', '\x1b(B']
SHIPPED = None


def shipped():
    global SHIPPED
    if SHIPPED is None:
        SHIPPED = conf.parse_file(os.path.join(REPO, 'boxes-config'))
    return SHIPPED


def shipped_designs(rules=False):
    c = shipped()
    return [e['names'][0] for e in c.entries if e['k'] == 'box' and (rules or not any(s['k'] in ('replace', 'reverse') for s in e['secs']))]


def only(name):
    """A configuration file with one of the shipped designs only."""
    e = [e for e in shipped().entries if e['k'] == 'box' and e['names'][0] == name][0]
    st = Style()
    return Conf([dict(e, secs=[s for s in e['secs'] if s['k'] != 'delim'])], st)


# ------------------------------------------------------------------ shapes and designs
class Pool:
    """Characters that shapes are made of."""
    def __init__(self, rng, chars=MARKS, blank=0.15, wide=0.0, multi=0.0, color=0.0):
        self.rng, self.chars, self.blank, self.wide, self.multi, self.color = rng, chars, blank, wide, multi, color

    def line(self, w):
        r = self.rng
        out, n = '', 0
        while n < w:
            x = r.random()
            if x < self.blank:
                c, k = ' ', 1
            elif x < self.blank + self.wide and w - n >= 2:
                c, k = r.choice(WIDE), 2
            elif x < self.blank + self.wide + self.multi:
                c, k = r.choice(MULTI), 1
            else:
                c, k = r.choice(self.chars), 1
            if r.random() < self.color:
                c = r.choice(CSI) + c + (r.choice(OFF) if r.random() < .8 else '')
            out += c
            n += k
        return out

    def block(self, w, h):
        return [self.line(w) for _ in range(h)]


SIDE_PATTERNS = [
    # present (three middle positions in order), elastic
    ((0, 1, 0), (1,)), ((1, 0, 0), (0,)), ((0, 0, 1), (2,)),
    ((1, 1, 0), (0,)), ((1, 1, 0), (1,)), ((0, 1, 1), (1,)), ((0, 1, 1), (2,)), ((1, 0, 1), (0,)), ((1, 0, 1), (2,)),
    ((1, 1, 1), (0,)), ((1, 1, 1), (1,)), ((1, 1, 1), (2,)), ((1, 1, 1), (0, 2)),
]
NAMES = {'N': ['NNW', 'N', 'NNE'], 'E': ['ENE', 'E', 'ESE'], 'S': ['SSE', 'S', 'SSW'], 'W': ['WSW', 'W', 'WNW']}


def rand_shapes(rng, pool, maxw=3, maxh=2, drop=0.15, blankside=0.1, simple=0.4, midw=3, midh=2, margin=0.08):
    """Shapes which fit together, and the elastic ones; sides or corners may be left out."""
    wl, wr = rng.randint(1, maxw), rng.randint(1, maxw)
    ht, hb = rng.randint(1, maxh), rng.randint(1, maxh)
    sh, el = {}, []
    corner = {'NW': (wl, ht), 'NE': (wr, ht), 'SE': (wr, hb), 'SW': (wl, hb)}
    gone = {s for s in 'NESW' if rng.random() < drop}
    blank = {s for s in 'NESW' if rng.random() < blankside}
    for c, (w, h) in corner.items():
        sides = {'NW': 'NW', 'NE': 'NE', 'SE': 'SE', 'SW': 'SW'}[c]
        if all(s in gone for s in sides) or (any(s in gone for s in sides) and rng.random() < .7) or rng.random() < .05:
            continue
        if any(s in blank for s in sides):
            sh[c] = [' ' * w] * h
        else:
            sh[c] = pool.block(w, h)
    for s in 'NESW':
        if s in gone:
            continue
        present, elastic = ((0, 1, 0), (1,)) if rng.random() < simple else rng.choice(SIDE_PATTERNS)
        for i in range(3):
            if present[i]:
                w = rng.randint(1, midw) if s in 'NS' else (wl if s == 'W' else wr)
                h = rng.randint(1, midh) if s in 'EW' else (ht if s == 'N' else hb)
                sh[NAMES[s][i]] = [' ' * w] * h if s in blank else pool.block(w, h)
                if i in elastic:
                    el.append(NAMES[s][i])
    if not sh:
        sh, el = {'W': [pool.line(1)]}, ['W']
    # blanks all along the left or the right side
    for names, left in ((['NW', 'SW'] + NAMES['W'], True), (['NE', 'SE'] + NAMES['E'], False)):
        if rng.random() < margin:
            k = ' ' * rng.randint(1, 3)
            for n in names:
                if n in sh:
                    sh[n] = [k + l if left else l + k for l in sh[n]]
    return sh, el


def rand_design(rng, name='d', pool=None, pad=0.4, indent=0.2, **kw):
    pool = pool or Pool(rng)
    while True:
        sh, el = rand_shapes(rng, pool, **kw)
        if el and any(any(c not in ' ' for l in ls for c in l) for ls in sh.values()):
            break
    p = []
    if rng.random() < pad:
        for a in rng.choice([('all',), ('h', 'v'), ('left',), ('top', 'right'), ('bottom', 'left'), ('v',), ('t', 'r', 'b', 'l')]):
            p.append((a, rng.randint(0, 3)))
    ind = rng.choice(['box', 'text', 'none']) if rng.random() < indent else None
    el = el[:]
    rng.shuffle(el)
    return design(name, sh, el, pad=p, indent=ind, **({} if 'tag' not in kw else {}))


def full_design(rng, name='d', pool=None, pad=0.4, **kw):
    """A design with something visible on all sides."""
    pool = pool or Pool(rng, blank=0.0)
    return rand_design(rng, name, pool, pad=pad, drop=0, blankside=0, **kw)


# ------------------------------------------------------------------ texts
class Texts:
    def __init__(self, rng, chars=TEXT, tabs=None, wide=None, multi=None, zero=None, color=None, trail=0.1, blank=0.15,
                 indent=0.4, maxlines=5, maxwords=3, crlf=None, nofinal=0.15, extra='', plain=False):
        # features that are not asked for turn up in some of the texts nevertheless
        spice = rng.random() < .15 and not plain
        f = {'tabs': tabs, 'wide': wide, 'multi': multi, 'zero': zero, 'color': color, 'crlf': crlf}
        for k in f:
            if f[k] is None:
                f[k] = rng.choice([.1, .3]) if spice and rng.random() < .35 else 0
        self.__dict__.update(locals())
        self.__dict__.update(f)
        self.many = not plain and rng.random() < .008

    def word(self):
        r = self.rng
        out = ''
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < self.wide:
                c = r.choice(WIDE)
            elif x < self.wide + self.multi:
                c = r.choice(MULTI)
            elif self.extra and x > .8:
                c = r.choice(self.extra)
            else:
                c = r.choice(self.chars)
            if r.random() < self.zero:
                c += r.choice(ZERO)
            if r.random() < self.color:
                c = r.choice(CSI) + c
                if r.random() < .6:
                    c += r.choice(OFF)
            out += c
        if r.random() < self.color:
            out = r.choice(CSI) + out + r.choice(OFF)
        return out

    def indentation(self):
        r = self.rng
        if r.random() >= self.indent:
            return ''
        out = ''
        for _ in range(r.randint(1, 4)):
            out += '\t' if r.random() < self.tabs else ' ' * r.randint(1, 3)
        return out

    def line(self):
        r = self.rng
        if self.zero and r.random() < .08:      # nothing that takes up a column
            return r.choice(['', '', '  ']) + r.choice(ZERO) * r.randint(1, 2)
        if self.color and r.random() < .06:
            return r.choice(['', '', '  ']) + r.choice(CSI) + r.choice(['', r.choice(OFF)])
        if r.random() < self.blank:
            return r.choice(['', '', '  ', '\t' if self.tabs else ' '])
        out = self.indentation()
        for i in range(r.randint(1, self.maxwords)):
            if i:
                out += '\t' if r.random() < self.tabs * .6 else ' ' * r.choice([1, 1, 1, 2, 3])
            out += self.word()
        if r.random() < self.trail:
            out += r.choice([' ', '   ', '\t' if self.tabs else ' '])
        return out

    def lines(self, lo=1):
        r = self.rng
        n = r.randint(lo, self.maxlines)
        if self.many:
            n = r.choice([99, 100, 101, 102, 130, 201, 210])
            return [r.choice(['', ' ', '  ']) + r.choice(['a', 'bb', 'ccc', '', 'd e', 'f%d' % (k % 7)]) for k in range(n)]
        ls = [self.line() for _ in range(n)]
        if r.random() < .3:           # common indentation
            k = ' ' * r.randint(1, 5) if r.random() >= self.tabs else '\t'
            ls = [k + l if l.strip() else l for l in ls]
        return ls

    def text(self, lo=1):
        r = self.rng
        nl = '\r\n' if r.random() < self.crlf else '\n'
        ls = self.lines(lo)
        if r.random() < self.crlf * .3:
            t = ''.join(l + r.choice(['\n', '\r\n']) for l in ls)
        else:
            t = nl.join(ls) + nl
        if r.random() < self.nofinal:
            t = t.rstrip('\r\n')
        return t


# ------------------------------------------------------------------ options
def o_align(r):
    w = r.choice(['h', 'v', 'j', 'hv', 'hj', 'vj', 'hvj', 'short', 'short'])
    if w == 'short':
        return ['-a', r.choice('lcr') + r.choice(['', '', 'vb', 'vt', 'hl', 'jr'])]
    return ['-a', ''.join(x + r.choice({'h': 'lcr', 'v': 'tcb', 'j': 'lcr'}[x]) for x in w)]


def o_size(r, lo=1, hi=30):
    w, h = r.randint(lo, hi), r.randint(1, 14)
    return ['-s', r.choice(['%dx%d' % (w, h), '%d' % w, 'x%d' % h, '%dx%d' % (w, h)])]


def o_pad(r, hi=4):
    return ['-p', ''.join(r.choice('ahvtrbl') + str(r.randint(0, hi)) for _ in range(r.randint(1, 3)))]


def o_indent(r):
    return ['-i', r.choice(['box', 'text', 'none'])]


def o_tabs(r):
    return ['-t', r.choice(['', '1', '2', '3', '4', '8', '16', '5']) + r.choice(['e', 'k', 'u', 'e', 'k', 'u', ''])]


def fix_tabs(o):
    return o if o[1] and o[1][0].isdigit() else ['-t', '8' + o[1]]


def o_eol(r):
    return ['-e', r.choice(['LF', 'CR', 'CRLF'])]


def o_kill(r):
    return r.choice([['-k', 'true'], ['-k', 'false'], ['--kill-blank'], ['--no-kill-blank']])


OPTS = {'a': o_align, 's': o_size, 'p': o_pad, 'i': o_indent, 't': lambda r: fix_tabs(o_tabs(r)), 'e': o_eol, 'k': o_kill}


def options(r, kinds, prob=0.4):
    out = []
    for k in kinds:
        if r.random() < prob:
            out += OPTS[k](r)
    return out


def draw_world(conf_, text, opts, view='full', tag=None, extra_runs=(), name='d', codec='utf-8'):
    return world([run(['-f', 'cfg'] + (['-d', name] if name else []) + opts, text)] + list(extra_runs), confs={'cfg': conf_},
                 view=view, tag=tag, codec=codec)
