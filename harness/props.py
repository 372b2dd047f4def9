"""One generator of worlds per property.  gen(r, i) yields world number i, drawn from the random.Random r."""
from gens import *

ARGS = ['-f', 'cfg']


def claim(t, a, b=0, s='', x=''):
    return {'t': t, 'a': a, 'b': b, 's': s, 'x': x}


def W(runs, confs=None, claims=(), **kw):
    w = world(runs, confs=confs, **kw)
    w['claims'] = list(claims)
    return w


def plain_texts(r, **kw):
    return Texts(r, **kw)


def norm(t, tab=8):
    """A text as it must come back: tabs expanded, trailing white space gone, blank lines at the ends kept."""
    nofinal = not t.endswith('\n')
    ls = t.split('\n')
    if not nofinal:
        ls = ls[:-1]
    ls = [l.rstrip('\r').expandtabs(tab).rstrip(' ') for l in ls]
    return '\n'.join(ls) + ('' if nofinal else '\n')


def pick_design(r, i, rules=False, share=0.25, pool=None, full=False, **kw):
    """(configuration, name): one of the shipped designs or a random one."""
    if r.random() < share:
        names = shipped_designs(rules)
        n = names[r.randrange(len(names))]
        return only(n), n
    return Conf([(full_design if full else rand_design)(r, pool=pool, **kw)]), 'd'


# ------------------------------------------------------------------ drawing
def c01(r, i):
    opts = options(r, 'aspite', .35)
    if i % 5 == 0:
        c, n = pick_design(r, i, share=1)
        view = 'full'
    else:
        c, n = Conf([rand_design(r, maxw=4, maxh=3)]), 'd'
        view = 'text'
    T = Texts(r, tabs=.2 if i % 3 == 0 else 0, crlf=.15, maxlines=7, maxwords=5, wide=.1 if i % 4 == 0 else 0,
              zero=.2 if i % 8 < 2 else None, multi=.1 if i % 8 in (1, 4) else None)
    if i % 40 == 3:
        T.many = True
        opts, view = options(r, 'ai', .3), 'full'
    if i % 7 == 0:
        T.color = .2
        view = 'full'
    return W([run(ARGS + ['-d', n] + opts, T.text())], {'cfg': c}, view=view)


def c02(r, i):
    opts = options(r, 'asp', .4)
    if i % 6 == 0:
        c, n = pick_design(r, i, share=1)
        view = 'full'
    else:
        c, n = Conf([rand_design(r, maxw=3, maxh=3, simple=.15, midw=4, midh=3, drop=.08)]), 'd'
        view = 'outline'
    T = Texts(r, maxlines=6, indent=.2)
    return W([run(ARGS + ['-d', n] + opts, T.text())], {'cfg': c}, view=view)


def c03(r, i):
    opts = options(r, 'ap', .25)
    k = i % 4
    if k < 3:
        opts += o_size(r, 1, r.choice([8, 20, 40]))
    c, n = pick_design(r, i, share=.15, simple=.5, drop=.2, blankside=.15)
    T = Texts(r, maxlines=5, indent=.2)
    return W([run(ARGS + ['-d', n] + opts, T.text())], {'cfg': c}, view='full' if n != 'd' else 'outline')


def c04(r, i):
    opts = []
    for _ in range(r.choice([0, 1, 1, 2])):
        opts += o_pad(r, r.choice([2, 5, 9]))
    if r.random() < .5:
        opts += o_size(r, 3, 25)
    opts += options(r, 'a', .2)
    c, n = pick_design(r, i, share=.15, pad=.8)
    return W([run(ARGS + ['-d', n] + opts, Texts(r, maxlines=4).text())], {'cfg': c})


def c05(r, i):
    opts = o_align(r) + options(r, 'pi', .25)
    if r.random() < .7:
        opts += o_size(r, 5, 30)
    c, n = pick_design(r, i, share=.15)
    return W([run(ARGS + ['-d', n] + opts, Texts(r, maxlines=5, indent=.6).text())], {'cfg': c})


def c06(r, i):
    opts = (o_indent(r) if r.random() < .75 else []) + options(r, 'ast', .25)
    c, n = pick_design(r, i, share=.15, indent=.6)
    T = Texts(r, indent=.9, maxlines=5, tabs=.15, blank=.25, wide=.05 if i % 4 == 0 else 0, zero=.1 if i % 4 == 1 else None, color=.1 if i % 8 == 2 else None)
    return W([run(ARGS + ['-d', n] + opts, T.text())], {'cfg': c})


def c07(r, i):
    opts = (fix_tabs(o_tabs(r)) if r.random() < .9 else []) + options(r, 'aip', .2)
    c, n = pick_design(r, i, share=.1)
    T = Texts(r, indent=.8, maxlines=5, tabs=.6, blank=.1, wide=.2 if i % 6 == 0 else 0, color=.2 if i % 6 == 1 else 0, zero=.1 if i % 6 == 0 else 0)
    runs = [run(ARGS + ['-d', n] + opts, T.text())]
    if i % 4 == 0:
        runs = [run(ARGS + ['-d', n, '-r'] + options(r, 't', .9), T.text())]
    elif i % 4 == 1:
        runs.append(run(ARGS + ['-d', n, '-r'] + options(r, 't', .9), prev=True))
    return W(runs, {'cfg': c})


# ------------------------------------------------------------------ removing
# shipped designs which do not give back every text: their left sides have blanks at the end, or they change it
LOSSY = ('xes', 'headline')


SIDES5 = [(['NNW', 'N', 'NNE'], ['NW', 'NE']), (['ENE', 'E', 'ESE'], ['NE', 'SE']),
          (['SSW', 'S', 'SSE'], ['SW', 'SE']), (['WNW', 'W', 'WSW'], ['NW', 'SW'])]


def visible_or_gone(e):
    """Each side of the design is either drawn with visible characters or not there at all, and the indentation is kept."""
    sh = [s for s in e['secs'] if s['k'] == 'shapes'][0]['shapes']
    have = {x['n'] for x in sh if any(l.strip() for l in x['lines'])}
    return all(set(m) & have or not set(c) & have for m, c in SIDES5) \
        and not any(s['k'] == 'key' and s['key'] == 'indent' and s['val'] == 'none' for s in e['secs'])


def c08(r, i):
    T = Texts(r, maxlines=6, maxwords=4, trail=.1, wide=.1 if i % 5 == 0 else 0, zero=.1 if i % 10 == 0 else 0, tabs=.2 if i % 5 == 1 else 0, color=.2 if i % 10 == 2 else 0)
    t = T.text()
    k = i % 4
    opts, claims = [], [claim('back', 2, 1)]
    if k == 1:
        names = [n for n in shipped_designs(True) if n not in LOSSY]
        n = names[(i // 4 * 7 + r.randrange(3)) % len(names)]
        c = only(n)
        if T.color or T.wide:
            claims = []
    elif k == 2:
        e = full_design(r, pool=Pool(r, blank=0, wide=.1 if i % 3 == 0 else 0), indent=.3)
        c, n = Conf([e]), 'd'
        if not visible_or_gone(e):
            claims = []
    elif k == 0:
        e = rand_design(r, pool=Pool(r, blank=0, wide=.1 if i % 3 == 0 else 0), drop=.25, blankside=.2, indent=.2, pad=.5)
        c, n = Conf([e]), 'd'
        if not visible_or_gone(e):
            claims = []
    else:
        e = rand_design(r, pool=Pool(r, blank=r.choice([0, 0, .2])), drop=.2, blankside=.1, pad=.5)
        c, n = Conf([e]), 'd'
        opts = options(r, 'spae', .2)
        claims = []
    more = []
    if k == 2 and r.random() < .5:
        # the text in the box is edited, and only then the box is removed
        t2 = damage(r, sketch(r, e, T.lines()))
        return W([run(ARGS + ['-d', n] + opts, t), run(ARGS + ['-d', n, '-r'], prev=True), run(ARGS + ['-d', n, '-r'], t2)], {'cfg': c}, claims)
    return W([run(ARGS + ['-d', n] + opts, t), run(ARGS + ['-d', n, '-r'], prev=True)], {'cfg': c}, claims)


def damage(r, box_text):
    """Change a drawn box the way people edit the text in it."""
    ls = box_text.split('\n')
    for _ in range(r.randint(1, 3)):
        k = r.randrange(len(ls))
        if r.random() < .15:
            k = r.choice([0, 0, -1])
        x = r.random()
        l = ls[k]
        p = r.randrange(len(l) + 1) if l else 0
        if x < .06:
            n = r.randint(1, 3)                 # something takes the place of the first characters
            ls[k] = r.choice(['x', 'x ', ' x', ' ', 'ab', '  x'])[:n].ljust(n) + l[n:]
        elif x < .3:
            ls[k] = l[:p] + r.choice(['x', 'new', ' ', '  ', 'a b']) + l[p:]
        elif x < .5:
            ls[k] = l[:p] + l[p + r.randint(1, 3):]
        elif x < .6:
            ls[k] = l.rstrip(r.choice([' ', '*#|-+=/\\@%&:^!<>~$ ']))
        elif x < .7:
            ls.insert(k, l)
        elif x < .8 and len(ls) > 2:
            del ls[k]
        elif x < .9:
            ls[k] = ' ' * r.randint(1, 4) + l
        else:
            ls[k] = r.choice(['', '   ', 'text'])
    return '\n'.join(ls)


def sketch(r, e, text_lines):
    """A box around lines as the design could have drawn it, made here without the program."""
    sh = {x['n']: x['lines'] for s in e['secs'] if s['k'] == 'shapes' for x in s['shapes'] if x['lines']}
    w = max([len(l) for l in text_lines] + [1]) + r.randint(0, 3)

    def side(names, h, width):
        out = [''] * h
        while len(out[0]) < width:
            for n in names:
                if n in sh:
                    for j in range(h):
                        out[j] += sh[n][j % len(sh[n])]
            if not any(n in sh for n in names):
                out = [o + ' ' for o in out]
        return out

    def height(names):
        return max([len(sh[n]) for n in names if n in sh] + [1])
    top = side(['NNW', 'N', 'NNE'], height(['NW', 'NNW', 'N', 'NNE', 'NE']), w)
    bot = side(['SSW', 'S', 'SSE'], height(['SW', 'SSW', 'S', 'SSE', 'SE']), w)
    left = [l for n in ['WNW', 'W', 'WSW'] for l in sh.get(n, [])] or ['']
    right = [l for n in ['ENE', 'E', 'ESE'] for l in sh.get(n, [])] or ['']

    def corner(n, j, dflt):
        return sh[n][j % len(sh[n])] if n in sh else ' ' * dflt
    lw, rw = len(left[0]), len(right[0])
    out = [corner('NW', j, lw) + t + corner('NE', j, rw) for j, t in enumerate(top)]
    for k, l in enumerate(text_lines):
        out.append(left[k % len(left)] + r.choice(['', ' ', '  ']) + l.ljust(len(top[0]) - 1) + right[k % len(right)])
    out += [corner('SW', j, lw) + t + corner('SE', j, rw) for j, t in enumerate(bot)]
    ind = ' ' * r.choice([0, 0, 0, 2, 3])
    return '\n'.join((ind + l).rstrip() for l in out)


def removal_text(r, e, T):
    x = r.random()
    if x < .1:
        return T.text()
    s = sketch(r, e, [l for l in T.lines()])
    if x < .75:
        s = damage(r, s)
    if r.random() < .15:
        s = '\n\n' + s
    if r.random() < .15:
        s = T.line() + '\n' + s
    if r.random() < .15:
        s = s + '\n' + T.line()
    if r.random() < .3:
        return s
    return s + r.choice(['\n', '\n', '\n\n', '\n  \n'])


def c09(r, i):
    opts = options(r, 'aspite', .2)
    k = i % 5
    if k == 3:
        n = r.choice(shipped_designs(True))
        c = only(n)
        t = Texts(r).text()
        runs = [run(ARGS + ['-d', n], t), run(ARGS + ['-d', n, '-m'] + opts, prev=True), run(ARGS + ['-d', n, '-m'] + opts, prev=True)]
        return W(runs, {'cfg': c})
    T = Texts(r, maxlines=5, blank=r.choice([.1, .4]))
    if k in (0, 4):
        e = full_design(r, pool=Pool(r, blank=0), indent=.3)
        c = Conf([e])
        if k == 0:
            # an intact box stays as it is
            p = options(r, 'p', .3)
            runs = [run(ARGS + ['-d', 'd'] + p, T.text()), run(ARGS + ['-d', 'd', '-m'] + p, prev=True), run(ARGS + ['-d', 'd', '-m'] + p, prev=True),
                    run(ARGS + ['-d', 'd', '-m'] + opts, prev=True)]
            return W(runs, {'cfg': c}, [claim('intact', 2, 1), claim('same', 3, 2)])
        # mending is removing and drawing again
        t = damage(r, sketch(r, e, T.lines())) + '\n'
        pi = options(r, 'pi', .3)
        sa = options(r, 'as', .3)
        runs = [run(ARGS + ['-d', 'd', '-r', '-k', 'false'] + pi, t), run(ARGS + ['-d', 'd'] + pi + sa, prev=True), run(ARGS + ['-d', 'd', '-m'] + pi + sa, t)]
        return W(runs, {'cfg': c}, [claim('same', 3, 2)])
    e = rand_design(r, pool=Pool(r, blank=r.choice([0, .15])), drop=.15, blankside=.1, pad=.5)
    c = Conf([e])
    kill = r.choice([[], [], o_kill(r)])
    sel = ['-d', 'd'] if r.random() < .7 else []
    t = removal_text(r, e, T)
    runs = [run(ARGS + sel + ['-m'] + kill + opts, t), run(ARGS + sel + ['-m'] + kill + opts, prev=True)]
    return W(runs, {'cfg': c})


def shape_chars(e):
    return ''.join(sorted({ch for s in e['secs'] if s['k'] == 'shapes' for x in s['shapes'] for l in x['lines'] for ch in l} - {' '}))


def c10(r, i):
    claims = [claim('kept', 1)]
    if i % 5 == 4:
        n = r.choice(shipped_designs(True))
        c = only(n)
        e = c.entries[0]
        claims = []
    else:
        e = rand_design(r, pool=Pool(r, blank=r.choice([0, .15, .3])), drop=.2, blankside=.15, pad=.5)
        c, n = Conf([e]), 'd'
        claims[0]['s'] = shape_chars(e)
    T = Texts(r, maxlines=5, trail=.2, extra='' if r.random() < .7 else MARKS)
    t = removal_text(r, e, T)
    opts = options(r, 'itpk', .15)
    if '-t' in ' '.join(opts):
        claims = []
    return W([run(ARGS + ['-d', n, '-r'] + opts, t)], {'cfg': c}, claims)


def c11(r, i):
    if i % 12 == 0:
        names = shipped_designs(True)
        n = r.choice(names)
        es = [e for e in shipped().entries if e['k'] == 'box' and (r.random() < .3 or e['names'][0] == n)]
        c = Conf([dict(e, secs=[s for s in e['secs'] if s['k'] != 'delim']) for e in es])
        e = [e for e in es if e['names'][0] == n][0]
        t = sketch(r, e, Texts(r).lines()) + '\n'
        return W([run(ARGS + ['-d', n], Texts(r).text()), run(ARGS + ['-r'], prev=True), run(ARGS + ['-r'], t)], {'cfg': c})
    chars = ''.join(r.sample(MARKS, r.randint(2, 6)))
    es = [rand_design(r, 'd%d' % k, pool=Pool(r, chars=chars, blank=r.choice([0, .2]), color=r.choice([0, .3]) if i % 4 == 3 else 0), drop=.2, blankside=.15, pad=.4) for k in range(r.randint(1, 4))]
    if i % 8 == 3:
        es.append(dict(stripped_design(es[0]), names=['dx'], end='dx'))
        r.shuffle(es)
        es = [dict(e, names=['d%d' % k], end='d%d' % k) for k, e in enumerate(es)]
    c = Conf(es)
    e = r.choice(es)
    T = Texts(r, maxlines=4, extra='' if r.random() < .7 else chars, color=.1 if i % 4 == 3 else None)
    t = removal_text(r, e, T)
    if i % 4 == 3:
        # some of the colors are lost on the way
        t = '\n'.join(strip_esc(l) if r.random() < .3 else l for l in t.split('\n'))
    mode = r.choice(['-r', '-r', '-m'])
    opts = options(r, 'kpi', .15)
    if i % 2:
        runs = [run(ARGS + [mode] + opts + (['-d', 'd%d' % (k - 1)] if k else []), t) for k in range(len(es) + 1)]
        return W(runs, {'cfg': c}, [claim('among', 1, len(runs))])
    return W([run(ARGS + [mode] + opts, t)], {'cfg': c})


def c12(r, i):
    e = rand_design(r, pool=Pool(r, blank=.05), drop=.35, blankside=.2, pad=.7)
    T = Texts(r, maxlines=5, blank=.5, trail=.3)
    c = Conf([e])
    k = o_kill(r) if r.random() < .8 else []
    mode = '-r' if r.random() < .8 else '-m'
    if i % 3 == 0:
        n = r.choice(shipped_designs(False))
        return W([run(ARGS + ['-d', n], T.text()), run(ARGS + ['-d', n, mode] + k, prev=True)], {'cfg': only(n)})
    if i % 3 == 1:
        return W([run(ARGS + ['-d', 'd'] + options(r, 'ps', .2), T.text()), run(ARGS + ['-d', 'd', mode] + k, prev=True)], {'cfg': c})
    s = sketch(r, e, [''] * r.randint(0, 3) + T.lines() + [''] * r.randint(0, 3)) + '\n'
    p = options(r, 'p', .2)
    runs = [run(ARGS + ['-d', 'd', '-r'] + p, s), run(ARGS + ['-d', 'd', '-r', '-k', 'true'] + p, s), run(ARGS + ['-d', 'd', '-r', '-k', 'false'] + p, s)]
    return W(runs, {'cfg': c}, [claim('inner', 2, 3), claim('among', 1, 3)])


# ------------------------------------------------------------------ configuration
def breakage(r, e, how=None):
    """Break a design in one of many ways (some of them harmless, which the specification knows)."""
    e = {'k': 'box', 'names': list(e['names']), 'end': e['end'], 'secs': [dict(s) for s in e['secs']]}
    secs = e['secs']

    def idx(k):
        return [j for j, s in enumerate(secs) if s['k'] == k]
    shp = secs[idx('shapes')[0]]
    shp['shapes'] = [dict(x, lines=list(x['lines'])) for x in shp['shapes']]
    els = secs[idx('elastic')[0]]
    els['names'] = list(els['names'])
    how = how or r.choice(['nosample', 'noshapes', 'noelastic', 'end', 'width', 'size', 'elastic', 'corner', 'unknown', 'dupshape',
                    'twosamples', 'blanksample', 'junk', 'dupsec', 'control', 'ctrltext', 'emptyline', 'indent', 'delim',
                    'drop', 'allblank', 'endcase', 'threeelastic', 'tags', 'padding', 'emptyshape'])
    if how == 'nosample':
        del secs[idx('sample')[0]]
    elif how == 'noshapes':
        del secs[idx('shapes')[0]]
    elif how == 'noelastic':
        del secs[idx('elastic')[0]]
    elif how == 'end':
        n = e['names'][0]
        e['end'] = r.choice([n + 'x', n[:-1], n[:1], n[1:], n + n, 'x' + n, 'd0', 'd1'] + e['names'][1:])
        if not e['end'] or e['end'][0] in '0123456789-':
            e['end'] = 'd'
    elif how == 'endcase':
        e['end'] = e['names'][0].swapcase()
    elif how == 'width':
        x = r.choice(shp['shapes'])
        if x['lines']:
            x['lines'][r.randrange(len(x['lines']))] += '*'
    elif how == 'size':
        x = r.choice(shp['shapes'])
        if r.random() < .5:
            x['lines'] = x['lines'] + x['lines'][:1]
        else:
            x['lines'] = [l + '+' for l in x['lines']]
    elif how == 'elastic':
        x = r.choice(conf.CLOCKWISE)
        if x not in els['names']:
            els['names'].append(x)
    elif how == 'threeelastic':
        s = r.choice('NESW')
        els['names'] = [x for x in els['names'] if x not in NAMES[s]] + r.sample(NAMES[s], r.randint(1, 3))
    elif how == 'corner':
        els['names'].append(r.choice(['NW', 'NE', 'SE', 'SW']))
    elif how == 'unknown':
        secs.insert(r.randrange(len(secs) + 1), key(r.choice(['foo', 'revision', 'created', 'created-by']), 'bar'))
    elif how == 'dupshape':
        shp['shapes'].append(dict(r.choice(shp['shapes'])))
    elif how == 'emptyshape':
        shp['shapes'].insert(r.randrange(len(shp['shapes']) + 1), {'n': r.choice(conf.CLOCKWISE), 'lines': []})
    elif how == 'twosamples':
        secs.append(conf.sample('another'))
    elif how == 'blanksample':
        secs[idx('sample')[0]] = conf.sample('  ', '')
    elif how == 'junk':
        secs.insert(r.randrange(len(secs) + 1), conf.junk(r.choice(['shapes { }', 'elastic ()', 'padding { }', 'foo bar', '(', '}', 'replace "a"',
                                                             '"string"', 'with', 'padding { all }', 'tags', 'author author', '17', 'shapes { nw }',
                                                             'elastic (n nw)', '\u00e4\u00f6', 'replace once with', 'elastic (xx)', 'global'])))
    elif how == 'dupsec':
        secs.append(dict(r.choice(secs)))
    elif how == 'control':
        x = r.choice(shp['shapes'])
        x['lines'] = [l[:-1] + r.choice('\x01\x7f\x85\x0c') for l in x['lines']]
    elif how == 'ctrltext':
        secs.append(key(r.choice(['author', 'designer', 'foo']), 'na\x02me'))
    elif how == 'emptyline':
        x = r.choice(shp['shapes'])
        if x['lines']:
            x['lines'][r.randrange(len(x['lines']))] = ''
    elif how == 'indent':
        secs.append(key('indent', r.choice(['Box', 'TEXT', 'left', 'non', ''])))
    elif how == 'delim':
        secs.append(conf.delim(r.choice(['"', '""', '\\"', 'a1', '$|', 'abc', '~a'])))
    elif how == 'drop':
        shp['shapes'].pop(r.randrange(len(shp['shapes'])))
        if not shp['shapes']:
            shp['shapes'] = [{'n': 'W', 'lines': ['*']}]
    elif how == 'allblank':
        for x in shp['shapes']:
            x['lines'] = [' ' * len(l) for l in x['lines']]
    elif how == 'tags':
        secs.append(conf.tags(r.choice(['Bad Tag', 'none', 'ok', 'a,b,a', '', '-x', 'x-'])))
    elif how == 'padding':
        secs.append(conf.padding((r.choice(['foo', 'left', 'a', 'ALL', 'hor', 'tops', 'bx', 'bottoms', 'lx', 'lefty', 'ta', 'rx', 'hx', 'vx', 'aa', 'alll', 'bot', 'rights', 'verticals']), r.choice([-1, 0, 3]))))
    return e


def key(k, v):
    return conf.key(k, v)


def c13(r, i):
    n = r.randint(1, 3)
    good = [rand_design(r, 'd%d' % k, pool=Pool(r)) for k in range(n)]
    if r.random() < .4:
        good = variant(r, good)
    es = list(good)
    b = r.randrange(n)
    es[b] = breakage(r, good[b])
    if r.random() < .15:
        r.shuffle(es[b]['secs'])
    if r.random() < .2:
        es[b] = breakage(r, es[b]) if {'sample', 'shapes', 'elastic'} <= {s['k'] for s in es[b]['secs']} else es[b]
    c = Conf(es)
    t = Texts(r, maxlines=3).text()
    runs = [run(ARGS + ['-d', 'd%d' % k], t) for k in range(n)]
    runs.append(run(ARGS + [], t))
    runs.append(run(ARGS + ['-l'], ''))
    claims = []
    confs = {'cfg': c}
    if n > 1:
        # the other designs are drawn as if the broken one were not there
        confs['rest'] = Conf(es[:b] + es[b + 1:])
        k = r.choice([k for k in range(n) if k != b])
        runs.append(run(['-f', 'rest', '-d', 'd%d' % k], t))
        claims.append(claim('same', k + 1, len(runs)))
    return W(runs, confs, claims)


NAMEPOOL = ['alpha', 'beta', 'Gamma', 'delta-2', 'e_x', 'zeta', 'ALPHA', 'Beta', 'x1', 'n', 'box2', 'shapes1']


def tiny(r, names, mark=None, **kw):
    m = mark or r.choice(MARKS)
    k = r.random()
    if k < .4:
        return design(names, {'W': [m]}, ['W'], pad=(('left', 1),) if r.random() < .5 else (), **kw)
    return design(names, {'NW': [m], 'N': [m], 'NE': [m], 'E': [m], 'SE': [m], 'S': [m], 'SW': [m], 'W': [m]}, ['N', 'E', 'S', 'W'], **kw)


def c14(r, i):
    nf = r.choice([1, 1, 2, 3, 4])
    paths = ['cfg', 'p1', 'dir/p2', 'p3'][:nf]
    confs = {}
    for f, p in enumerate(paths):
        es = []
        for k in range(r.randint(0 if f or nf > 1 else 1, 4)):
            x = r.random()
            names = [r.choice(NAMEPOOL)] + [r.choice(NAMEPOOL) for _ in range(r.choice([0, 0, 1, 2]))]
            # an alias which equals the name of the same design is left to others
            names = [names[0]] + [a for j, a in enumerate(names[1:]) if a.lower() != names[0].lower() and a.lower() not in [q.lower() for q in names[1:1 + j]]]
            e = tiny(r, names)
            if x < .1:
                e = breakage(r, e)
            es.append(e)
        for _ in range(r.choice([0, 1, 1, 2]) if nf > 1 else r.choice([0, 0, 0, 1])):
            es.insert(r.randrange(len(es) + 1), parent(r.choice(paths + ['missing', ':global:'])))
        confs[p] = Conf(es)
    if r.random() < .4:
        confs[GLOBAL] = Conf([tiny(r, [r.choice(NAMEPOOL)]) for _ in range(2)])
    T = Texts(r, maxlines=2)
    t = T.text()
    runs = [run(ARGS, t), run(ARGS + ['-l'], '')]
    for _ in range(2):
        n = r.choice(NAMEPOOL)
        n = r.choice([n, n.upper(), n.lower()])
        runs.append(run(ARGS + ['-d', n], t))
    runs.append(run(ARGS + ['-d', n.swapcase()], t))
    runs.append(run(ARGS + ['-q', '(all)'], ''))
    return W(runs, confs, [claim('same', 4, 5)])


def c15(r, i):
    # every location may have something; designs tell the locations apart
    homes = r.choice(['home', 'my home', 'h/o/m'])
    xdg = r.choice(['xdg', 'x/dg'])
    locs = [homes + '/' + n for n in ('.boxes', 'box-designs', 'boxes-config', 'boxes')]
    locs += [xdg + '/boxes/' + n for n in ('.boxes', 'box-designs', 'boxes-config', 'boxes')]
    locs += [homes + '/.config/boxes/' + n for n in ('.boxes', 'box-designs', 'boxes-config', 'boxes')]
    locs += [GLOBAL]
    locs += [d + '/' + n for d in ('/etc/xdg/boxes', '/usr/local/share/boxes', '/usr/share/boxes') for n in ('.boxes', 'box-designs', 'boxes-config', 'boxes')]
    locs += ['given', 'gdir/boxes', 'gdir/.boxes', 'gdir/box-designs', 'gdir/boxes-config']
    dens = r.choice([.05, .15, .5])
    confs, dirs = {}, ['edir', homes]
    for k, p in enumerate(locs):
        if r.random() < dens:
            confs[p] = Conf([design('l%d' % k, {'W': ['<%d>' % k]}, ['W'])] if r.random() < .93 else [])
    if r.random() < .15:
        p = r.choice(locs)
        if p not in confs and not any(q.startswith(p + '/') for q in confs):
            dirs.append(p)          # a directory where a file is expected
    runs = []
    for _ in range(3):
        a = []
        if r.random() < .3:
            a = [r.choice(['-f', '--config']), r.choice(['given', 'gdir', 'gdir/', 'missing', 'edir', 'gdir/boxes'])]
        e = env(boxes=r.choice([None, None, 'given', 'gdir', 'missing', 'edir', 'gdir/.boxes']) if r.random() < .5 else None,
                home=homes if r.random() < .7 else None, xdg=xdg if r.random() < .5 else None)
        runs.append(run(a, 'text\n', e=e))
    return W(runs, confs, dirs=dirs)


TAGS = ['alpha', 'beta', 'gamma', 'box', 'a1', 'foo-bar', 'x', 'nonempty']


def tagged(r, n):
    names = r.sample(['aa', 'Bb', 'cc', 'DD', 'e1', 'ff', 'Gg', 'h-h', 'B', 'c'], n)
    es = []
    for m in names:
        its = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            its.append(r.choice([r.choice(TAGS), r.choice(TAGS) + ',' + r.choice(TAGS), ' ' + r.choice(TAGS) + ' , ' + r.choice(TAGS),
                                 r.choice(['None', 'none', 'Bad', 'x--y', '9x', '-a', 'b-', '', 'a b', 'nope'])]))
        al = ['al' + m] if r.random() < .3 else []
        es.append(tiny(r, [m] + al, tag=its))
    return es


def c16(r, i):
    es = tagged(r, r.randint(1, 6))
    confs = {'cfg': Conf(es)}
    if i % 5 == 0:
        confs = {'cfg': Conf(es + [parent('p')]), 'p': Conf(tagged(r, 2))}
    if i % 25 == 1:
        confs = {'cfg': shipped()}
    runs = []
    tg = TAGS if i % 25 != 1 else ['box', 'simple', 'ascii-art', 'programming', 'small', 'christmas', 'big', 'unicode']
    for _ in range(4):
        terms = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            terms.append(r.choice(['', '', '+', '-']) + (r.choice(tg) if r.random() < .9 else '(all)' if r.random() < .5 else r.choice(['Box', 'no such', 'none', 'zzz', '(ALL)', ''])))
        if any(x in ('+(all)', '-(all)', '+(ALL)', '-(ALL)') for x in terms):
            terms = ['(all)']
        sep = r.choice([',', ', ', ' , ', ',,'])
        q = sep.join(terms)
        a = r.choice([['-q', q], ['--tag-query', q], ['--tag-query=' + q]])
        if q.startswith('-') or True:
            runs.append(run(ARGS + a + options(r, 'e', .15), 'ignored\n'))
    return W(runs, confs)


def c17(r, i):
    x = i % 4
    if i % 40 == 0:
        n = r.choice(shipped_designs(True))
        return W([run(ARGS + ['-l'] + (['-d', n] if i % 80 else []), '')], {'cfg': shipped()})
    es = []
    names = r.sample(['aa', 'Bb', 'cc', 'DD', 'e1', 'ff', 'Gg', 'h-h'], r.randint(1, 4))
    for m in names:
        al = r.sample(['al' + m, 'x' + m, m + '-2'], r.choice([0, 0, 1, 2]))
        samp = r.choice([['smp'], ['', ' a', '  b  ', '', 'c', ''], ['\u4e16|', '| '], ['x', '', '']])
        rep = [(r.choice(['a', 'b+', '[x-z]', '\\*/']), r.choice(['', 'c', '$0$0', '\\\\']), r.random() < .3) for _ in range(r.choice([0, 0, 1, 2]))]
        rev = [(r.choice(['c', '"q"', 'a|b']), r.choice(['a', '""']), r.random() < .3) for _ in range(r.choice([0, 0, 1]))]
        col = .2 if i % 7 == 0 else 0
        e = rand_design(r, m, pool=Pool(r, chars=MARKS + '"\\', wide=.1, color=col), pad=.5, indent=.4)
        e['names'] = [m] + al
        add = []
        if r.random() < .5:
            add.append(key('author', r.choice(['Jane', 'J\u00f6 \u4e16', 'A "B"', ''])))
        if r.random() < .5:
            add.append(key('designer', r.choice(['Jane', 'Joe', '(public)'])))
        if r.random() < .5:
            add.append(conf.tags(*[r.choice(TAGS) for _ in range(r.randint(1, 3))]))
        e['secs'] = [conf.sample(*samp) if s['k'] == 'sample' else s for s in e['secs']] + add
        e['secs'] += [rule('replace', *q) for q in rep] + [rule('reverse', *q) for q in rev]
        es.append(e)
    confs = {'cfg': Conf(es)}
    if x == 0:
        confs = {'cfg': Conf(es + [parent('dir/p')] + ([parent('p2')] if r.random() < .4 else [])), 'dir/p': Conf(tagged(r, 2)), 'p2': Conf(tagged(r, 1))}
    runs = [run(ARGS + ['-l'] + options(r, 'e', .2) + r.choice([[], [], ['--no-color']]), '')]
    n = r.choice(names)
    runs.append(run(ARGS + ['-l', '-d', n] + options(r, 'esp', .2) + r.choice([[], [], ['--no-color']]), ''))
    if r.random() < .4:
        runs.append(run(ARGS + ['-x', '(undoc)', '-l', '-d', n], ''))
    if r.random() < .2:
        runs.append(run(ARGS + ['-l', '-c', r.choice(['# ', '\u4e16"'])], ''))
    return W(runs, confs)


# ------------------------------------------------------------------ whole program
def c18(r, i):
    e = rand_design(r, pool=Pool(r, blank=.05), drop=.2, blankside=.1)
    c = Conf([e])
    T = Texts(r, crlf=.4, nofinal=.35, maxlines=5, blank=.2)
    mode = i % 3
    t = T.text()
    if mode:
        t = removal_text(r, e, T)
        if r.random() < .5:
            t = t.replace('\n', '\r\n')
        if r.random() < .4:
            t = t.rstrip('\r\n')
    m = [[], ['-r'], ['-m']][mode]
    opts = options(r, 'asp', .2) if mode == 0 else []
    runs = [run(ARGS + ['-d', 'd'] + m + opts + v, t) for v in (['-e', 'LF'], ['-e', 'CR'], ['-e', 'CRLF'], [])]
    claims = [claim('eol', 1, 2, x='\r'), claim('eol', 1, 3, x='\r\n'), claim('same', 1, 4)]
    return W(runs, {'cfg': c}, claims)


def strip_esc(s):
    return re.sub(r'\x1b(?:[\[(][^@-~]*[@-~]|[@-Z\\-_])', '', s)


def stripped_design(e):
    e2 = dict(e, secs=[dict(s) for s in e['secs']])
    for s in e2['secs']:
        if s['k'] == 'shapes':
            s['shapes'] = [dict(x, lines=[strip_esc(l) for l in x['lines']]) for x in s['shapes']]
    return e2


def c19(r, i):
    pool = Pool(r, blank=.1, color=r.choice([0, .3, .6]), wide=.1 if i % 4 == 0 else 0)
    e = rand_design(r, pool=pool, drop=.15, blankside=.05)
    e2 = stripped_design(e)
    confs = {'cfg': Conf([e]), 'plain': Conf([e2])}
    T = Texts(r, color=r.choice([0, .2, .5]), wide=.1 if i % 4 == 1 else 0, trail=.1, tabs=.3 if i % 3 == 0 else 0)
    t = T.text()
    opts = options(r, 'aspit', .25)
    A, P = ['-f', 'cfg', '-d', 'd'], ['-f', 'plain', '-d', 'd']
    if i % 2 == 0:
        runs = [run(A + ['--color'] + opts, t), run(A + ['--no-color'] + opts, t), run(P + opts, strip_esc(t)),
                run(A + opts, t, term=False), run(A + opts, t, term=True)]
        claims = [claim('vis', 1, 2), claim('same', 2, 3), claim('same', 2, 4), claim('same', 1, 5)]
        return W(runs, confs, claims)
    full = Conf([full_design(r, pool=Pool(r, blank=0, color=.4))])
    if i % 4 == 1:
        # draw in color, remove with the other color setting, both ways round
        d = r.choice([e, full.entries[0]])
        confs = {'cfg': Conf([d]), 'plain': Conf([stripped_design(d)])}
        runs = [run(A + ['--color'], t), run(r.choice([A, P]) + ['-r', '--color'], prev=True),
                run(A + ['--no-color'], t), run(A + ['-r', r.choice(['--color', '--no-color'])], prev=True)]
        return W(runs, confs)
    s = removal_text(r, e2, Texts(r, color=.15))
    runs = [run(r.choice([A, P]) + ['-r', '--color'], s), run(A + ['-r', '--no-color'], s), run(A + ['-m', '--color'], s)]
    return W(runs, confs)


def c20(r, i):
    pool = Pool(r, wide=r.choice([0, .3]), multi=.3, blank=.1)
    e = rand_design(r, pool=pool, drop=.15, blankside=.05)
    c = Conf([e])
    T = Texts(r, wide=.3, multi=.2, zero=.1, tabs=.3 if i % 4 == 0 else 0)
    t = T.text()
    opts = options(r, 'aspit', .25)
    k = i % 3
    if k == 0:
        return W([run(ARGS + ['-d', 'd'] + opts, t), run(ARGS + ['-d', 'd', '-r'], prev=True)], {'cfg': c})
    if k == 1:
        # characters of the same width are interchangeable
        m = {}
        t2 = ''
        for ch in t:
            if ch in WIDE:
                ch = m.setdefault(ch, r.choice('\u4e8c\u4e09\u672c\u65e5'))
            elif ch in TEXT + MULTI:
                ch = m.setdefault(ch, r.choice('qQ\u00e9\u0416'))
            t2 += ch
        return W([run(ARGS + ['-d', 'd'] + opts, t), run(ARGS + ['-d', 'd'] + opts, t2)], {'cfg': c}, [claim('shape', 1, 2)])
    s = removal_text(r, e, Texts(r, wide=.2, multi=.2))
    return W([run(ARGS + ['-d', 'd', r.choice(['-r', '-r', '-m'])], s)], {'cfg': c})


LONG = {'a': 'align', 'c': 'create', 'd': 'design', 'e': 'eol', 'f': 'config', 'i': 'indent', 'k': 'kill-blank', 'n': 'encoding',
        'p': 'padding', 's': 'size', 't': 'tabs', 'q': 'tag-query', 'x': 'extra', 'r': 'remove', 'm': 'mend', 'l': 'list', 'v': 'version', 'h': 'help'}


def spell(r, opt, val):
    """One of the ways to write an option."""
    if opt == 'k':
        return r.choice([['-k', val], ['-k' + val]] + ([['--kill-blank']] if val == 'true' else [['--no-kill-blank']]))
    if val is None:
        return r.choice([['-' + opt], ['--' + LONG[opt]], ['--' + LONG[opt][:3]]])
    x = r.random()
    if x < .25:
        return ['-' + opt, val]
    if x < .45:
        return ['-' + opt + val]
    if x < .65:
        return ['--' + LONG[opt], val]
    if x < .85:
        return ['--' + LONG[opt] + '=' + val]
    n = LONG[opt]
    return ['--' + n[:r.randint(3 if n not in ('config', 'color', 'create') else 5, len(n))] + '=' + val]


def c21(r, i):
    e = rand_design(r, pool=Pool(r, blank=.05))
    c = Conf([e, tiny(r, ['other'])])
    T = Texts(r, maxlines=3, tabs=.2)
    t = T.text()
    if i % 3 == 0:
        # the same options, spelled and ordered differently
        opts = [('f', 'cfg'), ('d', 'd')]
        for k in 'aspite':
            if r.random() < .35:
                o = OPTS[k](r)
                opts.append((k, o[1]))
        if r.random() < .3:
            opts.append((r.choice('rm'), None))
        if r.random() < .2:
            opts.append(('k', r.choice(['true', 'false'])))
        runs = []
        for v in range(3):
            os_ = list(opts)
            r.shuffle(os_)
            a = []
            for o, val in os_:
                a += spell(r, o, val)
            files = r.choice([[], ['-'], ['-', '-']])
            if files:
                k = r.choice([0, len(a)])
                if k == 0 or True:
                    a = (files + a) if k == 0 else (a + (['--'] if r.random() < .3 else []) + files)
            runs.append(run(a, t))
        m_and_k = any(o == 'm' for o, _ in opts) and any(o == 'k' for o, _ in opts)
        return W(runs, {'cfg': c}, [] if m_and_k else [claim('same', 1, 2), claim('same', 1, 3)])
    if i % 3 == 1:
        # several values for the same option, groups of options, shorthand
        pairs = [(['-ac'], ['-ahcvcjc']), (['-al'], ['-ahlvcjl']), (['-ar'], ['-ahrvcjr']), (['-pa2'], ['-pt2b2l2r2']), (['-ph2'], ['-pl2r2']),
                 (['-pv1'], ['-pt1b1']), (['-i', 'b'], ['-i', 'box']), (['-it'], ['-i', 'text']), (['-s', '20'], ['-s', '7', '-s', '20']),
                 (['-ajr'], ['-ac', '-ajr', '-avthl']), (['-t', '4'], ['-t4e']), (['-k', '1'], ['-k', 'yes']), (['-kf'], ['--no-kill']),
                 (['-e', 'lf'], ['-eCR', '-eLF']), (['-s', '10x5'], ['-s10X5']), (['-p', 'l3'], ['-p', 'l1', '-pl3']), (['-rk0'], ['-r', '-k', 'off']),
                 (['--no-color'], ['--color', '--no-color']), (['-d', 'd'], ['-d', 'other', '-dd'])]
        a, b = r.choice(pairs)
        more = options(r, 'ste', .2)
        base = ARGS + (['-d', 'd'] if '-d' not in a else [])
        runs = [run(base + more + a, t), run(base + more + b, t)]
        return W(runs, {'cfg': c}, [claim('same', 1, 2)] if a != ['-ajr'] else [])
    bad = r.choice([['-a', 'x'], ['-a', 'hx'], ['-a', 'h'], ['-a', ''], ['-p', 'x1'], ['-p', 'a'], ['-p', 'a-1'], ['-p', ''], ['-s', '0'], ['-s', '-3'],
                    ['-s', 'x'], ['-s', 'ax4'], ['-s', '4xb'], ['-t', '0'], ['-t', '17'], ['-t', '4x'], ['-t', 'e'], ['-t', '4ee'], ['-e', 'foo'], ['-e', ''], ['-i', 'foo'],
                    ['-i', ''], ['-k', 'maybe'], ['-k', ''], ['-x', 'foo'], ['-q', ''], ['-q', 'A'], ['-q', 'a,a'], ['-c', ''], ['-d', 'nosuch'], ['-d', ''], ['-z'],
                    ['--nosuch'], ['--co'], ['--list=1'], ['--align'], ['-a'], ['a', 'b', 'c'], ['nosuchfile'], ['-', '-', '-'], ['--', '-a', 'c', 'd'],
                    ['-f', 'nosuch'], ['-p', 't1x'], ['-p', 'a1,b2'], ['-a', 'lx'], ['-s', '3x4x5'], ['-s', 'x7'], ['-s', '7x'], ['-pa1l'], ['-k', 'On'], ['-k', 'T'], ['-ir'], ['-t', '3K'],
                    ['-k', 'true', '-k', 'false'], ['-m', '-k', 'true'], ['-k', 'true', '-m'], ['-m', '-r'], ['-r', '-l'], ['-l', '-q', 'a'], ['-c', '#', '-d', 'd'], ['-d', 'd', '-c', '#'],
                    ['-h', '-z'], ['-v'], ['-?'], ['-z', '-h'], ['-r', '-m', '-k1'], ['-n', 'UTF-8'], ['--encoding=ISO-8859-1'], ['-h'], ['--version'], ['-l', '-a', 'x']])
    a = ARGS + (['-d', 'd'] if r.random() < .4 and '-d' not in bad else [])
    a = a + bad if r.random() < .5 else bad + a
    if bad[0] == '--':
        a = ARGS + bad
    if bad == ['-?']:
        a = bad + ARGS
    if bad in (['--align'], ['-a']):
        a = ARGS + bad
    return W([run(a + [], t)], {'cfg': c})


RULES = [('a', 'b'), ('b', 'aa'), ('[a-f]', '<$0>'), ('(.)(.)', '$2$1'), ('x+', 'X'), ('^', '> '), ('$', ' <'), (' +', ' '), ('o', ''), ('(a|b)c?', '[$1]'),
         ('\\*/', '*\\\\/'), ('\\.', ','), ('[^a-z ]', '?'), ('a{2,3}', 'A'), ('(foo|ba.)', '\\$$1'), ('.', '$0 '), ('(\\w+) (\\w+)', '${2} $1'), ('b*', '-'),
         ('^ +', ''), ('e', '\u4e16'), ('[0-9]', ''), ('(?:ab)+', 'AB'), ('c.*?d', '='), ('z?', ''), ('q', '$$'), ('^ ', ''), ('^  ', ''), ('^ *', '  '), ('^( +)(.)', '$2$1'), ('^ {2,4}', '.')]
LEAD = [q for q in RULES if q[0].startswith('^ ') or q[0].startswith('^( ')]


def c22(r, i):
    e = rand_design(r, pool=Pool(r, blank=.05), drop=.15)
    rep = [(a, b, r.random() < .3) for a, b in (r.choice(RULES) for _ in range(r.choice([0, 1, 1, 2, 3])))]
    rev = [(a, b, r.random() < .3) for a, b in (r.choice(RULES) for _ in range(r.choice([0, 1, 1, 2])))]
    if i % 4 == 3:
        # rules which change the indentation
        rep.insert(r.randint(0, len(rep)), r.choice(LEAD) + (r.random() < .3,))
        if r.random() < .5:
            rev.insert(r.randint(0, len(rev)), r.choice(LEAD) + (r.random() < .3,))
    e['secs'] = e['secs'] + [rule('replace', *q) for q in rep] + [rule('reverse', *q) for q in rev]
    r.shuffle(e['secs'])
    c = Conf([e])
    T = Texts(r, chars='abcdefxoz019', extra='*/.', maxlines=4, indent=.4 if i % 4 < 3 else .8)
    if i % 9 == 0:
        n = r.choice([n for n in shipped_designs(True) if n not in shipped_designs(False)])
        c = only(n)
        T.extra = '*/<>-()+'
        return W([run(ARGS + ['-d', n], T.text()), run(ARGS + ['-d', n, '-r'], prev=True), run(ARGS + ['-d', n, '-m'], prev=False, stdin=T.text())], {'cfg': c})
    k = i % 3
    if k == 0 and i % 4 == 3:
        n = r.randint(1, 4)
        q = r.choice([('^' + ' ' * n, ''), ('^ {%d}' % n, r.choice(['', '.', ' '])), ('^ *', ''), ('^ {0,%d}' % n, '')])
        e['secs'].append(rule('replace', *q, r.random() < .5))
        c = Conf([e])
        T.blank = 0
        t = ''.join(' ' * n + l + '\n' for l in T.lines())
        o = r.choice([['-i', 'text'], ['-i', 'text'], [], o_indent(r)]) + (o_align(r) if r.random() < .9 else []) + (o_size(r, 5, 30) if r.random() < .4 else [])
        return W([run(ARGS + o, t)], {'cfg': c})
    if k == 0:
        return W([run(ARGS + options(r, 'asi', .2), T.text())], {'cfg': c})
    if k == 1:
        return W([run(ARGS + options(r, 'i', .2), T.text()), run(ARGS + ['-d', 'd', '-r'], prev=True)], {'cfg': c})
    return W([run(ARGS + ['-d', 'd', r.choice(['-r', '-m'])] + options(r, 'i', .2), removal_text(r, e, T))], {'cfg': c})


def c23(r, i):
    s = r.choice(['#', '//', '*', '# ', ' *', '--', '\u4e16', '\u00e4>', '"', '\\', "'x'", '| ', ' ', '  ', '>\t', 'REM', '\x1b[31m#\x1b[0m', '%%%', '$(', ';']) if r.random() < .8 \
        else ''.join(r.choice(MARKS + ' ') for _ in range(r.randint(1, 4)))
    e = design('d', {'W': [s]}, ['W'], pad=(('left', 1),))
    confs = {'cfg': Conf([tiny(r, ['x'])]) if r.random() < .8 else Conf([]), 'same': Conf([e])}
    opts = options(r, 'aspitek', .2)
    mode = r.choice([[], [], ['-r'], ['-m']])
    T = Texts(r, maxlines=4, tabs=.1, wide=.1)
    t = T.text()
    if mode and r.random() < .8:
        t = '\n'.join(s + r.choice(['', ' ', ' ', '  ']) + l for l in T.lines()) + '\n'
        if r.random() < .4:
            t = damage(r, t)
    C = r.choice([['-c', s], ['--create=' + s], ['-c' + s]])
    runs = [run(['-f', 'cfg'] + C + mode + opts, t), run(['-f', 'same', '-d', 'd'] + mode + opts, t)]
    legal = True
    return W(runs, confs, [claim('same', 1, 2)] if strip_esc(s).strip(' \t') else [])


def c24(r, i):
    e = rand_design(r, pool=Pool(r, blank=.05))
    c = Conf([e])
    t = Texts(r, maxlines=3).text() if r.random() < .9 else ''
    m = r.choice([[], [], ['-r'], ['-m'], ['-l'], ['-q', '(all)']])
    k = i % 4
    A = ARGS + (['-d', 'd'] if r.random() < .7 else []) + m + options(r, 'ae', .15)
    if k == 0:
        # file or stream, in and out
        runs = [run(A, t), run(A + ['in'], ''), run(A + ['in', 'out1'], ''), run(A + ['-', 'out2'], t), run(A + ['in', '-'], ''), run(A + ['-'], t)]
        files = {'in': t}
        if r.random() < .4:
            files['out1'] = 'old contents which are longer than what follows perhaps ' * 20
        return W(runs, {'cfg': c}, [claim('same', 1, 2), claim('same', 1, 5), claim('same', 1, 6), claim('file', 1, s='out1'), claim('file', 1, s='out2')], files=files, dirs=['dir'])
    if k == 1:
        bad = r.choice([['missing'], ['dir'], ['in', 'nodir/out'], ['in', 'dir'], ['-', 'nodir/out'], ['in', 'dir/out'], ['in', 'out', 'x'], ['missing', 'out'], ['dir', 'out'], ['in', 'in2'],
                        ['dir/missing'], ['in', 'dir/sub/out'], ['in/x']])
        fine = bad in (['in', 'dir/out'], ['in', 'in2'])
        return W([run(A + bad, t), run(A, t)], {'cfg': c}, [] if fine or (bad[0] == 'dir' and m and m[0] in '-l-q') else [claim('quiet', 1)], files={'in': t, 'in2': 'old\n', 'out': 'old\n'}, dirs=['dir'])
    if k == 2:
        how = r.choice(['dir', 'closed', 'full', 'full'])
        if how == 'full':
            return W([run(A, t, sink='full')], {'cfg': c})
        return W([run(A, t, unreadable=how)], {'cfg': c})
    # something wrong with the configuration, the design, or the text
    x = r.choice(['conf', 'design', 'control', 'empty', 'broken', 'outfile'])
    if x == 'conf':
        return W([run(['-f', r.choice(['missing', 'dir', 'dir/x'])] + m, t)], {'cfg': c}, dirs=['dir'])
    if x == 'design':
        return W([run(ARGS + ['-d', 'nosuch'] + m, t)], {'cfg': c})
    if x == 'control':
        t2 = t[:len(t) // 2] + r.choice('\x01\x07\x0b\x0c\x7f\x85\x9b\x08') + t[len(t) // 2:] + 'x\n'
        return W([run(A, t2), run(A + ['in', 'out'], '')], {'cfg': c}, files={'in': t2, 'out': 'old\n'})
    if x == 'empty':
        return W([run(ARGS + m, t)], {'cfg': Conf([])})
    if x == 'outfile':
        return W([run(ARGS + ['-d', 'nosuch', 'in', 'out'], ''), run(ARGS + ['-a', 'x', 'in', 'out2'], ''), run(A + ['in', 'out3'], '')], {'cfg': c},
                 files={'in': t, 'out': 'old\n', 'out2': 'old\n', 'out3': 'old\n'})
    return W([run(ARGS + m, t), run(ARGS + ['-d', 'd'] + m, t)], {'cfg': Conf([breakage(r, e)])})


def nasty_text(r):
    """Unusual input."""
    x = r.random()
    if x < .08:
        return ''
    if x < .16:
        return r.choice(['\n', '\n\n\n', ' ', '  \n \n', '\t\n', '\r\n', '\r\n\r\n'])
    if x < .2:
        return ''.join(r.choice(TEXT + ' ') for _ in range(r.randint(100, 400))) + '\n'
    if x < .24:
        return ''.join(r.choice('ab ') + '\n' for _ in range(r.randint(40, 80)))
    T = Texts(r, tabs=r.choice([0, .5]), wide=r.choice([0, .4]), multi=r.choice([0, .3]), zero=r.choice([0, .3]), color=r.choice([0, 0, .5]), crlf=r.choice([0, .5]),
              blank=r.choice([.1, .6]), nofinal=.4, maxlines=r.choice([2, 8]), extra=r.choice(['', MARKS]))
    t = T.text()
    if r.random() < .15:
        t = t.replace('a', '\x1b').replace('b', '[')      # broken escape sequences
    if r.random() < .1:
        t += r.choice(['\x1b', '\x1b[', '\x1b[31'])
    if r.random() < .1:
        k = r.randrange(len(t) + 1)
        t = t[:k] + r.choice(['\u00a0', '\u2003', '\u2028', '\u200b', '\ufeff', '\u0301', '\u3000x', '\ufffd', '\U0001f468\u200d']) + t[k:]
    return t


def c25(r, i):
    k = i % 5
    if i % 100 == 99:
        # very long lines
        t = ''.join(r.choice('ab\t\u4e16 ') for _ in range(r.randint(1500, 3000)))
        c = Conf([design('d', {'W': ['#']}, ['W'])])
        return W([run(ARGS + r.choice([[], ['-r', '-d', 'd'], ['-m', '-d', 'd']]) + options(r, 'it', .5), r.choice(['', '#']) + t, twice=True)], {'cfg': c}, view='fate')
    if k == 0:
        c, n = pick_design(r, i, share=1, rules=True)
    else:
        col = r.choice([0, 0, .3])
        e = rand_design(r, pool=Pool(r, blank=r.choice([0, .3, .6]), wide=.1, multi=.1, color=col), maxw=5, maxh=4, midw=5, midh=4, simple=.2)
        c, n = Conf([e]), 'd'
    mode = r.choice([[], [], ['-r'], ['-m']])
    t = nasty_text(r)
    if mode and r.random() < .6 and k:
        t = removal_text(r, e, Texts(r, wide=.1, color=.05, extra=r.choice(['', MARKS])))
    a = ARGS + (['-d', n] if r.random() < .8 else []) + mode + options(r, 'aspitek', .2)
    return W([run(a, t, twice=True)], {'cfg': c}, view='fate')


def variant(r, es):
    """The same designs, written differently."""
    out = []
    for e in es:
        if e['k'] != 'box' or any(s['k'] == 'junk' for s in e['secs']):
            out.append(e)
            continue
        e = dict(e, secs=[dict(s) for s in e['secs']])
        rules = {k: [s for s in e['secs'] if s['k'] == k] for k in ('replace', 'reverse', 'padding', 'tags')}
        r.shuffle(e['secs'])
        # the order among rules, paddings and tags matters
        for k, v in rules.items():
            it = iter(v)
            e['secs'] = [next(it) if s['k'] == k else s for s in e['secs']]
        for s in e['secs']:
            if s['k'] == 'shapes':
                s['shapes'] = list(s['shapes'])
                r.shuffle(s['shapes'])
            elif s['k'] == 'elastic':
                s['names'] = list(s['names'])
                r.shuffle(s['names'])
            elif s['k'] == 'padding':
                ab = {'all': ['a', 'ALL', 'al'], 'h': ['horizontal', 'horiz', 'H'], 'v': ['vertical', 'vert', 'Ver'], 'left': ['l', 'Le'], 'top': ['t', 'TOP'], 'right': ['r', 'rig'], 'bottom': ['b', 'Bot'],
                      't': ['top'], 'r': ['right'], 'b': ['bottom'], 'l': ['left']}
                s['areas'] = [dict(a, area=r.choice(ab.get(a['area'], []) + [a['area']])) for a in s['areas']]
            elif s['k'] == 'tags' and len(s['items']) > 1 and r.random() < .6:
                n = r.randint(1, len(s['items']) - 1)
                s['items'] = r.choice([[','.join(s['items'])], [' , '.join(s['items'])], s['items'][:n] + [','.join(s['items'][n:])]])
            elif s['k'] == 'key':
                s['val'] = r.choice([s['val'], s['val'].upper()]) if s['key'].lower() == 'indent' else s['val']
        e['end'] = r.choice([e['end'], e['end'].upper()])
        out.append(e)
    return out


def c26(r, i):
    es = []
    for k in range(r.choice([1, 1, 2])):
        e = rand_design(r, 'd%d' % k, pool=Pool(r, chars=MARKS + '"\\#`\'{}(),', wide=.05, multi=.05), pad=.6, indent=.4)
        if r.random() < .4:
            e['secs'].append(rule('replace', *r.choice(RULES)))
        if r.random() < .4:
            e['secs'].append(rule('reverse', *r.choice(RULES)))
        if r.random() < .4:
            e['secs'].append(conf.tags(*r.sample(TAGS, r.randint(1, 4))))
        if r.random() < .4:
            e['secs'].append(key('author', 'J. "X" D\u00f6'))
        if r.random() < .4:
            x = [j for j, s in enumerate(e['secs']) if s['k'] == 'sample'][0]
            e['secs'][x] = conf.sample(*(r.choice(['', '  ', ' a', 'b ', 'smp #"', '\t', 'end', 'END s']) for _ in range(r.randint(0, 3))), 'q', *(r.choice(['', '  ', ' a']) for _ in range(r.randint(0, 2))))
        if r.random() < .15:
            e = breakage(r, e, 'padding' if r.random() < .4 else None)
        es.append(e)
    v1 = variant(r, es)
    eol = r.choice(['\n', '\r\n'])
    confs = {'a/cfg': Conf(es), 'b/cfg': Conf(v1, Style(r, eol=eol, bom=r.random() < .15, delims=r.random() < .6))}
    t = Texts(r, maxlines=3).text()
    what = r.choice([['-l', '-d', 'd0'], ['-l', '-d', 'd0'], ['-l', '-d', 'd%d' % (len(es) - 1)], ['-q', '(all)'], [], ['-d', 'd0'], ['-d', 'd%d' % (len(es) - 1)], ['-d', 'd0', '-r'], ['-d', 'd0', '-m'], ['-r']])
    if '-r' in what or '-m' in what:
        t = removal_text(r, es[0], Texts(r, maxlines=3))
    runs = [run(['-f', p + '/cfg'] + what, t) for p in 'ab']
    claims = [] if '-l' in what else [claim('same', 1, 2)]
    # what the designs look like in a listing, too
    runs += [run(['-f', p + '/cfg', '-l'] + (['-d', 'd%d' % k] if k < len(es) else []), '') for k in range(len(es) + 1) for p in 'ab']
    return W(runs, confs, claims)


def c27(r, i):
    enc = r.choice(['ISO-8859-1', 'ISO-8859-15', 'US-ASCII', 'ISO-8859-1', 'ISO-8859-15'])
    codec = {'ISO-8859-1': 'iso-8859-1', 'ISO-8859-15': 'iso-8859-15', 'US-ASCII': 'ascii'}[enc]
    chars = {'ISO-8859-1': '\u00e4\u00df\u00a4\u00bd\u00ff', 'ISO-8859-15': '\u00e4\u20ac\u0160\u0153', 'US-ASCII': 'z'}[enc]
    e = rand_design(r, pool=Pool(r, multi=.3, wide=.1, blank=.05))
    c = Conf([e])
    T = Texts(r, extra=chars, tabs=.1, wide=0, multi=0, zero=0)
    t = T.text()
    mode = r.choice([[], [], [], ['-r'], ['-m']])
    a = ARGS + ['-d', 'd'] + mode + options(r, 'aspit', .2)
    if mode:
        s = removal_text(r, e, T)
        if all(ch in '\n' or ord(ch) < 128 or ch in chars for ch in s):
            t = s
    if i % 6 == 0:
        # an encoding which does not exist is reported and not used
        t = Texts(r, multi=.3, wide=.1).text()
        return W([run(a + ['-n', r.choice(['nosuch', 'UTF-99', 'latin', ''])], t), run(a, t), run(a + ['-n', 'UTF-8'], t)], {'cfg': c}, [claim('same', 1, 2), claim('same', 2, 3)])
    return W([run(a + [r.choice(['-n', '--encoding']), enc], t, codec=codec), run(a, t)], {'cfg': c}, [claim('enc', 1, 2, s=enc)])


# generators, and numbers of worlds in the quick tier
COUNTS = {'C11': 250, 'C16': 250, 'C17': 200, 'C25': 300, 'C15': 250, 'C14': 300, 'C18': 250, 'C21': 300}
GENS = {'C%02d' % k: (globals()['c%02d' % k], COUNTS.get('C%02d' % k, 400)) for k in range(1, 28)}
