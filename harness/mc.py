"""Families of worlds which the specification (MC.tla) enumerates: TLC explores them all and checks the properties in
every state, and each of them is replayed in the real program."""
import json, os
from bxlib import *
import conf

CODECS = {'ISO-8859-1': 'iso-8859-1', 'ISO-8859-15': 'iso-8859-15', 'US-ASCII': 'ascii', 'UTF-8': 'utf-8'}
# families of the properties
FAMILIES = {
    'C01': ['tiny'], 'C02': ['sides'], 'C03': ['size', 'sides'], 'C04': ['pad'], 'C05': ['align'], 'C06': ['indent'], 'C07': ['tabs'],
    'C08': ['round'], 'C09': ['round', 'damage'], 'C10': ['remove', 'damage'], 'C11': ['detect'], 'C12': ['remove', 'blank'], 'C13': ['elastic', 'sections'],
    'C14': ['parents', 'names'], 'C15': ['locate'], 'C16': ['query'], 'C17': ['list'], 'C18': ['eol'], 'C19': ['color'], 'C20': ['wide'],
    'C21': ['values', 'orders'], 'C22': ['rules'], 'C23': ['create'], 'C24': ['files', 'same'], 'C25': ['tiny', 'files'], 'C26': ['sections'], 'C27': ['encodings'],
}
# families small enough to be explored in their deep scope by every quick check
CHEAP = {'size', 'pad', 'align', 'indent', 'tabs', 'elastic', 'locate', 'list', 'eol', 'wide', 'create', 'files', 'encodings', 'same'}


def s(cp):
    return ''.join(map(chr, cp or []))


def seqs(x):
    """An empty sequence may have been written as an empty object."""
    if isinstance(x, dict):
        return {k: seqs(v) for k, v in x.items()} if x else []
    return [seqs(v) for v in x] if isinstance(x, list) else x


def entry(e):
    if e['k'] == 'parent':
        return conf.parent(s(e['file']))
    secs = []
    for x in e['secs']:
        k = x['k']
        if k == 'sample':
            secs.append(conf.sample(*map(s, x['lines'])))
        elif k == 'shapes':
            secs.append(conf.shapes([(h['n'], [s(l) for l in h['lines']]) for h in x['shapes']]))
        elif k == 'elastic':
            secs.append(conf.elastic(*x['names']))
        elif k == 'padding':
            secs.append(conf.padding(*[(s(a['area']), a['n']) for a in x['areas']]))
        elif k in ('replace', 'reverse'):
            secs.append({'k': k, 'glob': x['glob'], 'search': s(x['search']), 'subst': s(x['subst'])})
        elif k == 'tags':
            secs.append(conf.tags(*map(s, x['items'])))
        elif k == 'key':
            secs.append(conf.key(s(x['key']), s(x['val'])))
        else:
            raise HarnessError('section ' + k)
    return conf.box([s(n) for n in e['names']], secs, s(e['end']))


class SpecConf:
    """A configuration file which the specification made."""
    def __init__(self, entries):
        self.tla = entries
        self.text = conf.render([entry(e) for e in entries])


def py_world(w, confs):
    files, cs, dirs = {}, {}, []
    for e in w['fs']:
        p = s(e['path'])
        if e['kind'] == 'dir':
            dirs.append(p)
        elif e['kind'] == 'conf':
            cs[p] = confs[e['cfg'] - 1]
        else:
            files[p] = s(e['data'])
    runs = []
    for r in w['runs']:
        args = [s(a) for a in r['args']]
        q = run(args, s(r['stdin']['s']), r['term'], {k: s(v['val']) if v['set'] else None for k, v in r['env'].items()}, r['stdin']['t'] == 'prev', r['sink'])
        if '-n' in args:
            q['codec'] = CODECS[args[args.index('-n') + 1]]
        runs.append(q)
    res = world(runs, files, cs, dirs)
    res['claims'] = [{'t': c['t'], 'a': c['a'], 'b': c['b'], 's': s(c['s']), 'x': s(c['x'])} for c in w['claims']]
    return res


def explore(family, scope, scratch, timeout=800, cfg='MC.cfg'):
    """Let TLC explore a family. Returns ([(world, expected results, expected files)], TlcResult)."""
    out = os.path.join(scratch, 'mc-%s.json' % family)
    t = tlc('MC.tla', cfg, scratch, {'FAMILY': family, 'SCOPE': scope, 'OUT': out}, timeout=timeout, heap='10g')
    if t.rc != 0:
        at = max(0, t.out.find('rror:') - 20)
        raise HarnessError('the specification does not have its properties in family %s\n%s' % (family, t.out[at:at + 1500]))
    with open(out) as f:
        d = seqs(json.load(f))
    os.unlink(out)
    confs = [SpecConf(c) for c in d['configs']]
    res = [None] * len(d['worlds'])
    for line in t.out.split('\n'):
        if line.startswith('"@@'):
            v = seqs(json.loads(json.loads(line)[2:]))
            w = py_world(d['worlds'][v['case'] - 1], confs)
            files = dict(w['files'])
            expect = {p: cps(x) for p, x in files.items()}
            expect.update({s(e['path']): e['data'] for e in v['disk']})
            res[v['case'] - 1] = (w, v['hist'], expect)
    if None in res:
        raise HarnessError('%d worlds of family %s are not complete' % (res.count(None), family))
    return res, t


# families in which TLC checks that every run ends (a temporal property, with weak fairness)
LIVE = {'C25': {'quick': ['tiny', 'files'], 'thorough': ['tiny', 'files', 'sides', 'size', 'remove', 'damage', 'locate', 'parents']}}


def live(family, scope, scratch, timeout=800):
    """Let TLC check the temporal properties in a family."""
    t = tlc('MC.tla', 'MCLive.cfg', scratch, {'FAMILY': family, 'SCOPE': scope, 'OUT': os.path.join(scratch, 'live.json')}, timeout=timeout, heap='10g')
    if t.rc != 0:
        at = max(0, t.out.find('rror:') - 20)
        raise HarnessError('the specification does not have its temporal properties in family %s\n%s' % (family, t.out[at:at + 1500]))
    return t


def agrees(hist, expect, obs, files):
    """Did the program do what the specification says?"""
    for h, o in zip(hist, obs):
        if h['rc'] != o['rc'] or not o['stable'] or (h['says'] and not o['says']):
            return False
        if not h['free'] and (h['out'] if not h['dest'] else []) != o['out']:
            return False
    return len(hist) == len(obs) and {f['path']: f['data'] for f in files} == expect
