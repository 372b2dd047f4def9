"""Building boxes, running it in scratch worlds, and checking the results against the specification with TLC."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('BX_REPO') or '/repo'      # another tree only while developing the checks
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GLOBAL = 'global/boxes-config'      # compiled-in path of the global configuration, relative to the working directory
WORKERS = 8
HUNG = 1000             # status of a run which did not end in time
MAXHUNG = 12            # no more worlds are run after so many which did not end
MAXOUT = 400000         # bytes of output looked at
resource.setrlimit(resource.RLIMIT_FSIZE, (400 << 20, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


class HarnessError(Exception):
    """Something is wrong with the machinery (not with boxes)."""


def cps(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------ building
def build(scratch, cflags=('-O1',), tag='b'):
    """Build boxes from /repo's working tree; returns the path of the binary."""
    src = os.path.join(REPO, 'src')
    out = os.path.join(scratch, tag)
    os.makedirs(out)
    with open(os.path.join(src, 'boxes.in.h')) as f:
        h = f.read()
    with open(os.path.join(REPO, 'Makefile')) as f:
        m = re.search(r'^BVERSION\s*=\s*(\S+)', f.read(), re.M)
    h = h.replace('--BVERSION--', m.group(1) if m else '0').replace('--GLOBALCONF--', GLOBAL)
    with open(os.path.join(out, 'boxes.h'), 'w') as f:
        f.write(h)

    def sh(cmd):
        r = subprocess.run(cmd, cwd=out, capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-2000:]))

    sh(['bison', '--defines=parser.h', '-o', 'parser.c', os.path.join(src, 'parser.y')])
    sh(['flex', '--header-file=lex.yy.h', os.path.join(src, 'lexer.l')])
    files = [os.path.join(out, 'parser.c'), os.path.join(out, 'lex.yy.c')]
    files += sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith('.c'))
    objs = []
    with ThreadPoolExecutor(8) as ex:
        jobs = []
        for f in files:
            o = os.path.join(out, hashlib.md5(f.encode()).hexdigest()[:8] + '.o')
            objs.append(o)
            jobs.append(ex.submit(sh, ['gcc', '-w', *cflags, '-I.', '-I' + src, '-c', f, '-o', o]))
        for j in jobs:
            j.result()
    exe = os.path.join(out, 'boxes')
    sh(['gcc', *cflags, *objs, '-o', exe, '-lunistring', '-lpcre2-32', '-lncurses'])
    return exe


def build_shim(scratch):
    so = os.path.join(scratch, 'shim.so')
    r = subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-O1', os.path.join(VERIF, 'harness', 'shim.c'), '-o', so, '-ldl'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError('shim: ' + r.stderr)
    return so


# ------------------------------------------------------------------ worlds
def env(boxes=None, home=None, xdg=None):
    return {'boxes': boxes, 'home': home, 'xdg': xdg}


def run(args, stdin='', term=True, e=None, prev=False, sink='pipe', unreadable=None, codec=None, twice=False):
    """One invocation. stdin is a text; prev: the output of the invocation before; codec: what input and output are encoded in."""
    return {'args': list(args), 'env': e or env(), 'term': term, 'sink': sink, 'codec': codec, 'twice': twice,
            'stdin': {'t': 'unreadable' if unreadable else 'prev' if prev else 'data', 's': stdin, 'how': unreadable}}


def world(runs, files=None, confs=None, dirs=(), view='full', codec='utf-8', tag=None):
    """confs: path -> Conf; files: path -> text."""
    return {'runs': runs, 'files': dict(files or {}), 'confs': dict(confs or {}), 'dirs': list(dirs), 'view': view,
            'codec': codec, 'tag': tag}


def parents(p):
    out = []
    while '/' in p:
        p = p.rsplit('/', 1)[0]
        if p:
            out.append(p)
    return out


def all_dirs(w):
    ds = set(w['dirs'])
    for p in list(w['files']) + list(w['confs']) + list(w['dirs']):
        ds.update(parents(p))
    return sorted(ds)


def real(base, p):
    return os.path.join(base, 'abs' + p) if p.startswith('/') else os.path.join(base, p)


def decode(b, codec):
    """Output bytes as code points; bytes which are no characters become negative numbers."""
    try:
        return cps(b.decode(codec))
    except UnicodeDecodeError:
        out, i = [], 0
        while i < len(b):
            for n in range(1, 5):
                try:
                    s = b[i:i + n].decode(codec)
                    out += cps(s)
                    i += n
                    break
                except UnicodeDecodeError:
                    continue
            else:
                out.append(-b[i] - 1)
                i += 1
        return out


class Runner:
    def __init__(self, exe, scratch, shim=None, timeout=10, extra_env=None, limit=3 << 30):
        self.exe, self.scratch, self.shim, self.timeout = exe, scratch, shim, timeout
        self.extra_env, self.limit = extra_env or {}, limit
        self.count = self.hung = 0

    def materialize(self, w, base):
        os.makedirs(base)
        for d in all_dirs(w):
            os.makedirs(real(base, d), exist_ok=True)
        for p, t in w['files'].items():
            with open(real(base, p), 'wb') as f:
                f.write(t.encode(w['codec']))
        for p, c in w['confs'].items():
            with open(real(base, p), 'wb') as f:
                f.write(c.text.encode('utf-8'))

    def execute(self, w, keep=None):
        """Run a world; returns the observations."""
        base = keep or tempfile.mkdtemp(dir=self.scratch)
        if not keep:
            os.rmdir(base)
        self.materialize(w, base)
        obs, prev = [], b''
        for r in w['runs']:
            e = {'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PATH': '/usr/bin:/bin',
                 'TERM': 'xterm-color' if r['term'] else 'dumb', **self.extra_env}
            for k, n in (('boxes', 'BOXES'), ('home', 'HOME'), ('xdg', 'XDG_CONFIG_HOME')):
                if r['env'][k] is not None:
                    e[n] = r['env'][k]
            if self.shim:
                e['LD_PRELOAD'] = self.shim
                e['BXROOT'] = os.path.join(base, 'abs')
            codec = r.get('codec') or w['codec']
            data = prev if r['stdin']['t'] == 'prev' else r['stdin']['s'].encode(codec)
            o, err, rc = self.call(r, base, e, data)
            stable = True
            if r['twice']:
                o2, err2, rc2 = self.call(r, base, e, data)
                stable = (o, rc) == (o2, rc2)
                if rc2 not in (0, 1):
                    o, err, rc = o2, err2, rc2
            prev = o
            # a crash is a negative status; 2000 keeps it apart from regular ones
            obs.append({'rc': rc if rc >= 0 else 2000 - rc, 'stable': stable, 'says': len(err) > 0, 'out': decode(o, codec),
                        'err': err.decode('utf-8', 'replace')[-400:]})
        files = []
        known = set(w['confs'])
        for d, _, fs in os.walk(base):
            for f in fs:
                full = os.path.join(d, f)
                rel = os.path.relpath(full, base)
                if rel.startswith('abs/'):
                    rel = rel[3:]
                if rel not in known:
                    with open(full, 'rb') as fh:
                        files.append({'path': rel, 'data': decode(fh.read(), w['codec'])})
        files.sort(key=lambda x: x['path'])
        if not keep:
            shutil.rmtree(base, ignore_errors=True)
        self.count += len(obs)
        return obs, files

    def call(self, r, base, e, data):
        """One call of the program: (output, messages, status)."""
        how = r['stdin'].get('how')
        cmd = [self.exe] + r['args']
        full = r['sink'] == 'full'
        with tempfile.TemporaryFile(dir=self.scratch) as fi, tempfile.TemporaryFile(dir=self.scratch) as fe, \
                (open('/dev/full', 'wb') if full else tempfile.TemporaryFile(dir=self.scratch)) as fo:
            stdin = fi
            if how == 'dir':
                stdin = os.open(base, os.O_RDONLY)
            elif how == 'closed':
                cmd = ['/bin/sh', '-c', 'exec "$@" <&-', 'sh'] + cmd
            elif how is None:
                fi.write(data)
                fi.flush()
                fi.seek(0)
            try:
                p = subprocess.Popen(cmd, cwd=base, env=e, stdin=stdin, stdout=fo, stderr=fe)
                if self.limit:
                    try:
                        resource.prlimit(p.pid, resource.RLIMIT_AS, (self.limit, self.limit))
                    except ProcessLookupError:
                        pass
                try:
                    rc = p.wait(self.timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    self.hung += 1
                    return b'', b'', HUNG
                if not full:
                    fo.seek(0)
                fe.seek(0)
                return (b'' if full else fo.read(MAXOUT)), fe.read(MAXOUT), rc
            finally:
                if how == 'dir':
                    os.close(stdin)

    def execute_all(self, worlds):
        """The observations in all worlds; None for those left out because too many runs did not end."""
        with ThreadPoolExecutor(WORKERS) as ex:
            return list(ex.map(lambda w: self.execute(w) if self.hung < MAXHUNG else None, worlds))


# ------------------------------------------------------------------ worlds in the terms of the specification
def opt(v):
    return {'set': v is not None, 'val': cps(v or '')}


def tla_world(w, confidx):
    fs = [{'path': cps(d), 'kind': 'dir', 'data': [], 'cfg': 0} for d in all_dirs(w)]
    fs += [{'path': cps(p), 'kind': 'file', 'data': cps(t), 'cfg': 0} for p, t in w['files'].items()]
    fs += [{'path': cps(p), 'kind': 'conf', 'data': [], 'cfg': confidx(c)} for p, c in w['confs'].items()]
    runs = [{'args': [cps(a) for a in r['args']], 'env': {k: opt(v) for k, v in r['env'].items()}, 'term': r['term'],
             'sink': r['sink'], 'stdin': {'t': r['stdin']['t'], 's': cps(r['stdin']['s'])}} for r in w['runs']]
    return {'fs': fs, 'runs': runs, 'global': cps(GLOBAL), 'view': w['view'],
            'claims': [{'t': c['t'], 'a': c['a'], 'b': c['b'], 's': cps(c['s']), 'x': cps(c['x'])} for c in w.get('claims', [])]}


ENCODINGS = {'iso-8859-1': 'ISO-8859-1', 'iso-8859-15': 'ISO-8859-15', 'ascii': 'US-ASCII'}
_SUBST = {}


def substitute(c, codec):
    """What the platform's converter (iconv) writes for a character which an encoding does not have."""
    if (c, codec) not in _SUBST:
        r = subprocess.run(['iconv', '-f', 'UTF-8', '-t', ENCODINGS[codec] + '//TRANSLIT'], input=c.encode('utf-8'),
                           capture_output=True, env={'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PATH': '/usr/bin:/bin'})
        _SUBST[c, codec] = r.stdout.decode(codec) if r.returncode == 0 else '?'
    return _SUBST[c, codec]


def substitutes(worlds):
    out, done = [], set()
    for w in worlds:
        for codec in {r.get('codec') or w['codec'] for r in w['runs']} - {'utf-8'}:
            for t in [c.text for c in w['confs'].values()] + [r['stdin']['s'] for r in w['runs']]:
                for ch in set(t):
                    if ord(ch) > 127 and (ch, codec) not in done:
                        done.add((ch, codec))
                        try:
                            ch.encode(codec)
                        except UnicodeEncodeError:
                            out.append({'enc': cps(ENCODINGS[codec]), 'c': ord(ch), 's': cps(substitute(ch, codec))})
    return out


class Batch:
    """Worlds (with observations) as JSON; configuration files are shared between worlds."""
    def __init__(self):
        self.configs, self.index, self.worlds, self.orig = [], {}, [], []

    def conf(self, c):
        if id(c) not in self.index:
            self.configs.append(c)
            self.index[id(c)] = len(self.configs)
        return self.index[id(c)]

    def add(self, w, obs=None, files=None):
        t = tla_world(w, self.conf)
        if obs is not None:
            t['obs'] = [{k: o[k] for k in ('rc', 'says', 'out', 'stable')} for o in obs]
            t['files'] = [{'path': cps(f['path']), 'data': f['data']} for f in files]
        self.worlds.append(t)
        self.orig.append(w)

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump({'configs': [c.tla for c in self.configs], 'worlds': self.worlds,
                       'substitutes': substitutes(self.orig)}, f)


# ------------------------------------------------------------------ TLC
class TlcResult:
    pass


def tlc(module, cfg, scratch, envs, workers=WORKERS, timeout=850, heap='6g', extra=()):
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.update(envs)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-XX:TieredStopAtLevel=4', '-cp', JAVA_CP,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError('TLC timed out')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout
    res.rc = r.returncode
    res.wall = time.time() - t0
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', r.stdout)
    res.generated, res.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return res


def tla_parse(s):
    """Parse a printed TLA+ value made of tuples, numbers, strings and booleans."""
    toks = re.findall(r'<<|>>|,|-?\d+|TRUE|FALSE|"[^"]*"', s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '<<':
            out = []
            while toks[pos] != '>>':
                if toks[pos] == ',':
                    pos += 1
                    continue
                out.append(val())
            pos += 1
            return out
        if t in ('TRUE', 'FALSE'):
            return t == 'TRUE'
        if t[0] == '"':
            return t[1:-1]
        return int(t)
    return val()


def verdicts(out):
    """Lines printed by the specification: "@@<<case, ...>>"."""
    res = {}
    for line in out.split('\n'):
        if line.startswith('"@@'):
            v = tla_parse(line[3:-1])
            res[v[0]] = v[1:]
    return res


def conformance(worlds, results, scratch, timeout=850):
    """Check observations against the specification. Returns (verdict per world, TlcResult)."""
    b = Batch()
    for w, (obs, files) in zip(worlds, results):
        b.add(w, obs, files)
    path = os.path.join(scratch, 'batch-%s.json' % hashlib.md5(os.urandom(8)).hexdigest()[:8])
    b.dump(path)
    r = tlc('Trace.tla', 'Trace.cfg', scratch, {'BATCH': path}, timeout=timeout)
    os.unlink(path)
    v = verdicts(r.out)
    missing = [i for i in range(1, len(worlds) + 1) if i not in v]
    if missing:
        o = r.out
        at = max(0, o.find('rror:') - 100)
        raise HarnessError('no verdict for %d of %d worlds (first: %d)\n%s' % (len(missing), len(worlds), missing[0], o[at:at + 700] + "..." + o[-1500:]))
    return [v[i] for i in range(1, len(worlds) + 1)], r


def text(cp):
    return ''.join(chr(c) if c >= 0 else '\\x%02x' % (-c - 1) for c in cp)
