#!/usr/bin/env python3
"""Decide one property: run boxes in many worlds and check what it did against the specification.

    check.py C01                     (VERIF_SEED and VERIF_TIER are honored)
    check.py C01 --replay FILE       run a reported violation again
    check.py C01 --count 50          another number of worlds
"""
import argparse, copy, hashlib, json, os, random, re, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc, props
from bxlib import *

EVIDENCE = os.path.join(VERIF, 'evidence')
ASAN = ('-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer')
ASAN_ENV = {'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:allocator_may_return_null=1'}


class StoredConf:
    """A configuration file from a replay file."""
    def __init__(self, text, tla):
        self.text, self.tla = text, tla


def to_json(w):
    d = {k: v for k, v in w.items() if k != 'confs'}
    d['confs'] = {p: {'text': c.text, 'tla': c.tla} for p, c in w['confs'].items()}
    return d


def from_json(d):
    w = dict(d)
    w['confs'] = {p: StoredConf(c['text'], c['tla']) for p, c in d['confs'].items()}
    return w


def size(w):
    return sum(len(c.text) for c in w['confs'].values()) + sum(len(r['stdin']['s']) + sum(map(len, r['args'])) for r in w['runs']) + 200 * len(w['runs'])


def corrupted(rng, w, res):
    """A record that differs from what the program did."""
    obs, files = copy.deepcopy(res)
    o = obs[rng.randrange(len(obs))]
    if rng.random() < .5 or w['view'] != 'full' or not o['out'] or set(w['runs'][0]['args']) & {'-h', '--help', '-v', '--version', '-?'}:
        o['rc'] = 1 - o['rc'] if o['rc'] in (0, 1) else 0
    else:
        k = rng.randrange(len(o['out']))
        o['out'] = o['out'][:k] + [35 if o['out'][k] != 35 else 36] + o['out'][k + 1:]
    return obs, files


def world_id(w):
    return hashlib.sha1(json.dumps(to_json(w), sort_keys=True).encode()).hexdigest()[:12]


def known_findings(pid):
    """World ids of the violations which are listed as known, with their descriptions."""
    out = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for l in f:
            m = re.match(r'known: property=(\S+) world=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, scratch):
        self.pid, self.scratch = pid, scratch
        exe = build(scratch)
        shim = build_shim(scratch)
        self.runners = [Runner(exe, scratch, shim)]
        if pid == 'C25':
            self.runners.append(Runner(build(scratch, ASAN, 'asan'), scratch, None, timeout=30, extra_env=ASAN_ENV, limit=0))
        self.tlc_states = self.tlc_generated = self.worlds = self.corrupt = self.claims = self.outside = 0
        self.families, self.live = {}, {}

    def judge(self, worlds, rng, corrupt=3):
        """Run the worlds and check them. Returns [(world, observations, verdict)] of those that break the property."""
        bad = []
        for runner in self.runners:
            res = runner.execute_all(worlds)
            ws = [(w, r) for w, r in zip(worlds, res) if r is not None]
            fakes = [(w, corrupted(rng, w, r)) for w, r in ws[:corrupt]]
            v, t = conformance([w for w, _ in ws + fakes], [r for _, r in ws + fakes], self.scratch)
            self.tlc_states += t.distinct
            self.tlc_generated += t.generated
            self.worlds += len(ws)
            self.claims += sum(len(w['claims']) for w, _ in ws)
            for (w, _), x in zip(ws, v):
                if x[2]:
                    # the specification itself does not have this relation here, so it is not part of the property
                    self.outside += 1
                    if os.environ.get('BX_STRICT'):
                        raise HarnessError('the specification breaks claim %s in world %s' % (x[2], json.dumps(to_json(w))))
                    x[1] = [k for k in x[1] if k not in x[2]]
            genuine = [x[0] and not x[1] for x in v[:len(ws)]]
            for (w, _), x, ok in zip(fakes, v[len(ws):], genuine):
                if ok and x[0]:
                    raise HarnessError('a corrupted record was accepted')
                self.corrupt += 1
            bad += [(w, r, x, runner) for (w, r), x, ok in zip(ws, v, genuine) if not ok]
        return bad

    def explore(self, family, scope, known, timeout):
        """Let TLC explore a family of worlds, and run boxes in each of them. Returns what breaks the property, as judge."""
        cases, t = mc.explore(family, scope, self.scratch, timeout)
        self.families[family] = {'scope': scope, 'worlds': len(cases), 'invocations': sum(len(c[0]['runs']) for c in cases),
                                 'states': t.distinct, 'transitions': t.generated, 'wall_s': round(t.wall, 1)}
        self.tlc_states += t.distinct
        self.tlc_generated += t.generated
        bad = []
        for runner in self.runners:
            res = runner.execute_all([c[0] for c in cases])
            self.worlds += len(res) - res.count(None)
            self.claims += sum(len(c[0]['claims']) for c in cases)
            off = [(c[0], r) for c, r in zip(cases, res) if r is not None and not mc.agrees(c[1], c[2], *r) and world_id(c[0]) not in known]
            off = sorted(off, key=lambda b: size(b[0]))[:6]
            if off:
                v, _ = conformance([w for w, _ in off], [r for _, r in off], self.scratch)
                off = [(w, r, x, runner) for (w, r), x in zip(off, v) if not x[0] or x[1]]
                if not off:
                    raise HarnessError('the comparison in family %s differs from the one in Trace.tla' % family)
                bad += off
        return bad

    def confirm(self, bad, rng):
        """Violations that are not merely runs which were slow on this machine."""
        sure = []
        for w, r, x, runner in sorted(bad, key=lambda b: size(b[0]))[:6]:
            if any(o['rc'] == HUNG for o in r[0]):
                runner.timeout, runner.hung = 40, 0
                again = self.judge_one(w, runner)
                if again is None:
                    continue
                r, x = again
            sure.append((w, r, x))
            break
        return sure

    def judge_one(self, w, runner):
        r = runner.execute(w)
        v, _ = conformance([w], [r], self.scratch)
        return None if v[0][0] and not v[0][1] else (r, v[0])

    def explain(self, w, r, x):
        lines = []
        for k, (q, o) in enumerate(zip(w['runs'], r[0])):
            lines.append('run %d: boxes %s' % (k + 1, ' '.join(repr(a) for a in q['args'])))
            lines.append('  input    %s' % ('output of the run before' if q['stdin']['t'] == 'prev' else repr(q['stdin']['s'][:500])))
            lines.append('  observed status %s, output %r' % (o['rc'], text(o['out'])[:1500]) + ('' if o['stable'] else ' (and something else when run again)'))
            if o['err']:
                lines.append('  messages %r' % o['err'][:300])
            s = x[4][k] if k < len(x[4]) else []
            if s:
                lines.append('  expected status %s, %soutput %r' % (s[0], 'a message, ' if s[1] else '', text(s[2])[:1500]))
        if not x[3]:
            lines.append('files differ from what is expected: ' + ', '.join('%s %r' % (f['path'], text(f['data'])[:200]) for f in r[1]))
        for k in x[1]:
            lines.append('broken claim: %s' % json.dumps(w['claims'][k - 1]))
        return lines


def report(check, w, r, x):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, 'replay-%s.json' % check.pid)
    with open(path, 'w') as f:
        json.dump({'property': check.pid, 'world': to_json(w), 'explanation': check.explain(w, r, x),
                   'how': 'python3 harness/check.py %s --replay %s' % (check.pid, path)}, f, indent=1)
    for l in check.explain(w, r, x):
        print(l)
    print('VIOLATION property=%s replay=%s' % (check.pid, os.path.relpath(path, VERIF)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--count', type=int)
    ap.add_argument('--families', help='explore these families of worlds, instead of those of the property')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    t0 = time.time()
    gen, count = props.GENS[a.pid]
    scratch = tempfile.mkdtemp(prefix='bx-')
    try:
        check = Check(a.pid, scratch)
        rng = random.Random('%s-%d' % (a.pid, a.seed))
        samples, bad, nruns = [], [], 0
        known = known_findings(a.pid)
        for what in known.values():
            print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
        families = mc.FAMILIES[a.pid]
        if a.families is not None:
            families = a.families.split(',') if a.families else []
        if not a.replay:
            for f in families:
                deep = a.tier == 'thorough'
                bad = check.explore(f, 'deep' if deep or f in mc.CHEAP else 'quick', known, 3000 if deep else 800)
                if bad:
                    break
            for f in mc.LIVE.get(a.pid, {}).get('thorough' if a.tier == 'thorough' else 'quick', []) if families and not bad else []:
                t = mc.live(f, 'quick', scratch, 3000 if a.tier == 'thorough' else 800)
                check.live[f] = {'property': 'C25_Terminates == <>(pc = "end")', 'states': t.distinct, 'wall_s': round(t.wall, 1)}
        if bad:
            batches = []
        elif a.replay:
            with open(a.replay) as f:
                batches = [[from_json(json.load(f)['world'])]]
        elif a.tier == 'thorough' and not a.count:
            budget = float(os.environ.get('VERIF_BUDGET') or 600)
            batches = ([gen(rng, k) for k in range(b * count, (b + 1) * count)] for b in range(1000) if time.time() - t0 < budget)
        else:
            n = a.count or count
            batches = [[gen(rng, k) for k in range(n)]]
        for ws in batches:
            nruns += sum(len(w['runs']) for w in ws)
            if len(samples) < 3:
                samples += [{'runs': [[r['args'], r['stdin']['s'][:300]] for r in w['runs']], 'view': w['view'],
                             'configuration': {p: c.text[:600] for p, c in w['confs'].items()}, 'claims': w['claims']} for w in ws[:3]]
            bad = [b for b in check.judge(ws, rng, 0 if a.replay else 3) if world_id(b[0]) not in known]
            if bad:
                break
        sure = check.confirm(bad, rng) if bad else []
        if not a.replay:
            os.makedirs(EVIDENCE, exist_ok=True)
            with open(os.path.join(EVIDENCE, a.pid + '.json'), 'w') as f:
                json.dump({
                    'property': a.pid, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
                    'coverage': {
                        'states': check.tlc_states, 'transitions': check.tlc_generated, 'traces_validated_against_impl': check.worlds,
                        'invocations': sum(r.count for r in check.runners), 'claims_between_runs_checked': check.claims - check.outside, 'claims_not_applicable': check.outside,
                        'families_explored_completely': check.families, 'temporal_properties_checked': check.live,
                        'corrupted_records_rejected': check.corrupt, 'samples': samples},
                    'assumptions': ['the configuration text given to boxes is rendered from the same abstract entries the specification reads',
                                    'glibc, libunistring, PCRE2 and iconv behave as modelled in spec/Chars.tla, spec/Regex.tla'],
                    'wall_s': round(time.time() - t0, 2), 'violations': len(sure)}, f, indent=1)
        if sure:
            report(check, *sure[0])
            return 1
        print('%s: families %s explored' % (a.pid, ', '.join('%s (%d worlds)' % (f, v['worlds']) for f, v in check.families.items()) or 'none'))
        print('%s: %d worlds (%d invocations) as specified, %d claims hold, %d states, %.1f s' %
              (a.pid, check.worlds, sum(r.count for r in check.runners), check.claims - check.outside, check.tlc_states, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except HarnessError as e:
        print('ERROR (machinery): %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
