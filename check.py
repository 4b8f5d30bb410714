#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--thorough] | --replay FILE.

1. the specification is checked by itself (TLC over spec/Design.tla);
2. sessions are played with the real code of /repo and every recorded answer
   is judged by the specification (TLC over spec/Trace.tla).
Exit 0: held; 1: VIOLATION; 2: the machinery failed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LANES = 8
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import design  # noqa: E402
import plan  # noqa: E402

ASSUMPTIONS = [
    'the recorder reports the public calls and answers of /repo/src faithfully',
    'URLs are texts without white space at the start, control characters or bracketed or non-ASCII hosts',
    'min_cluster_num is at least 2; nothing is loaded while a make() iteration is being consumed',
    'bounded exploration: the specification judges every answer recorded, not every answer possible',
]


class Machinery(Exception):
    pass


def tlc(module, cfg, env, work, extra=(), timeout=840, heap='2500m', workers=1):
    """(return code, output)"""
    md = tempfile.mkdtemp(prefix='md-', dir=work)
    e = dict(os.environ)
    e.update(env)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xss256m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + md,
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, 'spec'), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')
BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def readable(e):
    def conv(v):
        if isinstance(v, list) and v and all(isinstance(x, int) and 9 <= x < 0x110000 for x in v):
            return ''.join(map(chr, v))
        if isinstance(v, list):
            return [conv(x) for x in v]
        if isinstance(v, dict):
            return {k: x if k in ('x', 'ms', 'rank', 'mem') and not isinstance(x, str) and e['op'] != 'digest' else conv(x)
                    for k, x in v.items()}
        return v
    return conv(e)


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plan.PLAN[prop]
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-check-')
        self.lock = threading.Lock()
        self.stop = False
        self.viol = []
        self.errors = []
        self.sessions = self.events = self.chunks = 0
        self.counts = {}
        self.states = self.transitions = self.unjudged = 0
        self.design = []
        self.samples = []

    # -- the specification by itself --------------------------------------
    def check_design(self):
        i = 0
        while not self.stop:
            d = design.write(self.prop, i, self.tier, os.path.join(self.work, 'design%d' % i))
            i += 1
            if d is None:
                return
            name, module, cfg, unis = d
            rc, out = tlc(module, cfg, dict(UNI=unis), self.work, timeout=plan.BUDGET[self.tier] + 500,
                          heap='4g')
            m = STATS.findall(out)
            if rc != 0 or not m:
                raise Machinery('the specification breaks %s:\n%s' % (name, out[-3000:]))
            with self.lock:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
                self.design.append(dict(model=name, states=int(m[-1][1]), exhaustive=True))

    def behaviours(self):
        """Behaviours of the specification, to be replayed into the code."""
        b = self.plan.get('behaviours')
        if not b:
            return None
        n, depth = b[self.tier]
        path = os.path.join(self.work, 'behaviours')
        unis = json.loads(subprocess.check_output(
            [sys.executable, '-B', '-c', 'import sys, json; sys.path.insert(0, %r); import scen; '
             'print(json.dumps(scen.universes(%d)))' % (os.path.join(HERE, 'lib'), self.seed)]))
        enc = [dict(urls=[design.t(x) for x in u['urls']], pats=[design.t(x) for x in u['pats']], ms=u['ms']) for u in unis]
        with open(path + '.json', 'w') as f:
            json.dump(enc, f)
        rc, out = tlc('Behave.tla', 'Behave.cfg', dict(UNI=path + '.json', DEPTH=str(depth)), self.work,
                      ['-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(self.seed)])
        got = [json.loads(json.loads('"%s"' % g)) for g in re.findall(r'^"BEHAVIOUR (.*)"$', out, re.M)]
        if len(got) < n // 2:
            raise Machinery('no behaviours:\n' + out[-3000:])
        got = got[:2 * n]
        with open(path + '.nd', 'w') as f:
            for g in [unis] + got:
                f.write(json.dumps(g) + '\n')
        with self.lock:
            self.design.append(dict(model='behaviours generated by TLC and replayed into the code',
                                    behaviours=len(got), steps=sum(len(g['hist']) for g in got), exhaustive=False))
        return path + '.nd'

    # -- the code against the specification --------------------------------
    def play(self, path, part, start, count, enum, behave=''):
        env = dict(os.environ, PYTHONHASHSEED='0' if part % 2 else str(part))
        cmd = [PY, '-B', os.path.join(HERE, 'lib', 'worker.py'), self.prop, self.tier, str(self.seed),
               str(part), str(LANES), path, str(start), str(count), '1' if enum else '0', behave]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=840)
        if p.returncode != 0:
            raise Machinery('worker failed:\n' + p.stderr.decode('utf-8', 'replace')[-3000:])
        return json.loads(p.stdout.decode().strip().split('\n')[-1])

    def judge(self, path, info):
        for attempt in range(6):
            rc, out = tlc('Trace.tla', 'Trace.cfg', dict(TRACE=path, PROP=self.prop), self.work)
            bad = [(int(a), b) for a, b in BAD.findall(out)]
            if rc == 0 or bad:
                break
            # an event TLC cannot evaluate: its session is put aside
            at = [int(x) for x in re.findall(r'/\\ l = (\d+)', out)]
            if not at or attempt == 5:
                raise Machinery('TLC failed (%d):\n%s' % (rc, out[-3000:]))
            print('UNJUDGED %s' % ' '.join(out[out.find('Error:'):][:600].split()), file=sys.stderr)
            with self.lock:
                self.unjudged += 1
            self.drop(path, max(at))
        m = STATS.findall(out)
        with self.lock:
            self.sessions += info['sessions']
            self.events += info['events']
            self.chunks += 1
            for k, v in info['counts'].items():
                self.counts[k] = self.counts.get(k, 0) + v
            if m:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
        if bad or len(self.samples) < 2:
            self.extract(path, bad)

    @staticmethod
    def drop(path, n):
        lines = open(path).read().split('\n')[:-1]
        i = min(n, len(lines)) - 1
        j = i + 1
        while i > 0 and not lines[i].startswith('{"op":"reset"'):
            i -= 1
        while j < len(lines) and not lines[j].startswith('{"op":"reset"'):
            j += 1
        with open(path, 'w') as f:
            f.write(''.join(l + '\n' for l in lines[:i] + lines[j:]))

    def extract(self, path, bad):
        lines = open(path).read().split('\n')[:-1]
        if not bad:
            resets = [i for i, l in enumerate(lines) if l.startswith('{"op":"reset"')]
            i = resets[len(resets) // 2]
            s = [readable(json.loads(l)) for l in lines[i:i + 12]]
            with self.lock:
                self.samples.append(dict(events=s))
            return
        n, why = bad[0]
        n = min(n, len(lines))
        i = n - 1
        while i > 0 and not lines[i].startswith('{"op":"reset"'):
            i -= 1
        with self.lock:
            self.viol.append(dict(why=why, trace=lines[i:n], bad=len(bad)))
            self.stop = True

    def lane(self, part):
        try:
            quick, thorough = self.plan['sessions']
            total = quick if self.tier == 'quick' else thorough
            budget = plan.BUDGET[self.tier]
            chunk = self.plan.get('chunk', 400)
            done = 0
            first = True
            while not self.stop and (first or (done < total and time.time() - self.t0 < budget)):
                n = min(chunk, total - done)
                path = os.path.join(self.work, 't%d.nd' % part)
                behave = self.behave or ''
                info = self.play(path, part, done, n, first, behave if first else '')
                self.judge(path, info)
                os.unlink(path)
                first = False
                done += n
        except Exception as e:
            with self.lock:
                self.errors.append('%s: %s' % (type(e).__name__, e))
                self.stop = True

    def design_lane(self):
        try:
            self.check_design()
        except Exception as e:
            with self.lock:
                self.errors.append('%s: %s' % (type(e).__name__, e))
                self.stop = True

    def run(self):
        try:
            self.behave = self.behaviours()
            ts = [threading.Thread(target=self.design_lane)]
            ts += [threading.Thread(target=self.lane, args=(i,)) for i in range(LANES)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def evidence(self):
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.sessions, events_judged=self.events,
                   events_by_kind=self.counts, design=self.design, samples=self.samples[:2] or self.viol[:1] or ['none'],
                   sessions_put_aside=self.unjudged, rule=self.plan['rule'])
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                           assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol)), f, indent=1)
            f.write('\n')


def known(prop):
    """The listed findings of the property that (still) fail as listed."""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=%s id=(\S+) (.*)' % prop, l)
            if m:
                out[m.group(1)] = 'property=%s %s' % (prop, m.group(2).strip())
    if out:
        p = subprocess.run([PY, '-B', os.path.join(HERE, 'lib', 'probes.py')] + sorted(out), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        got = p.stdout.decode().split()
        return [out[k] for k in got if k in out]
    return []


def save(prop, v, tier, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, clauses=v['why'], tier=tier, seed=seed,
                       history=[readable(json.loads(l)) for l in v['trace']], trace=v['trace']), f, indent=1)
        f.write('\n')
    return path


def replay(path):
    """Judge the recorded history again."""
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        t = os.path.join(work, 't.nd')
        with open(t, 'w') as f:
            f.write('\n'.join(r['trace']) + '\n')
        for e in r['history']:
            print(json.dumps(e))
        rc, out = tlc('Trace.tla', 'Trace.cfg', dict(TRACE=t, PROP=r['property']), work)
        print(BAD.findall(out) or out[-2000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    r = Run(prop, tier, seed)
    r.run()
    r.evidence()
    if r.viol:
        v = r.viol[0]
        path = save(prop, v, tier, seed)
        for l in v['trace'][-1:]:
            print('broken: {%s}' % ' '.join(v['why'].split()))
            print(json.dumps(readable(json.loads(l)))[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if r.errors:
        for e in r.errors[:3]:
            print('MACHINERY %s' % e, file=sys.stderr)
        return 2
    for k in known(prop):
        print('KNOWN-FINDING: %s' % k)
    print('%s held: %d sessions, %d answers judged, %d states, %.0f s' %
          (prop, r.sessions, r.events, r.states, time.time() - r.t0))
    return 0


sys.exit(main(sys.argv[1:]))
