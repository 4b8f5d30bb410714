"""Records what the code under test answers, one event per public call.

The code is imported from /repo's working tree.  Every event is one line of
JSON for spec/Trace.tla; texts are lists of code points.
"""
import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'src'))

OP_CPU_SECONDS = 20
# metadata that is false as a truth value is metadata; 1 and '1' are two
TAGS = {1: 0, 2: '', 3: (), 4: frozenset(), 6: 1, 7: '1'}


class Plain(object):
    """Metadata with a text."""

    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t


class Pair(tuple):
    """Metadata that is a tuple."""

    def __str__(self):
        return self[0]


class Many(frozenset):
    def __str__(self):
        return min(self)


def decodable(x):
    try:
        x.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


class OpTimeout(BaseException):
    pass


class Enough(BaseException):
    """Calls do not return: no use in going on."""


def _alarm(signum, frame):
    raise OpTimeout()


class Code(object):
    """The public interface of the code under test."""

    def __init__(self):
        from os_urlpattern import cmdline, exceptions
        from os_urlpattern.config import get_default_config
        from os_urlpattern.formatter import pformat
        from os_urlpattern.parser import fuzzy_digest, parse
        from os_urlpattern.pattern import Pattern
        from os_urlpattern.pattern_maker import Maker, PatternMaker
        from os_urlpattern.pattern_matcher import Matcher, PatternMatcher
        from os_urlpattern.utils import dump_tree
        self.__dict__.update(locals())


def text(s):
    if not isinstance(s, str):
        raise TypeError('not a text: %r' % (s,))
    return [ord(c) for c in s]


def number(n):
    if isinstance(n, bool) or not isinstance(n, int) or abs(n) >= 2 ** 30:
        raise TypeError('not a number: %r' % (n,))
    return n


def boolean(b):
    if not isinstance(b, bool):
        raise TypeError('not a boolean: %r' % (b,))
    return b


class Rec(object):
    def __init__(self, out, code):
        self.out = out
        self.code = code
        self.sessions = 0
        self.events = 0
        self.counts = {}
        self.label = 'enumeration'
        self.timeouts = 0
        self.reset()
        self.sessions = 0

    crew = None
    prop = ''

    # -- bookkeeping ------------------------------------------------------
    def emit(self, **e):
        if self.crew is not None and self.crew.mine() is not None:
            self.crew.mine().events.append(e)
            return e
        self.events += 1
        self.counts[e['op']] = self.counts.get(e['op'], 0) + 1
        if self.out is not None:
            self.out.write(json.dumps(e, separators=(',', ':')) + '\n')
        return e

    def reset(self, note=''):
        """A new process: nothing is remembered."""
        self.ids = {}
        self.n = 0
        self.makers = {}
        self.matchers = {}
        self.shards = {}
        self.mshards = {}
        self.canon = {}
        self.dressed = {}
        self.sessions += 1
        self.emit(op='reset', note=note, session=self.label)

    def guarded(self, fn):
        """(result, '') or (None, name of the exception)."""
        if self.timeouts >= 2:
            raise Enough()
        ex = self.code.exceptions
        single = self.crew is None
        if single:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, OP_CPU_SECONDS)
        try:
            return fn(), ''
        except OpTimeout:
            self.timeouts += 1
            return None, 'Timeout'
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:
            for c in (ex.IrregularURLException, ex.InvalidCharException, ex.InvalidPatternException):
                if isinstance(e, c):
                    return None, c.__name__
            if type(e) is not ValueError and isinstance(e, ValueError) and not isinstance(e, UnicodeError):
                return None, 'ValueError'
            return None, type(e).__name__
        finally:
            if single:
                signal.setitimer(signal.ITIMER_PROF, 0)

    def threads(self, plans, rng):
        """Play several lists of operations at once, each in a thread of its
        own; every thread's events follow one another."""
        self.crew = Crew(plans, rng, os.path.join(REPO, 'src') + os.sep)
        try:
            done = self.crew.run()
        finally:
            self.crew = None
        for hand in done:
            for e in hand.events:
                self.emit(**e)
            if hand.exc is not None:
                if isinstance(hand.exc, (OpTimeout, Enough)):
                    self.timeouts += 1
                self.emit(op='broken', exc='thread: %s' % type(hand.exc).__name__)

    def new_id(self, meta):
        if meta not in self.ids:
            self.n += 1
            self.ids[meta] = self.n
        return self.ids[meta]

    def id_of(self, meta):
        try:
            return self.ids.get(meta, 0)
        except TypeError:
            return 0

    # -- parsing ----------------------------------------------------------
    def parse(self, u):
        def go():
            meta, pieces = self.code.parse(u)
            return dict(depth=number(meta.path_depth), keys=[text(k) for k in meta.query_keys],
                        frag=boolean(meta.has_fragment),
                        comps=[dict(t=text(p.piece), len=number(p.piece_length), fz=text(p.fuzzy_rule),
                                    runs=[dict(t=text(a), r=text(b)) for a, b in zip(p.pieces, p.rules)]
                                    if len(p.pieces) == len(p.rules) else [])
                               for p in pieces])
        r, exc = self.guarded(go)
        r = r or dict(depth=0, keys=[], frag=False, comps=[])
        return self.emit(op='parse', u=text(u), exc=exc, **r)

    def parsep(self, p):
        def go():
            meta, pats = self.code.parse(p)
            return dict(depth=number(meta.path_depth), keys=[text(k) for k in meta.query_keys],
                        frag=boolean(meta.has_fragment), comps=[dict(t=text(x.piece if hasattr(x, 'piece') else str(x))) for x in pats])
        r, exc = self.guarded(go)
        r = r or dict(depth=0, keys=[], frag=False, comps=[])
        return self.emit(op='parsep', p=text(p), exc=exc, **r)

    def digest(self, x, kind):
        def go():
            return text(self.code.fuzzy_digest(x)), text(self.code.fuzzy_digest(*self.code.parse(x)))
        r, exc = self.guarded(go)
        d, d2 = r or ([], [])
        return self.emit(op='digest', x=text(x), kind=kind, exc=exc, d=d, d2=d2)

    # -- maker ------------------------------------------------------------
    def config(self, m):
        cfg = self.code.get_default_config()
        cfg.set('make', 'min_cluster_num', str(m))
        return cfg

    def maker(self, k, m, default=False):
        """default: rely on the built-in configuration (m must be 3)."""
        self.makers[k] = self.code.PatternMaker() if default else self.code.PatternMaker(self.config(m))
        self.shards[k] = (m, {})
        return self.emit(op='maker', k=k, m=m)

    def digest_of(self, x, url_meta, objs, low):
        return self.code.fuzzy_digest(x) if low == 'text' else self.code.fuzzy_digest(url_meta, objs)

    def load(self, k, u, tag=None, canon=None, nometa=False, low=False):
        """Meta is the URL itself, or a tag."""
        if nometa:
            meta, x = None, []
        elif tag is None:
            meta, x = u, [self.new_id(u)]
            if self.prop == 'C25':
                meta = self.dressed.setdefault(u, [u, Plain(u), Pair((u, u + '!')), Pair((u,)), Many([u]), u][x[0] % 6])
                self.ids[meta] = x[0]
            if canon is not None:
                self.canon[u] = canon
        else:
            meta, x = TAGS.get(tag, ('tag', tag)), [-tag]

        def go():
            if low:
                m, shards = self.shards[k]
                url_meta, pieces = self.code.parse(u)
                d = self.digest_of(u, url_meta, pieces, low)
                if d not in shards:
                    shards[d] = self.code.Maker(url_meta, self.config(m))
                return boolean(shards[d].load(pieces, meta)[1])
            return boolean(self.makers[k].load(u, meta)[1])
        new, exc = self.guarded(go)
        return self.emit(op='load', k=k, u=text(u), x=x, new=bool(new), exc=exc)

    def cluster(self, url_meta, root):
        pats = list(self.code.pformat('pattern', url_meta, root))
        if len(pats) != 1:
            raise TypeError('%d patterns for one cluster' % len(pats))
        pat = pats[0]
        mem = []
        ok = True
        for nodes in self.code.dump_tree(root):
            for meta in (nodes[-1].meta or ()):
                tags = [-t for t, v in TAGS.items() if type(v) is type(meta) and v == meta]
                if type(meta) is tuple and len(meta) == 2 and meta[0] == 'tag':
                    mem.append(-number(meta[1]))
                elif tags or not meta:
                    mem.append(min(tags or [0]))
                else:
                    mem.append(self.id_of(meta))
                    c = self.canon.get(meta)
                    if ok and c is not None:
                        ok = re.fullmatch(pat, c) is not None and self.code.Pattern(pat).match(c) is True
        paths, odd = [], []
        if self.prop == 'C21':
            paths = [dict(x=self.id_of(meta), t=[text(n.piece) for n in nodes[1:]])
                     for nodes in self.code.dump_tree(root) for meta in (nodes[-1].meta or ())]
        elif self.prop == 'C05':
            def walk(node):
                below = sum([walk(c) for c in node.children]) or 1
                if node.count != below:
                    odd.append(dict(cnt=number(node.count), below=below))
                return below
            walk(root)
        return dict(pat=text(pat), cnt=number(root.count), mem=sorted(mem), re=ok, paths=paths, odd=odd)

    def iterate(self, k, low=False):
        """The iteration of make, cluster by cluster."""
        if low:
            for maker in list(self.makers[k].makers if low == 'makers' else self.shards[k][1].values()):
                for root in maker.make():
                    yield self.cluster(maker.url_meta, root)
        else:
            for url_meta, root in self.makers[k].make():
                yield self.cluster(url_meta, root)

    def made(self, k, cl, exc):
        return self.emit(op='make', k=k, cl=cl or [], exc=exc)

    def make(self, k, low=False):
        cl, exc = self.guarded(lambda: list(self.iterate(k, low)))
        return self.made(k, cl, exc)

    def bare(self, k):
        """What a maker makes some or all of whose URLs have no metadata."""
        cl, exc = self.guarded(lambda: list(self.iterate(k)))
        return self.emit(op='bare', k=k, cl=cl or [], exc=exc)

    def formats(self, k):
        """Every cluster in every format."""
        def go():
            out = []
            for url_meta, root in self.makers[k].make():
                c = self.cluster(url_meta, root)
                f = lambda name: list(self.code.pformat(name, url_meta, root))
                js = []
                for x in f('json'):
                    o = json.loads(x)
                    if sorted(o) != ['cnt', 'ptn']:
                        raise TypeError('keys of JSON')
                    js.append(dict(ptn=text(o['ptn']), cnt=number(o['cnt'])))
                out.append(dict(cl=c, pattern=[text(x) for x in f('Pattern')], cluster=[text(x) for x in f('CLUSTER')],
                                inline=[text(x) for x in f('inline')], json=js, null=[text(x) for x in f('null')]))
            return out
        r, exc = self.guarded(go)
        return self.emit(op='formats', k=k, fs=r or [], exc=exc)

    def combine(self, k):
        def go():
            trees = []
            for url_meta, root in self.makers[k].make(combine=True):
                nodes = []

                def walk(node, path):
                    ch = list(node.children)
                    nodes.append(dict(path=path, cnt=number(node.count), leaf=not ch))
                    for c in ch:
                        walk(c, path + [text(str(c.value))])
                walk(root, [])
                art = '\n'.join(self.code.pformat('ete', url_meta, root))
                trees.append(dict(depth=number(url_meta.path_depth), keys=[text(x) for x in url_meta.query_keys],
                                  frag=boolean(url_meta.has_fragment), nodes=nodes, ete=labels(art)))
            return trees
        t, exc = self.guarded(go)
        return self.emit(op='combine', k=k, trees=t or [], exc=exc)

    # -- matcher ----------------------------------------------------------
    def matcher(self, k):
        self.matchers[k] = self.code.PatternMatcher()
        self.mshards[k] = {}
        return self.emit(op='matcher', k=k)

    def loadp(self, k, p, nometa=False, low=False, odd=None):
        if nometa:
            meta, x = None, []
        else:
            self.n += 1
            meta, x = ('pattern', self.n), [self.n]
            if odd is not None and odd not in self.ids:
                meta = odd
            self.ids[meta] = self.n

        def go():
            if low:
                url_meta, pats = self.code.parse(p)
                d = self.digest_of(p, url_meta, pats, low)
                if d not in self.mshards[k]:
                    self.mshards[k][d] = self.code.Matcher(url_meta)
                return boolean(self.mshards[k][d].load(pats, meta)[1])
            return boolean(self.matchers[k].load(p, meta)[1])
        new, exc = self.guarded(go)
        return self.emit(op='loadp', k=k, p=text(p), x=x, new=bool(new), exc=exc)

    def match(self, k, u, rank=False, low=False):
        def go():
            if low:
                url_meta, pieces = self.code.parse(u)
                d = self.digest_of(u, url_meta, pieces, low)
                r = self.mshards[k][d].match(pieces) if d in self.mshards[k] else []
            else:
                r = self.matchers[k].match(u)
            r = list(r)
            ms = [self.id_of(n.meta) for n in r]
            return ms, [self.id_of(n.meta) for n in sorted(r, reverse=True)] if rank else []
        r, exc = self.guarded(go)
        ms, rk = r or ([], [])
        return self.emit(op='match', k=k, u=text(u), ms=ms, rank=rk, exc=exc)

    # -- another process ----------------------------------------------------
    child = None
    asked = 0

    def elsewhere(self, ops, seed=0):
        """Play operations [name, arguments...] in another process that has
        done nothing before, with other hashes of texts; its answers are those
        of this session too."""
        for op in ops:
            if op[0] == 'load':
                self.new_id(op[2])
        if self.child is None or self.asked % 60 == 0:
            self.close()
            env = dict(os.environ, PYTHONHASHSEED=str(1 + (seed + 7919 * self.asked) % 4000000))
            self.child = subprocess.Popen([sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'child.py')],
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
        self.asked += 1
        ids = [[a, b] for a, b in self.ids.items() if isinstance(a, str)]
        try:
            self.child.stdin.write((json.dumps(dict(ids=ids, n=self.n, ops=ops)) + '\n').encode())
            self.child.stdin.flush()
            out = json.loads(self.child.stdout.readline().decode())
        except Exception as e:
            self.close()
            out = [dict(op='broken', exc='other process: %s' % type(e).__name__)]
        self.n += len(ops)
        for e in out:
            self.emit(**e)
        return out

    def close(self):
        if self.child is not None:
            self.child.stdin.close()
            self.child.kill()
            self.child.wait()
            self.child.stdout.close()
            self.child = None

    # -- command line -----------------------------------------------------
    err = b''

    def cli(self, which, argv, data, fresh=0):
        """Run a command in a child process: (exit status, stdout).

        fresh: not in a fork of this process but in a new interpreter, with
        that hash seed."""
        d = self.scratch
        if fresh:
            env = dict(os.environ, PYTHONHASHSEED=str(fresh), PYTHONPATH=os.path.join(REPO, 'src'), PYTHONIOENCODING='utf-8')
            try:
                p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', 'import os_urlpattern.cmdline as c; c.%s()' % which] + argv,
                                   input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=300)
                self.err = p.stderr
                return p.returncode if p.returncode >= 0 else 128 - p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                return 137, b''
        inp, outp = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(inp, 'wb') as f:
            f.write(data)
        if self.out is not None:
            self.out.flush()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                resource.setrlimit(resource.RLIMIT_CPU, (OP_CPU_SECONDS, OP_CPU_SECONDS + 1))
                i = os.open(inp, os.O_RDONLY)
                o = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                n = os.open(os.path.join(d, 'err'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(i, 0)
                os.dup2(o, 1)
                os.dup2(n, 2)
                os.chdir(d)
                try:
                    getattr(self.code.cmdline, which)(['pattern-' + which] + argv)
                    rc = 0
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    rc = 71
                try:
                    sys.stdout.flush()
                except BaseException:
                    rc = 72
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        with open(os.path.join(d, 'err'), 'rb') as f:
            self.err = f.read()
        with open(outp, 'rb') as f:
            return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)), f.read()

    def file(self, name, data):
        with open(os.path.join(self.scratch, name), 'wb') as f:
            f.write(data)
        return name

    def climake(self, k, fmt, argv, data, fresh=0):
        rc, out = self.cli('make', argv, data, fresh)
        out = out.decode('utf-8', 'replace')
        js = []
        if fmt == 'JSON':
            try:
                for line in out.splitlines():
                    o = json.loads(line)
                    js.append(dict(ptn=text(o['ptn']), cnt=number(o['cnt'])))
                    if set(o) != {'ptn', 'cnt'}:
                        raise ValueError
            except Exception:
                js = [dict(ptn=[], cnt=-1)]
        return self.emit(op='climake', k=k, fmt=fmt, argv=' '.join(argv), rc=rc, out=text(out), js=js,
                         ete=labels(out) if fmt == 'ETE' else [])

    def climatch(self, k, argv, data, lines, dec, every, fresh=0):
        rc, out = self.cli('match', argv, data, fresh)
        # bytes that are no text are recorded by their byte value
        return self.emit(op='climatch', k=k, rc=rc, argv=' '.join(argv), all=every,
                         out=text(out.decode('latin-1')), lines=[text(x.decode('latin-1')) for x in lines], dec=dec)


    def clilog(self, k, which, fmt, level, argv, data, lines, plines=(), fresh=0):
        """A command and what it logs."""
        rc, out = self.cli(which, argv, data, fresh)
        log = self.err.decode('utf-8', 'replace')
        told = re.findall(r'\[LOADED\] (.*)|\[LOAD\] Finished ?(.*)', log)
        stats = dict.fromkeys(['ALL', 'EMPTY', 'VALID', 'INVALID', 'UNIQ', 'UNKNOW'], 0)
        for a, b in told:
            for name, n in re.findall(r'(\w+):(-?\d+)', a or b):
                if name in stats:
                    stats[name] += int(n)
        beats = [len(re.findall(r'\[%s\] ' % x, log)) for x in ('LOADING', 'MATCHING')]
        return self.emit(op='clilog', k=k, which=which, fmt=fmt, level=level, rc=rc, argv=' '.join(argv), out=text(out.decode('latin-1')),
                         err=len(self.err), told=len(told), stats=stats, beats=beats,
                         sizes=[int(x) for x in re.findall(r'\[CLUSTER\] (\d+)', log)],
                         warns=len(re.findall(r'^\[[^\]]*\] \[[^\]]*\] \[(?:WARN(?:ING)?|ERROR)\]', log, re.M)),
                         lines=[text(x.decode('latin-1')) for x in lines], dec=[decodable(x) for x in lines],
                         plines=[text(x.decode('latin-1')) for x in plines], pdec=[decodable(x) for x in plines])

    def pipe(self, k, fmt, margv, data, targv, lines, every, fresh=0):
        """pattern-make's output as the pattern file of pattern-match."""
        rc, out = self.cli('make', margv, data, fresh)
        rc2, out2 = self.cli('match', ['-p', self.file('made', out)] + targv, data, fresh)
        return self.emit(op='pipe', k=k, fmt=fmt, rc=rc, rc2=rc2, all=every, out=text(out2.decode('latin-1')),
                         lines=[text(x.decode('latin-1')) for x in lines])


class Hand(object):
    """One thread of a crew."""

    def __init__(self, no, plan):
        self.no, self.plan = no, plan
        self.events = []
        self.exc = None
        self.turn = threading.Semaphore(0)
        self.done = False


class Crew(object):
    """Threads that take turns: one runs at a time, and which one is decided
    at the lines (or instructions) of the code under test, by the seed."""
    STEPS = 20 * 10 ** 6

    def __init__(self, plans, rng, src):
        self.hands = [Hand(i, p) for i, p in enumerate(plans)]
        self.rng, self.src = rng, src
        self.fine = rng.random() < .5
        self.p = rng.choice([.5, .1, .02]) * (.3 if self.fine else 1)
        self.local = threading.local()
        self.steps = self.stalls = 0
        self.holder = None

    def mine(self):
        return getattr(self.local, 'hand', None)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.src):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        self.switch()
        return self.inner

    def inner(self, frame, event, arg):
        self.switch()
        return self.inner

    def switch(self):
        self.steps += 1
        if self.steps > self.STEPS:
            raise OpTimeout()
        if self.rng.random() >= self.p:
            return
        me = self.mine()
        others = [h for h in self.hands if not h.done and h is not me]
        if others:
            self.give(self.rng.choice(others))
            self.take(me)

    def give(self, hand):
        self.holder = hand
        hand.turn.release()

    def take(self, me):
        seen = -1
        while not me.turn.acquire(timeout=.2):
            # the holder waits for something of ours: go on together
            if seen == self.steps:
                self.stalls += 1
                if self.stalls > 2:
                    self.p = 0
                return
            seen = self.steps

    def work(self, hand):
        self.local.hand = hand
        self.take(hand)
        sys.settrace(self.trace)
        try:
            for op in hand.plan:
                op()
        except BaseException as e:
            hand.exc = e
        finally:
            sys.settrace(None)
            hand.done = True
            others = [h for h in self.hands if not h.done]
            if others:
                self.give(self.rng.choice(others))

    def run(self):
        ts = [threading.Thread(target=self.work, args=(h,), daemon=True) for h in self.hands]
        for t in ts:
            t.start()
        self.give(self.rng.choice(self.hands))
        for t in ts:
            t.join(120)
        for h, t in zip(self.hands, ts):
            if t.is_alive():
                h.exc = OpTimeout()
        return self.hands


def labels(art):
    return [text(t) for t in art.split() if re.search(r'\(-?\d+\)$', t)]
