"""Seeded generators of URLs, URL sets and URL patterns.

Nothing here knows what the right answers are: that is the specification's
business.  A generated URL is (text, canon): canon is path, query and fragment
as a regular expression engine sees them, or None where it is not known by
construction.
"""
import random

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGIT = '0123456789'
PLAIN = '%&_@#;:,=<>~/'
ESCAPED = '.+\\"\'()[]{}*$^?|!-'
SYMBOLS = PLAIN + ESCAPED
LEGAL = LOWER + UPPER + DIGIT + SYMBOLS
ILLEGAL = [' ', '`', '\x7f', '\x80', '\xe9', '\u4e2d', '\x1b', '\u0660', '\uff21', '\t', '\n', '\r']

PATH_BAD = '/?#;'
QUERY_BAD = '&#'
KEY_BAD = '&#='

CLASSES = [LOWER, LOWER, DIGIT, DIGIT, DIGIT, UPPER]
SMALL = {LOWER: 'abc', DIGIT: '012', UPPER: 'AB'}
WORDS = ['news', 'item', 'list', 'a', 'b', 'show', 'p', 'User', 'id', 'archive', 'x']
EXTS = ['.html', '.htm', '.mp3', '.mp4', '.php', '.jpg', '.7z', '.x', '.', '.a1', '.tar.gz', '..html', '.m4a', '.3g2', '.Z1a', '.a1b2', '.A', '.aB']
HOSTS = ['http://example.com', 'http://www.example.com:8080', 'https://e.com', 'ftp://f.org',
         'HTTP://EXAMPLE.COM', 'http://u:p@h.net', 'example.com', 'foo://bar', 'x-y+z.1://q', 'http://']

POOLS = [
    ['a', 'b', 'c', 'd', 'aa', 'ab', 'ac', 'aaa', 'abc'],
    ['1', '2', '3', '11', '12', '13', '111', '1234'],
    ['a1', 'b1', 'a2', 'aa1', 'a11', 'c12', 'ab12'],
    ['a-b', 'a-c', 'b-b', 'b-c', 'aa-b', 'a-bb', 'c-cc'],
    ['a1-2b', 'a2-2b', 'a1-3c', 'c1-22b', '1a-b2', 'aa1-b2'],
    ['a-1.mp3', 'b-1.mp3', 'b-2.mp3', 'cc-1.mp3', 'ab-12.mp4', 'a-3.mp3'],
    ['x.html', 'y.html', 'z.htm', 'xx.html', 'xy.htm', 'zz.html'],
    ['a1b2', 'b1a2', 'c3d4', 'a11b2', 'ab1b2', 'a1bb22'],
    ['a1b2c3.x', 'b1a2c3.x', 'c3d4d4.y', 'a11b2c2.x', 'ab1b2c3.x', 'a1bb22c.x'],
    ['a.b-c', 'b.a-c', 'c.b-a', 'cc.b-a', 'a.bb-c'],
    ['%2Fa', '%3Fa', '%AAa', '%A1a', '%1Ba', '%1BBa'],
    ['%E4%BD%A0', '%E5%A5%BD', '%E4%BD%A1%E5', '%A1', '%E5%A5%BE'],
    ['a--b', 'a-b', 'a---b', 'b--c', 'c--d'],
    ['a\\b', 'b\\c', 'a\\\\b', 'c\\d', 'a\\'],
    ['x(1)', 'y(2)', 'z(3)', 'xx(11)', 'x[1]', 'y[2]', 'z{3}', 'w{4}'],
    ['A1.b2', 'B2.c3', 'A12.b2', 'AA1.bb2', 'C1.c4'],
    ['v1.2', 'v1.3', 'v2.1', 'v10.2', 'w1.2'],
    ['2019-01-02', '2019-01-03', '2018-11-12', '2018-1-2', '2019-02-01'],
    ['Abc', 'Bcd', 'CdE', 'AbC', 'Xyz', 'XYz'],
    ['a_b_c', 'b_c_d', 'a_b_d', 'aa_b_c', 'c_d_e'],
    [''],
    ['a', 'a', 'a', 'a', 'b', '1', 'a1'],
]


def word(rng, cls, n):
    return ''.join(rng.choice(cls) for _ in range(n))


def clean(s, bad):
    for c in bad:
        s = s.replace(c, '-')
    return s


class Comp(object):
    """A random way of making the values of one component."""

    def __init__(self, rng, bad, kind=None):
        self.rng = rng
        self.bad = bad
        r = rng.random()
        kind = kind or ('pool' if r < .35 else 'tmpl' if r < .75 else 'word' if r < .85
                        else 'wild' if r < .93 else 'twin')
        self.kind = kind
        if kind == 'pool':
            p = rng.choice(POOLS)
            self.pool = rng.sample(p, rng.randint(1, len(p)))
        elif kind == 'twin':
            c = Comp(rng, bad)
            self.pool = [c.value() for _ in range(rng.randint(1, 4))]
        elif kind == 'word':
            self.pool = rng.sample(WORDS, rng.choice([1, 1, 2, 3]))
        elif kind == 'tmpl':
            self.parts = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7])):
                cls = rng.choice(CLASSES)
                mode = rng.choice(['fix', 'pick', 'len', 'var', 'var'])
                if rng.random() < .35:
                    sym = rng.choice('..--__%%' if rng.random() < .7 else SYMBOLS)
                    self.parts.append(('sym', sym, rng.choice([1, 1, 1, 1, 2, 3, 11]), rng.random() < .1))
                elif mode == 'fix':
                    self.parts.append(('fix', word(rng, cls, rng.randint(1, 3))))
                elif mode == 'pick':
                    self.parts.append(('pick', [word(rng, SMALL[cls], rng.randint(1, 3))
                                                for _ in range(rng.randint(2, 4))]))
                elif mode == 'len':
                    self.parts.append(('len', SMALL[cls] if rng.random() < .6 else cls,
                                       rng.choice([1, 1, 2, 2, 3, 4, 10, 12])))
                else:
                    self.parts.append(('var', SMALL[cls] if rng.random() < .6 else cls,
                                       rng.choice([2, 2, 3, 4, 11])))
            self.ext = rng.choice(EXTS) if rng.random() < .3 else None
            self.exts = rng.sample(EXTS, 3) if rng.random() < .15 else None

    def value(self):
        rng = self.rng
        if self.kind in ('pool', 'word', 'twin'):
            return clean(rng.choice(self.pool), self.bad)
        if self.kind == 'wild':
            return clean(word(rng, LEGAL if rng.random() < .5 else 'ab1A.-%', rng.randint(0, 8)), self.bad)
        s = ''
        for p in self.parts:
            if p[0] == 'sym':
                n = p[2] if not p[3] else rng.randint(1, p[2] + 1)
                s += p[1] * n
            elif p[0] == 'fix':
                s += p[1]
            elif p[0] == 'pick':
                s += rng.choice(p[1])
            elif p[0] == 'len':
                s += word(rng, p[1], p[2])
            else:
                s += word(rng, p[1], rng.randint(1, p[2]))
        if self.ext:
            s += self.ext
        if self.exts:
            s += rng.choice(self.exts)
        return clean(s, self.bad)


def render(rng, path, query, frag, plain=False):
    """One URL of the given components: (text, canon)."""
    canon = '/' + '/'.join(path)
    if query is not None:
        canon += '?' + '&'.join(k + v for k, v in query)
    if frag is not None:
        canon += '#' + frag
    host = 'http://example.com'
    sep = ['/'] * len(path)
    params = ''
    if not plain:
        if rng.random() < .2:
            host = rng.choice(HOSTS)
        if rng.random() < .05:
            sep = [rng.choice(['/', '/', '//', '///']) for _ in path]
        if rng.random() < .05 and not host.startswith(('foo', 'x-y')):
            params = rng.choice([';', ';a=b', ';x;y'])
    u = host + ''.join(s + p for s, p in zip(sep, path)) + params + canon[1 + len('/'.join(path)):]
    return u, canon


class Site(object):
    """URLs of one structure."""

    def __init__(self, rng, depth=None, nq=None, frag=None):
        self.rng = rng
        depth = depth or rng.choice([1, 1, 2, 2, 3, 3, 4, 6] if rng.random() < .95 else [7, 8, 9, 11])
        self.path = [Comp(rng, PATH_BAD) for _ in range(depth)]
        self.trail = rng.random() < .1
        nq = rng.choice([0, 0, 0, 0, 1, 1, 2, 3]) if nq is None else nq
        self.keys = []
        for _ in range(nq):
            k = rng.choice(['id', 'k', 'a.b', 'x-y', '', 'p1', 'Q', 'a%5B', 'a[]', 'a--b', 'k_1', '\\', 'k?'])
            self.keys.append(k + '=' if rng.random() < .85 or not k else k)
        if nq == 1 and not self.keys[0].endswith('='):
            self.keys = ['']  # a single item without '=' is a value
        self.vals = [Comp(rng, QUERY_BAD if k.endswith('=') or k else '&#=') for k in self.keys]
        self.emptyq = nq == 0 and rng.random() < .05
        has = rng.random() < .12 if frag is None else frag
        self.frag = Comp(rng, '') if has else None

    def url(self, plain=False):
        rng = self.rng
        path = [c.value() for c in self.path]
        path = [p or 'e' for p in path[:-1]] + path[-1:]
        if self.trail:
            path = [p or 'e' for p in path] + ['']
        query = None
        if self.keys:
            query = [(k, c.value() if (k.endswith('=') or k == '') else '')
                     for k, c in zip(self.keys, self.vals)]
            if query == [('', '')]:
                pass
        elif self.emptyq:
            query = [('', '')]
        frag = self.frag.value() if self.frag else None
        return render(rng, path, query, frag, plain)


def even(rng, n):
    """Counts that sit around the thresholds."""
    return [rng.choice([1, 1, 2, 2, 3, 3, 4, 5]) for _ in range(n)]


def cross(rng):
    """Small products of values: every branch with counts near the limits."""
    depth = rng.choice([1, 2, 2, 3])
    pools = []
    for _ in range(depth):
        p = rng.choice(POOLS)
        pools.append([clean(x, PATH_BAD) for x in rng.sample(p, min(len(p), rng.choice([1, 2, 2, 3, 4, 9])))])
    pools = [[x for x in p if x] or ['e'] for p in pools[:-1]] + pools[-1:]
    nq = rng.choice([0, 0, 0, 1, 2])
    qs = []
    for _ in range(nq):
        p = rng.choice(POOLS)
        qs.append([clean(x, QUERY_BAD) for x in rng.sample(p, min(len(p), rng.choice([1, 2, 3, 4, 9])))])
    out = []
    for _ in range(rng.choice([2, 3, 4, 5, 6, 8, 10, 15, 20, 30, 40])):
        path = [rng.choice(p) for p in pools]
        q = [('k%d=' % i, rng.choice(p)) for i, p in enumerate(qs)] if nq else None
        out.append(render(rng, path, q, None, True))
    return out


def urlset(rng, big=1.0):
    """A list of URLs to be clustered together."""
    if BIG is not None:
        return globals()['big'](rng)
    r = rng.random()
    if r < .35:
        return cross(rng)
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        s = Site(rng)
        plain = rng.random() < .5
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16])
        if rng.random() < .08 * big:
            n = rng.choice([25, 40, 60])
        out += [s.url(plain) for _ in range(n)]
    if rng.random() < .15:  # variations of one URL
        u, c = rng.choice(out)
        for _ in range(rng.randint(1, 5)):
            i = rng.randint(len(u) - min(6, len(u) - 1), len(u) - 1)
            if u[i] in DIGIT:
                out.append((u[:i] + rng.choice(DIGIT) + u[i + 1:], None))
            elif u[i] in LOWER:
                out.append((u[:i] + rng.choice(LOWER) + u[i + 1:], None))
    rng.shuffle(out)
    return out


def SAME(c):
    """The characters of a character space."""
    return LOWER if c in LOWER else DIGIT if c in DIGIT else UPPER if c in UPPER else c


def extreme(rng):
    """Sets at the far ends: long pieces, many runs, deep paths, many query
    keys, many URLs."""
    r = rng.randrange(6)
    out = []
    if r == 0 and rng.random() < .5:  # long pieces that differ in one place
        put = framed(rng)
        cls = rng.choice([LOWER, DIGIT, UPPER, 'ab12', 'a-', 'ab%', 'a'])
        w = list(word(rng, cls, rng.choice([40, 65, 99, 100, 129, 257, 300])))
        i = rng.choice([0, len(w) // 2, len(w) - 1, len(w) - 1])
        for _ in range(rng.randint(2, 6)):
            w[i] = rng.choice(SAME(w[i]))
            out.append(put(''.join(w) + rng.choice(['', '', word(rng, cls, 1)])))
    elif r == 0:  # long pieces
        cls = rng.choice([LOWER, DIGIT, UPPER, 'ab12', 'a-', 'ab%'])
        ls = [rng.choice([60, 99, 100, 101, 127, 128, 255, 256, 300, 700]) for _ in range(rng.randint(1, 3))]
        pre = rng.choice(['', 'x', 'a.'])
        for _ in range(rng.randint(2, 8)):
            out.append(render(rng, ['p', pre + word(rng, cls, rng.choice(ls)) + rng.choice(['', '.html'])], None, None, True))
    elif r == 1:  # many runs
        n = rng.randint(12, 40)
        for _ in range(rng.randint(2, 7)):
            s = ''.join(rng.choice('abc') + rng.choice('123') if rng.random() < .8 else '-' for _ in range(n))
            out.append(render(rng, [s + rng.choice(['', '.x', '.y1'])], None, None, True))
    elif r == 2:  # deep
        n = rng.randint(9, 24)
        at = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
        cs = dict((i, Comp(rng, PATH_BAD)) for i in at)
        end = [''] * (rng.random() < .4)
        q = rng.choice([None, None, [('', '')], [('k=', '')], [('a=', '1'), ('b', '')]])
        frag = rng.choice([None, None, '', 'f'])
        for _ in range(rng.randint(3, 14)):
            out.append(render(rng, [(cs[i].value() or 'e') if i in cs else 'd%d' % i for i in range(n)] + end, q, frag, True))
    elif r == 3:  # many keys
        n = rng.randint(6, 20)
        at = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
        cs = dict((i, Comp(rng, QUERY_BAD)) for i in at)
        frag = Comp(rng, '') if rng.random() < .3 else None
        for _ in range(rng.randint(3, 14)):
            out.append(render(rng, ['q'], [('k%d=' % i, cs[i].value() if i in cs else 'v') for i in range(n)],
                              frag.value() if frag else None, True))
    elif r == 4:  # many URLs of one site
        s = Site(rng, depth=rng.choice([1, 2, 3]))
        out = [s.url(True) for _ in range(rng.choice([80, 120, 160]))]
    else:  # a product, all branches large
        a, b = rng.choice(POOLS[:20]), rng.choice(POOLS[:20])
        for x in a:
            for y in b:
                if rng.random() < .85:
                    out.append(render(rng, [clean(x, PATH_BAD), clean(y, PATH_BAD)], None, None, True))
    rng.shuffle(out)
    return out


def near(rng, m):
    """A set whose groups have about m members, at one or two levels."""
    out = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        a = word(rng, SMALL[LOWER], rng.randint(1, 2))
        cs = rng.choice(CLASSES)
        n = max(1, m + rng.choice([-2, -1, -1, 0, 0, 1, 2]))
        l = rng.choice([1, 2, 3, 4])
        ext = rng.choice(['', '', '.html', '-x', '1'])
        for _ in range(n):
            k = l if rng.random() < .8 else rng.choice([1, 2, 3, 4])
            out.append(render(rng, [a, word(rng, cs, k) + ext], None, None, True))
    rng.shuffle(out)
    return out


JUMBLES = ['ab12', 'a1-', 'aA1', 'a1.', 'ab-.', '%1A', 'a1_-', 'aA', 'a%', 'a1A-.', '1-', 'ab_']


def framed(rng):
    """A place for a component: function from values to URLs."""
    pre = ['d'] * rng.choice([0, 0, 1, 2])
    post = ['e'] * rng.choice([0, 0, 0, 1]) + [''] * (rng.random() < .1)
    nq = rng.choice([0, 0, 0, 1, 2])
    frag = rng.choice([None, None, None, '', 'x'])
    at = rng.choice(['path', 'path', 'path', 'query', 'frag'])
    if at == 'query':
        nq = max(nq, 1)
    q = ['k%d=' % i for i in range(nq)]
    if nq == 1 and rng.random() < .2:
        q = ['']

    def make(v):
        path, query, f = pre + post, [(k, 'v') for k in q] or None, frag
        if at == 'path':
            path = pre + [clean(v, PATH_BAD) or 'z'] + post
        elif at == 'query':
            query = [(q[0], clean(v, '&#=' if q == [''] else QUERY_BAD))] + query[1:]
        else:
            f = v
        return render(rng, path or ['h'], query, f, True)
    return make


def jumble(rng):
    """Values that share little but their character spaces: whole pieces are
    grouped by extension, by length, or not at all."""
    put = framed(rng)
    alpha = rng.choice(JUMBLES)
    ls = rng.choice([[3], [4], [4], [3, 4], [2, 3], [1, 2, 3, 4, 5], [4, 4, 4, 7], [5, 6]])
    exts = rng.choice([[''], [''], ['.html'], ['.mp3'], ['.html', '.htm'], ['.mp3', '.mp4', '.x'], ['.'], ['-a', '-b'],
                       ['.m4a'], ['.m4a', '.mp3'], ['.a1b2'], ['.tar.gz'], ['.tar.gz', '.tgz'], ['.Ab'], ['.-a'], ['.7z', '.zip']])
    pre = rng.choice(['', '', '', 'n-', 'v1.'])
    need = alpha if rng.random() < .7 else ''
    out = []
    for _ in range(rng.choice([3, 4, 5, 6, 8, 10, 14])):
        for _ in range(30):
            v = word(rng, alpha, rng.choice(ls))
            if all(any((c == d) or (c in LOWER and d in LOWER) or (c in DIGIT and d in DIGIT) for d in v) for c in need) \
                    or len(v) < len(set(need)):
                break
        out.append(put(pre + v + rng.choice(exts)))
    return out


def groups(rng):
    """Many groups of similar URLs, most of them small."""
    out = []
    alpha = ['a', '1', 'A', '-', 'a1', '']
    n = rng.choice([2, 3, 4])
    for _ in range(rng.choice([40, 80, 120])):
        path = [rng.choice(alpha[:-1]) for _ in range(rng.randint(1, n))]
        q = [('k%d=' % i, rng.choice(alpha)) for i in range(rng.choice([1, 2]))] if rng.random() < .3 else None
        out.append(render(rng, path, q, rng.choice(alpha) if rng.random() < .2 else None, True))
    return out


def fewruns(rng, alpha, n):
    """A long text of few runs (the code recurses into each)."""
    s = ''
    while len(s) < n:
        s += rng.choice(alpha) * rng.choice([1, 2, 40, 60, 99])
    return s[:n]


BIG = None  # one of 0..7: what is large in this session


def big(rng):
    """A set that is large in one way."""
    out = []

    def put(path, query=None, frag=None):
        out.append(render(rng, path, query, frag, True))
    if BIG == 0:  # one big cluster
        for i in rng.sample(range(100000), 450):
            put(['n', '%d' % i])
    elif BIG == 1:  # many groups
        seen = set()
        while len(seen) < 270:
            p = [rng.choice(['a', '1', 'A', 'a1', 'aA', 'a-', 'a_', '1.', '%', '~']) for _ in range(rng.randint(1, 5))]
            q = [('k%d=' % i, rng.choice(['a', '1', ''])) for i in range(rng.choice([1, 2, 3]))] if rng.random() < .4 else None
            if repr((p, q)) not in seen:
                seen.add(repr((p, q)))
                put(p, q)
    elif BIG == 2:  # many branches
        for i in range(130):
            for j in range(rng.choice([1, 2, 3])):
                put([word(rng, LOWER, rng.choice([4, 5, 6])) + '-%d' % i, 'p%d' % j])
    elif BIG == 3:  # long texts
        base = [word(rng, LOWER, rng.choice([1500, 2100])), fewruns(rng, rng.choice(['ab1', 'a-1', 'aA1']), rng.choice([1100, 2100]))]
        rng.shuffle(base)
        for i in range(12):
            p = list(base)
            p[i % 2] = p[i % 2][:-1] + rng.choice(SAME(p[i % 2][-1]))
            put(p, [('k=', word(rng, DIGIT, 300))] if i % 6 > 3 else None, None)
    elif BIG == 4:  # deep
        for i in range(6):
            put(['d%d' % (i if j in (0, 50, 129) else 1) for j in range(130)])
    elif BIG == 5:  # many keys
        for i in range(6):
            put(['q'], [('k%d=' % j, '%d' % (i if j in (0, 40, 129) else 1)) for j in range(130)], 'f%d' % i)
    elif BIG == 6:  # many different texts, some alike
        for i in range(200):
            put([word(rng, rng.choice([LOWER, DIGIT, 'ab12', 'a-', 'A_1']), rng.randint(1, 9)) + rng.choice(['', '.html', '.x1', '-%d' % i])])
    else:  # everything again and again
        for i in range(30):
            put(['s', '%d' % (i * 7), 'v%d' % (i % 4)])
        out *= 10
    rng.shuffle(out)
    return out


def case(rng, cap=10 ** 6):
    """(threshold, URLs) of one clustering."""
    if BIG is not None:
        us = big(rng)
        return rng.choice([2, 3, 3, 5, len(us)] if BIG in (0, 2, 6) else [2, 3, 3, 5]), us
    r = rng.random()
    if .1 <= r < .3:
        return rng.choice([2, 3, 3, 3, 4, 5]), jumble(rng)[:cap]
    if .3 <= r < .32:
        return rng.choice([2, 3]), groups(rng)[:cap]
    if r < .04:
        return rng.choice([2, 3, 3, 4, 10]), extreme(rng)[:cap]
    if r < .10:
        m = rng.choice([2, 3, 4, 5, 7, 11, 20, 33, 65])
        return m, near(rng, m)[:cap]
    return mcn(rng), urlset(rng)[:cap]


def mcn(rng):
    return rng.choice([2, 2, 3, 3, 3, 3, 4, 4, 5, 6, 8, 10])


def string(rng, n=None, alpha=None):
    """Any text that could be taken for a URL."""
    r = rng.random()
    alpha = alpha or rng.choice(['ab/?#&=;.:', 'a1A-%./?&=#;', LEGAL, LEGAL + ''.join(ILLEGAL)])
    s = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 14) if n is None else n))
    if r < .6:
        return rng.choice(HOSTS) + '/' + s
    if r < .8:
        return rng.choice(HOSTS) + s
    return s


def domain(u):
    """Text inside the domain of the specification's URL grammar: the parts
    before the path are left to the URL syntax of the standard library, which
    strips leading white space and knows bracketed hosts."""
    if u and (u[0] <= ' '):
        return False
    i = u.find('//')
    if i >= 0:
        j = i + 2
        while j < len(u) and u[j] not in '/?#':
            if u[j] in '[]' or ord(u[j]) > 126 or u[j] <= ' ':
                return False
            j += 1
    return True


def mutate(rng, u):
    """One edit of a URL."""
    if not u:
        return u
    i = rng.randrange(len(u) + 1)
    c = rng.choice(rng.choice(['/?#&=;', LEGAL, 'a1A.-%', ILLEGAL]))
    r = rng.random()
    if r < .4:
        return u[:i] + c + u[i:]
    if r < .7:
        return u[:i] + c + u[i + 1:]
    if r < .85:
        return u[:i] + u[i + 1:]
    return u[:i] + u[i:i + 1] * rng.randint(2, 3) + u[i + 1:]


# --------------------------------------------------------------------------
# URL patterns.

def rule(c):
    if c in DIGIT:
        return '0-9'
    if c in LOWER:
        return 'a-z'
    if c in UPPER:
        return 'A-Z'
    return '\\' + c if c in ESCAPED else c


def unit(rules, n):
    return '[%s]' % ''.join(sorted(rules)) + ('' if n == 1 else '+' if n < 0 else '{%d}' % n)


def runs(s):
    out = []
    for c in s:
        r = rule(c)
        if out and out[-1][0] == r:
            out[-1][1] += c
        else:
            out.append([r, c])
    return out


def lit(rs):
    return ''.join(t if r in ('0-9', 'a-z', 'A-Z') else unit([r], len(t)) for r, t in rs)


def soften(rng, rs, how):
    """Pattern text of a list of runs seen as one part."""
    rules = set(r for r, _ in rs)
    n = sum(len(t) for _, t in rs)
    if how == 'len':
        if n < len(rules):
            how = 'any'
        else:
            return unit(rules, n)
    if how == 'any':
        return unit(rules, -1)
    return lit(rs)


MIX = ('0-9', 'a-z', 'A-Z', '%')


def parts(rs, view, rng):
    if view == 'multi':
        return [[r] for r in rs]
    if view == 'mixed':
        out = []
        for r in rs:
            if r[0] in MIX and out and out[-1][-1][0] in MIX:
                out[-1].append(r)
            else:
                out.append([r])
        return out
    if view == 'ldsf':
        d = [i for i in range(len(rs)) if rs[i][0] == '\\.']
        if not d or d[-1] == 0:
            return [rs]
        i = d[-1]
        return [rs[:i], [rs[i]]] + ([rs[i + 1:]] if rs[i + 1:] else [])
    if view == 'rand':
        out = []
        for r in rs:
            if out and rng.random() < .4:
                out[-1].append(r)
            else:
                out.append([r])
        return out
    return [rs]


def generalise(rng, s, last):
    """Pattern text of one component that may match the component s."""
    if not s:
        return ''
    rs = runs(s)
    view = rng.choice(['lit', 'multi', 'multi', 'mixed', 'mixed', 'whole', 'ldsf' if last else 'whole', 'rand'
                       if rng.random() < .3 else 'multi'])
    if view == 'lit':
        return lit(rs)
    out = ''
    for p in parts(rs, view, rng):
        out += soften(rng, p, rng.choice(['lit', 'len', 'any', 'any']))
    return out


def key_text(k):
    e = k.endswith('=')
    return lit(runs(k[:-1] if e else k)) + ('=' if e else '')


def pattern_of(rng, path, query, frag):
    p = '/' + '/'.join(generalise(rng, x, i == len(path) - 1) for i, x in enumerate(path))
    if query is not None:
        p += '[\\?]' + '&'.join(key_text(k) + generalise(rng, v, False) for k, v in query)
    if frag is not None:
        p += '#' + generalise(rng, frag, False)
    return p


PCHARS = ['[', ']', '{', '}', '+', '\\', '0-9', 'a-z', 'A-Z', 'a', '0', '9', '-', '.', '/', '[\\?]', '&', '=', '#',
          '?', '_', '%', '\\.', '\\]', '\\\\', '\\[', '\\-', '{2}', '{0}', '{1}', '{03}', '[a-z]', '[0-9]+',
          '[\\.]', '[%]{2}', 'A', 'abc', '12', '[0-9a-z]{3}', ' ', '\xe9', ',', '(', '\\(', '$']


def pattern_string(rng):
    return '/' * (rng.random() < .95) + ''.join(rng.choice(PCHARS) for _ in range(rng.randint(0, 7)))


def mutate_pattern(rng, p):
    i = rng.randrange(1, len(p) + 1)
    c = rng.choice(PCHARS)
    r = rng.random()
    ds = [j for j in range(len(p)) if p[j] in DIGIT]
    if ds and r < .06:  # digits of other scripts
        i = rng.choice(ds)
        return p[:i] + rng.choice([chr(int(p[i]) + 0x660), chr(int(p[i]) + 0xff10), '\xb2']) + p[i + 1:]
    if r < .4:
        return p[:i] + c + p[i:]
    if r < .7:
        return p[:i] + c + p[i + 1:]
    return p[:i] + p[i + 1:]
