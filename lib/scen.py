"""What is done with the code under test, property by property.

A scenario is a function (rec, rng) that plays one session; enumerations are
generators of sessions that do not depend on the seed.
"""
import itertools

import gen
from scen_data import MORE_UNIVERSES, ODD_UNIVERSES, UNIVERSES


def some(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


# -- parsing -----------------------------------------------------------------

def any_url(rng, site):
    if gen.BIG is not None and rng.random() < .3:
        return rng.choice(gen.big(rng))[0]
    r = rng.random()
    u = site.url()[0] if r < .6 else gen.Site(rng).url()[0] if r < .8 else gen.string(rng)
    if rng.random() < .3:
        u = gen.mutate(rng, u)
    return u


def s_parse(rec, rng):
    rec.reset()
    site = gen.Site(rng)
    for _ in range(25):
        u = any_url(rng, site)
        if gen.domain(u) and not u.startswith('/'):
            rec.parse(u)


def s_struct(rec, rng):
    s_parse(rec, rng)
    for _ in range(10):
        rec.parsep(any_pattern(rng))


ENUM_URL = [('http://h/', '/?#&=;a', 4), ('http://h', '/?#a', 5), ('', ':/?#a', 5), ('http://h/a?', '&=ab', 5),
            ('http://h/a?', '&=.', 5), ('foo://h/', ';/a', 4), ('h/a', '?#', 5)]
ENUM_TXT = [('http://h/', 'aA0.%', 4), ('http://h/a#', 'a\\-[]{}', 4), ('http://h/', 'ab\\', 5),
            ('http://h/a#', '/?#&=;', 4)]


def words(alpha, n):
    for i in range(n + 1):
        for w in itertools.product(alpha, repeat=i):
            yield ''.join(w)


def e_struct(rec, part, parts, tier):
    """Every short URL over the characters that have a meaning in URLs."""
    n = 0
    rec.reset('enumeration of URLs')
    for pre, alpha, k in ENUM_URL:
        for w in words(alpha, k + (1 if tier == 'thorough' else 0)):
            n += 1
            if n % parts == part and gen.domain(pre + w) and not (pre + w).startswith('/'):
                rec.parse(pre + w)
    for w in words(['/', '[\\?]', '#', '&', '=', 'a', '[0-9]'], 4):
        n += 1
        if n % parts == part:
            rec.parsep('/' + w)


def e_split(rec, part, parts, tier):
    """Every pair of characters, and every short text over some of them."""
    rec.reset('enumeration of components')
    n = 0
    for a in gen.LEGAL:
        for b in gen.LEGAL:
            n += 1
            if n % parts == part:
                rec.parse('http://h/#' + a + b)
                if a not in '/?#;' and b not in '/?#;':
                    rec.parse('http://h/' + a + b)
    for pre, alpha, k in ENUM_TXT:
        for w in words(alpha, k + (1 if tier == 'thorough' else 0)):
            n += 1
            if n % parts == part:
                rec.parse(pre + w)
    for c in gen.LEGAL:
        for k in (1, 2, 9, 10, 11, 99, 100, 101):
            n += 1
            if n % parts == part:
                rec.parse('http://h/#x' + c * k + 'y')


# -- rejection ---------------------------------------------------------------

def s_reject(rec, rng):
    rec.reset()
    m = gen.mcn(rng)
    rec.maker(1, m)
    urls = [u for u, _ in gen.urlset(rng)][:20]
    bad = []
    for u in urls:
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = gen.mutate(rng, u)
            if rng.random() < .3:
                b = gen.string(rng)
            if rng.random() < .3:
                i = rng.randint(8, len(u)) if len(u) > 8 else len(u)
                b = u[:i] + rng.choice(gen.ILLEGAL) + u[i:]
            if gen.domain(b):
                bad.append(b)
    if rng.random() < .2:
        bad += rng.sample(['', '#', '?', 'http://', 'http://h', 'http://h?', 'http://h#', 'h', 'http://h/?&',
                           'http://h/?a&&b', 'http://h/?&a', 'http://h/a?b&', '/a', '/[a-z]+', '//h/a', 'a:b', ':', '='], 5)
    every = urls + bad
    rng.shuffle(every)
    good = []
    for u in every:
        e = rec.load(1, u)
        if not e['exc']:
            good.append(u)
        elif rng.random() < .2:
            rec.load(1, u)
    rec.make(1)
    rec.maker(2, m)
    for u in good:
        rec.load(2, u)
    rec.make(2)
    if rng.random() < .3:
        rec.elsewhere([['maker', 3, m]] + [['load', 3, u] for u in good] + [['make', 3]], rng.randrange(10 ** 6))
    us, pats = families(rng)
    pats = some(rng, sorted(set(any_pattern(rng) for _ in range(3)) | set(pats)), 8)
    rec.matcher(1)
    for p in pats:
        rec.loadp(1, p)
    us = [u for u in [gen.render(rng, *c)[0] for c in us] if gen.domain(u)]
    ask = us + some(rng, every, 8)
    if rng.random() < .3:
        ask.append(rng.choice(pats))
    rng.shuffle(ask)
    good = [u for u in ask if not rec.match(1, u)['exc']]
    rec.matcher(2)
    for p in pats:
        rec.loadp(2, p)
    for u in good:
        rec.match(2, u)
    if rng.random() < .3:
        rec.elsewhere([['matcher', 3]] + [['loadp', 3, p] for p in pats] + [['match', 3, u] for u in good],
                      rng.randrange(10 ** 6))


def e_reject(rec, part, parts, tier):
    rec.reset('enumeration of URLs')
    rec.maker(1, 3)
    n = 0
    for pre, alpha, k in ENUM_URL + [('http://h/', 'a/?#& \xe9', 4)]:
        for w in words(alpha, k if tier == 'thorough' else min(k, 4)):
            n += 1
            if n % parts == part and gen.domain(pre + w):
                if pre + w.strip('/') == '':
                    continue
                rec.parse(pre + w) if not (pre + w).startswith('/') else rec.load(1, pre + w)
    for c in range(256):
        c = chr(c)
        for pat in ('http://h/a%sb', 'http://h/?k%s=v', 'http://h/?k=%s', 'http://h/#%s', 'http://h/%s/a', 'http://h/?%s',
                    'http://h/a?%s&b'):
            n += 1
            if n % parts == part and gen.domain(pat % c):
                rec.parse(pat % c)


# -- digest ------------------------------------------------------------------

def vary(rng, s):
    """Another value, mostly of the same character spaces."""
    if not s:
        return s
    if rng.random() < .3:
        return ''.join(rng.sample(s, len(s)))
    out = ''
    for c in s:
        k = gen.DIGIT if c in gen.DIGIT else gen.LOWER if c in gen.LOWER else gen.UPPER if c in gen.UPPER else c
        out += ''.join(rng.choice(k) for _ in range(rng.choice([1, 1, 1, 2])))
    return out


def comps(rng):
    if gen.BIG == 3:
        return [gen.fewruns(rng, c, 300) for c in ('ab', 'a1-', 'a1A')], [('k=', gen.word(rng, '01', 900))], 'x'
    if gen.BIG == 4:
        return ['a%d' % i for i in range(110)], None, None
    if gen.BIG == 5:
        return ['a'], [('k%d=' % i, 'v%d' % i) for i in range(110)], None
    s = gen.Site(rng)
    path = [c.value() or 'e' for c in s.path]
    if s.trail:
        path.append('')
    query = [(k, c.value() if (k.endswith('=') or k == '') else '') for k, c in zip(s.keys, s.vals)] if s.keys else None
    frag = s.frag.value() if s.frag else None
    return path, query, frag


def vary_comps(rng, c, p=.7):
    path, query, frag = c
    path = [(gen.clean(vary(rng, x), gen.PATH_BAD) or 'e') if x and rng.random() < p else x for x in path]
    if query is not None:
        query = [(k, gen.clean(vary(rng, v), gen.QUERY_BAD) if rng.random() < p else v) for k, v in query]
    if frag is not None and rng.random() < p:
        frag = vary(rng, frag)
    return path, query, frag


def tweak(rng, c):
    """A structure that differs a little."""
    path, query, frag = c
    path = list(path)
    query = None if query is None else list(query)
    r = rng.randrange(13)
    if r == 8 and query and len(query) > 1:  # with and without its equals sign
        i = rng.randrange(len(query))
        k, v = query[i]
        query[i] = (k[:-1], '') if k.endswith('=') and k != '=' else (k + '=', v) if k else (k, v)
    elif r == 9 and query and query[0][0]:  # another key
        i = rng.randrange(len(query))
        k, v = query[i]
        query[i] = (rng.choice([k.swapcase(), 'x' + k, k[:-1] + 'y' + k[-1:], k.replace('=', '-=')]), v)
    elif r == 10:  # the same spaces in other places
        i, j = rng.randrange(len(path)), rng.randrange(len(path))
        path[i], path[j] = path[j], path[i]
        if not path[-1] or not all(path):
            path = [p or 'e' for p in path]
        if query and query[0][0].endswith('=') and rng.random() < .5:
            path[i], query[0] = gen.clean(query[0][1], gen.PATH_BAD) or 'e', (query[0][0], gen.clean(path[i], gen.QUERY_BAD))
    elif r == 11 and query and query[0][0]:  # a key twice
        query.insert(rng.randrange(len(query) + 1), rng.choice(query))
    elif r == 12 and frag is not None:
        query, frag = (query or []) + [('f=', gen.clean(frag, gen.QUERY_BAD))], None
        if query[0][0] == '' and len(query) > 1:
            query = query[1:]
    elif r == 0:
        path.insert(0, 'a')
    elif r == 1:
        path = path[1:] or ['x']
    elif r == 2:
        frag = None if frag is not None else rng.choice(['', 'a', '/'])
    elif r == 3:
        query = None if query else [('k=', '1')]
    elif r == 4 and query:
        query = query[::-1]
    elif r == 5 and query:
        query = query + [('z=', '')]
    elif r == 6:
        i = rng.randrange(len(path))
        path[i] += rng.choice('a1A.-_%')
    else:
        path = path[:-1] + [''] if len(path) > 1 else path + ['']
    return path, query, frag


def s_digest(rec, rng):
    rec.reset()
    base = comps(rng)
    pool = [base]
    for _ in range(14):
        c = rng.choice(pool)
        c = vary_comps(rng, c) if rng.random() < .5 else tweak(rng, c)
        pool.append(c)
    ops = []
    for c in pool:
        u = gen.render(rng, *c)[0]
        if gen.domain(u):
            ops.append(['digest', u, 'url'])
        if rng.random() < .6:
            ops.append(['digest', gen.pattern_of(rng, *c), 'pat'])
    for u, _ in gen.extreme(rng)[:4] if rng.random() < .1 else ():
        ops.append(['digest', u, 'url'])
    for op in ops:
        rec.digest(*op[1:])
    if rng.random() < .4:
        rng.shuffle(ops)
        rec.elsewhere(ops, rng.randrange(10 ** 6))
    if rng.random() < .2:
        for u in ['http://h/?a-z', 'http://h/?a=b', 'http://h/?a', 'http://h/a-z', 'http://h/?a=&b=', 'http://h/?a==', 'http://h/?=a',
                  'http://h/#a', 'http://h/a#', 'http://h/?#', 'http://h/?', 'http://h/', 'http://h/a/', 'http://h/?a&b']:
            rec.digest(u, 'url')


# -- clustering --------------------------------------------------------------

def load_all(rec, rng, k, urls, dup=.1):
    for u, c in urls:
        rec.load(k, u, canon=c)
        if rng.random() < dup:
            rec.load(k, u, canon=c, nometa=rng.random() < .3)


def bare(rec, rng, m, urls):
    """The same URLs in another maker, some or all of them without metadata."""
    us = list(dict.fromkeys(u for u, _ in urls))
    us += some(rng, us, 3)
    rng.shuffle(us)
    share = rng.choice([1, 1, .5, .1])
    rec.maker(7, m)
    for u in us:
        rec.load(7, u, nometa=rng.random() < share)
    rec.bare(7)


def s_make(rec, rng):
    r = rng.random()
    if r < .1:
        return s_hist(rec, rng)
    rec.reset()
    m, urls = gen.case(rng)
    rec.maker(1, m, default=m == 3 and rng.random() < .5)
    if r < .2:  # make while the maker grows
        for i, (u, c) in enumerate(urls):
            rec.load(1, u, canon=c)
            if rng.random() < .15:
                rec.make(1)
    elif r < .3:  # low-level makers
        for u, c in urls:
            rec.load(1, u, canon=c, low=True)
        rec.make(1, low=True)
        return
    else:
        load_all(rec, rng, 1, urls)
    rec.make(1)
    if rec.prop in ('C05', 'C16') and rng.random() < .15:
        bare(rec, rng, m, urls)
    if r > .9:
        if r > .95:
            rec.guarded(lambda: [1 for _ in rec.makers[1].make(combine=True)])
        rec.make(1)


def e_make(rec, part, parts, tier):
    """Every subset of small universes of URLs, at every small threshold."""
    n = 0
    for uni in UNIVERSES:
        for mask in range(1, 1 << len(uni)):
            for m in (2, 3, 4) if tier == 'thorough' else (2, 3):
                n += 1
                if n % parts != part:
                    continue
                rec.reset('subset of a universe')
                rec.maker(1, m)
                for i, x in enumerate(uni):
                    if mask >> i & 1:
                        rec.load(1, 'http://h/' + x, canon='/' + x)
                rec.make(1)


def s_order(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 60)
    if rng.random() < .4:
        us = [u for u, _ in urls]
        rng.shuffle(us)
        ops = [['load', 9, u] for u in us]
        if rng.random() < .3:
            i = rng.randrange(len(ops))
            ops[i:i] = [['make', 9]]
        rec.elsewhere([['maker', 9, m]] + ops + [['make', 9]], rng.randrange(10 ** 6))
    for k in range(1, rng.choice([3, 4])):
        rec.maker(k, m)
        us = list(urls)
        rng.shuffle(us)
        if k > 1:
            us += [rng.choice(urls) for _ in range(rng.randint(0, 6))]
            if rng.random() < .5:
                rng.shuffle(us)
        for u, c in us:
            if k > 1 and rng.random() < .3 and u.startswith('http://example.com/'):
                u = rng.choice(['https://other.org:1', 'HTTP://x', 'http://example.com']) + u[len('http://example.com'):]
            rec.load(k, u)
        rec.make(k)


def s_hist(rec, rng):
    """Any interleaving of loading, making, giving up and combining, of two
    makers; every answer is compared with that of a fresh maker."""
    rec.reset()
    ms = {1: gen.mcn(rng), 2: gen.mcn(rng)}
    urls = {}
    done = {1: [], 2: []}
    shared = gen.urlset(rng)[:24]
    for k in (1, 2):
        rec.maker(k, ms[k], default=ms[k] == 3 and rng.random() < .5)
        urls[k] = shared if rng.random() < .5 else gen.urlset(rng)[:24]
    fresh = 10
    open_its = []
    for step in range(rng.randint(4, 10)):
        k = rng.choice([1, 1, 2])
        r = rng.random()
        if r < .45 or not done[k]:
            for _ in range(rng.randint(1, 10)):
                if rng.random() < .1:
                    u = gen.mutate(rng, rng.choice(urls[k])[0])
                    if not gen.domain(u):
                        continue
                else:
                    u = rng.choice(urls[k])[0]
                if not rec.load(k, u)['exc']:
                    done[k].append(u)
            open_its = [x for x in open_its if x[0] != k]
        elif r < .75:
            rec.make(k)
            if rng.random() < .7:
                fresh += 1
                rec.maker(fresh, ms[k])
                us = list(done[k])
                rng.shuffle(us)
                for u in us:
                    rec.load(fresh, u)
                rec.make(fresh)
        elif r < .85:  # an iteration given up, or left open
            it = rec.iterate(k)
            rec.guarded(lambda: next(it, None))
            if rng.random() < .5:
                open_its.append((k, it))
        elif r < .95:  # two iterations at once
            its = [rec.iterate(k), rec.iterate(k)]
            got = [[], []]
            live = [0, 1]
            exc = ''
            while live and not exc:
                i = rng.choice(live)

                def go(i=i):
                    for c in its[i]:
                        return c
                c, exc = rec.guarded(go)
                if c is None:
                    live.remove(i)
                else:
                    got[i].append(c)
            for g in got:
                rec.made(k, g, exc)
        else:
            rec.guarded(lambda: [1 for _ in rec.makers[k].make(combine=True)])
    for k in (1, 2):
        if done[k]:
            rec.make(k)
            fresh += 1
            rec.maker(fresh, ms[k])
            for u in sorted(set(done[k])):
                rec.load(fresh, u)
            rec.make(fresh)
            if rng.random() < .5:  # a process without a history
                fresh += 1
                rec.elsewhere([['maker', fresh, ms[k]]] + [['load', fresh, u] for u in done[k]] + [['make', fresh]],
                              rng.randrange(10 ** 6))


def s_round(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 60)
    rec.maker(1, m)
    load_all(rec, rng, 1, urls, 0)
    e = rec.make(1)
    rec.matcher(1)
    pats = [''.join(map(chr, c['pat'])) for c in e['cl']]
    rng.shuffle(pats)
    for p in pats:
        rec.loadp(1, p)
    for u in some(rng, sorted(set(u for u, _ in urls)), 30):
        rec.match(1, u)


def e_round(rec, part, parts, tier):
    n = 0
    for uni in UNIVERSES:
        for mask in range(1, 1 << len(uni)):
            for m in (2, 3):
                n += 1
                if n % parts != part:
                    continue
                rec.reset('subset of a universe')
                rec.maker(1, m)
                us = ['http://h/' + x for i, x in enumerate(uni) if mask >> i & 1]
                for u in us:
                    rec.load(1, u)
                e = rec.make(1)
                rec.matcher(1)
                for c in e['cl']:
                    rec.loadp(1, ''.join(map(chr, c['pat'])))
                for u in us:
                    rec.match(1, u)


# -- matching ----------------------------------------------------------------

def any_pattern(rng):
    r = rng.random()
    if r < .5:
        return gen.pattern_of(rng, *comps(rng))
    if r < .75:
        return gen.mutate_pattern(rng, gen.pattern_of(rng, *comps(rng)))
    return gen.pattern_string(rng)


def families(rng):
    """URLs of one signature and patterns that may match them."""
    base = comps(rng)
    us = [base]
    for _ in range(rng.randint(1, 6)):
        us.append(vary_comps(rng, rng.choice(us), rng.choice([.3, .7])))
    if gen.BIG in (0, 1, 2):  # many patterns of one or many groups
        us, pats = [], []
        for i in range(400):
            if gen.BIG and i % (4 if gen.BIG == 1 else 40) == 0:
                base = comps(rng)
            us.append(vary_comps(rng, base, .5))
            pats.append(gen.pattern_of(rng, *us[-1]))
        return us[:20], sorted(set(pats))
    if gen.BIG in (6, 7) or (gen.BIG is None and rng.random() < .04):  # a crowd: most patterns match most URLs
        return us[:3], sorted(set(gen.pattern_of(rng, *rng.choice(us[:2])) for _ in range(rng.choice([40, 120] if gen.BIG is None else [400]))))
    pats = []
    for _ in range(rng.randint(2, 14)):
        pats.append(gen.pattern_of(rng, *rng.choice(us)))
    return us, pats


def s_match(rec, rng, rank=False, odd=False):
    rec.reset()
    us, pats = families(rng)
    if rng.random() < .3:
        us2, pats2 = families(rng)
        us, pats = us + us2, pats + pats2
    if odd:
        pats += [gen.mutate_pattern(rng, rng.choice(pats)) for _ in range(rng.randint(0, 5))]
    texts = []
    for c in us:
        u = gen.render(rng, *c)[0]
        if gen.domain(u):
            texts.append(u)
    orders = [pats]
    if rank:
        for _ in range(2):
            q = list(pats)
            rng.shuffle(q)
            orders.append(q)
    for k, ps in enumerate(orders, 1):
        rec.matcher(k)
        for i, p in enumerate(ps):
            rec.loadp(k, p)
            if not rank and rng.random() < .15 and texts:  # loading goes on after a match
                rec.match(k, rng.choice(texts))
        for u in texts:
            rec.match(k, u, rank=rank)
            if rng.random() < .1:
                rec.match(k, u, rank=rank)


def s_match12(rec, rng):
    s_match(rec, rng, odd=True)


def s_rank(rec, rng):
    s_match(rec, rng, rank=True)


PIECES = ['a', 'ab', 'a1', 'a1b', 'a-1', 'a.b', 'a1.b', 'a-1.b', 'a.b1', '-', 'a%1', '%', 'A1a', 'a.1-', '1.2.a', '']


def all_patterns(s, last):
    """Every pattern the generaliser can give for one component."""
    if not s:
        return ['']
    rs = gen.runs(s)
    out = set()
    n = len(rs)
    for cut in itertools.product([0, 1], repeat=n - 1):
        groups = [[rs[0]]]
        for r, c in zip(rs[1:], cut):
            if c:
                groups.append([r])
            else:
                groups[-1].append(r)
        for hows in itertools.product(['lit', 'len', 'any'], repeat=len(groups)):
            out.add(''.join(gen.soften(None, g, h) for g, h in zip(groups, hows)))
    return sorted(out)


def e_match(rec, part, parts, tier, rank=False):
    """Every pattern of every view of small components against all of them."""
    n = 0
    for tpl_u, tpl_p in (('http://h/%s', '/%s'), ('http://h/%s/x', '/%s/x'), ('http://h/?k=%s', '/[\\?]k=%s')):
        for s in PIECES:
            n += 1
            if n % parts != part:
                continue
            rec.reset('patterns of one component')
            rec.matcher(1)
            for p in all_patterns(s, True):
                rec.loadp(1, tpl_p % p)
            for t in PIECES + ['b', 'cd', 'b2', 'b22', 'c2d', 'c-3', 'cc-3', 'c.d', 'cc.d', 'c2.d', 'c-2.d', 'c-2.e', 'a.b2', 'a.c1']:
                if t or tpl_u.endswith('%s'):
                    rec.match(1, tpl_u % t, rank=rank)


def e_rank(rec, part, parts, tier):
    e_match(rec, part, parts, tier, rank=True)


def s_plang(rec, rng):
    rec.reset()
    us, pats = families(rng)
    rec.matcher(1)
    rec.matcher(2)
    every = pats + [any_pattern(rng) for _ in range(6)] + \
        [gen.mutate_pattern(rng, rng.choice(pats)) for _ in range(10)]
    if rng.random() < .2:
        every += ['http://h/a', 'a', '', '[a-z]+']
    rng.shuffle(every)
    good = []
    for p in every:
        if not rec.loadp(1, p)['exc']:
            good.append(p)
    # same order: other spellings of one pattern may stand for each other
    for p in good:
        rec.loadp(2, p)
    ask = []
    for c in us:
        u = gen.render(rng, *c)[0]
        if gen.domain(u):
            rec.match(1, u)
            rec.match(2, u)
            ask.append(u)
    if rng.random() < .3:
        rec.elsewhere([['matcher', 3]] + [['loadp', 3, p] for p in good] + [['match', 3, u] for u in ask],
                      rng.randrange(10 ** 6))


def e_plang(rec, part, parts, tier):
    """Every short pattern over the characters that have a meaning."""
    n = 0
    rec.reset('enumeration of patterns')
    for alpha, k in ((['[', ']', 'a-z', '0-9', '+', '{', '}', '2', 'b'], 5), (['[', ']', '\\', '.', '-', 'a', '+'], 5),
                     (['[', ']', '[\\?]', '&', '=', '#', '/', 'a'], 4), (['[a-z]', '{', '}', '0', '1', '2', '+', ','], 4),
                     (['[', ']', 'a-z', '0-9', 'A-Z', '%', '\\.', '{2}', '{3}', '+'], 5)):
        for w in words(alpha, k if tier == 'thorough' else k - 1):
            n += 1
            if n % parts == part:
                rec.parsep('/' + w)
    for c in list(range(256)) + [0x2b2, 0x663, 0x966, 0x2028, 0x212a, 0xff13, 0xff41, 0x1d7d1]:
        for f in ('/%s', '/[%s]', '/[\\%s]', '/a%s', '/[a-z]%s', '/[a-z%s]+', '/[\\?]%s=a', '/#%s', '/[a-z]{%s}', '/[a-z]{2%s}'):
            n += 1
            if n % parts == part:
                rec.parsep(f % chr(c))


# -- whole procedures ----------------------------------------------------------

def s_shard(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 50)
    rec.maker(1, m)
    rec.maker(2, m)
    for u, _ in urls:
        rec.load(1, u)
    us = list(urls)
    rng.shuffle(us)

    def low():  # both ways of asking for the digest, mixed
        return rng.choice([True, 'text'])
    for u, _ in us:
        rec.load(2, u, low=low())
    e = rec.make(1)
    rec.make(2, low=True)
    if rng.random() < .3:
        rec.make(1, low='makers')
    rec.matcher(1)
    rec.matcher(2)
    pats = [''.join(map(chr, c['pat'])) for c in e['cl']]
    u0 = rng.choice(urls)[0]
    _, more = families(rng)
    pats += more
    rng.shuffle(pats)
    for p in pats:
        rec.loadp(1, p)
    rng.shuffle(pats)
    for p in pats:
        rec.loadp(2, p, low=low())
    for u in some(rng, sorted(set(u for u, _ in urls)), 15) + [gen.Site(rng).url()[0]]:
        if gen.domain(u):
            rec.match(1, u)
            rec.match(2, u, low=low())


def s_meta(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 40)
    rec.maker(1, m)
    ops = []
    for u, _ in urls:
        ops.append((u, None, False))
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append((u, rng.randint(1, 7), False))
        if rng.random() < .1:
            ops.append((u, None, True))
        if rng.random() < .2 and u.startswith('http://example.com/'):
            ops.append(('https://mirror.net' + u[len('http://example.com'):], None, False))
    if rng.random() < .7:
        rng.shuffle(ops)
    for i, (u, tag, none) in enumerate(ops):
        rec.load(1, u, tag=tag, nometa=none)
        if rng.random() < .02:
            rec.make(1)
    # every URL is known by its own meta too
    for u, _ in urls:
        rec.load(1, u)
    rec.make(1)
    if rng.random() < .3:
        bare(rec, rng, m, urls)
    us, pats = families(rng)
    rec.matcher(1)
    for p in pats + some(rng, pats, 4):
        rec.loadp(1, p, odd=rng.choice([None, None, None, None, 0, '', (), frozenset()]))
        if rng.random() < .2:
            rec.loadp(1, p, nometa=True)
        if rng.random() < .2:
            u = gen.render(rng, *rng.choice(us))[0]
            if gen.domain(u):
                rec.match(1, u)
    for c in us:
        u = gen.render(rng, *c)[0]
        if gen.domain(u):
            rec.match(1, u)


def s_iso(rec, rng):
    """One set of URLs alone, and among others."""
    rec.reset()
    m, a = gen.case(rng, 24)
    b = gen.urlset(rng)[:16]
    if rng.random() < .5:  # neighbours: nearly the same signature
        b = [(gen.mutate(rng, u), None) for u, _ in a]
        b = [x for x in b if gen.domain(x[0])]
    for k, us in enumerate((a, b, a + b), 1):
        rec.maker(k, m)
        us = list(us)
        rng.shuffle(us)
        for u, _ in us:
            rec.load(k, u)
        rec.make(k)


def s_combine(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 40)
    rec.maker(1, m)
    load_all(rec, rng, 1, urls)
    if rng.random() < .5:
        rec.combine(1)
    rec.make(1)
    rec.combine(1)


FORMATS = ['CLUSTER', 'PATTERN', 'INLINE', 'JSON', 'ETE', 'NULL']


def noise(rng):
    return rng.choice([b'', b'   ', b'\t', b'http://h', b'http://h/\xff\xfe', b'http://h/a b', 'http://h/\u4e2d'.encode(), b'#',
                       b'/a/b', b'/[a-z]+', b'http://h/?a&&b', b'http://h/?\x7f=1', b'xyz', b'?', b'http://[/x', b'http://h/a\tb', b'http://h/a\rb'])


def cfg_text(rng, m):
    """A configuration file: what it does not set is the default."""
    if m == 3 and rng.random() < .3:
        return rng.choice([b'', b'\n', b'[other]\nx = 1\n', b'[make]\n', b'# min_cluster_num = 5\n', b'[make]\n;min_cluster_num = 5\n',
                           b'[match]\nmin_cluster_num = 7\n'])
    t = rng.choice([b'min_cluster_num = %d\n', b'min_cluster_num = %d\n', b'min_cluster_num=%d', b'min_cluster_num: %d\n', b'MIN_CLUSTER_NUM = %d\n',
                    b'# twice\nmin_cluster_num = %d \n', b'other = 9\nmin_cluster_num = %d\n\n[other]\nmin_cluster_num = 9\n']) % m
    return rng.choice([b'', b'', b'', b'; x\n', b'[match]\na = b\n']) + b'[make]\n' + t


def s_climake(rec, rng):
    rec.reset()
    m, urls = gen.mcn(rng), gen.urlset(rng, big=.3)
    if rng.random() < .3:
        m, urls = gen.case(rng)
    rec.maker(1, m)
    urls = [u for u, _ in urls[:24 if m < 10 else 60]]
    lines = []
    for u in urls:
        try:
            lines.append((u.encode('ascii'), u))
        except UnicodeError:
            continue
        if rng.random() < .1:
            lines.append((u.encode('ascii'), u))
        if rng.random() < .15:
            lines.append((noise(rng), None))
    rng.shuffle(lines)
    for _, u in lines:
        if u is not None:
            rec.load(1, u)
    rec.make(1)
    rec.combine(1)
    r = rng.random()
    fresh = rng.randint(1, 10 ** 6) if r < .03 else 0
    if r > .985 and lines:
        # a long input: the same lines again and again
        n = rng.choice([1001, 4999, 5000, 5001, 10001])
        lines = lines + [rng.choice(lines) for _ in range(n - len(lines))]

    def pack(ls):
        out = b''
        for raw, _ in ls:
            out += rng.choice([b'', b'', b'', b' ', b'\t', b'\x0c ']) + raw + rng.choice([b'', b'', b'', b' ', b'\r', b'\x0b\x0c']) + b'\n'
        if out and rng.random() < .3:
            out = out[:-1]
        return out
    for fmt in rng.sample(FORMATS, 3):
        argv = []
        if fmt != 'CLUSTER' or rng.random() < .5:
            argv += [rng.choice(['-f', '--formatter']), rng.choice([fmt, fmt.lower(), fmt.capitalize()])]
        if rng.random() < .4:
            argv += [rng.choice(['-l', '--loglevel']), rng.choice(['debug', 'DEBUG', 'info', 'warn', 'error', 'fatal', 'NOTSET'])]
        if m != 3 or rng.random() < .3:
            argv += [rng.choice(['-c', '--config']), rec.file('cfg', cfg_text(rng, m))]
        data = b''
        if rng.random() < .3:
            i = rng.randint(0, len(lines))
            j = rng.randint(i, len(lines))
            argv += [rng.choice(['-i', '--inputs']), rec.file('f1', pack(lines[:i])), rec.file('f2', pack(lines[i:j])),
                     rec.file('f3', pack(lines[j:]))]
        else:
            data = pack(lines)
        rec.climake(1, fmt, argv, data, fresh)


def s_climatch(rec, rng):
    rec.reset()
    us, pats = families(rng)
    if rng.random() < .4:
        us2, pats2 = families(rng)
        us, pats = us + us2, pats + pats2
    pats += [any_pattern(rng) for _ in range(3)]
    pats = [p for p in pats if p == p.rstrip() and p.isascii()]
    rng.shuffle(pats)
    rec.matcher(1)
    for p in pats:
        rec.loadp(1, p)
    lines = []
    for c in us:
        for _ in range(rng.choice([1, 1, 2])):
            u = gen.render(rng, *c)[0]
            if gen.domain(u) and u.isascii() and u == u.strip() and not u.startswith('/'):
                lines.append(u.encode())
                rec.match(1, u, rank=True)
        if rng.random() < .3:
            x = noise(rng)
            if b'[/' not in x:
                lines.append(x)
    if pats and rng.random() < .2:
        lines.append(rng.choice(pats).encode())
    rng.shuffle(lines)
    if not lines:
        return
    r = rng.random()
    fresh = rng.randint(1, 10 ** 6) if r < .03 else 0
    if r > .998:
        lines = [rng.choice(lines[:5]) for _ in range(rng.choice([1001, 5000, 5001]))]
    elif r > .98:
        pats += [rng.choice(pats) for _ in range(rng.choice([999, 1000, 1001, 2500]))] if pats else []
    plines = []
    for p in pats:
        plines.append(p.encode())
        if rng.random() < .1:
            plines.append(rng.choice([b'', b'# comment', b'\thttp://h/a', b'/[', b'/\xff', b'abc']))
    pdata = b''.join(x + rng.choice([b'', b'', b' ', b'\r', b'\x0c']) + b'\n' for x in plines)
    data = b''.join(rng.choice([b'', b'', b'', b' ', b'\x0c']) + x + rng.choice([b'', b'', b'', b'\r', b'\t', b' \x0b']) + b'\n' for x in lines)
    if rng.random() < .3:
        data = data[:-1]
    if rng.random() < .3:
        i = rng.randint(0, len(plines))
        pf = [rec.file('p1', b'\n'.join(plines[:i])), rec.file('p2', b'\n'.join(plines[i:]))]
    else:
        pf = [rec.file('p1', pdata)]
    stripped = [x.strip() for x in data.split(b'\n')]
    if data.endswith(b'\n'):
        stripped = stripped[:-1]
    dec = []
    for x in stripped:
        try:
            x.decode('utf-8')
            dec.append(True)
        except UnicodeDecodeError:
            dec.append(False)
    for every in (False, True):
        argv = [rng.choice(['-p', '--pattern-files'])] + pf
        if every:
            argv += [rng.choice(['-a', '--all-matched'])]
        if rng.random() < .4:
            argv += [rng.choice(['-l', '--loglevel']), rng.choice(['debug', 'info', 'warn', 'error'])]
        inp = data
        if rng.random() < .3:
            fs = [rec.file('u1', data)]
            if rng.random() < .5:
                i = data.find(b'\n', rng.randint(0, len(data))) + 1
                fs = [rec.file('u1', data[:i]), rec.file('u2', data[i:])]
            argv += [rng.choice(['-i', '--inputs'])] + fs
            inp = b''
        rec.climatch(1, argv, inp, stripped, dec, every, fresh)


LEVELS = ['NOTSET', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL']


def s_log(rec, rng):
    """Both commands at several log levels."""
    rec.reset()
    m, urls = gen.case(rng)
    cap = 24 if m < 10 else 60
    us = [u for u, _ in (urls if gen.BIG is not None else urls[:cap]) if u.isascii() and u == u.strip() and gen.domain(u)]
    if gen.BIG == 3:
        us = us[:4]
    rec.maker(1, m)
    for u in us:
        rec.load(1, u)
    rec.make(1)
    lines = [u.encode() for u in us]
    lines += some(rng, lines, 3)
    for _ in range(rng.choice([0, 1, 2, 5])):
        x = noise(rng)
        if b'[/' not in x:
            lines.append(x.strip())
    rng.shuffle(lines)
    if rng.random() < .01 and sum(map(len, lines)) < 2000:
        bits = rng.sample(lines, min(3, len(lines)))
        lines = lines + [rng.choice(bits) for _ in range(rng.choice([4999, 5000, 5001]) - len(lines))] if bits else []

    def pack(xs):
        out = b''.join(rng.choice([b'', b'', b' ', b'\t']) + x + rng.choice([b'', b'', b' ', b'\r', b'\x0c']) + b'\n' for x in xs)
        return out[:-1] if out.endswith(b'\n') and xs[-1] and rng.random() < .3 else out

    def flag(level):
        if level == 'NOTSET' and rng.random() < .7:
            return []
        return [rng.choice(['-l', '--loglevel']), rng.choice([level, level.lower()])]

    def feed(data):
        if rng.random() < .3:
            i = data.find(b'\n', rng.randint(0, len(data))) + 1
            return [rng.choice(['-i', '--inputs']), rec.file('f1', data[:i]), rec.file('f2', data[i:])], b''
        return [], data
    fresh = rng.randint(1, 10 ** 6) if rng.random() < .02 else 0
    fmt = rng.choice(FORMATS)
    data = pack(lines)
    for level in ['DEBUG'] + rng.sample(LEVELS, 2):
        argv = flag(level)
        if fmt != 'CLUSTER' or rng.random() < .5:
            argv += ['-f', fmt.lower()]
        if m != 3 or rng.random() < .3:
            argv += ['-c', rec.file('cfg', cfg_text(rng, m))]
        more, inp = feed(data)
        rec.clilog(1, 'make', fmt, level, argv + more, inp, lines, (), fresh)
    us, pats = families(rng)
    pats = [p for p in pats + [any_pattern(rng) for _ in range(3)] if p == p.rstrip() and p.isascii()]
    plines = [p.encode() for p in pats]
    for _ in range(rng.choice([0, 2, 4])):
        plines.append(rng.choice([b'', b'# comment', b'http://h/a', b'/[', b'/\xff', b'abc', b'/a]', b' /a', b'/', b'\t/b']))
    rng.shuffle(plines)
    if plines and rng.random() < .03 and sum(map(len, plines)) < 2000:
        bits = rng.sample(plines, min(4, len(plines)))
        plines = plines + [rng.choice(bits) for _ in range(rng.choice([999, 1000, 1001, 2000]) - len(plines))]
    asks = [u.encode() for u in (gen.render(rng, *c)[0] for c in us[:6]) if gen.domain(u) and u.isascii() and u == u.strip()]
    asks += [x.strip() for x in (noise(rng) for _ in range(rng.choice([0, 1, 3]))) if b'[/' not in x]
    rng.shuffle(asks)
    pdata = b''.join(x + rng.choice([b'', b'', b' ', b'\r']) + b'\n' for x in plines)
    data = pack(asks)
    every = rng.random() < .5
    for level in ['DEBUG'] + rng.sample(LEVELS, 2):
        i = pdata.find(b'\n', rng.randint(0, len(pdata))) + 1 if rng.random() < .3 else 0
        more, inp = feed(data)
        argv = ['-p'] + ([rec.file('p1', pdata[:i]), rec.file('p2', pdata[i:])] if i else [rec.file('p1', pdata)])
        rec.clilog(1, 'match', 'all' if every else 'one', level, argv + (['-a'] if every else []) + flag(level) + more, inp, asks, plines, fresh)


def s_pipe(rec, rng):
    """pattern-make | pattern-match over the same lines."""
    rec.reset()
    m, urls = gen.case(rng, 50)
    urls = [u for u, _ in urls if u.isascii() and u == u.strip()]
    rec.maker(1, m)
    lines = []
    for u in urls:
        rec.load(1, u)
        lines.append(u.encode())
        if rng.random() < .05:
            x = noise(rng)
            if b'[/' not in x:
                lines.append(x)
    rec.make(1)
    rng.shuffle(lines)
    if not lines:
        return
    data = b'\n'.join(lines) + rng.choice([b'', b'\n'])
    stripped = [x.strip() for x in data.split(b'\n')]
    if data.endswith(b'\n'):
        stripped = stripped[:-1]
    fresh = rng.randint(1, 10 ** 6) if rng.random() < .03 else 0
    for fmt in ('PATTERN', 'CLUSTER'):
        every = rng.random() < .7
        argv = ['-f', fmt]
        if m != 3:
            argv += ['-c', rec.file('cfg', cfg_text(rng, m))]
        rec.pipe(1, fmt, argv, data, ['-a'] if every else [], stripped, every, fresh)


def again(rec, m, e, names, most=6):
    """Make every cluster of an answer again, alone."""
    cs = [c for c in e['cl'] if len(c['mem']) > 1] + [c for c in e['cl'] if len(c['mem']) == 1][:1]
    for i, c in enumerate(cs[:most], 2):
        rec.maker(i, m)
        for x in c['mem']:
            rec.load(i, names[x])
        rec.make(i)


def s_final(rec, rng):
    rec.reset()
    m, urls = gen.case(rng)
    rec.maker(1, m)
    for u, _ in urls:
        rec.load(1, u)
    e = rec.make(1)
    again(rec, m, e, {v: k for k, v in rec.ids.items()})


def e_final(rec, part, parts, tier):
    n = 0
    for uni in UNIVERSES:
        for mask in range(1, 1 << len(uni)):
            for m in (2, 3):
                n += 1
                if n % parts != part:
                    continue
                rec.reset('subset of a universe')
                rec.maker(1, m)
                for i, x in enumerate(uni):
                    if mask >> i & 1:
                        rec.load(1, 'http://h/' + x)
                e = rec.make(1)
                again(rec, m, e, {v: k for k, v in rec.ids.items()}, 3)


def s_formats(rec, rng):
    rec.reset()
    m, urls = gen.case(rng, 60)
    rec.maker(1, m)
    for u, _ in urls:
        rec.load(1, u)
        if rng.random() < .15:
            rec.load(1, u)
        if rng.random() < .1:
            rec.load(1, u, nometa=True)
        if rng.random() < .1 and u.startswith('http://example.com/'):
            rec.load(1, 'https://mirror.net' + u[len('http://example.com'):])
    if rng.random() < .5:
        rec.make(1)
    rec.formats(1)
    rec.make(1)
    if rng.random() < .4:
        bare(rec, rng, m, urls)
        rec.formats(7)
    if rng.random() < .2:
        rec.formats(1)


def s_threads(rec, rng):
    """What several threads do, each with its own maker and matcher and all
    with one loaded matcher, at once and one after the other."""
    rec.reset()
    shared = gen.urlset(rng)[:10]
    us0, pats0 = families(rng)
    texts0 = [u for u in (gen.render(rng, *c)[0] for c in us0) if gen.domain(u) and not u.startswith('/')]
    rec.matcher(1)
    for p in pats0:
        rec.loadp(1, p)
    todo = []
    for t in range(rng.choice([2, 2, 3])):
        m = rng.choice([2, 3])
        urls = [u for u, _ in (shared if rng.random() < .4 else gen.urlset(rng)[:10])]
        rng.shuffle(urls)
        us, pats = families(rng) if rng.random() < .6 else (us0, pats0)
        texts = [u for u in (gen.render(rng, *c)[0] for c in us) if gen.domain(u) and not u.startswith('/')]
        make = [('load', u) for u in urls] + [('make',)]
        if rng.random() < .5:
            make[len(make) // 2:0] = [('make',)]
        rest = [('loadp', p) for p in pats[:5]] + [('match', u) for u in texts[:3]]
        ask = [('ask', u) for u in some(rng, texts0, 3)] + [('parse', u) for u in some(rng, urls + texts, 3)] + \
            [('digest', u) for u in some(rng, urls + texts, 2)]
        rng.shuffle(ask)
        # the order within each of the three is kept
        ops = []
        qs = [make, rest, ask]
        while any(qs):
            q = rng.choice([q for q in qs if q])
            ops.append(q.pop(0))
        todo.append((m, ops))

    def play(base):
        plans = []
        for t, (m, ops) in enumerate(todo):
            k = base + t
            rec.maker(k, m)
            rec.matcher(k)
            plans.append([turn(k, op) for op in ops])
        return plans

    def turn(k, op):
        if op[0] == 'load':
            return lambda: rec.load(k, op[1])
        if op[0] == 'make':
            return lambda: rec.make(k)
        if op[0] == 'loadp':
            return lambda: rec.loadp(k, op[1])
        if op[0] == 'match':
            return lambda: rec.match(k, op[1])
        if op[0] == 'ask':
            return lambda: rec.match(1, op[1])
        if op[0] == 'parse':
            return lambda: rec.parse(op[1])
        return lambda: rec.digest(op[1], 'url')

    first = rng.random() < .5
    if first:
        rec.threads(play(20), rng)
    for plan in play(10):
        for op in plan:
            op()
    if not first:
        rec.threads(play(20), rng)


# property: (scenario, enumeration)
PLAN = {
    'C01': (s_struct, e_struct),
    'C02': (s_parse, e_split),
    'C03': (s_reject, e_reject),
    'C04': (s_digest, None),
    'C05': (s_make, e_make),
    'C06': (s_make, e_make),
    'C07': (s_make, e_make),
    'C08': (s_make, e_make),
    'C09': (s_order, None),
    'C10': (s_hist, None),
    'C11': (s_round, e_round),
    'C12': (s_match12, e_match),
    'C13': (s_match, e_match),
    'C14': (s_rank, e_rank),
    'C15': (s_plang, e_plang),
    'C16': (s_make, e_make),
    'C17': (s_climake, None),
    'C18': (s_climatch, None),
    'C19': (s_combine, None),
    'C20': (s_shard, None),
    'C21': (s_meta, None),
    'C22': (s_iso, None),
    'C23': (s_pipe, None),
    'C24': (s_final, e_final),
    'C25': (s_formats, None),
    'C26': (s_threads, None),
    'C27': (s_log, None),
}


# -- behaviours of the specification -----------------------------------------

def universes(seed, n=6):
    """Universes for spec/Behave.tla."""
    import random
    out = []
    for i in range(n):
        rng = random.Random('behave/%s/%d' % (seed, i))
        us = [u for u, _ in gen.urlset(rng)][:14]
        us += [b for b in (gen.mutate(rng, rng.choice(us)) for _ in range(3)) if gen.domain(b) and not b.startswith('/')]
        _, pats = families(rng)
        out.append(dict(urls=us, pats=pats[:8], ms=[gen.mcn(rng), gen.mcn(rng)]))
    return out


def replay(rec, path, part, parts):
    """Plays the behaviours TLC generated."""
    import json
    with open(path) as f:
        unis = json.loads(f.readline())
        for n, line in enumerate(f):
            if n % parts != part:
                continue
            b = json.loads(line)
            uni = unis[b['un'] - 1]
            rec.reset('behaviour of the specification')
            for k in (1, 2):
                rec.maker(k, uni['ms'][k - 1])
            rec.matcher(1)
            for h in b['hist']:
                k, u = h['k'], uni['urls'][h['i'] - 1] if h['op'] in ('load', 'match') else None
                if h['op'] == 'load':
                    rec.load(k, u)
                elif h['op'] == 'make':
                    rec.make(k)
                elif h['op'] == 'giveup':
                    it = rec.iterate(k)
                    rec.guarded(lambda: next(it, None))
                elif h['op'] == 'combine':
                    rec.combine(k)
                elif h['op'] == 'loadp':
                    rec.loadp(1, ''.join(map(chr, h['p'])))
                elif h['op'] == 'match':
                    rec.match(1, u)
            for k in (1, 2):
                rec.make(k)
