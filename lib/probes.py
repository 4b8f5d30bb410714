"""Replays the inputs of the listed findings: probes.py ID...  prints the IDs
of those that still fail as listed."""
import sys

import rec as R

c = R.Code()


def maker(m, urls):
    cfg = c.get_default_config()
    cfg.set('make', 'min_cluster_num', str(m))
    p = c.PatternMaker(cfg)
    for u in urls:
        p.load(u)
    return [r for _, r in p.make()]


def deep(n):
    return '/x' * n


def fails(fn, exc):
    try:
        fn()
    except exc:
        return True
    except Exception:
        return False
    return False


def deep_match():
    m = c.PatternMatcher()
    m.load(deep(1200))
    m.match('http://h' + deep(1200))


PROBES = {
    'deep-make': lambda: fails(lambda: maker(3, ['http://h' + deep(1200)]), RecursionError),
    'deep-match': lambda: fails(deep_match, RecursionError),
    'threshold-one': lambda: fails(lambda: maker(1, ['http://h/ab', 'http://h/cd']), AttributeError),
}

for name in sys.argv[1:]:
    if PROBES[name]():
        print(name)
