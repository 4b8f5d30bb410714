"""Universes for the model checking of the specification (spec/Design.tla,
spec/Lang.tla) and which invariants belong to which property."""
import itertools
import json

import scen_data as D


def t(s):
    return [ord(c) for c in s]


def url_universes(tier):
    out = []
    for uni in D.UNIVERSES + (D.MORE_UNIVERSES if tier == 'thorough' else []):
        n = 6 if tier == 'quick' else 8
        out.append(dict(urls=[t('http://h/' + x) for x in uni[:n]], pats=[], asks=[],
                        ms=[2, 3] if tier == 'quick' else [2, 3, 4]))
    # mirrors, refused URLs and neighbours of other signatures
    for us in D.ODD_UNIVERSES:
        out.append(dict(urls=[t(x) for x in us], pats=[], asks=[], ms=[2, 3]))
    return out


def pat_universes(tier):
    out = []
    for pats, asks in D.PATTERN_UNIVERSES:
        n = 8 if tier == 'quick' else 11
        out.append(dict(urls=[], pats=[t(x) for x in pats[:n]], asks=[t(x) for x in asks], ms=[2]))
    return out


def url_words(tier):
    k = 0 if tier == 'quick' else 1
    return [dict(pre=t(p), tokens=[t(x) for x in toks], n=n + k) for p, toks, n in D.URL_WORDS]


def pat_words(tier):
    k = 0 if tier == 'quick' else 1
    return [dict(pre=t(p), tokens=[t(x) for x in toks], n=n + k) for p, toks, n in D.PAT_WORDS]


def threads(tier):
    out = [['a1', '--b', 'A.'], ['aa', 'a', 'b\\\\']]
    if tier == 'thorough':
        out += [['a1b', '..', '%2', 'x'], ['ab-1', '1', '-', 'B']]
    return [dict(texts=[t(x) for x in xs]) for xs in out]


def reading(tier):
    pick = [('http://h/a', 1), ('http://g/a', 1), ('http://h/b?k=1', 1), ('', 1), ('xyz', 1), ('/a', 1), ('/[a-z]{2}', 1), ('/[a-z', 1),
            ('http://h/a', 0), ('/a', 0), ('http://h/?&', 1)]
    return [dict(lines=[t(x) for x, _ in pick], dec=[bool(d) for _, d in pick], n=4 if tier == 'quick' else 5)]


SOURCES = dict(reading=('Tally.tla', reading), threads=('Threads.tla', threads), urls=('Design.tla', url_universes), pats=('Design.tla', pat_universes),
               urlwords=('Lang.tla', url_words), patwords=('Lang.tla', pat_words))

# property: [(source, invariants)]
INVARIANTS = {
    'C01': [('urlwords', 'HostFree Shape PathAgain')],
    'C02': [('urlwords', 'Lossless Views')],
    'C03': [('urls', 'OnlyRegular'), ('urlwords', 'Refused Shape')],
    'C04': [('urlwords', 'LiteralSignature')],
    'C05': [('urls', 'Partition')],
    'C06': [('urls', 'Sound')],
    'C07': [('urls', 'EnoughOrLiteral')],
    'C08': [('urls', 'OnePerPattern')],
    'C09': [('urls', 'Partition OnePerPattern')],
    'C10': [('urls', 'Partition OnlyRegular')],
    'C11': [('urls', 'RoundTrip'), ('urlwords', 'LiteralReads')],
    'C12': [('pats', 'Strict'), ('patwords', 'StrictIsRegex')],
    'C13': [('pats', 'Alone'), ('urls', 'RoundTrip')],
    'C14': [('pats', 'Ranking')],
    'C15': [('patwords', 'UnitsAreText UnitsCount KeyAgain Inhabited'), ('urlwords', 'LiteralReads')],
    'C16': [('urls', 'Partition Sound EnoughOrLiteral OnePerPattern')],
    'C17': [('urls', 'Partition OnePerPattern')],
    'C18': [('pats', 'Ranking Alone')],
    'C19': [('urls', 'TreeShaped Partition')],
    'C20': [('urls', 'Isolated')],
    'C21': [('urls', 'Metas')],
    'C22': [('urls', 'Isolated')],
    'C23': [('urls', 'RoundTrip OnePerPattern')],
    'C24': [('urls', 'Final')],
    'C25': [('urls', 'Partition OnePerPattern')],
    'C26': [('threads', 'Answers Apart')],
    'C27': [('reading', 'Exact AddsUp Loaded')],
}


def write(prop, i, tier, path):
    """Writes path.cfg and path.json for the i-th model of the property:
    (name, module, cfg, universes); None if there is none."""
    if i >= len(INVARIANTS[prop]):
        return None
    src, invs = INVARIANTS[prop][i]
    module, fn = SOURCES[src]
    unis = fn(tier)
    with open(path + '.json', 'w') as f:
        json.dump(unis, f)
    with open(path + '.cfg', 'w') as f:
        f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
        if module == 'Lang.tla':
            f.write('VIEW View\n')
        if module == 'Threads.tla':
            f.write('CONSTANT Own = TRUE\n')
        f.write('INVARIANTS %s\n' % invs)
    return '%s over %d universes of %s' % (invs, len(unis), src), module, path + '.cfg', path + '.json'
