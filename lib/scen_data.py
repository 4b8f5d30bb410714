"""Fixed universes shared by the specification's models and the code's runs."""

UNIVERSES = [
    ['a', 'b', 'c', 'aa', 'bb', 'aaa'],
    ['1', '2', '11', 'a', 'b', 'a1', 'b2'],
    ['a1', 'b1', 'a2', 'b2', 'aa1', 'aa2'],
    ['a-b', 'a-c', 'b-b', 'c-c', 'aa-b', 'a-bb'],
    ['a.x', 'b.x', 'a.y', 'b.y', 'aa.x', 'c.x'],
    ['a-1.x', 'b-1.x', 'a-2.x', 'c-3.y', 'bb-1.x', 'a-1.y'],
    ['a1b2', 'b2a1', 'c1c1', 'a11b2', 'a1b22', 'aa1b2'],
    ['a1.m3', 'a2.m3', 'b1.m4', 'a1.m4', 'aa1.m3', 'b2.m3'],
    ['a/1', 'a/2', 'b/1', 'b/2', 'c/1', 'c/3', 'a/11'],
    ['a/a', 'a/b', 'b/a', 'b/b', 'c/c', 'aa/a', 'a/aa'],
    ['a?k=1', 'a?k=2', 'b?k=1', 'b?k=2', 'a?k=11', 'c?k=3'],
    ['a#1', 'a#2', 'b#1', 'b#2', 'c#3', 'c#33'],
    ['a%b', 'a%c', 'b%b', 'c%a', 'aa%b', 'a%bb'],
    ['a-b.c', 'b-a.c', 'c-c.c', 'a-b.d', 'aa-b.c', 'b-bb.c'],
    ['a1-b2c.d', 'a2-b1c.d', 'b1-c2a.d', 'b1-c2a.e', 'aa1-b2c.d', 'a1-b2cc.d'],
    ['a\\b', 'b\\c', 'c\\d', 'a\\\\b', 'aa\\b', 'b\\bb'],
]
MORE_UNIVERSES = [
    ['a', 'b', 'c', 'd', 'aa', 'bb', 'cc', 'aaa'],
    ['a/1/x', 'a/2/x', 'b/1/x', 'b/2/y', 'c/1/y', 'c/3/y', 'a/11/x', 'b/3/x'],
    ['a1b2/1', 'a2b1/1', 'b1a2/2', 'c1c2/2', 'a11b2/3', 'a1b22/3', 'a1b2/2', 'b1a2/1'],
    ['a-1.x?k=1', 'a-2.x?k=1', 'b-1.x?k=2', 'b-3.y?k=2', 'cc-1.x?k=1', 'cc-1.x?k=3', 'a-1.x?k=2', 'a-1.y?k=1'],
    ['%1a%2b', '%2a%1b', '%3c%1b', '%11a%2b', '%1aa%2b', '%1a%2bb', '%3a%3b', '%4a%4b'],
    ['x_1-a.html', 'y_2-b.html', 'z_3-c.html', 'x_1-a.htm', 'xx_1-a.html', 'x_11-b.html', 'y_1-a.htm', 'z_1-a.html'],
    ['a?k=1#x', 'a?k=2#x', 'b?k=1#y', 'b?k=2#y', 'a?k=11#x', 'c?k=3#z', 'a?k=1#xx', 'a?k=3#x'],
    ['2019-01-02', '2019-01-03', '2018-11-12', '2018-1-2', '2019-2-01', '201-1-2', '2017-12-31', '2016-1-1'],
    ['A1a.b', 'B1b.b', 'C2c.b', 'A11a.b', 'AA1a.b', 'A1aa.b', 'D3d.c', 'E4e.c'],
    ['a.b.c', 'b.c.c', 'c.d.d', 'aa.b.c', 'a.bb.c', 'a.b.cc', 'd.a.c', 'b.b.b'],
]
ODD_UNIVERSES = [
    ['http://h/a', 'https://x/a', 'http://h/b', 'http://h//b', 'http://h/c;p', 'http://h/c', 'http://h/1', 'http://h'],
    ['http://h/a?x', 'http://h/a?x=1', 'http://h/a?y', 'http://h/a?', 'http://h/a', 'http://h/a#', 'http://h/a?x&y'],
    ['http://h/a/', 'http://h/a//', 'http://h/b/', 'http://h/c/', 'http://h/a', 'http://h/ a', 'http://h/?a&&b'],
]
PATTERN_UNIVERSES = [
    (['/a', '/[a-z]', '/[a-z]+', '/[a-z]{2}', '/b', '/a/b', '/A', '/[A-Z]+', '/[a-z]+/', '/[0-9a-z]+', '/aa'],
     ['http://h/a', 'http://h/aa', 'http://h/b', 'http://h/a/b', 'http://h/abc']),
    (['/a1', '/[0-9a-z]{2}', '/[a-z]1', '/a[0-9]', '/[0-9a-z]+', '/[a-z][0-9]', '/[a-z]+[0-9]+', '/[a-z]+1', '/a[0-9]+', '/[a-z]{2}[0-9]', '/[0-9a-z]{3}'],
     ['http://h/a1', 'http://h/b1', 'http://h/1a', 'http://h/aa1', 'http://h/a11']),
    (['/a1[\\-]b', '/[0-9a-z]+[\\-]b', '/[a-z]+[0-9][\\-]b', '/[\\-0-9a-z]+', '/[\\-0-9a-z]{4}', '/a1[\\-][a-z]', '/[0-9a-z]{2}[\\-][a-z]+',
      '/[a-z][0-9][\\-][a-z]', '/[0-9a-z]+[\\-]+b', '/[0-9a-z]+[\\-][a-z]+', '/a1[\\-][a-z]+'],
     ['http://h/a1-b', 'http://h/a1-c', 'http://h/1a-b', 'http://h/a1--b', 'http://h/aa1-b']),
    (['/a[\\-]b[\\.]c', '/[\\-a-z]+[\\.]c', '/[\\-a-z]{3}[\\.]c', '/[a-z]+[\\-][a-z]+[\\.]c', '/[\\-\\.a-z]+', '/[a-z][\\-]b[\\.][a-z]',
      '/a[\\-][a-z]+[\\.]c', '/[\\-\\.a-z]{5}', '/[\\-a-z]+[\\.]d', '/a[\\-]b[\\.][a-z]', '/[a-z]+[\\-][a-z]+[\\.][a-z]+'],
     ['http://h/a-b.c', 'http://h/b-a.c', 'http://h/a-b.d', 'http://h/ab-.c', 'http://h/aa-b.c']),
    (['/[a-z]+[\\?]k=1', '/a[\\?]k=[0-9]', '/[a-z]+[\\?]k=[0-9]+', '/a[\\?]k=1', '/a[\\?]k=[0-9]+', '/[a-z][\\?]k=1', '/a[\\?]l=1', '/a[\\?]k=1#',
      '/a[\\?]k=[0-9]{2}', '/b[\\?]k=1', '/[a-z]{2}[\\?]k=[0-9]'],
     ['http://h/a?k=1', 'http://h/a?k=12', 'http://h/b?k=2', 'http://h/a?k=', 'http://h/a?l=1']),
]
URL_WORDS = [
    ('http://h/', ['/', '?', '#', '&', '=', 'a', 'b1', ';'], 4),
    ('http://h', ['/', '?', '#', ':', 'a'], 5),
    ('http://h/', ['a', 'A', '0', '.', '%', '-'], 4),
    ('http://h/', ['a1', '.', 'b', '-', '%2'], 5),
    ('http://h/a#', ['\\', '[', ']', '{', '}', 'a', '/'], 4),
    ('http://h/a?', ['&', '=', 'k', '1', '[]'], 4),
]
PAT_WORDS = [
    ('/', ['[', ']', 'a-z', '0-9', '+', '{2}', 'b', '\\.'], 5),
    ('/', ['[a-z]', '[0-9]+', '[a-z]{2}', 'a', '1', '[\\.]', '[\\-]+', '[0-9a-z]+'], 4),
    ('/', ['[', ']', '\\', '.', '-', 'a', '+'], 4),
    ('/', ['/', '[\\?]', '#', '&', '=', 'a', '[0-9]'], 5),
    ('/[a-z]', ['{', '}', '0', '1', '2', '+', 'a'], 4),
]
