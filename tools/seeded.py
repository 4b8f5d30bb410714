"""Writes the table of planted bugs into DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = ('<!-- planted -->', '<!-- /planted -->')


def main():
    rows = ['| planted bug | caught by | needs | breaks |', '| --- | --- | --- | --- |']
    for i in sorted(os.listdir(HERE + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
    p = HERE + '/DESIGN.md'
    s = open(p).read()
    a, b = s.index(MARK[0]) + len(MARK[0]), s.index(MARK[1])
    with open(p, 'w') as f:
        f.write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])


main()
