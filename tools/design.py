#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (between the markers)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- seeded -->', '<!-- /seeded -->'


def main():
    d = os.path.join(HERE, 'seeded')
    first = {}
    p = os.path.join(HERE, 'tools', 'seeded_results.json')
    if os.path.exists(p):
        first = json.load(open(p))
    rows = ['| bug | property | needs | breaks | first | now |',
            '|---|---|---|---|---|---|']
    for b in sorted(os.listdir(d)):
        m = os.path.join(d, b, 'meta.json')
        if os.path.exists(m):
            m = json.load(open(m))
            r = first.get(b, ['?', '?'])
            rows.append('| %s | %s | %s | %s | %s | %s |' % (
                b, m['property'], m['needs'], m['what_it_breaks'], *r))
    t = open(os.path.join(HERE, 'DESIGN.md')).read()
    i, j = t.index(A), t.index(B)
    t = t[:i] + A + '\n' + '\n'.join(rows) + '\n' + t[j:]
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


if __name__ == '__main__':
    main()
