#!/usr/bin/env python3
"""writes the property section of DESIGN.md (between the markers) from specs.py and the table below"""
import json
import os
import re
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import specs

# id: (oracle, seconds of the quick check on 8 cores, what the tests cannot reach)
T = {
    'C01': ('a watched symbolic cell (or all cells) of a plain array-of-structs mirror, updated by every write', 80),
    'C02': ('closed formula for the address: base + product of extents * offset of the member + (index + element * '
            'product) * size, recomputed in the harness from sizeof alone', 10),
    'C03': ('smallest covering entry of the size list, written down a second time in the harness', 20),
    'C04': ('dimensions, extents and bytes recomputed from the shape; allocation records of the engine', 70),
    'C05': ('mirrors of both grids; the addresses of the storage must differ', 80),
    'C06': ('members which record construction, destruction and ownership of a heap block; the engine\'s allocation '
            'table (double free, use after free, leak)', 70),
    'C07': ('byte-exact image of the buffer computed by the harness; guard bytes around it', 75),
    'C08': ('extents, data pointers and indices seen by the functor compared with those of each grid on its own', 20),
    'C09': ('mirror (std::vector) with exceptions at the capacity; the object lies between guard bytes', 75),
    'C10': ('mirrors of both arrays; exact condition for refusal', 25),
    'C11': ('mirror (std::vector)', 80),
    'C12': ('alignment and overlap conditions on symbolic heap addresses; every byte of a block is written', 25),
    'C13': ('the sequence of calls, in closed form: a counter per index class (vector, scalar) for a symbolic index', 35),
    'C14': ('the same bytes moved one lane after the other', 30),
    'C15': ('the scalar C++ expression per lane', 25),
    'C16': ('the int expression per lane, defined cases only', 20),
    'C17': ('the comparison per lane; masks through blend', 45),
    'C18': ('plain indexing per lane', 40),
    'C19': ('error bound relative to the exact quotient (interval reasoning over reals, engine/close.py)', 10),
    'C20': ('short_vec and plain lanes', 15),
    'C21': ('the scalar loop on a mirror', 20),
    'C22': ('access sets of the two threads, compared pairwise by the solver; no schedule is enumerated', 250),
    'C23': ('recorded sequence of what is inserted into the stream', 10),
    'C24': ('host mirror (array of structs), byte images of raw data; device/host separation enforced on every access', 130),
    'C25': ('mirror (std::vector plus a flag "value is specified" per element)', 20),
}


def main():
    props = {}
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        props[p['id']] = p
    out = []
    for i in sorted(props):
        s = specs.SPECS[i]
        b = s['bounds']
        srcs, cfgs = [], set()
        for u in s['units']:
            if u.src not in srcs:
                srcs.append(u.src)
            cfgs |= set(u.configs)
        oracle, cost = T[i]
        t = ['**%s — %s.**' % (i, props[i]['title']),
             'Harness: %s (%s).' % (', '.join('`harness/%s`' % x for x in srcs), ', '.join(sorted(cfgs))),
             'Oracle: %s.' % oracle,
             'Bounds, quick: %s' % b['quick'],
             'Thorough: %s' % b['thorough'],
             'Outside: %s.' % b['outside'].rstrip('.')]
        if s['assumptions']:
            t.append('Assumed: %s.' % '; '.join(s['assumptions']))
        t.append('Beyond tests: %s' % props[i]['why_tests_cant'])
        t.append('Cost: about %d s.' % cost)
        out.append(textwrap.fill(' '.join(t), 118, break_long_words=False, break_on_hyphens=False))
    p = os.path.join(ROOT, 'DESIGN.md')
    d = open(p).read()
    d = re.sub(r'(<!-- properties -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n' + '\n\n'.join(out) + '\n\n' + m.group(2), d, flags=re.S)
    open(p, 'w').write(d)


if __name__ == '__main__':
    main()
