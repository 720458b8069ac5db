#!/opt/venv/bin/python
"""Write spec/Catalogue.tla from harness/catalog.py (the classes of the library, their parameters and queries)."""
import sys, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'harness'))
import catalog
q = lambda s: '"%s"' % s
st = lambda xs: '{' + ', '.join(q(x) for x in xs) + '}'
sq = lambda xs: '<<' + ', '.join(q(x) for x in xs) + '>>'
out = ['------------------------------ MODULE Catalogue ------------------------------',
       '(* The public classes: for every parameter, which forms of value are invalid   *)',
       '(* and refused (bad; ctor at construction), whether it can be left out at construction (opt), and *)',
       '(* the reciprocal parameter through which it can also be set (alias); the       *)',
       '(* queries with the rank of their components (-1: an attribute), whether there   *)',
       '(* is an array of frequencies or times, ...; which observation arguments every query refuses (badpts).           *)',
       '(* Written by tools/mkcatalogue.py.                                             *)',
       'EXTENDS Integers', 'Classes ==', '  [']
rows = []
for n, e in catalog.catalogue().items():
    d = catalog.defaults(e)
    at = []
    for a in sorted(e['attrs']):
        o = e['attrs'][a][1]
        at.append('      %s |-> [bad |-> %s, ctor |-> %s, opt |-> %s, alias |-> %s]' % (a, sq(sorted(catalog.bads(e, a))), sq(catalog.ctor_bads(e, a)), 'TRUE' if a in d else 'FALSE', q(o.get('via', ''))))
    qs = [catalog.qlabel(x[0], x[2]) for x in catalog.queries(e)] + [x for x, _ in e['extra']]
    rows.append('   %s |-> [attrs |-> [\n%s],\n      queries |-> %s,\n      rank |-> <<%s>>, sampled |-> %s, squeeze |-> %s, rows |-> %s, arrays |-> %s, pair |-> %s,\n      badpts |-> %s]' % (n, ',\n'.join(at), sq(qs), ', '.join([str(x[1]) for x in catalog.queries(e)] + ['-1'] * len(e['extra'])),
                *('TRUE' if e[k] else 'FALSE' for k in ('samples', 'squeeze', 'rows', 'arrays', 'pair')), sq(catalog.badpoints(e))))
out.append(',\n'.join(rows) + ']')
import functions
out.append('Functions == {' + ',\n  '.join(q(f) for f in functions.table()) + '}')
out.append('Layouts == ' + st(functions.FORMS))
out.append('=' * 78)
(V / 'spec' / 'Catalogue.tla').write_text('\n'.join(out) + '\n')
