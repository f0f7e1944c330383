"""C05: abstract interpretation of every single-index selection under the assumption that the index is out of range."""
from engine import *
ck = Check('C05', 'Abstract interpretation, on the debug-build and the release-build MIR, of every selection of one index under the assumption index >= length: every path must end in a panic of the crate, before any callback call and before any element is touched.')
build()
jobs = []
for name, rel in (('min', False), ('rmin', True)):
    path, err = dump_ir(name, '', rel)
    if path is None:
        lose(ck, err)
    jobs += [(path, e, ('--reject',)) for e in entries_of(path) if e.startswith('select_nth')]
res = many(jobs)
for entry, e in events(res, 'C05'):
    ck.violate(e['func'], e['msg'], 'operation %s' % entry)
cover(ck, res, 'C04')
ck.floor('rejections analysed', len([r for r in res if r['complete']]), 4)
ck.finish()
