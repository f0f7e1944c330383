"""C15: determinism of the sequential operations as an effect and address-taint analysis."""
import re
from common import *
c = Check('C15', 'Effect and taint analysis over every function reachable from a sequential operation: no function of unknown effect '
          '(clock, random source, thread identity, foreign code), no mutable or thread-local static, and no integer derived from an '
          'address decides a branch, an index or a callback argument unless it is the difference of two addresses. Elements, '
          'arguments and callback answers are the only remaining inputs.')
SEQ = lambda o: not o.startswith('par_')
CUT = re.compile(r'^(core::panicking|std::rt::begin_panic|core::panic|std::panicking|alloc::fmt::format|core::fmt|harness::user_)')
OK = re.compile(r'^(core::|std::intrinsics|harness::user_|stacker::maybe_grow|alloc::|std::option::unwrap_failed|std::result::unwrap_failed|std::rt::|std::vec::|std::slice|std::num|std::panic)')
NOT_OK = re.compile(r'(^|::)(time|random|hash::random|thread|env|process|fs|net|io)::')
prog, err = dump('full', FULL)
if prog is None:
    c.violate('build', 'the harness does not build against the current source', err[-4000:])
    c.finish()
g = Graph(prog)
F, T = g.F, g.T
reach = {}
n = 0
for e in g.entries:
    op = g.entry_name(e)
    if SEQ(op):
        n += 1
        par = g.reach(e, lambda f: CUT.match(f['path']))
        for x in par:
            reach.setdefault(x, (op, par))
c.floor('sequential_operations', n, 30)
c.floor('functions', len(reach), 900)
PTR = lambda t: isinstance(T[t]['kind'], dict) and ('Ptr' in T[t]['kind'] or ('Adt' in T[t]['kind'] and T[t]['kind']['Adt']['path'].endswith('NonNull')))
ADDR = re.compile(r'::(addr|expose_provenance|expose_addr|to_bits)$')
INT = lambda t: isinstance(T[t]['kind'], dict) and 'Int' in T[t]['kind']


def where(x):
    return '%s' % F[x]['path']


statics = 0
for x, (op, par) in reach.items():
    f = F[x]
    if f['body'] is None:
        if f['kind'] in ('intrinsic', 'shim'):
            continue
        if not OK.match(f['path']) or NOT_OK.search(f['path']):
            c.violate(where(x), 'function of unknown effect reached', '%s: %s' % (op, g.chain(par, x)))
        continue
    if CUT.match(f['path']):
        continue
    if NOT_OK.search(f['path']):
        c.violate(where(x), 'function that reads outside state reached', '%s: %s' % (op, g.chain(par, x)))

    def refs(o):
        global statics
        if isinstance(o, dict):
            if isinstance(o.get('Static'), str):
                statics += 1
                c.violate(where(x), 'static %s used' % o['Static'], '%s: %s' % (op, g.chain(par, x)))
            if 'ThreadLocal' in o:
                c.violate(where(x), 'thread-local %s used' % o['ThreadLocal'], '%s: %s' % (op, g.chain(par, x)))
            for v in o.values():
                refs(v)
        elif isinstance(o, list):
            for v in o:
                refs(v)
    for k in f['body']['blocks']:
        refs([s for s, _ in k['stmts']])
        refs(k['term'])

# taint: (function, local) pairs that may hold an address as an integer
taint = set()
sources = 0
ret = set()


def base(o):
    for k in ('Copy', 'Move'):
        if isinstance(o, dict) and k in o:
            return o[k]['local']
    return None


def step(final):
    global sources
    changed = False
    sources = 0
    for x in reach:
        f = F[x]
        b = f['body']
        if not b or CUT.match(f['path']):
            continue
        aligned = f['path'].endswith('is_aligned')
        # the standard library's own use of addresses (slice iterators, null tests) is trusted; its conversions are sources
        if f['krate'] in ('core', 'alloc', 'std'):
            if ADDR.search(f['path']):
                taint.add((x, 0))
            continue

        def t(o):
            l = base(o)
            return l is not None and (x, l) in taint

        def mark(l):
            nonlocal changed
            if (x, l) not in taint:
                taint.add((x, l))
                changed = True
        for k in b['blocks']:
            for s, line in k['stmts']:
                if not (isinstance(s, dict) and 'Assign' in s):
                    continue
                d, r = s['Assign']
                kind, v = next(iter(r.items()))
                if kind == 'Cast':
                    how, o, ty = v
                    l = base(o)
                    if INT(ty) and ('Expose' in how or (how == 'Transmute' and l is not None and not o[next(iter(o))]['proj'] and PTR(b['locals'][l]))):
                        sources += 1
                        mark(d['local'])
                    elif t(o) and INT(ty):
                        mark(d['local'])
                elif kind in ('Bin', 'Checked'):
                    how, a, o = v
                    if how.startswith('Sub') and t(a) and t(o):
                        continue
                    if how == 'Offset' and t(o):
                        if final:
                            c.violate(where(x), 'a pointer is moved by an integer derived from an address', 'line %d' % line)
                        continue
                    if aligned and how in ('Rem', 'BitAnd'):
                        continue
                    if t(a) or t(o):
                        mark(d['local'])
                elif kind in ('Use', 'Un', 'Repeat'):
                    if t(v if kind != 'Un' else v[1]):
                        mark(d['local'])
                elif kind == 'Aggregate':
                    if any(t(o) for o in v[1]):
                        mark(d['local'])
                elif kind in ('Ref', 'AddrOf', 'Len', 'Discr'):
                    pl = v[1] if kind in ('Ref', 'AddrOf') else v
                    if (x, pl['local']) in taint and kind != 'Len':
                        mark(d['local'])
            tm = k['term']
            if not isinstance(tm, dict):
                continue
            if 'Switch' in tm and t(tm['Switch']['discr']) and final:
                c.violate(where(x), 'a branch depends on an address', 'line %d' % k['line'])
            if 'Assert' in tm and t(tm['Assert']['cond']) and final and 'Overflow' not in tm['Assert']['msg']:
                c.violate(where(x), 'an assertion depends on an address', 'line %d' % k['line'])
            if 'Call' in tm:
                cl = tm['Call']
                y = cl['callee'].get('Direct')
                if y is None:
                    continue
                g_ = F[y]
                ta = [i for i, a in enumerate(cl['args']) if t(a)]
                if g_['body'] is not None and y in reach and g_['krate'] not in ('core', 'alloc', 'std'):
                    for i in ta:
                        if cl['rust_call']:
                            for j in range(g_['body']['arg_count']):
                                if (y, j + 1) not in taint:
                                    taint.add((y, j + 1))
                                    changed = True
                        elif (y, i + 1) not in taint:
                            taint.add((y, i + 1))
                            changed = True
                    if (y, 0) in taint:
                        mark(cl['dest']['local'])
                elif (y, 0) in taint:
                    sources += 1
                    mark(cl['dest']['local'])
                elif ta:
                    if g_['path'].startswith('harness::user_') and final:
                        c.violate(where(x), 'a callback is given an integer derived from an address', 'line %d' % k['line'])
                    mark(cl['dest']['local'])
    return changed


while step(False):
    pass
step(True)
c.coverage['address_to_integer_conversions'] = sources
c.coverage['tainted_locals'] = len(taint)
c.coverage['static_references'] = statics
c.finish()
