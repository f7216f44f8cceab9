"""C06: $dynamicRef and $recursiveRef over every small arrangement of resources, anchors and reference chains."""
import itertools

from jschon import JSON, URI

import evalcheck
import refeval
import sizes
from gen import fresh

MEANING = ('states: distinct (schema documents, entry) pairs; transitions: evaluations by the real code; traces: arrangements compared with the '
           'reference from every entry schema, or seen to be refused by both')
BOUNDS = {
    'quick': '3 resources (4 for $recursiveRef), each declaring the name dynamically at its root, dynamically below, statically, statically beside another dynamic name, or not at all; every reference '
             'chain without repetition, in place or down the instance, ending in every spelling of the dynamic reference; embedded or in '
             'separate documents, with and without $id; two branches and two names for 3 resources; every resource as entry; '
             'chains of 5 to 65 resources with 13 choices of those that declare the name; 9 to 257 resources, and names, side by side',
    'thorough': '4 resources for $dynamicRef too; two names with 5 declarations per resource'}

BASE = 'https://example.com/s/'


def chains(n):
    """Every sequence of distinct resources starting at 0."""
    for k in range(n):
        for c in itertools.permutations(range(1, n), k):
            yield (0,) + c


def resource(i, opt, nxt, last, mode, version):
    """One schema resource: declares by `opt`, then refers to resource `nxt`, or makes the dynamic reference `last`."""
    s = {'$id': f'{BASE}r{i}', 'properties': {'v': {'const': i}}}
    if version == '2020-12':
        mine = {'properties': {'v': {'const': i}}}
        if opt == 'R':
            s['$dynamicAnchor'] = 'n'
        elif opt == 'D':
            s['$defs'] = {'n': {'$dynamicAnchor': 'n', 'properties': {'v': {'const': 10 + i}}}}
        elif opt == 'A':
            s['$defs'] = {'n': {'$anchor': 'n', 'properties': {'v': {'const': 20 + i}}}}
        elif opt == 'X':
            # a static anchor, on a schema that declares another name
            s['$defs'] = {'n': {'$anchor': 'n', '$dynamicAnchor': 'm', 'properties': {'v': {'const': 30 + i}}}}
        elif opt == 'B':
            # declared in a nested schema that is a boolean
            s['$defs'] = {'n': {'$dynamicAnchor': 'n', 'not': {'required': ['v']}}}
    elif opt is not None:
        s['$recursiveAnchor'] = opt
    if nxt is not None:
        step = {'$ref': f'r{nxt}'}
        if mode == 'down':
            s['properties']['s'] = step
        elif mode == 'place':
            # the constraint on v must not apply in place
            s['properties'] = {}
            s.update(step)
        else:
            s['properties']['s'] = {'anyOf': [{'required': ['zz']}, {'allOf': [step]}]}
    if last is not None:
        kw = '$dynamicRef' if version == '2020-12' else '$recursiveRef'
        s['properties']['t'] = {kw: last}
    return s


def embed(resources, how):
    """(root schema, other documents)"""
    if how == 'embedded':
        root = resources[0]
        root = {**root, '$defs': {**root.get('$defs', {}), **{f'r{i}': r for i, r in enumerate(resources) if i}}}
        return root, {}
    if how == 'nested':
        inner = None
        for r in reversed(resources):
            r = dict(r)
            if inner is not None:
                r['$defs'] = {**r.get('$defs', {}), 'inner': inner}
            inner = r
        return inner, {}
    if how == 'bare':
        # documents known only by the URI from which they are retrieved, with their keywords in reverse
        resources = [{k: v for k, v in reversed(r.items()) if k != '$id'} for r in resources]
    return resources[0], {f'{BASE}r{i}': r for i, r in enumerate(resources) if i}


def instances(chain, mode, marks):
    depth = 0 if mode == 'place' else len(chain) - 1
    out = []
    for d in range(depth + 1):
        for x in marks:
            v = {'t': {'v': x}} if d == depth else {'v': x}
            for _ in range(d):
                v = {'s': v}
            out.append(v)
    # below the dynamic reference, everything starts again
    for x in marks[:4]:
        v = {'t': {'t': {'v': x}}}
        w = {'t': {'s': {'t': {'v': x}}}}
        for _ in range(depth):
            v, w = {'s': v}, {'s': w}
        out += [v, w]
    return out


def deep_cases(tier):
    for d in sizes.DEPTH:
        for v in ('2020-12', '2019-09'):
            for mode in ('down', 'place', 'mixed') if d <= 33 else ('down', 'place'):
                yield ['long', v, d, mode]
    for n in sizes.SIZES:
        yield ['wide', n]


def long(ctx, version, d, mode):
    """A reference chain through d resources, with declarations at its start, within it and at its end."""
    declared = 'R' if version == '2020-12' else True
    none = None
    kinds = [{0}, {1}, {d // 2}, {d - 2}, {d - 1}, {0, d - 1}, {1, d - 1}, {d // 2, d - 1}, {d - 2, d - 1}, set(range(d)), set(range(1, d)), set(range(0, d, 2)), set()]
    for k, decl in enumerate(kinds):
        for last in ('#n', f'r{d - 1}#n', 'r0#n') if version == '2020-12' else ('#',):
            rs = [resource(i, declared if i in decl else none, i + 1 if i + 1 < d else None, last if i == d - 1 else None, mode, version) for i in range(d)]
            root, docs = embed(rs, ('embedded', 'separate', 'bare', 'nested')[(k + d) % 4])
            marks = sorted({0, 1, 2, d // 2, d - 2, d - 1})
            insts = []
            for x in marks:
                v = {'t': {'v': x}}
                for _ in range(0 if mode == 'place' else d - 1):
                    v = {'s': v}
                insts.append(v)
            compare(ctx, root, docs, version, insts, [f'r{d - 1}', f'r{d // 2}'])


def wide(ctx, n):
    """n resources side by side, all leading to one leaf; the scope of one must not serve another."""
    leaf = {'$id': BASE + 'leaf', 'properties': {'t': {'$dynamicRef': '#n'}}, '$defs': {'n': {'$dynamicAnchor': 'n', 'properties': {'v': {'const': -1}}}}}
    rs = [{'$id': f'{BASE}r{i}', 'properties': {'a': {'$ref': 'leaf'}}, '$defs': {'n': {'$dynamicAnchor': 'n', 'properties': {'v': {'const': i}}}}} for i in range(n)]
    root = {'$id': BASE + 'top', 'properties': {f'x{i}': {'$ref': f'r{i}'} for i in range(n)}, '$defs': {'leaf': leaf, **{f'r{i}': r for i, r in enumerate(rs)}}}
    good = {f'x{i}': {'a': {'t': {'v': i}}} for i in range(n)}
    insts = [good] + [{**good, f'x{i}': {'a': {'t': {'v': j}}}} for i, j in ((n - 1, -1), (n - 1, n - 2), (n - 1, 0), (0, n - 1), (n // 2, n - 1))]
    compare(ctx, root, {}, '2020-12', insts, ['leaf', f'r{n - 1}'])
    # n names in one resource, and each of them overridden
    inner = {'$id': BASE + 'inner', 'properties': {f'p{i}': {'$dynamicRef': f'#n{i}'} for i in range(n)}, '$defs': {f'n{i}': {'$dynamicAnchor': f'n{i}', 'const': i} for i in range(n)}}
    for over in ({n - 1}, {0}, set(range(n)), set(range(0, n, 2)), set()):
        root = {'$id': BASE + 'top', '$ref': 'inner', '$defs': {'inner': inner, **{f'n{i}': {'$dynamicAnchor': f'n{i}', 'const': 1000 + i} for i in over}}}
        right = {f'p{i}': 1000 + i if i in over else i for i in range(n)}
        compare(ctx, root, {}, '2020-12', [right] + [{**right, f'p{i}': x} for i in (0, 1, n - 2, n - 1) for x in (i, 1000 + i)], ['inner'])


def cases(tier):
    yield from deep_cases(tier)
    n = 4 if tier == 'thorough' else 3
    for chain in chains(n):
        for last in ['#n'] + [f'r{i}#n' for i in range(n)] + ['#/$defs/n', f'./r{chain[-1]}#n', '#', f'r{chain[-1]}', 'r0', f'r{n - 1}#']:
            for first in ('R', 'D', 'A', 'X', None):
                yield ['dyn', list(chain), last, first, n]
    for chain in chains(4):
        for first in (True, False, None):
            yield ['rec', list(chain), '#', first, 4]
    for opts in itertools.product(range(5 if tier == 'thorough' else 4), repeat=3):
        yield ['two', list(opts)]
    for opts in itertools.product(['D', 'A', 'X', None, 'B'], repeat=3):
        yield ['branch', list(opts)]


bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c06')


def compare(ctx, root, docs, version, insts, entries):
    """Compare with the reference from the root and from every entry URI."""
    import json
    label = json.dumps([root, docs])
    ctx.state(label)
    ev, node = evalcheck.ref(root, version, docs, uri=BASE + 'r0')
    try:
        ev.reg.check_refs(node)
        bad = None
    except refeval.NoSchema as e:
        bad = e
    bench.source.docs = docs
    with bench.catalog.cache() as cid:
        try:
            schema = bench.real(root, version, cid, uri=BASE + 'r0')
        except RecursionError:
            raise
        except Exception as e:
            ctx.check(bad is not None, f'{version} {label}: construction raised {type(e).__name__}: {e}')
            ctx.outcome('refused')
            ctx.trace()
            return
        if not ctx.check(bad is None, f'{version} {label}: constructed although {bad} designates no schema'):
            return
        for e in [None] + entries:
            if e is None:
                s, n = schema, node
            else:
                s = bench.catalog.get_schema(URI(BASE + e), cacheid=cid, metaschema_uri=URI(evalcheck.META[version]))
                n = ev.reg.resolve(e, BASE)
            for inst in insts:
                want = ev.run(n, inst).valid
                got = s.evaluate(JSON(fresh(inst))).valid
                ctx.step()
                if not ctx.check(got is want, f'{version} {label} from {e or "the root"} on {json.dumps(inst)}: {got}, the specification says {want}'):
                    return
    ctx.trace()
    ctx.outcome('evaluated')


def run_case(case, ctx):
    what = case[0]
    if what == 'long':
        long(ctx, *case[1:])
    elif what == 'wide':
        wide(ctx, case[1])
    elif what in ('dyn', 'rec'):
        chain, last, first, n = case[1:]
        version = '2020-12' if what == 'dyn' else '2019-09'
        opts = ('R', 'D', 'A', 'X', None) if what == 'dyn' else (True, False, None)
        marks = [0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 30, 31, 32]
        for rest in itertools.product(opts, repeat=n - 1):
            decl = (first,) + rest
            modes = ['down', 'place', 'mixed']
            hows = ['embedded', 'separate', 'nested', 'bare']
            if not ctx.thorough:
                # the arrangement of documents and the kind of step vary together, covering each pair over the declarations
                k = sum(map(opts.index, decl))
                pairs = [(modes[(k + j) % 3], hows[j]) for j in range(4)]
            else:
                pairs = itertools.product(modes, hows)
            for mode, how in pairs:
                rs = []
                for i in range(n):
                    p = chain.index(i) if i in chain else None
                    nxt = chain[p + 1] if p is not None and p + 1 < len(chain) else None
                    rs.append(resource(i, decl[i], nxt, last if p == len(chain) - 1 else None, mode, version))
                root, docs = embed(rs, how)
                compare(ctx, root, docs, version, instances(chain, mode, marks), [f'r{i}' for i in chain[1:3]])
    elif what == 'two':
        # the target of one dynamic reference makes another
        opts = case[1]
        rs = []
        for i, o in enumerate(opts):
            s = {'$id': f'{BASE}r{i}', '$defs': {}}
            if o & 1:
                s['$defs']['n'] = {'$dynamicAnchor': 'n', 'properties': {'v': {'const': i}, 'u': {'$dynamicRef': f'r{(i + 1) % 3}#m'}}}
            if o & 2 or o == 4:
                s['$defs']['m'] = {'$dynamicAnchor' if o != 4 else '$anchor': 'm', 'properties': {'w': {'const': i}, 'x': {'$dynamicRef': f'r{i}#n' if o & 1 else f'r{i}#m'}}}
            rs.append(s)
        for chain in chains(3):
            for last in ('#n', '#m', 'r1#n', 'r2#m'):
                for how in ('embedded', 'separate', 'bare'):
                    rr = [dict(r) for r in rs]
                    for a, b in zip(chain, chain[1:]):
                        rr[a]['properties'] = {'s': {'$ref': f'r{b}'}}
                    rr[chain[-1]]['properties'] = {'t': {'$dynamicRef': last}}
                    insts = []
                    for i in range(3):
                        for v in ({'v': i}, {'w': i}, {'u': {'w': i}}, {'x': {'w': i}}, {'x': {'v': i}}, {'u': {'x': {'w': i}}}, {'u': {'x': {'v': i}}}):
                            v = {'t': v}
                            for _ in chain[1:]:
                                v = {'s': v}
                            insts.append(v)
                    root, docs = embed(rr, how)
                    compare(ctx, root, docs, '2020-12', insts, [])
    else:
        # one leaf reached along different dynamic scopes in one evaluation
        opts = case[1]
        leaf = {'$id': BASE + 'leaf', 'properties': {'t': {'$dynamicRef': '#n'}}, '$defs': {'n': {'$dynamicAnchor': 'n', 'properties': {'v': {'const': 9}}}}}
        rs = []
        for i, o in enumerate(opts):
            r = resource(i, o, None, None, 'down', '2020-12')
            r['properties'] = {'a': {'$ref': 'leaf'}}
            rs.append(r)
        for top in ({'properties': {'x': {'$ref': 'r1'}, 'y': {'$ref': 'r2'}}}, {'allOf': [{'$ref': 'r1'}, {'$ref': 'leaf'}]}, {'anyOf': [{'$ref': 'r1'}, {'$ref': 'r2'}]},
                    {'oneOf': [{'$ref': 'r1'}, {'$ref': 'r2'}]}, {'if': {'$ref': 'r1'}, 'then': {'$ref': 'leaf'}, 'else': {'$ref': 'r2'}}, {'not': {'$ref': 'r2'}},
                    {'items': {'$ref': 'r1'}, 'properties': {'x': {'$ref': '#/$defs/k'}}}, {'contains': {'$ref': 'r1'}}):
            root = {**rs[0], **top}
            if 'properties' in top:
                root['properties'] = {**rs[0]['properties'], **top['properties']}
            root['$defs'] = {**rs[0].get('$defs', {}), 'r1': rs[1], 'r2': rs[2], 'leaf': leaf, 'k': {'$ref': 'r2'}}
            insts = []
            for v in (0, 1, 2, 9, 10, 11, 12, 20, 21, 22, 30, 31, 32):
                t = {'t': {'v': v}}
                insts += [t, {'a': t}, {'x': {'a': t}}, {'y': {'a': t}}, [{'a': t}], [{'a': t}, {'a': {'t': {}}}], {'x': {'a': t}, 'y': {'a': {'t': {'v': 12}}}}]
            compare(ctx, root, {}, '2020-12', insts, ['r1', 'r2', 'leaf'])
