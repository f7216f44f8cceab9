"""C05: static references in every small arrangement of identifiers, anchors and documents."""
import itertools
import json

from jschon import JSON, URI

import evalcheck
import refeval
import refuri
import sizes
from gen import fresh

MEANING = ('states: distinct (documents, base URI) arrangements; transitions: references or URIs resolved by the real code; traces: references '
           'whose target (identified by its own constant) or refusal was compared with the reference resolver')
BOUNDS = {
    'quick': '5 retrieval URIs x 6 root $id x 8 $id and 2 anchors at depth 1 x 4 $id and 3 anchors at depth 2, with ~70 reference spellings '
             'made from each of 3 places, plus every schema under every computed URI; embedded resources at each of 17 keyword positions; '
             'member names needing escapes; identifiers in places that are not schemas; 2-3 documents referring to one another; 9 to 257 definitions, anchors, resources, array positions and documents; '
             'definitions, nested identifiers and reference chains 5 to 65 deep',
    'thorough': 'the same in 2019-09 as well, all refused references constructed in every arrangement'}
ASSUMPTIONS = ['references across a document whose $id differs from its retrieval URI are followed once, not in a cycle through the retrieval URI',
               'fragments naming an anchor are written without percent-encoding']

BASES = ['https://ex.org/a/root', 'https://ex.org', 'urn:uuid:11111111-2222-3333-4444-555555555555', 'https://ex.org/a/root?q=1', 'tag:ex.org,2024:root']
ROOT_IDS = [None, 'https://ex.org/b/r', 'r2', '../r3', '/r4/', 'r5#']
A_IDS = [None, 'x', '/y', '../z', 'https://o.org/w/', '?k=1', './d/x', '//p.org/u']
A_ANCHORS = [None, '$anchor']
B_IDS = [None, 'n', '/n', 'sub/']
B_ANCHORS = [None, 'A', 'B']
REFS = ['#', '', '#A', '#B', '#/$defs/a', '#/%24defs/a', '#/$defs/%61', '#/$defs/a/$defs/b', '#/%24defs/a/%24defs/b', 'x', 'x#', './x', '../a/x', 'x#A', 'x#/$defs/b', '/a/x',
        '//ex.org/a/x', 'https://ex.org/a/x', 'HTTPS://ex.org/a/x', 'https://EX.ORG/a/x', 'https://ex.org/a/./x', 'https://ex.org/a/q/../x', '/y', '/y#B',
        '../z', '/z', 'https://o.org/w/', 'https://o.org/w/n', 'https://o.org/w/#A', 'https://o.org/w/#/$defs/b', '?k=1', '?k=1#B', 'd/x', 'd/n', 'd/n#', '//p.org/u', 'n', '/n',
        '/n#B', 'n#A', 'sub/', 'sub/#', 'r2', '../b/r', '../b/r#A', '/r4/', '/r4/n', 'root', 'root?q=1', 'root#/$defs/a', '#/$defs/c', '#/$defs', '#/nope', '#/$defs/a/const',
        '#C', 'nope', 'x#C', 'https://ex.org', 'https://ex.org/', '.', './', '..', '#/', '#/$defs/a/$defs/b/$defs', '#/$defs/~01', '#a', '#/$defs/a#']
REFS = [r for r in REFS if r.count('#') <= 1]


def parts(aid, aanc, bid, banc, version, first=0):
    b = {'const': first + 2}
    if bid:
        b['$id'] = bid
    if banc:
        b['$anchor' if banc == 'B' or version == '2019-09' else '$dynamicAnchor'] = banc
    a = {'const': first + 1, '$defs': {'b': b}}
    if aid:
        a['$id'] = aid
    if aanc and not (banc == 'A' and not bid):
        a['$anchor'] = 'A'
    return a


def cases(tier):
    versions = ('2020-12', '2019-09')
    for v in versions:
        for base in range(len(BASES)):
            for rid in range(len(ROOT_IDS)):
                if BASES[base][:4] in ('urn:', 'tag:') and ROOT_IDS[rid] and 'https' not in ROOT_IDS[rid]:
                    continue          # relative references against a rootless path
                for aid in range(len(A_IDS)):
                    if v == '2020-12' or tier == 'thorough' or (base == 0 and rid < 3):
                        yield ['arrange', v, base, rid, aid]
        for p in range(len(POSITIONS)):
            yield ['position', v, p]
        yield ['names', v]
        yield ['decoys', v]
        for i in range(len(DOC_IDS)):
            for j in range(len(DOC_IDS)):
                yield ['docs', v, i, j]
    yield ['fragments', '2020-12']
    for v in versions:
        for n in sizes.SIZES:
            yield ['many', v, n]
        for d in sizes.DEPTH:
            yield ['depth', v, d]


POSITIONS = [('allOf', 'many'), ('anyOf', 'many'), ('oneOf', 'many'), ('not', 'one'), ('if', 'one'), ('then', 'one'), ('else', 'one'), ('dependentSchemas', 'named'),
             ('properties', 'named'), ('patternProperties', 'named'), ('additionalProperties', 'one'), ('propertyNames', 'one'), ('contains', 'one'),
             ('unevaluatedItems', 'one'), ('unevaluatedProperties', 'one'), ('items', 'one'), ('prefixItems', 'many'), ('additionalItems', 'one'), ('items', 'many')]
DOC_IDS = [None, 'https://ex.org/d/one', 'https://ex.org/d/moved', 'two', '/d/sub/']

bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c05')


def compare(ctx, version, doc, base, refs, docs=None, singles=(), holders=((),), label=''):
    """`doc` has schemas marked by const. References `refs` are tried from a holder in the $defs of each schema at `holders`;
    those that designate a schema together in one document, the others one at a time."""
    docs = docs or {}
    text = json.dumps([version, base, doc, docs])
    ctx.state(text)
    ev, node = evalcheck.ref(doc, version, docs, uri=base)
    reg = ev.reg
    good, bad = [], []
    for h in holders:
        holder = reg.nodes[base, h]
        for r in refs:
            try:
                reg.resolve(r, holder.base)
                good.append((h, r))
            except refeval.NoSchema:
                bad.append((h, r))
    full = fresh(doc)
    for n, (h, r) in enumerate(good):
        v = full
        for k in h:
            v = v[k]
        v.setdefault('$defs', {})[f'h{n}'] = {'$ref': r}
    bench.source.docs = docs
    marks = sorted({n.value['const'] for n in reg.nodes.values() if isinstance(n.value, dict) and isinstance(n.value.get('const'), int)})
    ev, node = evalcheck.ref(full, version, docs, uri=base)
    with bench.catalog.cache() as cid:
        schema = bench.real(full, version, cid, uri=base)
        for n, (h, r) in enumerate(good):
            s = schema
            for k in h:
                s = s[k]
            holder = s['$defs'][f'h{n}']
            ref_node = ev.reg.nodes[base, h + ('$defs', f'h{n}')]
            target = ev.reg.resolve(r, ref_node.base)
            want = [m for m in marks if ev.run(ref_node, m).valid]
            got = [m for m in marks if holder.evaluate(JSON(m)).valid]
            ctx.step(len(marks))
            ctx.trace()
            ctx.outcome(f'target {want}')
            ctx.check(got == want, f'{text}: $ref {r!r} from {h} (base {ref_node.base}) accepts {got}, its target {target.doc} {target.path} accepts {want}')
        # the same schemas asked for by URI
        for (d, path), n in ev.reg.nodes.items():
            if not isinstance(n.value, dict) or not isinstance(n.value.get('const'), int):
                continue
            rel = path[len(n.root.path):]
            ptr = ''.join('/' + k.replace('~', '~0').replace('/', '~1') for k in rel)
            import urllib.parse
            uris = [n.base + '#' + urllib.parse.quote(ptr, safe='/$~'), refuri.normalize(n.base) + '#' + urllib.parse.quote(ptr, safe='/')]
            if not rel:
                uris.append(n.base)
            uris += [n.base + '#' + n.value[k] for k in ('$anchor', '$dynamicAnchor') if k in n.value]
            for u in uris:
                ctx.step()
                ctx.trace()
                try:
                    s = bench.catalog.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(evalcheck.META[version]))
                    got = s['const'].value
                except Exception as e:
                    got = f'{type(e).__name__}: {e}'
                ctx.check(got == n.value['const'], f'{text}: get_schema({u!r}) gives {got!r}, expected the schema {n.value["const"]}')
    for h, r in bad:
        if singles is not None and (h, r) not in singles and r not in singles:
            continue
        broken = fresh(doc)
        v = broken
        for k in h:
            v = v[k]
        v.setdefault('$defs', {})['h'] = {'$ref': r}
        ctx.step()
        ctx.trace()
        with bench.catalog.cache() as cid:
            try:
                bench.real(broken, version, cid, uri=base)
            except RecursionError:
                raise
            except Exception as e:
                ctx.outcome('refused ' + type(e).__name__)
            else:
                ctx.violation(f'{text}: $ref {r!r} from {h} designates no schema, but the schema was constructed')


def run_case(case, ctx):
    what, v = case[:2]
    if what == 'many':
        many(ctx, v, case[2])
    elif what == 'depth':
        deep(ctx, v, case[2])
    elif what == 'arrange':
        base, rid, aid = BASES[case[2]], ROOT_IDS[case[3]], A_IDS[case[4]]
        opaque = base[:4] in ('urn:', 'tag:') and not rid
        if opaque and aid and not aid.startswith('https'):
            return
        for aanc, bid, banc in itertools.product(A_ANCHORS, B_IDS, B_ANCHORS):
            if opaque and bid and not aid:
                continue
            doc = {'const': 0, '$defs': {'a': parts(aid, aanc, bid, banc, v), 'c': {'const': 3, '$defs': {'d': True}}}}
            if rid:
                doc['$id'] = rid
            refs = REFS if not opaque else [r for r in REFS if r.startswith('#') or r.startswith('https') or r == '']
            hs = ((), ('$defs', 'a'), ('$defs', 'a', '$defs', 'b')) if not opaque else ((),)
            every = ctx.thorough or (aanc, bid, banc) in ((None, None, None), ('$anchor', 'n', 'B'))
            compare(ctx, v, doc, base, refs, holders=hs, singles=None if every else ('#C',))
    elif what == 'position':
        kw, shape = POSITIONS[case[2]]
        if (kw == 'prefixItems' and v == '2019-09') or (v == '2020-12' and (kw == 'additionalItems' or (kw, shape) == ('items', 'many'))):
            return
        for sid, anc in itertools.product([None, 'x', '/y/z', 'https://o.org/w'], [None, '$anchor'] + (['$dynamicAnchor'] if v == '2020-12' else [])):
            sub = {'const': 1, '$defs': {'b': {'const': 2}}}
            other = {'const': 3}
            if sid:
                sub['$id'] = sid
            if anc:
                sub[anc] = 'A'
            val = [other, sub] if shape == 'many' else {'k': sub, 'l': other} if shape == 'named' else sub
            p = f'#/{kw}/' + ('1' if shape == 'many' else 'k') if shape != 'one' else f'#/{kw}'
            q = p[:-1] + ('0' if shape == 'many' else 'l') if shape != 'one' else '#'
            doc = {'$defs': {'outer': {'$id': 'outer', kw: val, 'const': 9}}, 'const': 0}
            where = ('$defs', 'outer', kw) + (('1',) if shape == 'many' else ('k',) if shape == 'named' else ())
            # a list is indexed by number when the holder is inserted
            refs = [p, 'outer' + p, q, 'x', '/y/z', '/y/z#A', '/y/z#/$defs/b', 'https://o.org/w#', '#A', 'outer#A', 'x#A', 'x#/$defs/b', p + '/$defs/b', f'#/{kw}', f'#/{kw}/2', f'#/{kw}/01',
                    f'#/{kw}/-1', f'#/{kw}/-', 'outer', '#/$defs/outer' + p[1:], '#/$defs/b', '#']
            compare(ctx, v, doc, 'https://ex.org/a/root', refs, singles=None, holders=((), ('$defs', 'outer')))
    elif what == 'names':
        for n in ['', '~', '/', '~1', '~0', '~01', 'a/b', '%', '%25', '"', '\\', ' ', '0', '-', 'é', '😀', '#', '?', '$ref', '^a$', 'a b', '+', '&', "'", '[', '{', '|', '^', '`', '<']:
            esc = n.replace('~', '~0').replace('/', '~1')
            import urllib.parse
            for kw in ('$defs', 'properties'):
                doc = {'const': 0, kw: {n: {'const': 1, '$defs': {'b': {'const': 2}}}, 'zz': {'const': 3}}}
                enc = urllib.parse.quote(esc, safe='')
                refs = {f'#/{kw}/{enc}', f'#/{kw}/{enc}/$defs/b', '#/' + urllib.parse.quote(kw, safe='') + '/' + enc.lower(), f'#/{kw}/{enc}x',
                        '#/' + kw + '/' + ''.join('%%%02x' % b for b in esc.encode()), f'#/{kw}/' + urllib.parse.quote(esc, safe="!$&'()*+,;=:@/?~")}
                compare(ctx, v, doc, 'https://ex.org/a/root', sorted(refs), singles=None)
    elif what == 'decoys':
        # identifiers and references where no schema is
        decoy = {'$id': 'x', '$anchor': 'A', '$ref': '#/nowhere', '$defs': {'b': {'$id': 'n'}}}
        for kw, val in [('const', None), ('enum', [decoy]), ('default', decoy), ('examples', [decoy]), ('unknownKw', decoy), ('x-list', [decoy]), ('contentSchema', decoy),
                        ('properties', {'$id': {'const': 1}, '$anchor': {'const': 2}, '$ref': {'const': 4}}), ('required', ['$ref', '$id']),
                        ('dependentRequired', {'$ref': ['$id'], '$id': ['x']}), ('definitions', {'a': decoy}), ('dependencies', {'a': decoy}),
                        ('prefixItems' if v == '2019-09' else 'additionalItems', [decoy] if v == '2019-09' else decoy)]:
            c = {'$defs': {'c': {'const': 3}, 'x': {'$id': 'y', 'const': 5}}, 'const': 0}
            doc = {**c, kw: val} if kw != 'const' else {'$defs': {**c['$defs'], 'k': {'not': {'const': decoy}}}, 'const': 0}
            refs = ['x', '#A', 'n', 'x#/$defs/b', f'#/{kw}', f'#/{kw}/0', f'#/{kw}/$id', f'#/{kw}/a', 'y', 'y#', '#/$defs/c', f'#/{kw}/$ref', f'#/{kw}/$defs/b', '#/const', '#/$defs']
            compare(ctx, v, doc, 'https://ex.org/a/root', refs, singles=None)
    elif what == 'fragments':
        # anchors beside pointers with the same text
        for anc in ['a', 'A1', '_x', 'a.b', 'a-b', 'defs', 'const']:
            doc = {'const': 0, '$defs': {anc: {'const': 1}, 'z': {'$anchor': anc, 'const': 2}, 'y': {'$id': 'y', '$defs': {'w': {'$anchor': anc, 'const': 4}}, 'const': 5}}}
            compare(ctx, v, doc, 'https://ex.org/a/root', ['#' + anc, '#/$defs/' + anc, 'y#' + anc, 'y#/$defs/w', '#/' + anc, '#/$defs/y/$defs/w', 'root#' + anc, '#' + anc + 'x'],
                    singles=None, holders=((), ('$defs', 'y'), ('$defs', 'y', '$defs', 'w')))
    else:
        i, j = case[2:]
        for cross in range(4):
            one = {'const': 11, '$defs': {'k': {'const': 12, '$anchor': 'K'}, 'e': {'$id': 'emb', 'const': 13}}}
            two = {'const': 21, '$defs': {'k': {'const': 22, '$anchor': 'K'}, 'e': {'$id': 'emb2', 'const': 23}}}
            if DOC_IDS[i]:
                one['$id'] = DOC_IDS[i]
            if DOC_IDS[j] and DOC_IDS[j] != DOC_IDS[i]:
                two['$id'] = DOC_IDS[j].replace('one', 'uno')
            two_uri = refuri.resolve('https://ex.org/d/deux', two.get('$id', ''))
            one_uri = refuri.resolve('https://ex.org/d/one', one.get('$id', ''))
            if cross & 1:
                one['$defs']['out'] = {'$ref': two_uri if two_uri.endswith('deux') else 'https://ex.org/d/deux', 'title': 'to two'}
                one['$defs']['root'] = {'$ref': 'https://ex.org/a/root#/$defs/k'}
            if cross & 2 and one_uri == 'https://ex.org/d/one':
                two['$defs']['back'] = {'$ref': one_uri + '#K'}
            docs = {'https://ex.org/d/one': one, 'https://ex.org/d/deux': two}
            doc = {'const': 0, '$defs': {'k': {'const': 1, '$anchor': 'K'}, 'sub': {'$id': 'https://ex.org/d/here', 'const': 2}}}
            refs = ['https://ex.org/d/one', 'https://ex.org/d/one#', 'https://ex.org/d/one#K', 'https://ex.org/d/one#/$defs/k', 'https://ex.org/d/one#/$defs/e', '../d/one#K', '/d/deux',
                    '/d/deux#K', '/d/deux#/$defs/e', '/d/three', '/d/one#L', '/d/one#/$defs/zz', '#K', '../d/./one', '/d/deux?x']
            if cross & 1:
                refs += ['/d/one#/$defs/out', '/d/one#/$defs/root']
            if cross & 2:
                refs += ['/d/deux#/$defs/k']
            # one reference at a time and every ordered pair (loading order must not matter), then all together
            compare_docs(ctx, v, doc, docs, refs)


def many(ctx, v, n):
    """n members, anchors, resources or documents, and references to the first and last of them."""
    base = 'https://ex.org/a/root'
    at = sorted({0, 1, 2, 9, 10, 11, n // 2, n - 2, n - 1} & set(range(n)))
    refs = [r for i in at for r in (f'#/$defs/k{i}', f'#k{i}', f'res/{i}', f'res/{i}#in', f'res/{i}#/$defs/b', f'#/$defs/r{i}', f'#/allOf/{i}', f'#/$defs/r{i}/$defs/b')]
    bad = [f'#/$defs/k{n}', f'#k{n}', f'res/{n}', f'#/allOf/{n}', f'#/allOf/0{n - 1}', f'#/$defs/r{n}', f'res/{n - 1}#k{n - 1}']
    doc = {'const': 0, 'allOf': [{'const': 10000 + i} for i in range(n)], '$defs': {f'k{i}': {'const': 20000 + i, '$anchor': f'k{i}'} for i in range(n)}}
    doc['$defs'].update({f'r{i}': {'$id': f'res/{i}', 'const': 30000 + i, '$defs': {'b': {'$anchor': 'in', 'const': 40000 + i}}} for i in range(n)})
    values(ctx, v, doc, {}, base, refs, bad)
    docs = {f'https://ex.org/d/o{i}': {'const': 50000 + i, '$defs': {'b': {'$anchor': 'in', 'const': 60000 + i}}, **({'$id': f'https://ex.org/e/o{i}'} if i % 3 == 2 else {})} for i in range(n)}
    every = [f'https://ex.org/d/o{i}' for i in range(n)]
    values(ctx, v, {'const': 0}, docs, base, every + [f'/e/o{i}#in' if i % 3 == 2 else f'/d/o{i}#in' for i in range(n)], [f'/d/o{n}', f'/d/o{n - 1}#out'])
    values(ctx, v, {'const': 0}, docs, base, every[::-1], [])


def deep(ctx, v, d):
    """Definitions, identifiers, arrays and reference chains d deep."""
    base = 'https://ex.org/a/root'
    at = sorted({0, 1, d // 2, d - 1})
    for ids in ([], [d - 1], [0], [d // 2], range(d), range(0, d, 2)):
        s = True
        for i in reversed(range(d)):
            s = {'const': 1 + i, '$anchor': f'k{i}', **({'$id': f'd{i}/'} if i in ids else {}), '$defs': {'x': s}}
        doc = {'const': 0, '$defs': {'x': s}}
        refs, p, path = [], base, ''
        for i in range(d):
            path += '/$defs/x'
            if i in ids:
                p, path = refuri.resolve(p, f'd{i}/'), ''
            refs += [f'{p}#{path}', f'{p}#k{i}'] if i in at else []
        values(ctx, v, doc, {}, base, refs + ['#' + '/$defs/x' * d if not ids else '#'], ['#' + '/$defs/x' * (d + 2), f'{p}#k{d}', '#k0x'])
    s = {'const': 1}
    for i in range(d):
        s = {'allOf': [True, s]}
    values(ctx, v, s, {}, base, ['#' + '/allOf/1' * d, '#' + '/allOf/1' * (d - 1) + '/allOf/0'], ['#' + '/allOf/1' * (d + 1), '#' + '/allOf/0' * d])
    # references to references
    end = {'const': 7}
    doc = {'$defs': {**{f'd{i}': {'$ref': f'#/$defs/d{i + 1}'} for i in range(d)}, f'd{d}': end}}
    values(ctx, v, doc, {}, base, ['#/$defs/d0', '#/$defs/d1', f'#/$defs/d{d - 1}', f'#/$defs/d{d}'], [f'#/$defs/d{d + 1}'])
    values(ctx, v, {'$defs': dict(reversed(doc['$defs'].items()))}, {}, base, ['#/$defs/d0', f'#/$defs/d{d - 1}'], [])
    docs = {f'https://ex.org/d/o{i}': {'$defs': {'y': {'$ref': f'o{i + 1}'}, 'z': {'const': 100 + i}}, 'allOf': [{'$ref': f'o{i + 1}'}]} for i in range(d)}
    docs[f'https://ex.org/d/o{d}'] = end
    values(ctx, v, {}, docs, base, ['/d/o0', '/d/o0#/$defs/y', f'/d/o{d - 1}#/$defs/z'], [f'/d/o{d + 1}'])
    values(ctx, v, {}, docs, base, [f'/d/o{i}#/$defs/z' for i in reversed(range(d))], [])


def values(ctx, v, doc, docs, base, refs, bad):
    """Each of `refs`, from the root, accepts what its target accepts; each of `bad` is refused."""
    doc = {**doc, '$defs': {**doc.get('$defs', {}), **{f'h{n}': {'$ref': r} for n, r in enumerate(refs)}}}
    bench.source.docs = docs
    ev, node = evalcheck.ref(doc, v, docs, uri=base)
    text = f'{v} {len(json.dumps(doc))} characters of $defs {list(doc["$defs"])[:3]}... and {len(docs)} documents'
    ctx.state((v, json.dumps([doc, docs])))
    with bench.catalog.cache() as cid:
        schema = bench.real(doc, v, cid, uri=base)
        for n, r in enumerate(refs):
            h = ev.reg.nodes[base, ('$defs', f'h{n}')]
            t = ev.reg.resolve(r, h.base)
            mark = t.value.get('const', 7) if isinstance(t.value, dict) else 7
            for m in (mark, mark + 1, mark - 1, 0, 7):
                want, got = ev.run(h, m).valid, schema['$defs'][f'h{n}'].evaluate(JSON(m)).valid
                ctx.step()
                ctx.check(got is want, f'{text}: $ref {r!r} on {m}: {got}, its target says {want}')
            ctx.trace()
            ctx.outcome('target')
            if isinstance(t.value, dict) and 'const' in t.value:
                u = refuri.resolve(base, r) if not r.startswith('#') else base + r
                got = bench.catalog.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(evalcheck.META[v]))['const'].value
                ctx.check(got == t.value['const'], f'{text}: get_schema({u!r}) gives the schema {got}, expected {t.value["const"]}')
    for r in bad:
        ctx.step()
        ctx.trace()
        with bench.catalog.cache() as cid:
            try:
                bench.real({**doc, '$defs': {**doc['$defs'], 'h': {'$ref': r}}}, v, cid, uri=base)
            except RecursionError:
                raise
            except Exception as e:
                ctx.outcome('refused ' + type(e).__name__)
            else:
                ctx.violation(f'{text}: $ref {r!r} designates no schema, but the schema was constructed')


def compare_docs(ctx, v, doc, docs, refs):
    base = 'https://ex.org/a/root'
    bench.source.docs = docs
    ev0, _ = evalcheck.ref(doc, v, docs, uri=base)
    good, bad = [], []
    for r in refs:
        try:
            ev0.reg.resolve(r, base)
            good.append(r)
        except refeval.NoSchema:
            bad.append(r)
    marks = [0, 1, 2, 11, 12, 13, 21, 22, 23]
    for group in [[r] for r in good] + [[a, b] for a in good for b in good if a != b] + [good] + [good[::-1]]:
        full = fresh(doc)
        for n, r in enumerate(group):
            full['$defs'][f'h{n}'] = {'$ref': r}
        text = json.dumps([v, full, docs])
        ctx.state(text)
        ev, node = evalcheck.ref(full, v, docs, uri=base)
        with bench.catalog.cache() as cid:
            schema = bench.real(full, v, cid, uri=base)
            for n, r in enumerate(group):
                want = [m for m in marks if ev.run(ev.reg.nodes[base, ('$defs', f'h{n}')], m).valid]
                got = [m for m in marks if schema['$defs'][f'h{n}'].evaluate(JSON(m)).valid]
                ctx.step(len(marks))
                ctx.trace()
                ctx.outcome(f'target {want}')
                ctx.check(got == want, f'{text}: $ref {r!r} accepts {got}, its target accepts {want}')
    for r in bad:
        full = fresh(doc)
        full['$defs']['h'] = {'$ref': r}
        ctx.step()
        ctx.trace()
        with bench.catalog.cache() as cid:
            try:
                bench.real(full, v, cid, uri=base)
            except Exception as e:
                ctx.outcome('refused ' + type(e).__name__)
            else:
                ctx.violation(f'{json.dumps(docs)}: $ref {r!r} designates no schema, but the schema was constructed')
