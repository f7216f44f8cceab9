"""C29: every interleaving of concurrent evaluations up to a preemption bound, on the real code under a controlled scheduler."""
import json

from jschon import JSON, Catalog, JSONSchema, URI
from jschon.vocabulary import Metaschema
from jschon.vocabulary.format import format_validator

import evalcheck
import sched
from gen import fresh

MEANING = ('states: distinct (scenario, preemption point) pairs; transitions: scheduling points passed by the threads; traces: complete schedules run on the real code, after each of which '
           'every result tree and output was compared with those of the same evaluation run alone, and the evaluations were repeated on the same objects')
BOUNDS = {
    'quick': '24 schemas covering every keyword, in 5 relations (one schema and one instance; one schema and two instances; a schema and its subschema; two schemas that refer to a third; some caches filled): '
             'every schedule with 1 preemption at any line of the package (two instances) or any call within it (the others, and validation against 2 metaschemas), from cold caches; every schedule with 2 preemptions at '
             'lines next to which the running thread has changed shared state, from warm caches for all schemas and from cold ones for 3; 1 preemption at any bytecode for 3 schemas in 2 relations; '
             '3 threads and 2 preemptions, one at any call and one at every fourth, for 3',
    'thorough': '1 preemption at any line for every scenario, and at any bytecode for all schemas in 2 relations; 2 preemptions next to changes of shared state, at any line, for all schemas from warm and from cold caches; '
                '2 preemptions at any two lines for 3 schemas, at any two calls for 12; 3 threads and 2 preemptions at any calls for 12'}
ASSUMPTIONS = ['a line or a bytecode of Python runs atomically (CPython with the global interpreter lock)']
EVIDENCE = {'scheduler': 'mc/sched.py: sys.settrace points in /repo/jschon, one runnable thread at a time'}

A = {'a': 1, 'b': 'x'}
# schema, instances (the first two are used together)
PROGRAMS = {
    'contains': ({'contains': {'type': 'string', 'title': 's'}, 'minContains': 2}, [['a', 'b', 1], [1, 'c']]),
    'contains0': ({'contains': {'const': 1}, 'minContains': 0, 'maxContains': 1}, [[1, 1], [2]]),
    'unevaluatedItems': ({'prefixItems': [{'title': 'p'}], 'contains': {'const': 2}, 'unevaluatedItems': {'type': 'string'}}, [[1, 2, 'x'], [1, 3]]),
    'unevaluatedProperties': ({'anyOf': [{'properties': {'a': {'type': 'integer'}}}, {'properties': {'b': True}}], 'unevaluatedProperties': False}, [{'a': 1, 'b': 2}, {'a': 'x', 'b': 2}]),
    'additionalProperties': ({'properties': {'a': {'type': 'integer'}}, 'patternProperties': {'^x': {'title': 'x'}}, 'additionalProperties': {'type': 'string'}}, [{'a': 1, 'xy': 2, 'c': 'd'}, {'a': 'q', 'd': 5}]),
    'patternProperties': ({'patternProperties': {'^x': {'type': 'string', 'title': 'x'}, 'y$': {'type': 'integer', 'title': 'y'}}}, [{'xy': 's', 'xb': 's'}, {'ay': 's', 'xb': 2}]),
    'anyOf': ({'anyOf': [{'const': 1, 'title': 'c'}, {'minimum': 3, 'title': 'm'}]}, [5, 1]),
    'ifthenelse': ({'if': {'type': 'integer', 'title': 'i'}, 'then': {'minimum': 2, 'title': 't'}, 'else': {'title': 'e', 'minLength': 2}}, [3, 'a']),
    'oneOf': ({'oneOf': [{'type': 'integer', 'title': 'i'}, {'minimum': 2, 'title': 'm'}, {'const': 'z'}]}, [3, 1]),
    'allOf': ({'allOf': [{'minimum': 2}, {'maximum': 3, 'title': 'm'}]}, [3, 1]),
    'not': ({'not': {'not': {'required': ['a'], 'title': 'n'}}}, [{'a': 1}, {}]),
    'items': ({'prefixItems': [{'type': 'integer'}, True], 'items': {'type': 'string', 'title': 'i'}, 'uniqueItems': True}, [[1, 2, 'a'], ['x', 2, 3]]),
    'propertyNames': ({'propertyNames': {'pattern': '^a', 'title': 'pn'}}, [{'a': 1, 'ab': 2}, {'b': 1, 'a': 2}]),
    'dependents': ({'dependentSchemas': {'a': {'required': ['b', 'c'], 'title': 'd'}, 'b': {'maxProperties': 2}}, 'dependentRequired': {'b': ['a'], 'c': ['b', 'a']}}, [{'a': 1, 'b': 2}, {'c': 1, 'b': 2, 'd': 3}]),
    'ref': ({'$ref': '#/$defs/d', '$defs': {'d': {'$anchor': 'd', 'properties': {'a': {'$ref': '#d'}}, 'maxProperties': 1}}}, [{'a': {'a': {}}}, {'a': {'a': 1, 'b': 2}}]),
    'dynamic': ({'$id': 'https://c29.org/d', '$ref': 'tree', '$defs': {'x': {'$dynamicAnchor': 'n', 'type': 'string'}, 't': {'$id': 'tree', 'properties': {'a': {'$dynamicRef': '#n'}}, '$defs': {'n': {'$dynamicAnchor': 'n', 'type': 'integer'}}}}}, [{'a': 's'}, {'a': 1}]),
    'scalars': ({'type': ['integer', 'string'], 'enum': [1, 'x', 2.5], 'multipleOf': 0.5, 'exclusiveMinimum': 0, 'maxLength': 3}, [1, 'xyzw']),
    'format': ({'properties': {'a': {'format': 'c29-even'}, 'b': {'format': 'unheard-of'}}, 'unknown': {'x': 1}, 'default': 0}, [{'a': 1, 'b': 1}, {'a': 2, 'b': 2}]),
    'content': ({'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': {'title': 'x'}, 'description': 'd', 'examples': [1]}, ['s', 1]),
    'deep': ({'properties': {'a': {'items': {'allOf': [{'type': 'integer'}, {'not': {'const': 3}}]}}}, 'minProperties': 1, 'required': ['a']}, [{'a': [1, 3]}, {'a': [2]}]),
}
PROGRAMS_19 = {
    'recursive': ({'$recursiveAnchor': True, 'properties': {'a': {'$recursiveRef': '#'}}, 'maxProperties': 1, 'type': ['object', 'integer']}, [{'a': {'a': 1}}, {'a': {'b': 1, 'c': 2}}]),
    'items19': ({'items': [{'type': 'integer'}], 'additionalItems': {'type': 'string', 'title': 'a'}, 'unevaluatedItems': False}, [[1, 'a'], ['x', 2]]),
    'uneval19': ({'allOf': [{'items': [{'title': 'a'}]}], 'unevaluatedItems': {'type': 'integer'}, 'contains': {'const': 2}}, [[1, 2], [1, 'b']]),
    'unprop19': ({'$ref': '#/$defs/d', '$defs': {'d': {'properties': {'a': {'title': 'a'}}}}, 'unevaluatedProperties': {'type': 'string'}}, [{'a': 1, 'b': 'x'}, {'b': 2, 'c': 3}]),
}
RELATIONS = ['same', 'two', 'sub', 'common', 'repeat']
SMALL = ['contains', 'contains0', 'ifthenelse', 'oneOf', 'allOf', 'not', 'ref', 'scalars', 'propertyNames', 'content', 'recursive', 'dynamic']
SMALLER = {'contains': ({'contains': {'type': 'string'}}, [['a'], [1]]), 'ref': ({'$ref': '#/$defs/d', '$defs': {'d': {'maxProperties': 1, 'title': 'd'}}}, [{'a': 1}, {'a': 1, 'b': 2}]), 'scalars': ({'type': ['integer', 'string'], 'enum': [1, 'x']}, [1, 'y']),
           'oneOf': ({'oneOf': [{'type': 'integer', 'title': 'i'}, {'minimum': 2}]}, [3, 1]), 'propertyNames': ({'propertyNames': {'pattern': '^a'}}, [{'a': 1}, {'b': 1}]), 'recursive': ({'$recursiveAnchor': True, 'properties': {'a': {'$recursiveRef': '#'}}, 'type': 'object'}, [{'a': {}}, {'a': 1}]),
           'contains0': ({'contains': {'const': 1}, 'maxContains': 1}, [[1, 1], [1]]), 'ifthenelse': ({'if': {'type': 'integer'}, 'then': {'minimum': 2}}, [1, 'a'])}
VALIDATE = [({'type': 'string'}, {'minLength': 'x'}), ({}, {'not': {'type': 5}})]
bench = None


def version_of(p):
    return '2019-09' if p in PROGRAMS_19 else '2020-12'


def program(p, small):
    if small and p in SMALLER:
        return SMALLER[p]
    return PROGRAMS[p] if p in PROGRAMS else PROGRAMS_19[p]


SLICES = 4
TINY = ['contains', 'ref', 'recursive']


def cases(tier):
    deep = tier == 'thorough'
    every = list(PROGRAMS) + list(PROGRAMS_19)
    for p in every:
        yield ['warm', p, 'two']
        yield ['warm', p, 'sub']
    for p in every if deep else TINY:
        for i in range(SLICES):
            yield ['near', p, 'two', i]
    for p in every:
        for i in range(2):
            yield ['one', p, 'two', 'line', i, 2]
        for r in RELATIONS:
            if r != 'two':
                for i in range(SLICES if deep else 1):
                    yield ['one', p, r, 'line' if deep else 'call', i, SLICES if deep else 1]
        yield ['output', p, 'same']
    for p in every if deep else TINY:
        for r in ('same', 'two'):
            for i in range(SLICES):
                yield ['one-small', p, r, 'opcode', i, SLICES]
    for i in range(len(VALIDATE)):
        for v in ('2020-12', '2019-09'):
            for part in range(64 if deep else 4):
                yield ['validate', i, v, 'line' if deep else 'call', part, 64 if deep else 4]
    for p in SMALL if deep else TINY:
        for i in range(SLICES):
            yield ['three', p, i]
    if deep:
        for p in SMALL:
            for i in range(64):
                yield ['two-full', p, 'two', i]


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c29')

    @format_validator('c29-even', instance_types=('number',))
    def even(v):
        if v % 2:
            raise ValueError('odd')
    bench.catalog.enable_formats('c29-even')


def lean_dump(r):
    """The result tree, by value, except what follows from the place of each node in it."""
    return [r.key, r.valid, r.passed, str(r.annotation), str(r.error), r.instance.key, r.schema.key,
            [[str(k[0]), str(k[1]), lean_dump(c)] for k, c in r.children.items()]]


def dump(r):
    """The complete result, by value."""
    return [r.key, r.valid, r.passed, json.dumps(r.annotation, default=str), json.dumps(r.error, default=str), str(r.instance.path), str(r.path), str(r.absolute_uri), str(r.schema.canonical_uri),
            [[str(k[0]), str(k[1]), dump(c)] for k, c in r.children.items()]]


def whole(r):
    out = dump(r)
    return json.dumps([out, r.output('basic'), r.output('detailed')], default=str)


class Scenario:
    """Builds, anew each time, the objects the threads share, and the jobs of the threads."""

    def __init__(self, p, relation, small, threads=2, warm=False):
        self.p, self.relation, self.small, self.threads, self.warm = p, relation, small, threads, warm
        self.version = version_of(p)
        self.schema, self.insts = program(p, small)

    def make(self, cid):
        def build(value, uri):
            return bench.real(value, self.version, cid, uri)
        insts = [JSON(fresh(x)) for x in self.insts]
        if self.relation == 'common':
            # two schemas that refer to a third
            build(self.schema, 'https://c29.org/common')
            if self.p == 'dynamic':
                target = 'https://c29.org/d'
            else:
                target = 'https://c29.org/common'
            one = build({'$ref': target, 'title': 'one'}, 'https://c29.org/one')
            two = build({'allOf': [{'$ref': target}], 'title': 'two'}, 'https://c29.org/two')
            work = [(one, insts[0]), (two, insts[1])]
        elif self.relation == 'sub':
            inner = {'$id': 'https://c29.org/inner', **self.schema}
            outer = build({'allOf': [inner], 'properties': {'a': True}}, 'https://c29.org/outer')
            work = [(outer, insts[0]), (outer['allOf'][0], insts[1])]
        else:
            s = build(self.schema, 'https://c29.org/s')
            if self.relation == 'same':
                work = [(s, insts[0])] * 2
            elif self.relation == 'repeat':
                # the caches are warm in part: another evaluation went before
                s.evaluate(JSON(fresh(self.insts[1])))
                work = [(s, insts[1]), (s, insts[0])]
            else:
                work = [(s, insts[0]), (s, insts[1])]
        if self.warm:
            for schema, x in work:
                schema.evaluate(x)
        if self.threads == 3:
            work = work + [(work[0][0], JSON(fresh(self.insts[0])))]
        return work


class Validation:
    relation = 'validate'

    def __init__(self, pair, version):
        self.pair, self.version, self.p = pair, version, json.dumps(pair)

    def make(self, cid):
        made = [bench.real(v, self.version, cid, f'https://c29.org/v{i}') for i, v in enumerate(self.pair)]
        # validation evaluates the schema as an instance of its metaschema
        return [(s.metaschema, s) for s in made]


def jobs(work, lean):
    def job(s, x):
        if lean:
            return lambda: s.evaluate(x)
        return lambda: (lambda r: (r, whole(r)))(s.evaluate(x))
    return [job(s, x) for s, x in work]


def solo(scn, i, grain, lean):
    """What thread i gives when it runs alone, and the number of points it passes."""
    with bench.catalog.cache() as cid:
        work = scn.make(cid)
        n, r = sched.points(jobs(work, lean)[i], grain)
        return n, lean_dump(r) if lean else r[1]


def writes(scn, i):
    """The points just before and after each of which thread i, alone, has changed shared state."""
    with bench.catalog.cache() as cid:
        work = scn.make(cid)
        cat = vars(bench.catalog)
        inner = [v for v in cat.values() if isinstance(v, (dict, set, list))]
        w = sched.Writes([x for pair in work for x in pair], (Metaschema, Catalog), [cat, *inner, *(v for d in inner if isinstance(d, dict) for v in d.values() if isinstance(v, dict))])
        n, _ = sched.points(jobs(work, True)[i], 'line', w)
        return {k for f in w.found for k in (f - 1, f) if k > 0}


def play(ctx, scn, plan, want, grain, lean):
    """Run one schedule, and compare."""
    with bench.catalog.cache() as cid:
        work = scn.make(cid)
        s = sched.Schedule(plan, jobs(work, lean), grain).run()
        ctx.step(sum(s.count))
        ctx.trace()
        for i in range(len(work)):
            if s.error[i] is not None:
                ctx.violation(f'{scn.p} {scn.relation} {grain} schedule {plan}: thread {i} raises {s.error[i]!r}', detail={'plan': plan, 'scenario': [scn.p, scn.relation]})
                return
            r = s.result[i]
            got = lean_dump(r) if lean else r[1]
            if got != want[i]:
                ctx.violation(f'{scn.p} {scn.relation} {grain} schedule {plan}: thread {i} gives {differ(got, want[i])}', detail={'plan': plan, 'scenario': [scn.p, scn.relation]})
        i = ctx.traces % 4
        if i < len(work):
            schema, x = work[i]
            again = lean_dump(schema.evaluate(x)) if lean else whole(schema.evaluate(x))
            if again != want[i]:
                ctx.violation(f'{scn.p} {scn.relation} {grain} schedule {plan}: evaluation {i} afterwards gives {differ(again, want[i])}')


def differ(a, b):
    a, b = str(a), str(b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'...{a[max(0, i - 60):i + 60]}... instead of ...{b[max(0, i - 60):i + 60]}...'
    return f'{len(a)} characters instead of {len(b)}'


def expect(ctx, scn, grain, lean):
    n = len(scn.pair) if isinstance(scn, Validation) else scn.threads
    solo(scn, 0, grain, lean)       # the interpreter itself is warm from here on
    got = [solo(scn, i, grain, lean) for i in range(n)]
    again = [solo(scn, i, grain, lean) for i in range(n)]
    ctx.check([g[1] for g in got] == [g[1] for g in again], f'{scn.p} {scn.relation}: an evaluation alone is not reproducible')
    return [max(g[0], h[0]) for g, h in zip(got, again)], [g[1] for g in got]


def single(ctx, scn, grain, lean=True, part=0, parts=1, orders=((0, 1), (1, 0))):
    counts, want = expect(ctx, scn, grain, lean)
    ctx.outcome(want[0] == want[1])
    for a, b in orders:
        for k in range(1 + part, counts[a] + 1, parts):
            ctx.state((scn.p, scn.relation, grain, a, k))
            play(ctx, scn, [(a, k), (b, None), (a, None)], want, grain, lean)


def double(ctx, scn, grain, part, parts, near):
    counts, want = expect(ctx, scn, grain, True)
    w = [writes(scn, i) for i in range(2)] if near else None
    if part == 0 and near:
        ctx.outcome(f'{len(w[0]) // 2} writes')
    for a, b in ((0, 1), (1, 0)):
        for k in range(1 + part, counts[a] + 1, parts):
            for m in range(1, counts[b] + 1) if not near or k in w[a] else sorted(w[b]):
                if ctx.nfound > 40:
                    return
                ctx.state((scn.p, scn.relation, grain, a, k, m))
                play(ctx, scn, [(a, k), (b, m), (a, None), (b, None)], want, grain, True)


def run_case(case, ctx):
    kind, p = case[:2]
    if kind == 'one':
        single(ctx, Scenario(p, case[2], False), case[3], part=case[4], parts=case[5])
    elif kind == 'one-small':
        single(ctx, Scenario(p, case[2], True), case[3], part=case[4], parts=case[5])
    elif kind == 'output':
        single(ctx, Scenario(p, case[2], True), 'call', lean=False, orders=((0, 1),))
    elif kind == 'warm':
        # everything that is computed once has been: any write that is left is one that each evaluation makes
        double(ctx, Scenario(p, case[2], False, warm=True), 'line', 0, 1, True)
    elif kind == 'near':
        double(ctx, Scenario(p, case[2], True), 'line', case[3], SLICES, True)
    elif kind == 'two-full':
        double(ctx, Scenario(p, case[2], True), 'line' if case[1] in TINY else 'call', case[3], 64, False)
    elif kind == 'three':
        scn = Scenario(p, 'two', True, threads=3)
        counts, want = expect(ctx, scn, 'call', True)
        for a, b, c in ((0, 1, 2), (0, 2, 1), (1, 0, 2)):      # threads 0 and 2 do the same work
            for k in range(1 + case[2], counts[a] + 1, SLICES):
                for m in range(1, counts[b] + 1, 1 if ctx.thorough else 4):
                    ctx.state((p, 'three', a, b, k, m))
                    play(ctx, scn, [(a, k), (b, m), (c, None), (a, None), (b, None)], want, 'call', True)
    elif kind == 'validate':
        single(ctx, Validation(VALIDATE[p], case[2]), case[3], part=case[4], parts=case[5], orders=((0, 1),))
