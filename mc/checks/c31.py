"""C31: custom keywords running every short program of result operations, on the real evaluator against a model of the result tree."""
import collections
import itertools
import json

from jschon import JSON, JSONSchema, URI
from jschon.jsonschema import Result
from jschon.output import output_formatter
from jschon.vocabulary import ArrayOfSubschemas, Keyword, ObjectOfSubschemas, Subschema

import evalcheck
import sizes
from evalcheck import ptr
from gen import exact, fresh, ptr_get, typed

MEANING = ('states: distinct (schema, programs of its custom keywords, instance); transitions: operations of custom keywords executed by the real evaluator; traces: evaluations '
           'whose complete result tree, collected annotations and errors and basic output were compared with those of the model')
BOUNDS = {
    'quick': 'every program of up to 3 of 14 result operations for one keyword over 7 subschemas; every pair of programs of up to 2 operations for two keywords, one depending on the other, '
             'in both orders; every triple of single operations for nested and for sibling keywords; every dependency graph without cycles over 4 keywords in every written order '
             'and with every subset present; 7 dependency graphs over 9 to 129 keywords; all 64 sets of instance types; every combination of 3 subschema mixins with 30 values; 5 instances; both drafts',
    'thorough': 'programs of 4 operations for one keyword, triples of programs of up to 2 operations'}
ASSUMPTIONS = ['a keyword looks at the results only of the keywords it declares to depend on', 'dependencies have no cycles']

PROG = {}
LOG = []


class Mine(Result):
    pass


class Boom(Exception):
    pass


def own(e):
    """An error of a custom keyword; None for the message of a boolean schema, whose wording is free."""
    return e if e in ('branch', 'some', 'mirror') or str(e).startswith('error of') else None


def run(kw, instance, result):
    for op in PROG.get(kw.key, ()):
        LOG.append(op)
        if op == 'annotate':
            result.annotate('note of ' + kw.key)
        elif op == 'annotate-falsy':
            result.annotate(0)
        elif op == 'fail':
            result.fail()
        elif op == 'fail-msg':
            result.fail('error of ' + kw.key)
        elif op == 'pass':
            result.pass_()
        elif op == 'noassert':
            result.noassert()
        elif op == 'discard':
            result.discard()
        elif op == 'drop':
            result.drop_annotations()
        elif op == 'drop-here':
            result.drop_annotations(instance)
        elif op == 'apply':
            kw.json.evaluate(instance, result)
        elif op in ('branch', 'branch-cls', 'branch-any'):
            with result(instance, 'b', cls=Mine if op == 'branch-cls' else None) as r:
                kw.json.evaluate(instance, r)
                if op == 'branch-any':
                    r.noassert()
            if op == 'branch-cls' and not r.passed:
                result.fail('branch')
        elif op in ('each', 'each-strict', 'each-drop'):
            bad = False
            for k, item in instance.items() if instance.type == 'object' else enumerate(instance) if instance.type == 'array' else ():
                with result(item, f'e{k}') as r:
                    kw.json.evaluate(item, r)
                    if op == 'each-drop' and not r.valid:
                        r.discard()
                bad |= not r.passed
            if bad and op == 'each-strict':
                result.fail('some')
        elif op == 'mirror':
            seen = [result.sibling(instance, k) for k in kw.depends_on]
            result.annotate([None if s is None else [s.valid, s.passed, s.annotation] for s in seen])
        elif op == 'mirror-fail':
            if any(s is not None and s.annotation for s in (result.sibling(instance, k) for k in kw.depends_on)):
                result.fail('mirror')
        elif op == 'collect':
            result.annotate([list(result.collect_annotations()), [own(e) for e in result.collect_errors()], list(result.collect_annotations(instance, 'title'))])
        elif op == 'count':
            result.globals['n'] = result.globals.get('n', 0) + 1
        elif op == 'boom':
            raise Boom


class Own(Keyword, Subschema):
    def evaluate(self, instance, result):
        LOG.append(self.key)
        run(self, instance, result)


KW = {k: type(k, (Own,), {'key': k}) for k in ('xA', 'xB', 'xC', 'xD')}


class Order(Keyword):
    def evaluate(self, instance, result):
        LOG.append(self.key)


OKW = {k: type(k, (Order,), {'key': k}) for k in ('oA', 'oB', 'oC', 'oD')}


class Types(Keyword):
    key = 'xTypes'

    def evaluate(self, instance, result):
        LOG.append('xTypes')
        result.fail('called')


MIXINS = {'one': Subschema, 'many': ArrayOfSubschemas, 'named': ObjectOfSubschemas}
MKW = {}
for n in range(4):
    for combo in itertools.permutations(MIXINS, n):
        key = 'm' + ''.join('-' + c for c in combo)
        MKW[combo] = type('M', (Keyword,) + tuple(MIXINS[c] for c in combo), {'key': key})

QKW = {f'q{i}': type(f'q{i}', (Order,), {'key': f'q{i}'}) for i in range(130)}
VOCAB = 'https://v.org/c31'
METAS = {}
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c31')
    bench.catalog.create_vocabulary(URI(VOCAB), *KW.values(), *OKW.values(), *QKW.values(), Types, *MKW.values())
    for v, name in (('2020-12', 'meta-data'), ('2019-09', 'meta-data')):
        uri = f'https://m.org/c31/{v}'
        base = f'https://json-schema.org/draft/{v}/vocab/'
        doc = {'$schema': evalcheck.META[v], '$id': uri, '$vocabulary': {base + 'core': True, base + 'applicator': True, base + 'meta-data': True, base + 'validation': False, VOCAB: True}}
        bench.source.docs[uri] = doc
        METAS[v] = uri


# --- model ------------------------------------------------------------------------------------------------------------
FALSE = object()


class Node:
    def __init__(self, inst, ipath, parent, key, schema, cls):
        self.inst, self.ipath, self.parent, self.key, self.schema, self.cls = inst, ipath, parent, key, schema, cls
        self.kids = {}
        self.valid, self.asserts, self.gone = True, True, False
        self.note = self.error = None

    @property
    def passed(self):
        return self.valid or not self.asserts

    def notes(self, ipath=None, key=None):
        if self.valid and not self.gone:
            if self.note is not None and key in (None, self.key) and ipath in (None, self.ipath):
                yield self.note
            for c in self.kids.values():
                yield from c.notes(ipath, key)

    def errors(self, ipath=None, key=None):
        if not self.valid and not self.gone:
            if self.error is not None and key in (None, self.key) and ipath in (None, self.ipath):
                yield self.error
            for c in self.kids.values():
                yield from c.errors(ipath, key)

    def drop(self, ipath=None):
        if ipath is None:
            self.note = None
        for c in self.kids.values():
            if ipath in (None, c.ipath):
                c.drop()


class Model:
    def __init__(self, deps):
        self.deps = deps
        self.n = 0
        self.ops = 0

    def start(self, schema, inst):
        root = Node(inst, (), None, None, (), 'Result')
        self.schema(schema, inst, root, ())
        return root

    def child(self, node, inst, ipath, key, where, cls=None):
        c = Node(inst, ipath, node, key, where, cls or node.cls)
        node.kids[key, ipath] = c
        return c

    def close(self, node, c):
        if c.gone:
            del node.kids[c.key, c.ipath]

    def schema(self, s, inst, node, where):
        if s is False:
            node.valid, node.error = False, FALSE
        if isinstance(s, bool):
            return
        keys, todo = [], list(s)
        while todo:
            k = next(k for k in todo if not any(d in todo for d in self.deps.get(k, ())))
            todo.remove(k)
            keys.append(k)
        for k in keys:
            if k not in KW and k != 'title':
                continue
            c = self.child(node, inst, node.ipath, k, where)
            if k == 'title':
                c.note, c.asserts = s[k], False
            else:
                for op in PROG.get(k, ()):
                    self.op(op, k, s[k], inst, c, where + (k,))
            self.close(node, c)
        if any(not c.passed for c in node.kids.values() if c.ipath == node.ipath):
            node.valid, node.error = False, None

    def op(self, op, k, sub, inst, c, where):
        self.ops += 1
        sibs = [c.parent.kids.get((d, c.ipath)) for d in self.deps.get(k, ())]
        if op == 'annotate':
            c.note = 'note of ' + k
        elif op == 'annotate-falsy':
            c.note = 0
        elif op == 'fail':
            c.valid, c.error = False, None
        elif op == 'fail-msg':
            c.valid, c.error = False, 'error of ' + k
        elif op == 'pass':
            c.valid, c.error = True, None
        elif op == 'noassert':
            c.asserts = False
        elif op == 'discard':
            c.gone = True
        elif op == 'drop':
            c.drop()
        elif op == 'drop-here':
            c.drop(c.ipath)
        elif op == 'apply':
            self.schema(sub, inst, c, where)
        elif op in ('branch', 'branch-cls', 'branch-any'):
            b = self.child(c, inst, c.ipath, 'b', c.schema, 'Mine' if op == 'branch-cls' else None)
            self.schema(sub, inst, b, where)
            if op == 'branch-any':
                b.asserts = False
            if op == 'branch-cls' and not b.passed:
                c.valid, c.error = False, 'branch'
        elif op in ('each', 'each-strict', 'each-drop'):
            bad = False
            for n, item in inst.items() if isinstance(inst, dict) else enumerate(inst) if isinstance(inst, list) else ():
                e = self.child(c, item, c.ipath + (str(n),), f'e{n}', c.schema)
                self.schema(sub, item, e, where)
                if op == 'each-drop' and not e.valid:
                    e.gone = True
                self.close(c, e)
                bad |= not e.passed
            if bad and op == 'each-strict':
                c.valid, c.error = False, 'some'
        elif op == 'mirror':
            c.note = [None if s is None else [s.valid, s.passed, s.note] for s in sibs]
        elif op == 'mirror-fail':
            if any(s is not None and s.note for s in sibs):
                c.valid, c.error = False, 'mirror'
        elif op == 'collect':
            c.note = [list(c.notes()), [e if e is not FALSE else None for e in c.errors()], list(c.notes(c.ipath, 'title'))]
        elif op == 'count':
            self.n += 1


def follow(schema, where):
    for k in where:
        schema = schema[k]
    return schema


def tree(text, ctx, got, want, schema, inst, root_inst, epath):
    """Whether the real result tree is that of the model."""
    at = f'{text} at {epath}'
    err = got.error
    if want.error is FALSE:
        ok = isinstance(err, str)
    else:
        ok = exact(err, want.error)
    if not ctx.check(got.valid is want.valid and got.passed is want.passed and ok and exact(got.annotation, want.note),
                     f'{at}: valid {got.valid}, passed {got.passed}, annotation {got.annotation!r}, error {err!r}; expected {want.valid}, {want.passed}, {want.note!r}, {want.error!r}'):
        return False
    if not ctx.check(got.key == want.key and tuple(got.path) == epath and tuple(got.instance.path) == want.ipath and got.instance is ptr_node(root_inst, want.ipath)
                     and type(got).__name__ == want.cls, f'{at}: the result of {got.key} at {got.path} on {got.instance.path} is a {type(got).__name__}; expected {want.key}, {want.ipath}, {want.cls}'):
        return False
    if not ctx.check(got.schema is follow(schema, want.schema), f'{at}: the evaluating schema is that at {got.schema.path}, expected {want.schema}'):
        return False
    if want.key in KW or want.key == 'title':
        ctx.check(got.schema_node is got.schema[want.key], f'{at}: the schema node is {got.schema_node.path}')
    keys = {(k, tuple(p)): c for (k, p), c in got.children.items()}
    if not ctx.check(set(keys) == set(want.kids), f'{at}: subresults are {sorted(keys)}, expected {sorted(want.kids)}'):
        return False
    for k, c in keys.items():
        ctx.check(c.parent is got, f'{at}: the parent of {k} is another result')
        if not tree(text, ctx, c, want.kids[k], schema, inst, root_inst, epath + (k[0],)):
            return False
    return True


def ptr_node(node, path):
    for k in path:
        node = node[k] if node.type == 'object' else node[int(k)]
    return node


def basic(node, valid, epath=()):
    if node.valid is valid:
        m = node.note if valid else node.error
        if m is not None:
            yield epath, node.ipath, m
        for (k, _), c in node.kids.items():
            yield from basic(c, valid, epath + (k,))


def evaluate(ctx, text, schema, value, node, inst, deps):
    """One evaluation on both sides."""
    ctx.state(text)
    m = Model(deps)
    want = m.start(value, inst)
    LOG.clear()
    try:
        got = schema.evaluate(node)
    except Exception as e:
        ctx.violation(f'{text}: raises {e!r}')
        return
    ctx.step(m.ops)
    ctx.trace()
    ctx.outcome(got.valid)
    if not tree(text, ctx, got, want, schema, inst, node, ()):
        return
    ctx.check(got.globals == ({'n': m.n} if m.n else {}), f'{text}: globals are {got.globals}, expected n = {m.n}')
    fix = lambda xs: sorted(repr(None if x is FALSE else x) for x in xs)
    fixe = lambda xs: sorted(repr(own(x)) for x in xs)
    for key in (None, 'xA', 'xB', 'title', 'b'):
        for ip in (None, (), ('a',)):
            try:
                at = None if ip is None else ptr_node(node, ip)
            except (KeyError, IndexError, TypeError, ValueError):
                continue
            ctx.check(fix(got.collect_annotations(at, key)) == fix(want.notes(ip, key)), f'{text}: annotations of {key} at {ip}: {list(got.collect_annotations(at, key))}, expected {list(want.notes(ip, key))}')
            ctx.check(fixe(got.collect_errors(at, key)) == fix(want.errors(ip, key)), f'{text}: errors of {key} at {ip}: {list(got.collect_errors(at, key))}, expected {list(want.errors(ip, key))}')
    out = got.output('basic')
    units = out['annotations' if got.valid else 'errors']
    g = sorted(repr((ptr(u['keywordLocation']), ptr(u['instanceLocation']), u['annotation'] if got.valid else own(u['error']))) for u in units)
    w = sorted(repr((e, i, None if x is FALSE else x)) for e, i, x in basic(want, got.valid))
    ctx.check(g == w, f'{text}: basic output {g}, expected {w}')
    ctx.check(got.output('flag') == {'valid': want.valid}, f'{text}: flag output {got.output("flag")}')


BASE_OPS = ['annotate', 'annotate-falsy', 'fail', 'fail-msg', 'pass', 'noassert', 'discard', 'drop', 'drop-here', 'apply', 'branch', 'branch-cls', 'branch-any', 'each', 'each-strict', 'each-drop',
            'collect', 'count']
PAIR_OPS = ['annotate', 'fail', 'fail-msg', 'pass', 'noassert', 'discard', 'apply', 'branch-any', 'each-strict', 'count']
DEP_OPS = ['mirror', 'mirror-fail', 'annotate', 'fail-msg', 'noassert', 'drop', 'apply', 'each']
SUBS = [True, False, {'title': 't'}, {'xB': True, 'title': 't'}, {'xC': False}, {'title': 1, 'xB': {'title': 2}}, {'xC': {'title': 'u', 'xB': False}}]
INSTS = [5, {'a': 1}, {'a': {'a': 2}, 'b': []}, [[0], 's'], 'x']


def sane(p):
    """Programs whose meaning the documentation settles: at most one application to the instance itself."""
    return sum(o in ('apply', 'branch', 'branch-cls', 'branch-any') for o in p) <= 1 and sum(o.startswith('each') for o in p) <= 1 and not ('collect' in p and 'discard' in p)


def programs(ops, n):
    for k in range(n + 1):
        for p in itertools.product(ops, repeat=k):
            if sane(p):
                yield p


def construct(value, v, cid):
    return JSONSchema({'$schema': METAS[v], **fresh(value)} if isinstance(value, dict) else value, catalog=bench.catalog, cacheid=cid, uri=URI(evalcheck.BASE))


def depend(deps):
    for k, c in {**KW, **OKW, **QKW}.items():
        c.depends_on = tuple(deps.get(k, ()))


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2020-12', '2019-09'):
        for s in range(len(SUBS)):
            for op in range(len(BASE_OPS)):
                if v == '2020-12' or op % 6 == s % 6 or deep:
                    yield ['solo', v, s, op, 4 if deep and v == '2020-12' else 3]
        for i, _ in enumerate(programs(PAIR_OPS, 2)):
            if v == '2020-12' or i % 9 == 0:
                yield ['pair', v, i]
        for i in range(len(PAIR_OPS)):
            yield ['triple', v, i]
        for i in range(64):
            yield ['graph', v, i]
        yield ['types', v]
        yield ['mixins', v]
        yield ['boom', v]
    yield ['formatters']
    for n in sizes.SIZES:
        if n <= 129:
            yield ['graphs', '2020-12', n]


VALUES = [None, True, False, 0, 1.5, '', 's', [], {}, [True], [{}, False], [{'title': 1}, {}], {'a': True}, {'a': {}, 'b': False}, {'title': 't'}, {'title': {}, 'x': {'title': 'u'}}, [[]], [1], ['s'], {'a': 1},
          {'a': [True]}, [{'a': 1}], {'not': {'title': 1}}, [{'not': {}}], {'a': {'not': False}}, [None], {'a': None}, [True, None], {'a': True, 'b': 's'}, {'not': 5}]


def shape(value, combo):
    """What each node of a keyword's value must be: ('plain',) or ('schema',) or a mapping of keys; None if the value is unusable."""
    for c in combo:
        if c == 'one' and isinstance(value, (bool, dict)):
            return 'schema'
        if c == 'many' and isinstance(value, (list, str)):
            if isinstance(value, str):
                return 'plain'
            return {str(i): 'schema' for i in range(len(value))} if all(isinstance(x, (bool, dict)) for x in value) else None
        if c == 'named' and isinstance(value, dict):
            return {k: 'schema' for k in value} if all(isinstance(x, (bool, dict)) for x in value.values()) else None
    return 'plain'


def plain(node):
    return type(node) is JSON and all(plain(c) for c in (node.data if node.type == 'array' else node.data.values() if node.type == 'object' else ()))


def run_case(case, ctx):
    what, v = case[0], case[1] if len(case) > 1 else None
    depend({})
    PROG.clear()
    if what == 'solo':
        sub, first, n = SUBS[case[2]], BASE_OPS[case[3]], case[4]
        value = {'xA': sub, 'title': 'T'}
        deps = {}
        with bench.catalog.cache() as cid:
            schema = construct(value, v, cid)
            nodes = [JSON(i) for i in INSTS]
            for inner in (('annotate',), ('fail-msg', 'annotate'), ('branch', 'noassert', 'fail')):
                PROG['xB'] = inner
                PROG['xC'] = ('apply', 'annotate')
                for p in programs(BASE_OPS, n - 1):
                    PROG['xA'] = (first,) + p
                    if not sane(PROG['xA']):
                        continue
                    if inner != ('annotate',) and (len(p) + 1 > n - 1 or 'xB' not in json.dumps(sub)):
                        continue
                    for i, inst in enumerate(INSTS[:2 + (len(p) < 2) * 3]):
                        evaluate(ctx, f'{v} {json.dumps(value)}, programs {PROG}, on {inst!r}', schema, value, nodes[i], inst, deps)
    elif what == 'pair':
        p = list(programs(PAIR_OPS, 2))[case[2]]
        sub = {'title': 's', 'xC': True}
        deps = {'xB': ('xA',), 'xC': ('xB', 'nope')}
        depend(deps)
        with bench.catalog.cache() as cid:
            for value in ({'xA': sub, 'xB': sub}, {'xB': sub, 'title': 'T', 'xA': sub}, {'xB': True}, {'xC': sub, 'xB': False, 'xA': True}):
                schema = construct(value, v, cid)
                nodes = [JSON(i) for i in INSTS[:3]]
                for q in programs(DEP_OPS, 2):
                    PROG.clear()
                    PROG.update(xA=p, xB=q, xC=('mirror',))
                    for i, inst in enumerate(INSTS[1:3] if len(q) == 1 else INSTS[1:2]):
                        evaluate(ctx, f'{v} {json.dumps(value)}, programs {PROG}, on {inst!r}', schema, value, nodes[i + 1], inst, deps)
    elif what == 'triple':
        a = PAIR_OPS[case[2]]
        depend({})
        with bench.catalog.cache() as cid:
            values = [{'xA': {'xB': {'xC': {'title': 1}, 'title': 2}, 'title': 3}}, {'xA': {'title': 4}, 'xC': {'title': 5}, 'xB': {'title': 6}}, {'xB': {'xA': True}, 'xC': {'xB': {'title': 7}}}]
            schemas = [construct(x, v, cid) for x in values]
            nodes = [JSON(i) for i in INSTS]
            lens = programs(PAIR_OPS, 2) if ctx.thorough else [(b,) for b in PAIR_OPS]
            for b, c in itertools.product(list(lens), repeat=2):
                PROG.clear()
                PROG.update(xA=(a,), xB=b, xC=c)
                for value, schema in zip(values, schemas):
                    for i in (1, 2):
                        evaluate(ctx, f'{v} {json.dumps(value)}, programs {PROG}, on {INSTS[i]!r}', schema, value, nodes[i], INSTS[i], {})
                if case[2] == 0:
                    for first in ('annotate', 'fail', 'branch', 'each'):
                        PROG['xA'] = (first, 'apply') if first != 'branch' else ('branch', 'annotate')
                        evaluate(ctx, f'{v} {json.dumps(values[0])}, programs {PROG}', schemas[0], values[0], nodes[2], INSTS[2], {})
    elif what == 'graph':
        ks = list(OKW)
        for rank in itertools.permutations(ks):
            # edges from later to earlier keywords of the ranking: every graph without cycles arises
            pairs = [(rank[j], rank[i]) for i in range(4) for j in range(i + 1, 4)]
            deps = collections.defaultdict(list)
            for b, (frm, to) in enumerate(pairs):
                if case[2] >> b & 1:
                    deps[frm].append(to)
            depend(deps)
            full = case[2] % 8 == 7 or v == '2020-12'
            for size in (4, 3, 2) if full else (4,):
                for present in itertools.combinations(ks, size):
                    for order in itertools.permutations(present) if rank == tuple(ks) or size == 4 else [present, present[::-1]]:
                        text = f'{v} keywords {order}, dependencies {dict(deps)}'
                        ctx.state(text)
                        with bench.catalog.cache() as cid:
                            schema = construct({k: 1 for k in order}, v, cid)
                            LOG.clear()
                            schema.evaluate(JSON(1))
                        ctx.step(size)
                        ctx.trace()
                        seen = list(LOG)
                        ctx.check(sorted(seen) == sorted(order), f'{text}: evaluated {seen}')
                        for k in present:
                            for d in deps[k]:
                                if d in present and k in seen and d in seen:
                                    ctx.check(seen.index(d) < seen.index(k), f'{text}: evaluated in the order {seen}')
        depend({})
    elif what == 'graphs':
        n = case[2]
        ks = list(QKW)[:n]
        shapes = {'chain': {ks[i]: [ks[i + 1]] for i in range(n - 1)}, 'back': {ks[i + 1]: [ks[i]] for i in range(n - 1)}, 'star': {ks[0]: ks[1:]}, 'sink': {k: [ks[-1]] for k in ks[:-1]},
                  'all': {ks[i]: ks[i + 1:] for i in range(n)}, 'middle': {ks[n // 2]: ks[:n // 2] + ks[n // 2 + 1:]}, 'tree': {ks[i]: [k for k in ks[2 * i + 1:2 * i + 3]] for i in range(n)}}
        for graph, deps in shapes.items():
            depend(deps)
            for order in (ks, ks[::-1], ks[n // 2:] + ks[:n // 2], ks[::2] + ks[1::2]):
                text = f'{n} keywords in the order {order[:4]}..., dependencies {graph}'
                ctx.state(text)
                with bench.catalog.cache() as cid:
                    schema = construct({k: 1 for k in order}, v, cid)
                    LOG.clear()
                    schema.evaluate(JSON(1))
                ctx.step(n)
                ctx.trace()
                seen = {k: i for i, k in enumerate(LOG)}
                ctx.check(len(LOG) == n and set(seen) == set(ks), f'{text}: evaluated {LOG}')
                bad = [(k, d) for k in deps for d in deps[k] if not seen.get(d, n) < seen.get(k, -1)]
                ctx.check(not bad, f'{text}: evaluated in the wrong order: {bad[:5]}')
        depend({})
    elif what == 'types':
        insts = {'null': None, 'boolean': True, 'number': 1, 'string': 's', 'array': [], 'object': {}}
        for mask in range(64):
            names = tuple(t for i, t in enumerate(insts) if mask >> i & 1)
            for static in (False, True):
                Types.instance_types, Types.static = names, static
                for value in ({'xTypes': 1}, {'not': {'xTypes': 1}}, {'xTypes': 1, 'type': 'string'}):
                    with bench.catalog.cache() as cid:
                        schema = construct(value, v, cid)
                        for t, i in insts.items():
                            LOG.clear()
                            got = schema.evaluate(JSON(i)).valid
                            hit = t in names and not static
                            want = hit if 'not' in value else not hit and ('type' not in value or t == 'string')
                            ctx.step()
                            ctx.trace()
                            ctx.outcome(got)
                            text = f'{v} {value} with instance types {names}, static {static}, on {i!r}'
                            ctx.state(text)
                            ctx.check(LOG == ['xTypes'] * hit, f'{text}: the keyword was called {len(LOG)} times')
                            ctx.check(got is want, f'{text}: evaluates to {got}')
    elif what == 'mixins':
        for combo, cls in MKW.items():
            for val in VALUES:
                want = shape(val, combo)
                # nested under a schema, beside a reference to it
                for outer in (0, 1):
                    text = f'{v} keyword with mixins {combo} and value {json.dumps(val)} ({outer})'
                    ctx.state(text)
                    ctx.step()
                    ctx.trace()
                    value = {cls.key: val, 'title': 't'}
                    with bench.catalog.cache() as cid:
                        try:
                            s = construct({'not': value} if outer else value, v, cid)
                        except Exception as e:
                            ctx.outcome('refused')
                            # a value that suits none of the mixins may be refused or kept as it is
                            ctx.check(want is None or (want == 'plain' and combo) or 'not": 5' in json.dumps(val), f'{text}: {type(e).__name__}: {e}')
                            continue
                        if not ctx.check(want is not None, f'{text}: accepted, though the value is not made of schemas'):
                            continue
                        if outer:
                            s = s['not']
                        ctx.outcome(str(want)[:6])
                        n = s[cls.key]
                        ctx.check(exact(n.value, val) and n.parent is s and n.key == cls.key and s.keywords[cls.key].json is n and s.keywords[cls.key].parentschema is s, f'{text}: not kept as it is')
                        if want == 'schema':
                            ctx.check(type(n) is JSONSchema and n.parentschema is s, f'{text}: a {type(n).__name__}')
                        elif want == 'plain':
                            ctx.check(plain(n), f'{text}: a {type(n).__name__}')
                        else:
                            ctx.check(type(n) is JSON, f'{text}: a {type(n).__name__}')
                            for k in want:
                                c = n[k] if n.type == 'object' else n[int(k)]
                                ctx.check(type(c) is JSONSchema and c.parentschema is s and c.parent is n and c.key == k, f'{text}: {k} is a {type(c).__name__}')
                                ctx.check(c.evaluate(JSON(1)).valid is not (c.value is False or c.value == {'not': {}} or c.value == {'not': {'title': 1}}), f'{text}: {k} evaluates wrongly')
                # the subschemas can be referred to, and their own references are resolved
                paths = [cls.key] if want == 'schema' else [f'{cls.key}/{k}' for k in want] if isinstance(want, dict) else []
                for p in [cls.key, cls.key + '/0', cls.key + '/a', cls.key + '/title']:
                    deeper = p not in paths and want is not None and isinstance(val, dict) and p.split('/')[-1] in ('not',)
                    if deeper or '~' in p:
                        continue
                    with bench.catalog.cache() as cid:
                        ctx.step()
                        try:
                            construct({cls.key: val, 'allOf': [{'$ref': '#/' + p}]}, v, cid)
                            ok = True
                        except Exception:
                            ok = False
                        ctx.check(ok is (p in paths) or 'not": 5' in json.dumps(val), f'{v} keyword with mixins {combo} and value {json.dumps(val)}: a reference to {p} is {"accepted" if ok else "refused"}')
            for c, make in (('one', lambda x: x), ('many', lambda x: [True, x]), ('named', lambda x: {'a': x})):
                if combo[:1] != (c,):
                    continue
                for ref, sound in (('#/$defs/d', True), ('#/$defs/e', False)):
                    ctx.step()
                    with bench.catalog.cache() as cid:
                        try:
                            s = construct({cls.key: make({'$ref': ref}), '$defs': {'d': {'type': 'string'}}}, v, cid)
                            ok = True
                        except Exception:
                            ok = False
                        ctx.check(ok is sound, f'{v} a $ref {ref} in a keyword with mixins {combo} is {"accepted" if ok else "refused"}')
                        if ok:
                            k = s[cls.key] if c == 'one' else s[cls.key][1] if c == 'many' else s[cls.key]['a']
                            ctx.check([k.evaluate(JSON(x)).valid for x in (1, 's')] == [False, True], f'{v} a $ref in a keyword with mixins {combo} leads elsewhere')
    elif what == 'boom':
        # a keyword that raises: the error comes out as it is, and leaves nothing behind
        value = {'xA': {'xB': {'title': 1}}, 'title': 'T', 'xC': True}
        depend({})
        with bench.catalog.cache() as cid:
            schema = construct(value, v, cid)
            node = JSON({'a': {'a': 2}, 'b': []})
            inst = {'a': {'a': 2}, 'b': []}
            for p in programs(['annotate', 'apply', 'each', 'branch', 'discard', 'fail-msg', 'count'], 2):
                for where in ('xA', 'xB', 'xC'):
                    PROG.clear()
                    PROG.update(xA=('branch', 'annotate'), xB=('annotate', 'count'), xC=('annotate',))
                    PROG[where] = p + ('boom',)
                    ctx.step()
                    try:
                        schema.evaluate(node)
                        ctx.violation(f'{v} {json.dumps(value)}: the error raised by {where} after {p} is lost')
                    except Boom:
                        pass
                    except Exception as e:
                        ctx.violation(f'{v} {json.dumps(value)}: {where} after {p} raises {e!r}')
                    PROG[where] = p
                    evaluate(ctx, f'{v} {json.dumps(value)}, programs {PROG}, after an evaluation that raised', schema, value, node, inst, {})
    else:
        calls = []
        schema = JSONSchema({'$schema': evalcheck.META['2020-12'], 'title': 't', 'minimum': 3}, catalog=bench.catalog, cacheid='fmt')

        def make(tag):
            def f(result, *a, **k):
                calls.append((tag, result, a, k))
                return {'tag': tag}
            return f
        names = ['c31-x', 'c31-y']
        for seq in itertools.product(range(2), repeat=3):
            reg = {}
            for n, which in enumerate(seq):
                f = make(n)
                ctx.check(output_formatter(names[which])(f) is f, 'output_formatter does not return the function')
                reg[names[which]] = n
                for i in (1, 5):
                    r = schema.evaluate(JSON(i))
                    for name, want in reg.items():
                        for kw in ({}, {'a': 1}, {'annotations': ['title'], 'z': None}):
                            calls.clear()
                            ctx.step()
                            ctx.trace()
                            out = r.output(name, **kw)
                            ctx.state([seq, n, i, name, sorted(kw)])
                            ctx.check(out == {'tag': want} and len(calls) == 1 and calls[0][0] == want and calls[0][1] is r and calls[0][2] == () and calls[0][3] == kw,
                                      f'output({name!r}, **{kw}) after registrations {seq[:n + 1]} gives {out!r}, calls {calls!r:.200}')
                    ctx.check(r.output('flag') == {'valid': i >= 3}, 'a registration changed the flag output')
            try:
                schema.evaluate(JSON(1)).output('c31-unregistered')
                ctx.violation('an unregistered output format is accepted')
            except Exception as e:
                ctx.outcome(type(e).__name__)
