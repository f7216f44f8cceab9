"""C20: patches as mutable sequences (all edit histories against a list), and patch operations as values (all pairs)."""
import collections
import itertools

from jschon import JSONPatch, JSONPatchOperation, JSONPointer
from jschon.exc import JSONPatchError, JSONPointerError
from jschon.jsonpatch import PatchOp

import refpatch
import sizes
from gen import fresh, jeq, typed

MEANING = ('states: distinct (operation list) contents; transitions: sequence operations by the real code; traces: histories after which the patch was '
           'compared with the list model by every means of access, converted to plain data and back, and applied to 6 documents')
BOUNDS = {
    'quick': 'every pair of 150 operations (6 names, paths with escapes, values differing in type, number form and member order, ignored members) in every pair of forms; '
             'every history of 3 of 45 edits from 3 initial patches, operations given as dictionaries and as objects; 32 edits and 6 slices of patches of 22 sizes up to 1000 operations',
    'thorough': 'also every history of 4 of 23 edits'}

VALUES = [None, True, False, 0, 1, 1.0, 1.5, '', '1', 'a', [], [1], [True], [[1]], {}, {'a': 1}, {'a': True}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, [{'a': 1.0, 'b': 2}], [1, 2], [2, 1], 2**53, 2**53 + 1, float(2**53)]
PATHS = ['', '/', '/a', '/b', '/a/0', '/a/-', '/a~1b', '/a~0b', '/~01', '/é', '/a%20']


def pool():
    out = []
    for v in VALUES:
        out += [{'op': o, 'path': '/a', 'value': v} for o in ('add', 'test')]
    for p in PATHS:
        out += [{'op': 'remove', 'path': p}, {'op': 'add', 'path': p, 'value': 1}, {'op': 'replace', 'path': p, 'value': {'b': 2, 'a': 1}}]
        out += [{'op': o, 'from': p, 'path': '/a'} for o in ('move', 'copy')] + [{'op': o, 'path': p, 'from': '/a'} for o in ('move', 'copy')]
    return out


# members that an operation does not define are ignored
EXTRA = [{'op': 'remove', 'path': '/a', 'value': 1}, {'op': 'remove', 'path': '/a', 'from': '/b'}, {'op': 'add', 'path': '/a', 'value': 1, 'from': '/b'},
         {'op': 'move', 'path': '/a', 'from': '/b', 'value': [1]}, {'op': 'test', 'path': '/a', 'value': 1, 'comment': 'x'}, {'op': 'copy', 'from': '/a', 'path': '/a', 'xyz': 'y'}]
POOL = pool() + EXTRA

D = [{'op': 'add', 'path': '/a', 'value': 1}, {'op': 'test', 'path': '/a', 'value': True}, {'op': 'move', 'from': '/a', 'path': '/b'}, {'op': 'replace', 'path': '', 'value': {'a': [1, {'k': None}]}},
     {'op': 'remove', 'path': '/a'}, {'op': 'copy', 'from': '', 'path': '/b/-'}]
STARTS = [[], [D[0], D[4]], [D[3], D[0], D[2], D[0]]]
EDITS = [('insert', i, d, f) for i, d, f in [(0, 0, 'dict'), (1, 1, 'op'), (-1, 2, 'dict'), (99, 3, 'op'), (-99, 4, 'dict'), (2, 5, 'dict')]] + \
        [('set', i, d, f) for i, d, f in [(0, 1, 'dict'), (-1, 0, 'op'), (1, 3, 'dict'), (5, 2, 'op'), (-9, 2, 'dict')]] + \
        [('del', i) for i in (0, -1, 1, 7, -7)] + [('delslice', *s) for s in ((0, 1), (1, None), (None, None), (-2, -1))] + \
        [('append', 5, 'dict'), ('append', 0, 'op'), ('extend', (1, 2), 'dict'), ('extend', (), 'op'), ('iadd', (4, 0), 'op'), ('iadd', (3,), 'dict')] + \
        [('pop', ()), ('pop', (0,)), ('pop', (-1,)), ('pop', (9,)), ('remove', 0, 'dict'), ('remove', 4, 'op'), ('reverse',), ('clear',)] + \
        [('slice', *s) for s in ((0, 2, None), (None, None, -1), (1, None, 2), (-1, None, None), (5, 9, None))] + \
        [('bad', x) for x in (None, 1, 'ab', {'op': 'nope', 'path': ''}, {'path': ''}, {'op': 'add'}, {'op': 'add', 'path': 'a', 'value': 1})]
DOCS = [{}, {'a': 1}, {'a': [1, 2], 'b': {'c': None}}, [], [1, [2]], {'b': [0], 'a': True}]


def cases(tier):
    for i in range(len(POOL)):
        yield ['pair', i]
    for n in sizes.SIZES + (sizes.LARGE if tier == 'thorough' else [512, 1000]):
        yield ['size', n]
    for s in range(len(STARTS)):
        for i in range(len(EDITS)):
            yield ['history', 3, s, i, 1]
            if tier == 'thorough' and i % 2 == 0:
                yield ['history', 4, s, i, 2]


def norm(d):
    """The members that count, for the operation at hand."""
    keep = {'add': ('value',), 'replace': ('value',), 'test': ('value',), 'move': ('from',), 'copy': ('from',), 'remove': ()}[d['op']]
    return {k: v for k, v in d.items() if k in ('op', 'path') + keep}


def forms(d):
    d = fresh(d)
    yield 'dictionary', d
    yield 'operation', JSONPatchOperation(**d)
    yield 'reordered dictionary', dict(reversed(d.items()))
    e = {k: v for k, v in d.items() if k != 'from'}
    kw = {'from_': d['from']} if 'from' in d else {}
    yield 'operation made from objects', JSONPatchOperation(**{**e, 'op': PatchOp(d['op']), 'path': JSONPointer(d['path'])}, **{k: JSONPointer(v) for k, v in kw.items()})
    yield 'member of a patch', JSONPatch(d)[0]


def want_result(ops, doc):
    doc = fresh(doc)
    try:
        for o in ops:
            o = norm(o)
            arg = o.get('value')
            if 'from' in o:
                arg = tuple(JSONPointer(o['from']))
            doc = refpatch.apply(doc, (o['op'], tuple(JSONPointer(o['path'])), arg))
        return typed(doc)
    except refpatch.Fail:
        return 'fails'


def result(patch, doc):
    try:
        return typed(patch.evaluate(fresh(doc)))
    except JSONPatchError:
        return 'fails'


def compare(ctx, p, model, text, deep=True):
    """`p` is indistinguishable from a patch newly made of the dictionaries in `model`."""
    n = len(model)
    norms = [norm(d) for d in model]
    ok = ctx.check(len(p) == n and typed(p.aslist()) == typed(norms), f'{text}: holds {p.aslist()}, expected {norms}')
    ok = ok and ctx.check(all(isinstance(o, JSONPatchOperation) for o in p) and typed([o.asdict() for o in p]) == typed(norms), f'{text}: iterates {list(p)}')
    if not ok or not deep:
        return
    ctx.check(typed([o.asdict() for o in reversed(p)]) == typed(norms[::-1]), f'{text}: iterates backwards {list(reversed(p))}')
    for i in range(-n - 1, n + 1):
        try:
            got = p[i].asdict()
        except IndexError:
            got = None
        ctx.check(typed(got) == typed(norms[i] if -n <= i < n else None), f'{text}: [{i}] is {got}')
    again = JSONPatch(*p.aslist())
    ctx.check(again == p and p == again and not p != again, f'{text}: not equal to the patch made of its own list')
    ctx.check(p == model and model == p and not p != model, f'{text}: not equal to the list of its operations')
    ctx.check(p == JSONPatch(*p), f'{text}: not equal to a patch of its own operations')
    ctx.check(p != model + [D[0]] and p != [D[4]] + model and (not model or (p != model[1:] and p != [{'op': 'test', 'path': '/zz', 'value': 0}] + model[1:])), f'{text}: equal to a different patch')
    for d in D:
        want = sum(jeq(norm(d), x) for x in norms)
        ctx.check(p.count(d) == want and (d in p) is (want > 0) and p.count(JSONPatchOperation(**d)) == want, f'{text}: counts {p.count(d)} of {d}, expected {want}')
        if want:
            ctx.check(p.index(d) == [jeq(norm(d), x) for x in norms].index(True), f'{text}: finds {d} at {p.index(d)}')
    if deep is True:
        for doc in DOCS:
            want = want_result(model, doc)
            ctx.step()
            ctx.check(result(p, doc) == want == result(again, doc), f'{text}: applied to {doc} gives {result(p, doc)}, and {result(again, doc)} after conversion; expected {want}')


def edit(ctx, p, model, e, text):
    """Apply edit `e` to the patch and to the list; both must raise the same kind of error."""
    def conv(i, f):
        d = fresh(D[i])
        return d if f == 'dict' else JSONPatchOperation(**d)
    what = e[0]

    def both(real, ref):
        out = []
        for fn in (real, ref):
            try:
                out.append(('ok', fn()))
            except (IndexError, ValueError) as x:
                out.append((type(x).__name__, None))
        ctx.check(out[0][0] == out[1][0], f'{text}: {e} gives {out[0]} where a list gives {out[1]}')
        return out[0][1], out[1][1]
    if what == 'insert':
        both(lambda: p.insert(e[1], conv(e[2], e[3])), lambda: model.insert(e[1], D[e[2]]))
    elif what == 'set':
        both(lambda: p.__setitem__(e[1], conv(e[2], e[3])), lambda: model.__setitem__(e[1], D[e[2]]))
    elif what == 'del':
        both(lambda: p.__delitem__(e[1]), lambda: model.__delitem__(e[1]))
    elif what == 'delslice':
        both(lambda: p.__delitem__(slice(*e[1:])), lambda: model.__delitem__(slice(*e[1:])))
    elif what == 'append':
        both(lambda: p.append(conv(e[1], e[2])), lambda: model.append(D[e[1]]))
    elif what == 'extend':
        both(lambda: p.extend([conv(i, e[2]) for i in e[1]]), lambda: model.extend([D[i] for i in e[1]]))
    elif what == 'iadd':
        both(lambda: p.__iadd__([conv(i, e[2]) for i in e[1]]), lambda: model.__iadd__([D[i] for i in e[1]]))
    elif what == 'pop':
        a, b = both(lambda: p.pop(*e[1]), lambda: model.pop(*e[1]))
        ctx.check((a is None) == (b is None) and (a is None or typed(a.asdict()) == typed(norm(b))), f'{text}: {e} returns {a}, expected {b}')
    elif what == 'remove':
        both(lambda: p.remove(conv(e[1], e[2])), lambda: model.remove(D[e[1]]))
    elif what == 'reverse':
        p.reverse()
        model.reverse()
    elif what == 'clear':
        p.clear()
        model.clear()
    elif what == 'slice':
        s = slice(*e[1:])
        q = p[s]
        ctx.check(isinstance(q, JSONPatch), f'{text}: [{s}] is {q!r}')
        compare(ctx, q, model[s], f'{text}: the slice {s}', deep='some' if ctx.cases % 4 == 0 else False)
        q.append(fresh(D[1]))
        q.insert(0, fresh(D[5]))
    elif what == 'bad':
        for fn in (lambda: p.insert(0, e[1]), lambda: p.append(e[1]), lambda: p.__setitem__(0, e[1]), lambda: JSONPatch(e[1])):
            try:
                fn()
            except (TypeError, ValueError, IndexError, JSONPatchError, JSONPointerError):
                continue
            ctx.violation(f'{text}: {e[1]!r} is accepted as an operation')


def sized(n, ctx):
    """Patches of n operations, edited at and around their ends."""
    def start():
        return [{'op': 'add', 'path': f'/n{i}', 'value': [i]} for i in range(n)]
    for form in (0, 1):
        for e in [None] + [(w, i, 1, f) for w in ('insert', 'set') for i, f in ((0, 'dict'), (n - 1, 'op'), (n, 'dict'), (n // 2, 'dict'), (-n, 'op'), (-n - 1, 'op'))] + \
                [(w, i) for w in ('del',) for i in (0, n - 1, n, -n, -n - 1, n // 2)] + [('pop', (i,)) for i in (0, n - 1, n, -n)] + \
                [('delslice', n - 1, None), ('delslice', 1, None), ('delslice', None, n - 1), ('append', 4, 'dict'), ('extend', (1, 2) * n, 'dict'), ('iadd', (0,) * n, 'op'), ('reverse',), ('clear',)]:
            model = start()
            p = JSONPatch(*[fresh(d) if form else JSONPatchOperation(**fresh(d)) for d in model])
            text = f'a patch of {n} operations after {str(e)[:200]}'
            if e:
                edit(ctx, p, model, e, text)
            ctx.step()
            ctx.trace()
            ctx.state((n, str(e)[:40]))
            compare(ctx, p, model, text, deep=True if n <= 129 else 'some')
        model = start()
        p = JSONPatch(*model)
        for s in (slice(n - 1, None), slice(None, n - 1), slice(None, None, -1), slice(n // 2, None, 2), slice(0, n + 1), slice(n, None)):
            compare(ctx, p[s], model[s], f'the slice {s} of a patch of {n} operations', deep='some')
        for k in (0, n // 2, n - 1):
            other = start()
            other[k]['value'] = [True if k == 1 else 'other']
            q = JSONPatch(*other)
            ctx.check(not p == q and p != q and not p == other and p != other, f'patches of {n} operations that differ in operation {k} are equal')
            ctx.check(p.index(model[k]) == k and model[k] in p and p.count(model[k]) == 1, f'operation {k} of a patch of {n} is not found')
        want = typed({f'n{i}': [i] for i in range(n)})
        ctx.check(result(p, {}) == want == result(JSONPatch(*p.aslist()), {}), f'a patch of {n} operations gives {str(result(p, {}))[-200:]}')
        vals = [fresh(model) for model in (list(range(n)), {f'n{i}': i for i in range(n)})]
        for v in vals:
            x, y = ({'op': 'test', 'path': '/' + 'k' * n, 'value': w} for w in (v, fresh(v)))
            z = fresh(y)
            if isinstance(v, list):
                z['value'][-1] = 'no'
            else:
                z['value'][f'n{n - 1}'] = 'no'
            a, b, c = (JSONPatchOperation(**o) for o in (x, y, z))
            ctx.check(a == b and a == y and not a != b and a != c and not a == c and a != z and typed(a.asdict()) == typed(x), f'operations with values of {n} members: equality')


def run_case(case, ctx):
    if case[0] == 'pair':
        a = POOL[case[1]]
        ctx.state(typed(a))
        for fa, x in forms(a):
            if isinstance(x, JSONPatchOperation):
                ctx.check(typed(x.asdict()) == typed(norm(a)), f'{fa} of {a} converts to {x.asdict()}')
                y = JSONPatchOperation(**x.asdict())
                ctx.check(y == x and x == y and not x != y, f'{fa} of {a} is not equal to its conversion to plain data and back')
        fas = list(forms(a))
        for b in POOL:
            want = jeq(norm(a), norm(b))
            ctx.outcome(want)
            for (fa, x), (fb, y) in itertools.product(fas, itertools.islice(forms(b), 2 if not ctx.thorough and b['op'] != a['op'] else None)):
                if isinstance(x, dict) and isinstance(y, dict):
                    continue
                ctx.step()
                ctx.check((x == y) is want and (x != y) is not want, f'{fa} of {a} and {fb} of {b}: equal is {x == y}, expected {want}')
            ctx.check((JSONPatch(fresh(a)) == JSONPatch(fresh(b))) is want and (JSONPatch(fresh(a)) == [fresh(b)]) is want, f'patches of {a} and of {b}: equal is not {want}')
            ctx.trace()
        for doc in DOCS:
            want = want_result([a], doc)
            for fa, x in fas:
                ctx.step()
                ctx.check(result(JSONPatch(x), doc) == want, f'{fa} of {a} on {doc} gives {result(JSONPatch(x), doc)}, expected {want}')
            ctx.check(result(JSONPatch(JSONPatch(fresh(a)).aslist()[0]), doc) == want, f'{a} converted to plain data and back has another effect on {doc}')
        return
    if case[0] == 'size':
        return sized(case[1], ctx)
    _, n, s, i, stride = case
    for rest in itertools.product(range(0, len(EDITS), stride), repeat=n - 1):
        es = [EDITS[i]] + [EDITS[k] for k in rest]
        form = (i + sum(rest)) % 2
        model = list(STARTS[s])
        p = JSONPatch(*[fresh(d) if form else JSONPatchOperation(**fresh(d)) for d in model])
        text = f'from {model}, after {es}'
        for e in es:
            edit(ctx, p, model, e, text)
            ctx.step()
        ctx.trace()
        new = ctx.state(typed(model))
        compare(ctx, p, model, text, deep=new)
