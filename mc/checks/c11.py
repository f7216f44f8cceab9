"""C11: a JSON document stays a consistent tree under every edit history."""
import itertools

from jschon import JSON, JSONPointer

import sizes
from gen import exact, fresh, ptr_get, typed
from treecheck import diff, read

MEANING = ('states: distinct values of the model document; transitions: edits applied to the model and to the real document; '
           'traces: complete edit histories after which every node of the real document was compared with the model')
BOUNDS = {
    'quick': 'every history of 2 edits over 27-70 edits (all mutating methods, indices -4..4, nested targets, operands taken from the same '
             'document) on 5 documents under 5 patterns of interleaved reads, 2 of them with an item class of its own; of 3 such edits on 4 documents and of 4 edits over 14-16 on 2 '
             'documents, all nodes read after every edit; every single edit and pairs of edits at and around the ends of arrays and objects of 32 sizes up to 1025, and of documents nested up to 140 deep',
    'thorough': 'every history of 3 edits over the full alphabet on 5 documents under 5 read patterns; of 4 edits over 14-30 on 3 documents '
                'under 3 read patterns, of 5 on 2 documents'}


class Err(Exception):
    pass


class Tagged(JSON):
    """A document all of whose nodes are of this class and carry the same tag."""

    def __init__(self, value, *, parent=None, key=None, itemclass=None, tag):
        super().__init__(value, parent=parent, key=key, itemclass=Tagged, tag=tag)
        self.tag = tag


def tagged(node, tag):
    """None if all nodes below `node` are Tagged, else a description."""
    for n in node.data if node.type == 'array' else node.data.values() if node.type == 'object' else ():
        if type(n) is not Tagged or n.tag != tag:
            return f'{n.path} is not of the item class of the document, but {type(n).__name__}'
        bad = tagged(n, tag)
        if bad:
            return bad


# An edit is (name, target keys, args...).  Targets are located by plain navigation, not by the code under test.
def alphabet(big, kind):
    A = []
    if kind in ('array', 'mixed'):
        t = ()
        idx = [0, 1, -1, -2, 4, -4] if big else [0, -1]
        A += [('set', t, i, 'n') for i in idx]
        A += [('del', t, i) for i in idx]
        A += [('insert', t, i, ['i']) for i in idx]
        A += [('append', t, {'p': 1}), ('pop', t), ('reverse', t)]
        if big:
            A += [('pop', t, 0), ('pop', t, -2), ('pop', t, 4), ('extend', t, [[], 5]), ('iadd', t, [0]), ('clear', t),
                  ('set', t, 0, ('node', (1,))), ('append', t, ('node', ())), ('insert', t, 1, ('node', (0,))), ('set', t, -1, ('node', ())),
                  ('setslice', t), ('delslice', t), ('extendself', t), ('set', t, 'a', 1), ('insert', (0,), 0, 'deep'), ('append', (0,), 'deep'),
                  ('del', (0,), 0), ('set', (0,), -1, 'deep'), ('set', (1,), 'k', 'deep'), ('padd', t, '/0', [1]), ('premove', t, '/1'),
                  ('preplace', t, '/0/0', 'r'), ('padd', t, '/-', {})]
        else:
            A += [('append', (0,), 'deep'), ('del', (0,), 0), ('padd', t, '/1', [1]), ('premove', t, '/0'), ('set', (1,), 0, 'x')]
    if kind in ('object', 'mixed'):
        t = ()
        if kind == 'mixed':
            t = (1,)
        A += [('set', t, 'a', 'n'), ('set', t, 'z', {'q': []}), ('del', t, 'a'), ('pop', t, 'b'), ('update', t, {'a': 1, 'c': [2]})]
        if big:
            A += [('del', t, 'nope'), ('pop', t, 'nope'), ('pop', t, 'nope', 'dflt'), ('pop', t, 'a', 'dflt'), ('popitem', t), ('clear', t), ('setdefault', t, 'a', 9),
                  ('setdefault', t, 'w', [9]), ('set', t, '0', ('node', t)), ('set', t, '', ('node', t)), ('set', t, 'a', ('node', t + ('b',))),
                  ('append', t + ('a',), 3), ('set', t + ('b',), 'x', [1]), ('insert', t + ('a',), 0, {'y': 0}), ('del', t + ('a',), -1),
                  ('set', t, 0, 'bad key'), ('del', t, 0), ('append', t, 1), ('insert', t, 0, 1),
                  ('padd', t, '/a/0', 'p'), ('premove', t, '/b'), ('preplace', t, '/a', ['r']), ('padd', t, '', {'a': [0], 'b': {}})]
        else:
            A += [('append', t + ('a',), 3), ('set', t + ('b',), 'x', [1]), ('del', t + ('a',), 0), ('clear', t), ('insert', t + ('a',), 0, {'y': 0}),
                  ('premove', t, '/b/x'), ('preplace', t, '/a', ['r']), ('set', t, 'b', ('node', t))]
    return A


DOCS = [
    ('array', [['x', 'y'], {'k': [1]}, 2]),
    ('object', {'a': [1, [2]], 'b': {'x': {'y': 1}}}),
    ('mixed', [[0], {'a': ['l'], 'b': {}}]),
    ('array', []),
    ('object', {}),
]


def cases(tier):
    deep = tier == 'thorough'
    for d, (kind, _) in enumerate(DOCS):
        al = alphabet(True, kind)
        for how in range(5):
            for i in range(len(al)):
                yield ['big', d, how, [i], 2 if deep or (how == 1 and kind != 'mixed') else 1]
    for d in range(3):
        al = alphabet(False, DOCS[d][0])
        for how in (0, 1, 2) if deep else (1,):
            for i, j in itertools.product(range(len(al)), repeat=2):
                yield ['small', d, how, [i, j], 3 if deep and how == 1 and d < 2 else 2 if d < 2 else 1]
    yield ['long']
    yield ['scalars']
    for n in sizes.SIZES + sizes.LARGE + (sizes.HUGE[:5] if deep else []):
        for what in ('array', 'object'):
            yield ['size', what, n]
    for n in sizes.DEPTH + [100, 128, 140]:
        for what in ('[', '{', '[{'):
            yield ['depth', what, n]


def find(value, keys):
    for k in keys:
        try:
            value = value[k]
        except (KeyError, IndexError, TypeError):
            raise Err('no target')
        if not isinstance(value, (list, dict, JSON)):
            raise Err('scalar')
    return value


def model(doc, op):
    """Apply `op` to a fresh copy of the plain `doc`; returns (new doc, returned value) or raises Err."""
    doc = fresh(doc)
    name, t = op[0], op[1]
    c = find(doc, t)
    args = [fresh(ptr_get(doc, tuple(map(str, a[1])))) if isinstance(a, tuple) else fresh(a) for a in op[2:]]
    if any(type(a) is object for a in args):
        raise Err('no operand')
    ret = None
    try:
        if name == 'set':
            if isinstance(c, dict) and not isinstance(args[0], str):
                raise Err('key')
            c[args[0]] = args[1]
        elif name == 'del':
            if isinstance(c, dict) and not isinstance(args[0], str):
                raise Err('key')
            del c[args[0]]
        elif name == 'pop':
            ret = c.pop(*args)
        elif name in ('insert', 'append', 'extend', 'reverse', 'clear', 'update', 'setdefault'):
            ret = getattr(c, name)(*args)
        elif name == 'iadd':
            if not isinstance(c, list):
                raise Err('iadd')
            c += args[0]
        elif name == 'extendself':
            c.extend(list(c))
        elif name == 'popitem':
            if not isinstance(c, dict) or len(c) != 1:
                raise Err('skip')
            ret = c.popitem()
        elif name in ('setslice', 'delslice'):
            raise Err('slice')
        elif name in ('padd', 'premove', 'preplace'):
            import refpatch
            from checks.c14 import parse
            keys = parse(args[0])
            try:
                new = refpatch.apply(c, (name[1:], keys, args[1] if len(args) > 1 else None))
            except refpatch.Fail:
                raise Err('patch')
            if not t:
                doc = new
            else:
                holder = find(doc, t[:-1])
                holder[t[-1]] = new
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        raise Err(repr(e))
    return doc, ret


def real(root, op):
    name, t = op[0], op[1]
    c = root
    for k in t:
        c = c[k]
    args = []
    for a in op[2:]:
        if isinstance(a, tuple):
            n = root
            for k in a[1]:
                n = n[k]
            args.append(n)
        else:
            args.append(fresh(a))
    if name == 'set':
        c[args[0]] = args[1]
    elif name == 'del':
        del c[args[0]]
    elif name == 'iadd':
        c += args[0]
    elif name == 'extendself':
        c.extend(c)
    elif name == 'setslice':
        c[0:1] = [1, 2]
    elif name == 'delslice':
        del c[0:1]
    elif name in ('padd', 'preplace'):
        getattr(c, name[1:])(args[0], args[1])
    elif name == 'premove':
        c.remove(args[0])
    else:
        return getattr(c, name)(*args)


def skip(doc, op):
    """Histories the property says nothing about: no such target, operand, or an unspecified choice."""
    try:
        c = find(doc, op[1])
        for a in op[2:]:
            if isinstance(a, tuple):
                find(doc, a[1]) if a[1] and isinstance(ptr_get(doc, tuple(map(str, a[1]))), (list, dict)) else None
                v = doc
                for k in a[1]:
                    v = v[k]
    except (Err, KeyError, IndexError, TypeError):
        return True
    if op[0] == 'reverse' and isinstance(c, dict):
        return True
    return op[0] == 'popitem' and (not isinstance(c, dict) or len(c) > 1)


def play(ctx, d, how, ops):
    kind, start = DOCS[d] if isinstance(d, int) else ('', d)
    doc = fresh(start)
    root = Tagged(doc, tag=how) if how == 3 else JSON(doc, itemclass=Tagged, tag=how) if how == 2 else JSON(doc)
    held = root
    read(root, how)
    done = []
    for op in ops:
        if skip(doc, op):
            return
        done.append(op)
        ctx.step()
        try:
            want, wret = model(doc, op)
            fails = False
        except Err:
            want, wret, fails = doc, None, True
        try:
            gret = real(root, op)
            raised = None
        except Exception as e:
            raised = e
        what = f'{str(start)[:300]} after {str(done)[:600]} (reads {how})'
        if fails and raised is None:
            ctx.violation(f'{what}: the last edit was accepted, giving {root.dumps()}')
            return
        if not fails and raised is not None:
            ctx.violation(f'{what}: the last edit raised {type(raised).__name__}: {raised}')
            return
        if not fails and op[0] in ('pop', 'setdefault', 'popitem'):
            g = gret
            if op[0] == 'popitem':
                g, wret = [gret[0], gret[1].value], list(wret)
            elif isinstance(gret, JSON):
                g = gret.value
            ctx.check(exact(g, wret), f'{what}: returned {g!r}, expected {wret!r}')
        doc = want
        ctx.state(typed(doc))
        if how:
            read(root, how)
    ctx.trace()
    ctx.outcome(len(str(doc)) // 8)
    dd = diff(root, doc)
    ctx.check(dd is None and root is held, f'{str(start)[:300]} after {str(done)[:600]} (reads {how}): {dd}; expected {str(doc)[:300]}')
    if how in (2, 3):
        bad = tagged(root, how)
        ctx.check(bad is None, f'{str(start)[:300]} after {str(done)[:600]} (reads {how}): {bad}')


def sized(what, n):
    """Edits of a document with n members: all, and those worth combining."""
    t = ()
    at = sorted({0, 1, 9, 10, n // 2, n - 2, n - 1, n, n + 1, -1, -2, -n, -n - 1})
    if what == 'array':
        doc = [i if i % 3 else [i] for i in range(n)]
        some = [('insert', t, i, ['i']) for i in (0, n // 2, n - 1)] + [('del', t, i) for i in (0, n // 2, -1)] + \
            [('append', t, 'a'), ('reverse', t), ('pop', t, 1), ('padd', t, f'/{n - 1}', 'p'), ('premove', t, f'/{n - 2}'), ('set', t, n - 1, [])]
        every = some + [op for i in at for op in (('insert', t, i, 'i'), ('del', t, i), ('set', t, i, {'s': 1}), ('pop', t, i))] + \
            [op for i in at if i >= 0 for op in (('padd', t, f'/{i}', 'p'), ('premove', t, f'/{i}'), ('preplace', t, f'/{i}', [0]), ('append', (i,), 'deep'))] + \
            [('extend', t, [[i] for i in range(n)]), ('iadd', t, [1, [2]]), ('clear', t), ('pop', t), ('extendself', t), ('padd', t, '/-', 1)]
    else:
        doc = {f'n{i}': i if i % 3 else [i] for i in range(n)}
        some = [('set', t, f'n{n}', {}), ('set', t, f'n{n - 1}', 1), ('del', t, 'n0'), ('del', t, f'n{n - 1}'), ('pop', t, f'n{n // 2}'), ('update', t, {f'n{n - 1}': 's', 'z': []}),
                ('premove', t, f'/n{n - 2}'), ('padd', t, '/n1', 'p')]
        every = some + [('del', t, f'n{n}'), ('pop', t, f'n{n}'), ('clear', t), ('update', t, {f'm{i}': [i] for i in range(n)}), ('setdefault', t, f'n{n - 1}', 0),
                        ('setdefault', t, f'n{n}', [0]), ('append', ('n0',), 'deep'), ('append', (f'n{(n - 1) // 3 * 3}',), 'deep'), ('preplace', t, f'/n{n - 1}', [0]), ('preplace', t, f'/n{n}', 0)]
    return doc, every, some


def nested(what, d):
    doc, path = ['x', {'y': [1]}], ()
    for i in range(d):
        if what[i % len(what)] == '[':
            doc, path = ['b', doc], (1,) + path
        else:
            doc, path = {'a': doc, 'b': [0]}, ('a',) + path
    ops = [('append', path, ['z']), ('insert', path, 0, {}), ('del', path, 0), ('set', path, -1, 'y'), ('clear', path)]
    for k in (0, 1, d // 2, d - 1):
        p = path[:k]
        ops += [('insert', p, 0, 'i'), ('del', p, 0), ('padd', p, '/0', 'p'), ('reverse', p)] if path[k] == 1 else [('del', p, 'b'), ('set', p, 'c', 'n'), ('padd', p, '/b/0', 1)]
        ops += [('set', p, path[k], ('node', path)), ('set', p, path[k], ('node', path[:d - 1]))]
    return doc, ops


def run_case(case, ctx):
    kind = case[0]
    if kind == 'size':
        doc, every, some = sized(*case[1:])
        small = case[2] <= 33 or ctx.thorough and case[2] <= 257
        for how in (0, 1, 2) if case[2] <= 257 else (1,):
            for op in every:
                play(ctx, doc, how, [op])
            for a, b in itertools.product(every if small and how == 1 else some, some) if case[2] <= 257 else [(o, o) for o in some]:
                play(ctx, doc, how, [a, b])
        return
    if kind == 'depth':
        doc, ops = nested(*case[1:])
        for how in (0, 1, 3) if case[2] <= 33 else (1,):
            for a in ops:
                play(ctx, doc, how, [a])
                for b in ops if case[2] <= 33 else ():
                    play(ctx, doc, how, [a, b])
        return
    if kind in ('big', 'small'):
        al = alphabet(kind == 'big', DOCS[case[1]][0])
        first = [al[i] for i in case[3]]
        play(ctx, case[1], case[2], first)
        for n in range(1, case[4] + 1):
            for rest in itertools.product(al, repeat=n):
                play(ctx, case[1], case[2], first + list(rest))
    elif kind == 'long':
        # eleven and more items: decimal keys change length
        doc = [[i] for i in range(9)]
        for how in range(5):
            for a, b in itertools.product([('insert', (), 0, 'x'), ('append', (), 'y'), ('del', (), 0), ('insert', (), 10, ['z']), ('insert', (), -1, 'w'),
                                           ('extend', (), [1, 2, 3]), ('del', (), -2), ('reverse', ()), ('append', (3,), 0), ('set', (), 8, [[]])], repeat=2):
                for pre in (0, 3):
                    play(ctx, doc, how, [('append', (), [n]) for n in range(pre)] + [a, b, ('append', (), 'end')])
    else:
        for v in (None, True, False, 0, 1, 1.5, '', 'abc'):
            for op in [('append', (), 1), ('insert', (), 0, 1), ('set', (), 0, 1), ('set', (), 'a', 1), ('del', (), 0), ('del', (), 'a'), ('extend', (), [1]),
                       ('update', (), {'a': 1}), ('setdefault', (), 'a', 1), ('padd', (), '/a', 1), ('premove', (), '/a'), ('preplace', (), '/0', 1),
                       ('padd', (), '/-', 1)]:
                doc = JSON({'s': v, 't': [v]})
                for node in (doc['s'], doc['t'][0], JSON(v)):
                    ctx.step()
                    ctx.trace()
                    try:
                        real(node, op)
                    except Exception as e:
                        ctx.outcome(type(e).__name__)
                    else:
                        ctx.violation(f'{op!r} on {v!r} was accepted')
                ctx.check(diff(doc, {'s': v, 't': [v]}) is None, f'{op!r} on {v!r} changed the document')
