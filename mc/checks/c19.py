"""C19: in-place JSON edits agree with JSON Patch and fail without effect."""
import itertools

from jschon import JSON, JSONPatch, JSONPointer
from jschon.exc import JSONError, JSONPatchError

import refpatch
import sizes
from checks.c17 import at_ends, downwards
from gen import fresh, nodes, ptr_get, typed
from treecheck import diff, read

MEANING = ('states: distinct documents reached by the reference model; transitions: in-place operations; traces: complete histories '
           'of the real document compared, node by node, with the reference and with the real JSON Patch')
BOUNDS = {
    'quick': 'every single operation over 27 pointers and 9 values from every node of 16 documents; every history of 2 operations over '
             'about 60 (root and inner start nodes) on 10 documents; of 3 over 20 on 6; 3 read patterns; every operation at and around the ends of documents of 22 sizes up to 1001, and up to 150 deep',
    'thorough': 'histories of 3 operations over about 60 on 10 documents, and of 4 over 20 on 6'}
DOCS = [
    {'a': [1, 2], 'b': {'a': None}}, [[1], {'a': 2}], {'a': {'b': [0]}}, [1, 2], {'': [''], '0': {'-': 1}}, [[[]]],
    {'~/': [1], '~1': {'~': 2}}, {'a': 'xyz', 'b': [False, 0]}, [], {}, list(range(11)), [[0], [1, [2]]], 'str', None, 1, True,
]
PATHS = ['', '/a', '/a/0', '/a/1', '/a/2', '/a/-', '/a/3', '/a/b', '/0', '/1', '/-', '/b', '/b/a', '/a/b/0', '/a/00', '/a/-1', '/0/+1', '/ 1',
         '/1_0', '/\u0661', '/', '/~0~1', '/10', '/1\u0660', '/1\n', '/a/0\n', '/0/0/0']
VALUES = [None, 1, 1.0, 'x', [], {}, [[1]], {'b': [0]}, False]
P2 = ['', '/a', '/a/0', '/a/-', '/0', '/1', '/-', '/0/0', '/b', '/01']
STARTS2 = [(), ('a',), ('0',)]
P3 = ['/a', '/0', '/-', '']


def keys_of(p):
    return tuple(JSONPointer(p))


def alphabet(paths, values, starts):
    out = []
    for s in starts:
        for p in paths:
            out.append((s, 'remove', p, None))
            for v in values:
                out.append((s, 'add', p, v))
            out.append((s, 'replace', p, values[-1]))
    return out


def alpha2():
    return alphabet(P2, [7, [{'a': [1]}]], STARTS2[:2]) + alphabet(P2[:4], [[8]], STARTS2[2:])


def alpha3():
    return alphabet(P3, [[7, {}]], [(), ('0',)])[:20]


def cases(tier):
    deep = tier == 'thorough'
    for d in range(len(DOCS)):
        for how in (0, 1, 2):
            yield ['one', d, how]
    for d in range(10):
        for how in (0, 1, 2):
            for i in range(len(alpha2())):
                yield ['two', d, how, i, 2 if deep else 1]
    for d in range(6):
        for how in (0, 1, 2):
            for i in range(len(alpha3())):
                yield ['three', d, how, i, 3 if deep else 2]
    for n in sizes.SIZES + (sizes.LARGE if deep else [512, 1001]):
        yield ['size', n, 1]
    for n in sizes.DEPTH + [100, 150]:
        yield ['depth', n, 1]


def play(ctx, d, how, ops):
    start_doc = DOCS[d] if isinstance(d, int) else d
    doc = fresh(start_doc)
    root = JSON(fresh(doc))
    read(root, how)
    done = []
    for start, name, ptr, value in ops:
        sub = ptr_get(doc, start)
        if type(sub) is object:
            return
        node = root
        for k in start:
            node = node[int(k)] if node.type == 'array' else node[k]
        done.append((str(JSONPointer(start)), name, ptr, value))
        what = f'{str(start_doc)[:300]} after {str(done)[:600]} (reads {how})'
        ctx.step()
        op = (name, keys_of(ptr), value)
        try:
            new = refpatch.run(sub, [op])
            ok = True
        except refpatch.Fail:
            ok = False
        # the real JSON Patch must say the same as the reference
        try:
            viapatch = JSONPatch(refpatch.asdict(op)).evaluate(fresh(sub))
            ctx.check(ok and typed(viapatch) == typed(new), f'{what}: JSON Patch gives {str(viapatch)[:300]}')
        except JSONPatchError:
            ctx.check(not ok, f'{what}: JSON Patch fails')
        arg = ptr if len(done) % 2 else JSONPointer(ptr)
        val = fresh(value) if len(done) % 2 else JSON(fresh(value))
        try:
            if name == 'remove':
                node.remove(arg)
            else:
                getattr(node, name)(arg, val)
            raised = None
        except Exception as e:
            raised = e
        if ok:
            if not ctx.check(raised is None, f'{what}: raised {type(raised).__name__}: {raised}'):
                return
            doc = refpatch.replace(doc, start, new)
            ctx.outcome('done')
        else:
            ctx.outcome('fails')
            if not ctx.check(raised is not None, f'{what}: was accepted, giving {root.dumps()}'):
                return
            if not ctx.check(isinstance(raised, JSONError), f'{what}: raised {type(raised).__name__}: {raised}, not JSONError'):
                return
        ctx.state(typed(doc))
        # the node a caller holds must still be the one at its place
        n2 = root
        for k in start:
            n2 = n2[int(k)] if n2.type == 'array' else n2[k]
        ctx.check(n2 is node, f'{what}: the start node was replaced by another object')
        if isinstance(val, JSON) and name != 'remove':
            ctx.check(val.parent is None and typed(val.value) == typed(value), f'{what}: the operand was captured or changed')
        if how:
            read(root, how)
    ctx.trace()
    dd = diff(root, doc)
    ctx.check(dd is None, f'{str(start_doc)[:300]} after {str(done)[:600]} (reads {how}): {dd}; expected {str(doc)[:300]}')


def run_case(case, ctx):
    kind, d, how = case[:3]
    if kind in ('size', 'depth'):
        for doc, ops in (at_ends if kind == 'size' else downwards)(d):
            for name, p, v in ops:
                if name in ('add', 'remove', 'replace'):
                    play(ctx, doc, how, [((), name, refpatch.text(p), v)])
                    if kind == 'depth' and len(p) > 1:
                        for cut in {1, len(p) - 1}:
                            play(ctx, doc, how, [(p[:cut], name, refpatch.text(p[cut:]), v)])
                    elif isinstance(doc, list) and d <= 65:
                        play(ctx, doc, 0, [((), name, refpatch.text(p), v), ((), 'remove', '/0', None), ((), 'add', f'/{d - 1}', [0])])
        return
    if kind == 'one':
        for start, _ in nodes(DOCS[d]):
            for op in alphabet(PATHS, VALUES, [start]):
                play(ctx, d, how, [op])
        return
    al = alpha2() if kind == 'two' else alpha3()
    for rest in itertools.product(al, repeat=case[4]):
        play(ctx, d, how, [al[case[3]]] + list(rest))
