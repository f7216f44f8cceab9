"""C18: JSON Patch never changes or shares its inputs."""
import itertools

from jschon import JSONPatch, JSONPatchOperation
from jschon.exc import JSONPatchError

import refpatch
import sizes
from gen import exact, fresh, typed
from checks.c17 import DOCS, alpha3, downwards, many, ops1

MEANING = ('states: distinct (document, result) pairs; transitions: container mutations and reference operations; traces: real patch '
           'applications whose inputs, sharing and repeatability were checked')
BOUNDS = {
    'quick': 'every single operation of C17 on 27 documents, every sequence of 2 operations over 40 on 12 documents; after each, every '
             'reachable container of result, document and patch mutated in turn; documents and values with shared containers; documents and values of 20 sizes up to 257 and 150 deep, patches of up to 129 operations',
    'thorough': 'sequences of 2 operations over 40 on 27 documents and of 3 operations over 40 on 6'}


def shared_docs():
    a = [1, 2]
    o = {'b': [0]}
    return [{'a': a, 'b': a}, [o, o], {'a': {'b': [a, a]}, 'b': {'a': a}}]


def docs():
    return shared_docs() + DOCS


def shared_values():
    a = [0]
    return [[a, a], {'x': a, 'y': {'z': a}}]


def cases(tier):
    n = len(docs())
    for d in range(n):
        yield ['one', d]
    for d in range(n if tier == 'thorough' else 12):
        for i in range(len(alpha3())):
            yield ['two', d, i]
    if tier == 'thorough':
        for d in range(6):
            for i in range(len(alpha3())):
                yield ['three', d, i]
    for d in range(6):
        yield ['sharedvalue', d]
    for n in sizes.SIZES + ([500, 1000] if tier == 'thorough' else [500]):
        yield ['size', n]
    for n in sizes.DEPTH + [100, 150]:
        yield ['depth', n]


def containers(v, out=None):
    out = [] if out is None else out
    if isinstance(v, (dict, list)):
        out.append(v)
        for x in (v.values() if isinstance(v, dict) else v):
            containers(x, out)
    return out


def mutate(c):
    if isinstance(c, list):
        c.append('MUTATED')
    else:
        c['MUTATED'] = 'MUTATED'


def judge(ctx, d, ops, raw_values=None):
    doc = docs()[d] if isinstance(d, int) else fresh(d)
    before = fresh(doc)
    dicts = [refpatch.asdict(o) for o in ops]
    if raw_values is not None:
        for dd, v in zip(dicts, raw_values):
            dd['value'] = v
    want_dicts = fresh(dicts)
    patch = JSONPatch(*dicts)
    listing = fresh(patch.aslist())
    what = f'{str(want_dicts)[:600]} on {str(before)[:300]}'
    ctx.trace()
    ctx.step(len(ops))
    try:
        want = refpatch.run(before, ops)
        ok = True
    except refpatch.Fail:
        ok = False
    try:
        result = patch.evaluate(doc)
    except JSONPatchError:
        result = None
        ctx.outcome('fails')
        ctx.check(not ok, f'{what}: failed')
        ctx.check(exact(doc, before), f'{what}: the document changed to {str(doc)[:300]} although the patch failed')
        ctx.check(exact(dicts, want_dicts) and exact(patch.aslist(), listing), f'{what}: the patch changed to {str(patch)[:300]} in failing')
        return
    if not ctx.check(ok and exact(result, want), f'{what}: gave {str(result)[:300]}'):
        return
    ctx.outcome('applies')
    ctx.state((typed(before), typed(result)))
    ctx.check(exact(doc, before), f'{what}: the document changed to {str(doc)[:300]}')
    ctx.check(exact(dicts, want_dicts) and exact(patch.aslist(), listing), f'{what}: the patch changed to {str(patch)[:300]}')
    res, src = containers(result), containers(doc)
    held = [c for op in patch for c in containers(op.value)] + [c for dd in dicts for c in containers(dd)]
    ids = [id(c) for c in res]
    ctx.check(len(set(ids)) == len(ids), f'{what}: two parts of the result are one object: {str(result)[:300]}')
    ctx.check(not set(ids) & {id(c) for c in src}, f'{what}: the result shares structure with the document')
    ctx.check(not set(ids) & {id(c) for c in held}, f'{what}: the result shares structure with the patch')
    # a second application, then every container of one party mutated: nothing else may move
    again = patch.evaluate(doc)
    ctx.check(exact(again, result), f'{what}: applied again gives {str(again)[:300]}')
    for c in res:
        mutate(c)
        ctx.step()
    ctx.check(exact(doc, before) and exact(again, want) and exact(patch.aslist(), listing), f'{what}: changing the result shows elsewhere')
    ctx.check(exact(patch.evaluate(doc), want), f'{what}: applied after changing an earlier result gives something else')
    keep = patch.evaluate(doc)
    for c in {id(c): c for c in src}.values():
        mutate(c)
        ctx.step()
    ctx.check(exact(keep, want) and exact(patch.aslist(), listing), f'{what}: changing the document shows elsewhere')
    keep2 = patch.evaluate(fresh(before))
    for c in {id(c): c for op in patch for c in containers(op.value)}.values():
        mutate(c)
        ctx.step()
    ctx.check(exact(keep, want) and exact(keep2, want), f'{what}: changing the values in the patch shows in the result')
    # a single operation applied in place may reuse the document, but never the value it holds
    if len(ops) == 1 and raw_values is None:
        op = JSONPatchOperation(**refpatch.asdict(ops[0]))
        out = op.apply(fresh(before))
        ctx.check(not {id(c) for c in containers(out)} & {id(c) for c in containers(op.value)}, f'{what}: apply() shares the value of the operation')
        oid = [id(c) for c in containers(out)]
        ctx.check(len(set(oid)) == len(oid), f'{what}: apply() makes two parts of the result one object')


def run_case(case, ctx):
    if case[0] == 'one':
        for op in ops1():
            judge(ctx, case[1], [op])
    elif case[0] == 'size':
        n = case[1]
        doc, wide = [[i] for i in range(n)], {'w': [{'x': [i]} for i in range(n)], 'o': {f'n{i}': [i] for i in range(n)}}
        for ops in [[(o, p, v)] for o in ('add', 'replace') for p in ((), ('0',), (str(n - 1),)) for v in (doc, wide)] + \
                   [[('copy', ('-',), ())], [('copy', ('0',), (str(n - 1),))], [('copy', (str(n - 1),), ('0',))], [('move', (str(n - 1),), ('0',))], [('copy', ('-',), ()), ('copy', ('0',), (str(n),))],
                    [('remove', (str(n - 1),), None)], [('test', (), doc)], [('test', (), doc), ('remove', (str(n),), None)]]:
            judge(ctx, doc, ops)
        for ops in [[('copy', ('c',), ('w',))], [('copy', ('c',), ('o',))], [('copy', ('c',), ('o', f'n{n - 1}'))], [('move', ('c',), ('w',))], [('add', ('w', '-'), wide)], [('add', ('o', 'z'), doc)]]:
            judge(ctx, wide, ops)
        for doc, ops in many(n) if n <= 129 else ():
            judge(ctx, doc, ops)
    elif case[0] == 'depth':
        for doc, ops in downwards(case[1]):
            for op in ops:
                if op[0] != 'test' and (op[0] in ('copy', 'move') or len(op[1]) < 4 or len(op[1]) > case[1] - 2):
                    judge(ctx, doc, [op])
    elif case[0] == 'two':
        al = alpha3()
        for b in al:
            judge(ctx, case[1], [al[case[2]], b])
    elif case[0] == 'three':
        al = alpha3()
        for b, c in itertools.product(al, repeat=2):
            judge(ctx, case[1], [al[case[2]], b, c])
    else:
        for i in range(2):
            for p in ((), ('a',), ('b',), ('0',)):
                for name in ('add', 'replace'):
                    v = shared_values()[i]
                    judge(ctx, case[1], [(name, p, v)], [v])
                    if name == 'add':
                        for name2, p2 in itertools.product(('add', 'copy', 'move'), (('a', '0'), ('b',), ('0', '0'), ('c',))):
                            arg = v if name2 == 'add' else p
                            ops = [(name, p, v), (name2, p2, arg)]
                            judge(ctx, case[1], ops)
                        judge(ctx, case[1], [(name, p, v), (name, p, v)], [v, v])
