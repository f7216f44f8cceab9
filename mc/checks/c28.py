"""C28: every history of registering, enabling, constructing and evaluating formats in two catalogs, and every instance type, on the real code against a model."""
import itertools
import json
import os
import subprocess
import sys

from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.vocabulary.format import format_validator

import env
import evalcheck
import sizes
from gen import fresh

MEANING = ('states: distinct (history, or configuration of format, types, instance and surrounding schema); transitions: operations on the real code (register, enable, construct, '
           'evaluate); traces: histories after each step of which every schema so far was evaluated on every instance and compared with the model')
BOUNDS = {
    'quick': 'every history of up to 4 of 12 operations (enable, register two kinds of validator, construct) over 2 catalogs and 2 formats (and of up to 3 with each of 13 ways for their names to be near to one another), and every history of up to 5 over 2 '
             'catalogs and 1 format; every set of the 6 governed types x 16 instances x 16 surrounding schemas x enabled or not in each of 2 catalogs, both drafts; every order of importing, '
             'registering, enabling and creating catalogs in a fresh interpreter; the built-in json-pointer format on every string of length at most 6 over 6 characters; 9 to 257 formats enabled in 4 ways',
    'thorough': 'as quick, with histories of up to 5 over 2 formats and up to 6 over 1'}
ASSUMPTIONS = ['the validator that counts for a schema is the one registered when it was constructed; a schema constructed before a validator for its format is registered anew may use either']

TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
INSTANCES = [None, True, False, 0, 1, -1.5, 2.0, '', 'ok', 'no', [], ['ok'], [1, 'no'], {}, {'a': 'ok'}, {'ok': 1}]
serial = 0
cats = {}


def setup(ctx):
    for n in 'ABC':
        cats[n] = create_catalog('2019-09', '2020-12', name=f'c28-{n}')


def name():
    global serial
    serial += 1
    return f'f-{serial}-q'


NEAR = [lambda a: name(), str.upper, lambda a: a + 'x', lambda a: a.replace('-', '_'), lambda a: ' ' + a, lambda a: 'x' + a, lambda a: a + ' ', lambda a: 'x-' + a, lambda a: a[:-1], lambda a: a + '-1',
        lambda a: a.replace('-', ''), lambda a: a + '\u0301', lambda a: 'https://x.org/' + a]


def related(n, how):
    """New format names; two of them are near to one another in the way given."""
    a = name()
    return [a, NEAR[how](a)][:n]


def kind(v):
    return 'null' if v is None else 'boolean' if isinstance(v, bool) else 'number' if isinstance(v, (int, float)) else 'string' if isinstance(v, str) else 'array' if isinstance(v, list) else 'object'


class Bad(ValueError):
    pass


def refusing(bad):
    """A validator that refuses the instances listed, and counts what it is asked."""
    def f(value):
        f.calls += 1
        plain = json.loads(json.dumps(value, default=lambda j: j.value))
        if any(json.dumps(plain, sort_keys=True) == json.dumps(b, sort_keys=True) for b in bad):
            raise Bad('refused')
    f.calls = 0
    return f


REFUSED = ['no', '', 0, None, False, [1, 'no'], {}]


def cases(tier):
    deep = tier == 'thorough'
    ops2 = operations(2)
    ops1 = operations(1)
    for a in range(len(ops2)):
        for b in range(len(ops2)):
            yield ['history', 2, [a, b], 5 if deep else 4, (12 * a + b) % len(NEAR)]
    for how in range(len(NEAR)):
        for a in range(len(ops2)):
            yield ['history', 2, [a], 4 if deep else 3, how]
    for a in range(len(ops1)):
        for b in range(len(ops1)):
            yield ['history', 1, [a, b], 6 if deep else 5, 0]
    for n in range(len(TYPES) + 1):
        for types in itertools.combinations(TYPES, n):
            yield ['types', list(types)]
    yield ['types', None]
    for i in range(6):
        yield ['pointer', i]
    for i in range(4):
        yield ['fresh', i]
    yield ['meta']
    yield ['api']
    for n in sizes.SIZES:
        yield ['many', n]


def operations(nf):
    ops = []
    for f in range(nf):
        ops += [('enable', c, f) for c in 'AB'] + [('register', f, k) for k in (0, 1)] + [('make', c, f) for c in 'AB']
    return ops


KINDS = [(('string',), ['no', '']), (('number', 'string'), ['ok', 0])]
HIST = ['no', 'ok', 0, 1, None, ['no']]


def history(case, ctx):
    _, nf, prefix, depth, how = case
    ops = operations(nf)
    for tail in itertools.product(range(len(ops)), repeat=depth - len(prefix)):
        seq = [ops[i] for i in (*prefix, *tail)]
        if not any(o[0] == 'make' for o in seq) or seq[-1][0] != 'make' and seq[-1] in seq[:-1]:
            continue
        ctx.trace()
        ctx.state((nf, how, tuple(seq)))
        names = related(nf, how)
        enabled, registered, made = set(), {}, []
        for op in seq:
            ctx.step()
            if op[0] == 'enable':
                cats[op[1]].enable_formats(names[op[2]])
                enabled.add((op[1], op[2]))
            elif op[0] == 'register':
                types, bad = KINDS[op[2]]
                format_validator(names[op[1]], instance_types=types)(refusing(bad))
                registered[op[1]] = op[2]
                for m in made:
                    if m[1] == op[1] and m[2] is not None:
                        m[3].add(op[2])
                    elif m[1] == op[1] and m[4]:
                        m[3].update({None, op[2]})
            else:
                c, f = op[1:]
                on = (c, f) in enabled
                use = registered.get(f) if on else None
                s = JSONSchema({'format': names[f]}, catalog=cats[c], cacheid='c28', metaschema_uri=URI(evalcheck.META['2020-12']), uri=URI('https://c28.org/s'))
                made.append((s, f, use, {use}, on))
        # every schema is evaluated at the end of every history; the prefixes are histories themselves
        for s, f, use, maybe, on in made:
            for x in HIST:
                ctx.step()
                r = s.evaluate(JSON(fresh(x)))
                ok = {m is None or kind(x) not in KINDS[m][0] or x not in [b for b in KINDS[m][1] if type(b) is type(x)] for m in maybe}
                ctx.outcome(r.valid)
                if not ctx.check(r.valid in ok, f'{seq}: a schema made when its format was {"enabled" if on else "not enabled"}, with validator {use}, evaluates {x!r} to {r.valid}', detail={'history': seq}):
                    return
                if r.valid:
                    got = [(u['keywordLocation'], u['annotation']) for u in r.output('basic')['annotations']]
                    ctx.check(got == [('/format', names[f])], f'{seq}: the annotations on {x!r} are {got}')
        for c in 'AB':
            for i, n in enumerate(names):
                ctx.check(cats[c].is_format_enabled(n) is ((c, i) in enabled), f'{seq}: is_format_enabled is wrong for {c} {i}')


# surrounding schemas: (schema with the format keyword @, how the verdict follows from the format's verdict on the instance)
def around(k):
    return [
        ({'format': k}, lambda v, i: v(i)), ({'format': k, 'type': ['string', 'number']}, lambda v, i: v(i) and kind(i) in ('string', 'number')), ({'allOf': [{'format': k}]}, lambda v, i: v(i)),
        ({'not': {'format': k}}, lambda v, i: not v(i)), ({'not': {'not': {'format': k}}}, lambda v, i: v(i)), ({'anyOf': [False, {'format': k}]}, lambda v, i: v(i)), ({'oneOf': [True, {'format': k}]}, lambda v, i: not v(i)),
        ({'if': {'format': k}, 'then': False}, lambda v, i: not v(i)), ({'if': {'format': k}, 'else': False}, lambda v, i: v(i)), ({'$ref': '#/$defs/d', '$defs': {'d': {'format': k}}}, lambda v, i: v(i)),
        ({'$defs': {'d': {'$id': 'r', 'format': k}}, '$ref': 'r'}, lambda v, i: v(i)), ({'additionalProperties': {'format': k}}, lambda v, i: not isinstance(i, dict) or all(map(v, i.values()))),
        ({'items': {'format': k}}, lambda v, i: not isinstance(i, list) or all(map(v, i))), ({'contains': {'format': k}}, lambda v, i: not isinstance(i, list) or any(map(v, i))),
        ({'propertyNames': {'format': k}}, lambda v, i: not isinstance(i, dict) or all(map(v, i))), ({'contains': {'format': k}, 'maxContains': 1, 'minContains': 0}, lambda v, i: not isinstance(i, list) or sum(map(v, i)) <= 1)]


def types(case, ctx):
    types = case[1]
    for version in ('2020-12', '2019-09'):
        for default in (True, False) if types is None else (False,):
            for ena, enb in itertools.product((False, True), repeat=2):
                k = name()
                f = refusing(REFUSED)
                deco = format_validator(k) if types is None else format_validator(k, instance_types=tuple(types))
                ctx.check(deco(f) is f, 'the decorator does not return the function')
                for c, on in (('A', ena), ('B', enb)):
                    if on:
                        cats[c].enable_formats(k)
                governed = ('string',) if types is None else types
                for c, on in (('A', ena), ('B', enb), ('C', False)):
                    def verdict(x, on=on):
                        return not on or kind(x) not in governed or not any(json.dumps(x) == json.dumps(b) for b in REFUSED)
                    for schema, rule in around(k):
                        s = JSONSchema(fresh(schema), catalog=cats[c], cacheid='c28', metaschema_uri=URI(evalcheck.META[version]), uri=URI('https://c28.org/s'))
                        for x in INSTANCES:
                            ctx.step()
                            ctx.state((version, tuple(types or ['default']), ena, enb, c, json.dumps(schema).replace(k, ''), json.dumps(x)))
                            before = f.calls
                            r = s.evaluate(JSON(fresh(x)))
                            want = rule(verdict, x)
                            ctx.outcome(want)
                            text = f'{version} types {types} enabled {[n for n, e in (("A", ena), ("B", enb)) if e]}: {json.dumps(schema)} in catalog {c} on {x!r}'
                            ctx.check(r.valid is want, f'{text} evaluates to {r.valid}, expected {want}')
                            ctx.check(on or f.calls == before, f'{text}: the validator is called')
                            if r.valid and 'format' in schema:
                                got = [u['annotation'] for u in r.output('basic')['annotations'] if u['keywordLocation'] == '/format']
                                ctx.check(got == [k], f'{text}: annotations {got}')
                            elif 'format' in schema and len(schema) == 1:
                                got = [u['keywordLocation'] for u in r.output('basic')['errors']]
                                ctx.check(got == ['/format'], f'{text}: errors {got}')
                        # another evaluation of the same schema, in another order, comes to the same
                    ctx.trace()


ALPHABET = '/~01a\n'


def pointer(case, ctx):
    cat = cats['C']
    cat.enable_formats('json-pointer')
    s = JSONSchema({'format': 'json-pointer'}, catalog=cat, cacheid='c28', metaschema_uri=URI(evalcheck.META['2020-12']))
    first = ALPHABET[case[1]]
    for n in range(0, 6):
        for t in itertools.product(ALPHABET, repeat=n):
            text = first + ''.join(t)
            want = well_formed(text)
            ctx.step()
            ctx.trace()
            ctx.outcome(want)
            got = s.evaluate(JSON(text)).valid
            ctx.check(got is want, f'json-pointer: {text!r} evaluates to {got}')
    ctx.state(first)
    for text in ['', '/é', '/\x00', '/a b', '#/a', '/\ud83d\ude00'.encode('utf-16', 'surrogatepass').decode('utf-16')] + INSTANCES:
        want = not isinstance(text, str) or well_formed(text)
        ctx.check(s.evaluate(JSON(text)).valid is want, f'json-pointer: {text!r}')


def well_formed(text):
    if text and text[0] != '/':
        return False
    i = 0
    while i < len(text):
        if text[i] == '~' and text[i + 1:i + 2] not in ('0', '1'):
            return False
        i += 1
    return True


SCRIPT = """
import sys
sys.path.insert(0, {here!r})
import env
env.install()
sys.path.insert(0, {repo!r})
from jschon import *
out = []
def register(n):
    from jschon.vocabulary.format import format_validator
    @format_validator('json-pointer', instance_types=('string', 'number'))
    def mine(v):
        if v == 'mine' or v == 7:
            raise ValueError
cats = {{}}
def create(n):
    cats[n] = create_catalog('2020-12', name='c' + n)
def enable(n):
    cats[n].enable_formats('json-pointer', 'other')
def load(n):
    import jschon.formats
def look(n):
    s = JSONSchema({{'format': 'json-pointer'}}, catalog=cats[n], metaschema_uri=URI('https://json-schema.org/draft/2020-12/schema'))
    out.append([n] + [s.evaluate(JSON(x)).valid for x in ('mine', 7, '/x', 8)])
for op, n in {ops!r}:
    globals()[op](n)
import json
print(json.dumps(out))
"""


def orders():
    """Programs for a fresh interpreter: every order of the operations in which a catalog is created before it is used."""
    for ops in itertools.permutations([('register', ''), ('create', 'a'), ('create', 'b'), ('enable', 'a'), ('load', '')]):
        if ops.index(('create', 'a')) < ops.index(('enable', 'a')):
            yield list(ops) + [('look', 'a'), ('look', 'b')]


def fresh_interpreter(case, ctx):
    for i, ops in enumerate(orders()):
        if i % 4 != case[1]:
            continue
        ctx.step(len(ops))
        ctx.trace()
        ctx.state(ops)
        p = subprocess.run([sys.executable, '-B', '-c', SCRIPT.format(here=env.HERE, repo=env.REPO, ops=ops)], capture_output=True, text=True, timeout=60, env={**os.environ, 'PYTHONHASHSEED': '0'})
        got = json.loads(p.stdout) if p.returncode == 0 else p.stderr[-300:]
        # a is enabled: the validator registered by the user counts, except that the built-in one may replace it if the user imports it afterwards
        mine, builtin = ['a', False, False, True, True], ['a', False, True, True, True]
        want = [mine] if ops.index(('load', '')) < ops.index(('register', '')) else [mine, builtin]
        ctx.outcome(got[0] == mine if isinstance(got, list) else 'error')
        ctx.check(isinstance(got, list) and got[0] in want and got[1] == ['b', True, True, True, True], f'in a fresh interpreter, {ops}: verdicts {got}, expected {want}')
    # without an explicit import of the built-in formats
    if case[1] == 0:
        for ops in itertools.permutations([('register', ''), ('create', 'a'), ('enable', 'a'), ('create', 'b')]):
            if ops.index(('create', 'a')) < ops.index(('enable', 'a')):
                ops = list(ops) + [('look', 'a'), ('look', 'b')]
                p = subprocess.run([sys.executable, '-B', '-c', SCRIPT.format(here=env.HERE, repo=env.REPO, ops=ops)], capture_output=True, text=True, timeout=60)
                got = json.loads(p.stdout) if p.returncode == 0 else p.stderr[-300:]
                ctx.step(len(ops))
                ctx.trace()
                ctx.state(ops)
                ctx.check(got == [['a', False, False, True, True], ['b', True, True, True, True]], f'in a fresh interpreter, {ops}: verdicts {got}; the registered validator refuses "mine" and 7')
        for ops in ([('create', 'a'), ('enable', 'a'), ('create', 'b'), ('look', 'a'), ('look', 'b')], [('create', 'a'), ('look', 'a'), ('enable', 'a'), ('look', 'a')]):
            p = subprocess.run([sys.executable, '-B', '-c', SCRIPT.format(here=env.HERE, repo=env.REPO, ops=ops)], capture_output=True, text=True, timeout=60)
            got = json.loads(p.stdout) if p.returncode == 0 else p.stderr[-300:]
            on, off = [False, True, True, True], [True] * 4
            want = [['a'] + on, ['b'] + off] if len(ops) == 5 else [['a'] + off, ['a'] + on]
            ctx.check(got == want, f'in a fresh interpreter, {ops}: verdicts {got}, expected {want}')


def meta(ctx):
    """Formats enabled in a catalog govern the schemas constructed afterwards, not its metaschemas constructed before."""
    for n in ('uri-reference', 'regex', 'uri'):
        format_validator(n, instance_types=TYPES)(refusing(['x', 'a', 'https://h.org/']))
    try:
        for turn in range(3):
            cat = create_catalog('2019-09', '2020-12', name='c28-m')
            other = create_catalog('2019-09', '2020-12', name='c28-n')
            if turn:
                cat.enable_formats('uri-reference', 'regex', 'uri')
            for c in (cat, other):
                for v in ('2019-09', '2020-12'):
                    for schema in ({'$id': 'x'}, {'pattern': 'a'}, {'$ref': 'x', '$defs': {'x': {'$id': 'x'}}}, {'properties': {'a': {'pattern': 'a'}}}):
                        s = JSONSchema(schema, catalog=c, cacheid='c28', uri=URI('https://h.org/b'), metaschema_uri=URI(evalcheck.META[v]))
                        ctx.step()
                        ctx.trace()
                        ctx.state((turn, v, repr(schema), c is cat))
                        ctx.check(s.validate().valid, f'{v}: a format enabled after the metaschema was constructed makes {schema} invalid')
                    s = JSONSchema({'format': 'regex'}, catalog=c, cacheid='c28', metaschema_uri=URI(evalcheck.META[v]))
                    ctx.check(s.evaluate(JSON('a')).valid is not (c is cat and turn > 0), f'{v}: format regex, enabled {turn > 0} in one of two catalogs')
    finally:
        # registered for this process only, and enabled in no other catalog
        pass


def api(ctx):
    for c in 'ABC':
        cat = cats[c]
        cat.enable_formats()
        k, m = name(), name()
        cat.enable_formats(k, m)
        for d in 'ABC':
            for n in (k, m):
                ctx.step()
                ctx.state((c, d))
                ctx.check(cats[d].is_format_enabled(n) is (c == d), f'formats enabled in {c} are {cats[d].is_format_enabled(n)} in {d}')
        ctx.check(not cat.is_format_enabled(k + 'x') and not cat.is_format_enabled(''), 'a format that was not enabled is')
    fresh_cat = create_catalog('2020-12', name='c28-late')
    ctx.check(not fresh_cat.is_format_enabled(k), 'a catalog created later has the format enabled')
    # a validator that raises a kind of ValueError, or returns something
    for exc in (ValueError('x'), UnicodeDecodeError('utf-8', b'', 0, 1, 'x'), json.JSONDecodeError('x', '', 0), ValueError()):
        for ret in (None, False, True, 0, ''):
            k = name()

            @format_validator(k)
            def f(v, exc=exc, ret=ret):
                if v == 'no':
                    raise exc
                return ret
            cats['A'].enable_formats(k)
            for spoil in ({}, {'title': 'x'}):
                s = JSONSchema({'format': k, **spoil}, catalog=cats['A'], cacheid='c28', metaschema_uri=URI(evalcheck.META['2020-12']))
                for x, want in (('no', False), ('ok', True), (1, True), ('no', False), ('ok', True)):
                    ctx.step()
                    ctx.trace()
                    r = s.evaluate(JSON(x))
                    ctx.check(r.valid is want, f'a validator that raises {exc!r} or returns {ret!r}: {x!r} evaluates to {r.valid}')
                    if want:
                        ctx.check([u['annotation'] for u in r.output('basic')['annotations'] if u['keywordLocation'] == '/format'] == [k], f'format annotation of {x!r} is missing')


def many(case, ctx):
    """n formats registered and enabled: all at once, one by one, or all but the last few."""
    n = case[1]
    for turn in range(4):
        names = [name() for _ in range(n)]
        for i, k in enumerate(names):
            format_validator(k)(refusing([f'no{i}']))
        on, off = ('A', 'B') if turn % 2 else ('B', 'A')
        enabled = set(names[:-2]) if turn == 3 else set(names)
        if turn == 0:
            cats[on].enable_formats(*names)
        elif turn == 1:
            for k in names:
                cats[on].enable_formats(k)
        else:
            cats[on].enable_formats(*names[:-2])
            if turn == 2:
                cats[on].enable_formats(*names[-2:])
        ctx.state((n, turn))
        ctx.trace()
        for i, k in enumerate(names):
            ctx.step()
            ctx.check(cats[on].is_format_enabled(k) is (k in enabled) and not cats[off].is_format_enabled(k), f'{n} formats, way {turn}: is_format_enabled is wrong for number {i}')
        for i in sorted({0, 1, n // 2, n - 3, n - 2, n - 1}):
            for c in (on, off):
                s = JSONSchema({'format': names[i]}, catalog=cats[c], cacheid='c28', metaschema_uri=URI(evalcheck.META['2020-12']))
                for x, bad in ((f'no{i}', True), (f'no{i + 1}', False), (f'no{i - 1}', False), (i, False)):
                    ctx.step()
                    want = not (bad and c == on and names[i] in enabled)
                    got = s.evaluate(JSON(x)).valid
                    ctx.outcome(got)
                    ctx.check(got is want, f'{n} formats, way {turn}: format number {i} evaluates {x!r} to {got}')
        s = JSONSchema({'properties': {k: {'format': k} for k in names}}, catalog=cats[on], cacheid='c28', metaschema_uri=URI(evalcheck.META['2020-12']))
        for i in sorted({0, 1, n // 2, n - 3, n - 2, n - 1}):
            got = s.evaluate(JSON({**dict.fromkeys(names, 'ok'), names[i]: f'no{i}'})).valid
            ctx.check(got is (names[i] not in enabled), f'{n} formats together, way {turn}: number {i} evaluates to {got}')


def run_case(case, ctx):
    {'history': history, 'types': types, 'many': many, 'pointer': pointer, 'fresh': fresh_interpreter, 'meta': lambda c, x: meta(x), 'api': lambda c, x: api(x)}[case[0]](case, ctx)
