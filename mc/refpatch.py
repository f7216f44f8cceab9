"""Reference model of RFC 6902 on plain data: boring, purely functional."""
from gen import NOWHERE, canon_index, fresh, jeq, ptr_get


class Fail(Exception):
    pass


def _put(doc, keys, fn):
    """Rebuild `doc` with fn(container, last key) applied to the parent of `keys`."""
    if len(keys) == 1:
        return fn(doc, keys[0])
    k = keys[0]
    child = ptr_get(doc, (k,))
    if child is NOWHERE:
        raise Fail(f'no parent {k!r}')
    new = _put(child, keys[1:], fn)
    if isinstance(doc, dict):
        return {**doc, k: new}
    return [new if i == int(k) else x for i, x in enumerate(doc)]


def add(doc, keys, value):
    def at(c, k):
        if isinstance(c, dict):
            return {**c, k: value}
        if isinstance(c, list):
            i = len(c) if k == '-' else canon_index(k)
            if i is None or i > len(c):
                raise Fail('bad index')
            return c[:i] + [value] + c[i:]
        raise Fail('scalar parent')
    return value if not keys else _put(doc, keys, at)


def remove(doc, keys):
    def at(c, k):
        if ptr_get(c, (k,)) is NOWHERE:
            raise Fail('no target')
        if isinstance(c, dict):
            return {n: v for n, v in c.items() if n != k}
        return c[:int(k)] + c[int(k) + 1:]
    return None if not keys else _put(doc, keys, at)


def replace(doc, keys, value):
    def at(c, k):
        if ptr_get(c, (k,)) is NOWHERE:
            raise Fail('no target')
        if isinstance(c, dict):
            return {n: value if n == k else v for n, v in c.items()}
        return c[:int(k)] + [value] + c[int(k) + 1:]
    return value if not keys else _put(doc, keys, at)


def apply(doc, op):
    """op: (name, path keys, value or from keys)"""
    name, keys, arg = op
    if name == 'add':
        return add(doc, keys, arg)
    if name == 'remove':
        return remove(doc, keys)
    if name == 'replace':
        return replace(doc, keys, arg)
    if name == 'test':
        v = ptr_get(doc, keys)
        if v is NOWHERE or not jeq(v, arg):
            raise Fail('test')
        return doc
    v = ptr_get(doc, arg)
    if v is NOWHERE:
        raise Fail('from')
    if name == 'copy':
        return add(doc, keys, v)
    if len(arg) < len(keys) and keys[:len(arg)] == arg:
        raise Fail('into itself')
    return add(remove(doc, arg), keys, v)


def run(doc, ops):
    for op in ops:
        doc = apply(doc, op)
    return fresh(doc)


def text(keys):
    return ''.join('/' + k.replace('~', '~0').replace('/', '~1') for k in keys)


def asdict(op):
    name, keys, arg = op
    d = {'op': name, 'path': text(keys)}
    if name in ('add', 'replace', 'test'):
        d['value'] = fresh(arg)
    elif name in ('move', 'copy'):
        d['from'] = text(arg)
    return d
