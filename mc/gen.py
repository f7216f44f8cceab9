"""Small, fixed families of JSON values used as alphabets."""
import itertools


def jeq(a, b):
    """JSON data model equality on plain Python values."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(jeq, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    return False


def typed(v):
    """A value that distinguishes JSON types, 1 from 1.0, and member order is dropped: for hashing."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return (type(v).__name__, repr(v))
    if isinstance(v, (list, tuple)):
        return ('a', tuple(typed(x) for x in v))
    return ('o', tuple(sorted((k, typed(x)) for k, x in v.items())))


def exact(a, b):
    """Same JSON value and the same number types (1 is not 1.0), members in any order."""
    return typed(a) == typed(b)


def fresh(v):
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [fresh(x) for x in v]
    return v


def nodes(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from nodes(x, path + (k,))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from nodes(x, path + (str(i),))


def trees(leaves, keys, depth, width):
    """Every JSON value of the given depth: leaves, arrays up to `width`, objects over subsets of `keys`."""
    if depth == 0:
        yield from leaves
        return
    sub = list(trees(leaves, keys, depth - 1, width))
    yield from leaves
    for n in range(width + 1):
        for c in itertools.product(sub, repeat=n):
            yield list(c)
    for n in range(len(keys) + 1):
        if n > width:
            break
        for ks in itertools.combinations(keys, n):
            for c in itertools.product(sub, repeat=n):
                yield dict(zip(ks, c))


INDEX_RE_DIGITS = '0123456789'


def canon_index(tok):
    """RFC 6901 array index, or None."""
    if tok == '' or any(c not in INDEX_RE_DIGITS for c in tok) or (len(tok) > 1 and tok[0] == '0'):
        return None
    return int(tok)


NOWHERE = object()


def ptr_get(doc, keys):
    """RFC 6901 evaluation on plain data: the node itself, or NOWHERE."""
    for k in keys:
        if isinstance(doc, dict):
            if k not in doc:
                return NOWHERE
            doc = doc[k]
        elif isinstance(doc, (list, tuple)):
            i = canon_index(k)
            if i is None or i >= len(doc):
                return NOWHERE
            doc = doc[i]
        else:
            return NOWHERE
    return doc
