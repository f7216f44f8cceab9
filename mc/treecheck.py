"""Compares a live JSON document, node by node, with the plain value it should hold."""
import json

from jschon import JSON, JSONPointer

from gen import exact

TYPES = {type(None): 'null', bool: 'boolean', int: 'number', float: 'number', str: 'string', list: 'array', dict: 'object'}


def diff(node, want, parent=None, key=None, path=(), deep=True):
    """None if `node` is indistinguishable from a fresh document holding `want`, else a description."""
    at = f'at {JSONPointer(path)}'
    if not isinstance(node, JSON):
        return f'{at}: not a JSON node but {node!r}'
    if node.type != TYPES[type(want)]:
        return f'{at}: type is {node.type}, expected {TYPES[type(want)]}'
    if node.parent is not parent:
        return f'{at}: wrong parent'
    if node.key != key or (key is not None and type(node.key) is not str):
        return f'{at}: key is {node.key!r}, expected {key!r}'
    if tuple(node.path) != path:
        return f'{at}: path is {str(node.path)!r}'
    if not exact(node.value, want):
        return f'{at}: value is {node.value!r}, expected {want!r}'
    if isinstance(want, (list, dict, str)) and len(node) != len(want):
        return f'{at}: len is {len(node)}'
    if bool(node) != bool(want):
        return f'{at}: truth is {bool(node)}'
    if deep:
        fresh = JSON(want)
        if not (node == fresh and fresh == node and node == want) or node != fresh or node != want:
            return f'{at}: not equal to a fresh document of {want!r}'
        if not exact(json.loads(node.dumps()), want) or not exact(json.loads(str(node)), want):
            return f'{at}: serializes as {node.dumps()!r}'
        if type(node) is JSON and repr(node) != repr(fresh) and not isinstance(want, dict):
            return f'{at}: repr is {node!r}'
    if isinstance(want, list):
        items = list(node)
        if len(items) != len(want) or len(node.data) != len(want):
            return f'{at}: {len(items)} items'
        for i, (n, w) in enumerate(zip(items, want)):
            if node[i] is not n or node[i - len(want)] is not n:
                return f'{at}: item {i} is not the same node by index'
            d = diff(n, w, node, str(i), path + (str(i),), False)
            if d:
                return d
    elif isinstance(want, dict):
        if set(node) != set(want) or set(node.keys()) != set(want) or set(node.data) != set(want):
            return f'{at}: members are {list(node)!r}'
        items = dict(node.items())
        for k, w in want.items():
            if k not in node or items[k] is not node[k] or node.get(k) is not node[k]:
                return f'{at}: member {k!r} is not the same node by name'
            d = diff(node[k], w, node, k, path + (k,), False)
            if d:
                return d
    return None


def read(node, how):
    """Reads that populate whatever the implementation caches: 0 none, 1 everything, 2 leaves only, 3 the root only,
    4 containers below the root only."""
    if how == 0:
        return
    kids = list(node.data.values()) if node.type == 'object' else list(node.data) if node.type == 'array' else []
    if how == 1 or how == 3 or (how == 2 and not kids) or (how == 4 and kids and node.parent is not None):
        node.value, node.path, node.dumps()
    if how != 3:
        for k in kids:
            read(k, how)
