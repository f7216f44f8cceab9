"""RFC 3986 references: parsing, resolution (section 5.2) and syntax-based normalization (section 6.2.2).
Written from the RFC; shares nothing with the code under test or the libraries it uses."""
import re

_RE = re.compile(r'^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', re.S)


def split(s):
    return _RE.match(s).groups()      # scheme, authority, path, query, fragment


def join(scheme, authority, path, query, fragment):
    r = ''
    if scheme is not None:
        r += scheme + ':'
    if authority is not None:
        r += '//' + authority
    r += path
    if query is not None:
        r += '?' + query
    if fragment is not None:
        r += '#' + fragment
    return r


def remove_dots(path):
    """RFC 3986 section 5.2.4, to the letter."""
    inp, out = path, ''
    while inp:
        if inp.startswith('../'):
            inp = inp[3:]
        elif inp.startswith('./'):
            inp = inp[2:]
        elif inp.startswith('/./'):
            inp = inp[2:]
        elif inp == '/.':
            inp = '/'
        elif inp.startswith('/../'):
            inp = inp[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp == '/..':
            inp = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp in ('.', '..'):
            inp = ''
        else:
            i = inp.find('/', 1)
            i = len(inp) if i < 0 else i
            out += inp[:i]
            inp = inp[i:]
    return out


def resolve(base, ref):
    """RFC 3986 section 5.2.2; ref is a text or its five components."""
    bs, ba, bp, bq, _ = split(base)
    s, a, p, q, f = split(ref) if isinstance(ref, str) else ref
    if s is not None:
        return join(s, a, remove_dots(p), q, f)
    if a is not None:
        return join(bs, a, remove_dots(p), q, f)
    if p == '':
        return join(bs, ba, bp, q if q is not None else bq, f)
    if p.startswith('/'):
        p = remove_dots(p)
    else:
        merged = '/' + p if ba is not None and bp == '' else bp[:bp.rfind('/') + 1] + p
        p = remove_dots(merged)
    return join(bs, ba, p, q, f)


_UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'


def _pct(s):
    def f(m):
        c = chr(int(m.group(1), 16))
        return c if c in _UNRESERVED else '%' + m.group(1).upper()
    return re.sub('%([0-9A-Fa-f]{2})', f, s)


def normalize(s):
    sc, a, p, q, f = split(s)
    if sc is not None:
        sc = sc.lower()
    if a is not None:
        user, at, host = a.rpartition('@')
        a = _pct(user) + at + _pct(host).lower()
    p = _pct(p)
    if sc is not None:
        p = remove_dots(p)
    return join(sc, a, p, None if q is None else _pct(q), None if f is None else _pct(f))


def unquote(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '%' and re.match('[0-9A-Fa-f]{2}', s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8', 'surrogatepass')
            i += 1
    return out.decode('utf-8')


def fragment_keys(fragment):
    """The keys of a JSON Pointer fragment, or None if it is not one."""
    p = unquote(fragment)
    if p == '':
        return ()
    if p[0] != '/':
        return None
    return tuple(t.replace('~1', '/').replace('~0', '~') for t in p[1:].split('/'))
