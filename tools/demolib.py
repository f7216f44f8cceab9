"""Shared by the demonstrations: jschon with the published metaschemas (beside this file) instead of the
empty submodules."""
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'metaschemas.json'), encoding='utf-8') as f:
    DOCS = json.load(f)

import jschon                                                                # noqa: E402
from jschon import JSON, URI, JSONSchema, LocalSource, create_catalog        # noqa: E402

_call = LocalSource.__call__


def _local(self, relative_path):
    d = os.path.basename(str(self.base_dir))
    if d.startswith('json-schema-'):
        doc = DOCS.get(d[len('json-schema-'):] + '/' + relative_path)
        if doc is not None:
            return json.loads(json.dumps(doc))
    return _call(self, relative_path)


LocalSource.__call__ = _local
M19 = URI('https://json-schema.org/draft/2019-09/schema')
M20 = URI('https://json-schema.org/draft/2020-12/schema')
_n = 0


def catalog(name='catalog'):
    return create_catalog('2019-09', '2020-12', name=name)


def schema(value, cat='catalog', meta=M20, **kw):
    return JSONSchema(value, catalog=cat, metaschema_uri=meta, **kw)


def valid(value, instance, cat='catalog', meta=M20):
    return schema(value, cat, meta).evaluate(JSON(instance)).valid


def check(cond, what):
    if not cond:
        print('FAILED:', what)
        sys.exit(1)


def interleave(make, file, second=False):
    """Run the two jobs make() returns in two threads, in every order in which the first is suspended at one line of
    `file`, and (if `second`) the second at one line while the first goes to its end.  Yields both results."""
    import threading
    k = m = 0
    while True:
        k += 1
        m = 0
        while True:
            m += 1
            jobs = make()
            out, hit = [None, None], [False, False]
            parked, go = threading.Event(), threading.Event()
            count = [0, 0]

            def point(i):
                count[i] += 1
                if i == 0 and count[0] == k:
                    hit[0] = True
                    t.start()
                    parked.wait(10)
                elif i == 1 and second and count[1] == m:
                    hit[1] = True
                    parked.set()
                    go.wait(10)

            def body(i):
                def local(frame, event, arg):
                    if event == 'line':
                        point(i)
                    return local
                sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.endswith(file) else None)
                try:
                    out[i] = jobs[i]()
                except Exception as e:
                    out[i] = e
                finally:
                    sys.settrace(None)
                    if i == 1:
                        parked.set()

            t = threading.Thread(target=body, args=(1,))
            body(0)
            go.set()
            if not hit[0]:
                return
            t.join(10)
            yield out
            if not hit[1]:
                break
