"""Development tool: writes /verif/DESIGN.md from the text here, the bounds in the checks, the planted bugs and the findings."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'mc'))
import env                                                                  # noqa: E402
env.install()
sys.path.insert(0, HERE)

HEAD = '''# Model checking jschon

## What is here

`properties.jsonl` states what a user of jschon relies on; one check per property decides it by exhaustive exploration of a
bounded space of behaviours of the real code in /repo (never of a copy, never sampled).

| part | what it does |
|---|---|
| `mc/run.py`, `mc/core.py` | runner: enumerates a check's cases in a fixed order, shards them over 8 processes, gives each a CPU limit (120 s), merges measured counts, applies `KNOWN_FINDINGS.txt`, writes `evidence/<id>.json` and a replay file, sets the exit status |
| `mc/replay.py` | re-runs the single case of a replay file |
| `mc/env.py` | puts /repo first on the path, keeps bytecode out of it, and supplies the metaschema documents (empty git submodules in /repo) from `mc/metaschemas` |
| `mc/refeval.py` | reference evaluator for both drafts, written from the specifications: verdict, annotations, every keyword application by evaluation path and instance path |
| `mc/refuri.py`, `mc/refpatch.py`, `mc/gen.py`, `mc/treecheck.py` | reference models of RFC 3986, RFC 6902, of JSON values and of a consistent document tree |
| `mc/evalcheck.py`, `mc/corpus.py` | catalogs under test, and the grammar of schemas the evaluator checks share |
| `mc/sched.py` | controlled scheduler: one runnable thread at a time, control passes exactly at the points a schedule names |
| `mc/checks/cNN.py` | one check each |
| `tools/` | development only: the planted bugs (`bugs.py`) and their confirmation (`plant.py`), this file's generator |

## The method

jschon is a sequential library (with one concurrent use, C29), so its behaviours are: programs (schemas) run on inputs
(instances); histories of operations on mutable objects (documents, patches, catalogs, caches); faults at any point of a
construction; and interleavings of threads. Each check takes the space that its property quantifies over, bounds it (size of
schema, length of history, number of faults or preemptions), and visits *every* element of the bounded space. The specification is an
executable model (a reference evaluator, a nested dictionary, a plain list, a grammar) that shares no code with jschon, and
every model behaviour is replayed on the implementation: the number of `traces_validated_against_impl` in the evidence is the number of
complete behaviours after which the real code and the model were compared in full. The model therefore cannot drift from the code: there is no
exploration of the model that is not also an exploration of the code.

The reference evaluator was itself checked against a third, independent implementation: `tools/crosscheck.py` runs the spaces of C01-C04 through the `jsonschema` package of
python3-vt instead of jschon. On every 7th case of C01-C04 (about 390 000 evaluations) the only disagreements are jsonschema's own (floating-point `multipleOf`; 2019-09 `unevaluatedProperties` beside
or above `additionalProperties`, where it does not count additional properties as evaluated); on 2020-12 there are none. No check uses it: the deciding oracle is in /verif.

Why this reaches what the tests cannot: the upstream tests sample (a suite of examples, and hypothesis with a few hundred draws; in this sandbox the
evaluator tests do not run at all because the submodules are empty). The properties quantify over all nestings, histories, fault points and schedules; bugs of the kind
planted below need *combinations* (two keywords, a second edit after a particular read, a failure between two steps) which a bounded exhaustive search reaches by
construction, because the bound covers every pair or triple of features.

Determinism: hash seeds are fixed, cases are enumerated in a fixed order, no randomness is used (VERIF_SEED is only recorded). Containment: checks that
touch files or the network (C12, C22, C23) do so in a temporary directory they create, with `open` recorded and HTTP on the loopback or replaced by a recorder.

## Properties

'''

TEXT = {
'C01': ('schemas with one assertion keyword (and pairs of them) x instances at and around every boundary of its value', 'refeval, exact rational arithmetic', 'off-by-one, type-confusion (1/1.0/true) and float-rounding errors appear only for particular pairs of value and instance; all pairs are run'),
'C02': ('all nestings of the in-place applicators over leaves that realise every truth combination', 'refeval (a truth table)', 'the outcome depends on the passing of results through the tree; all small trees are run with all truth combinations'),
'C03': ('all combinations of sibling child applicators x all small arrays and objects', 'refeval', 'sibling keywords communicate by annotations; each subset of siblings and each split of the children occurs'),
'C04': ('all in-place applicators to depth 2 (3) below/beside unevaluated*, with references', 'refeval annotation collection', 'unevaluated* sees everything below it; every combination of success and failure of the branches occurs'),
'C05': ('all arrangements of $id, anchors and nesting; for each, all spellings of references computed from the reference URI resolver', 'refuri plus a location index of the document', 'the designated schema depends on the interaction of base URI, spelling, and cache order'),
'C06': ('all arrangements of dynamic, static or no anchors over 3-4 resources; all reference chains through them; every entry', 'refeval dynamic scope', 'the target depends on the whole history of the evaluation path'),
'C07': ('all permutations of keywords; all histories of constructions, evaluations and cache operations, each followed by fixed evaluations compared with a fresh catalog; schema and instance compared before and after', 'the same evaluation in isolation', 'order- and history-dependence needs a particular prefix; all prefixes up to the bound are run'),
'C08': ('schema grammar with every subschema annotated; annotations by location and value from collection and from outputs', 'refeval annotations', 'annotations must be dropped along any failed ancestor, at any depth'),
'C09': ('as C08, with references and nested resources and awkward names; every unit of every format', 'refeval applications with locations; the absolute location is dereferenced through the catalog and on the raw document', 'locations are built incrementally along references'),
'C10': ('as C08; five formats produced in two orders from one result', 'independent functions from the result tree to each format\'s set of units', 'formats prune the tree differently'),
'C11': ('all histories of edits x read patterns (which fill caches) on a document', 'the same history on plain Python values, and a tree freshly built from it', 'cached paths and values must be invalidated by each kind of edit at each distance; needs read-edit-read sequences'),
'C12': ('all code points, boundary numbers, all small values through all routes and locales', 'the value itself, typed', 'a single character or number may be lossy'),
'C13': ('all pairs and triples of a family of nearly equal values, wrapped, plain and edited', 'equality of JSON values, exact', 'equivalence-relation laws quantify over pairs and triples'),
'C14': ('all strings and key sequences up to a length over the critical characters; all operator programs', 'RFC 6901 grammar as an automaton', 'all strings over the critical alphabet up to length 6 distinguish any two small grammars'),
'C15': ('all key sequences over tricky tokens on all small trees', 'direct RFC 6901 evaluation', ''),
'C16': ('all strings up to a length; all up/over/tail combinations from every node', 'direct evaluation of the draft', ''),
'C17': ('all operations and all sequences of 2-3 (4) operations on a family of documents', 'refpatch', 'the effect of an operation depends on what the earlier ones left'),
'C18': ('as C17; afterwards every container reachable from result, document and patch is mutated in turn and the others compared', 'values before', 'sharing is only visible through a later mutation of one particular container'),
'C19': ('all histories of add/remove/replace from every node with every pointer, x read patterns', 'JSONPatch itself and refpatch; treecheck', ''),
'C20': ('all histories of sequence edits against a list; all pairs of operations for equality', 'a Python list; JSON equality of the operation\'s data', ''),
'C21': ('all combinations of URI components as reference and base; all pairs of spellings', 'refuri (RFC 3986 section 5, verbatim)', ''),
'C22': ('all histories of source registrations; every failure of a source', 'longest-prefix table', ''),
'C23': ('all relative paths over hostile segments, by every way of asking; files opened are recorded by an audit hook, in a scratch directory', 'lexical normalisation', 'containment must hold for every spelling'),
'C24': ('all histories of cache operations over two catalogs, several caches and URIs in several spellings', 'nested dictionaries', 'leaks show only several operations later'),
'C25': ('document graphs x one or two faults at every load, every keyword constructor and resolver, every stack depth; then retry, repair, retry', 'the state of the catalog before; the result in a fresh catalog after the repair', 'crash points cannot be reached by tests without injection'),
'C26': ('all vocabulary declarations; all nestings of dialects; all creation orders of metaschemas', 'refeval with a per-dialect keyword table', ''),
'C27': ('each keyword x each JSON value form x each subschema position; pairs; derived metaschemas', 'refeval run on the published metaschema documents', ''),
'C28': ('all histories of registering, enabling, constructing over two catalogs; type sets x instances x surroundings; import orders in fresh interpreters', 'a model of two sets and a table', ''),
'C29': ('all schedules of 2-3 threads up to a preemption bound at line, call and bytecode granularity on the real code; for 2 preemptions the second level is reduced to points next to changes of shared state, found by observing the real run '
        '(other points commute: between two of them nothing the threads share has changed)', 'the complete result of the same evaluation alone', 'a race needs one particular preemption point; all are tried'),
'C30': ('each subschema position x $id x anchor x outer schema x way of obtaining the schema; every order of 5 keywords; nesting to depth 3; awkward names; every node examined, before and after evaluation',
        'the source value, and an independent walk that computes base URI, resource and location of each schema', 'a wrong parent, base or root shows only for one position, order or way of construction'),
'C31': ('programs of up to 3 result operations for one custom keyword, pairs and triples of programs for dependent, sibling and nested ones; all acyclic dependency graphs on 4 keywords x orders x subsets; all type sets; all mixin combinations',
        'a model of the result tree of 100 lines', 'built-in keywords use a handful of the combinations the extension interface allows'),
'C32': ('applicators over 10 leaves plain and behind references, depth 2 over 3 leaves, pairs of 30 keywords at the root and below 8 applicators, every subset of up to 3 of 18 failing assertions; 22 to 34 instances each',
        'the failing applications recorded by the reference evaluator, filtered by their enclosing applications', 'an error lost or invented in one combination of siblings leaves the verdict right, which is all that is ever tested'),
'C33': ('every sequence of versions up to 3, with unknown ones; every ordered pair of selections in two catalogs; every keyword in each dialect, chosen in four ways', 'refeval per dialect', 'interference between dialects or catalogs shows only for one order of creation and one keyword'),
}

TAIL = open(os.path.join(HERE, 'design_tail.md')).read()


def main():
    from bugs import BUGS
    out = [HEAD]
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        m = importlib.import_module(f'checks.{i.lower()}')
        b = m.BOUNDS if isinstance(m.BOUNDS, dict) else {'quick': m.BOUNDS, 'thorough': m.BOUNDS}
        what, oracle, why = TEXT[i]
        out.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n\n* **Enumerated**: {what}.\n* **Oracle**: {oracle}.\n')
        if why:
            out.append(f'* **Beyond the tests**: {why}.\n')
        out.append(f'* **Bounds, quick**: {b["quick"]}.\n* **Bounds, thorough**: {b["thorough"]}.\n')
        for a in getattr(m, 'ASSUMPTIONS', []):
            out.append(f'* **Assumes**: {a}.\n')
        cost = COST.get(i, {})
        if cost:
            out.append('* **Cost** (8 cores): ' + '; '.join(f'{t} {c}' for t, c in cost.items()) + '.\n')
        mine = [x['id'] for x in BUGS if x['property'] == i]
        out.append('* **Planted bugs caught**: ' + (', '.join(mine) or 'none yet') + '.\n\n')
    out.append('No property is in `not_applicable`: each is decided by exhaustive exploration within its bounds.\n\n## Defects found in jschon\n\n'
               'Repaired (one `fix:` commit each in /repo):\n\n')
    known = []
    for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        if line.startswith('fixed: '):
            _, p, c, what = line.strip().split(' ', 3)
            out.append(f'* {p.split("=")[1]} ({c}): {what}\n')
        elif line.startswith('known: '):
            _, p, k, what = line.strip().split(' ', 3)
            known.append(f'* {p.split("=")[1]} `{k[4:]}`: {what}\n')
    out.append('\nRecorded, not repaired (printed as KNOWN-FINDING):\n\n' + ''.join(known))
    out.append('\n' + TAIL + '\n## Planted bugs\n\nAll are confirmed: they apply to /repo\'s HEAD, pass the stable tests, and their demonstration tells them apart.\n\n| bug | check | needs | result |\n|---|---|---|---|\n')
    for b in BUGS:
        out.append(f'| {b["id"]} | {b["property"]} | {b["needs"]} | {"missed" if b["id"] in MISSED else "caught"} |\n')
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))


try:
    COST = json.load(open(os.path.join(HERE, 'cost.json')))
except FileNotFoundError:
    COST = {}
MISSED = set()
main()
