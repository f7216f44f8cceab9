import json
SCH=['jschon/jsonschema.py','jschon/vocabulary/__init__.py']
def P(id,title,statement,over,text,why,files,mech,state=None):
    a={'files':files,'mechanism':[dict(name=m.strip(),where=', '.join(files)) for m in mech.split(';')]}
    if state: a['state']=[{'name':n,'meaning':m,'where':files[0]} for n,m in state]
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a)
NOSCHEMA="The 184 stable tests construct no schema at all (the metaschema submodules are empty); the unrunnable remainder samples a few hand-written schemas."
props=[
P('C01','Assertion keywords accept exactly the instances the specification says',
 "For every assertion keyword (type, enum, const, multipleOf, the numeric bounds, the length/item/property-count bounds, pattern, uniqueItems, required, dependentRequired) with a well-formed value, in each supported dialect, evaluating any JSON instance yields valid exactly when the JSON Schema specification says so; instances of a type the keyword does not govern are always accepted. The verdict is exact for every finite number: integers of any size, floats, and 1.0 versus 1 versus true.",
 ['inputs'],'every assertion keyword value and every JSON instance, in dialects 2019-09, 2020-12 and next',
 NOSCHEMA,['jschon/vocabulary/validation.py','jschon/jsonschema.py','jschon/json.py'],
 'one class per keyword, dispatched on the instance type'),
P('C02','Boolean and conditional applicators compose correctly at any depth',
 "The verdict of a schema built from allOf, anyOf, oneOf, not, if/then/else, dependentSchemas, boolean schemas and assertions, nested in any way, equals the logical combination the specification prescribes. An if subschema never affects the verdict by itself, then and else are ignored without if, and an empty schema accepts everything.",
 ['inputs','programs'],'every nesting of the in-place applicators over any leaf assertions, and every instance',
 NOSCHEMA,['jschon/vocabulary/applicator.py']+SCH,'result tree: fail/pass_/noassert/discard and sibling lookup by instance path'),
P('C03','Array and object applicators apply each subschema to exactly the right children',
 "properties, patternProperties, additionalProperties, propertyNames, prefixItems, items, additionalItems (2019-09), contains, minContains and maxContains each apply their subschemas to exactly the array items or object members (or member names) the dialect prescribes, in every combination of sibling keywords, so that the verdict of the schema matches the specification for every instance.",
 ['inputs','programs'],'every combination of sibling child applicators and every array or object instance',
 NOSCHEMA,['jschon/vocabulary/applicator.py','jschon/vocabulary/legacy.py','jschon/vocabulary/validation.py'],
 'annotations and sibling results passed between keywords in dependency order'),
P('C04','unevaluatedItems and unevaluatedProperties see exactly what was evaluated',
 "unevaluatedProperties and unevaluatedItems apply to exactly those members or items of the instance that no adjacent keyword, and no subschema applied in place at any depth (including through references) whose evaluation succeeded, has evaluated. A subschema that failed, or was negated, contributes nothing.",
 ['inputs','programs'],'every nesting of applicators beside an unevaluated keyword in 2019-09 and 2020-12, and every instance',
 NOSCHEMA,['jschon/vocabulary/applicator.py','jschon/vocabulary/legacy.py','jschon/jsonschema.py'],
 'annotation collection over the result subtree'),
P('C05','Static references resolve to exactly the designated schema',
 "In a document of arbitrarily nested schemas with absolute or relative $id, $anchor, $dynamicAnchor and $defs, every $ref (relative, absolute, JSON Pointer fragment in any equivalent encoding, anchor, recursive, cross-document) evaluates with exactly the schema that RFC 3986 resolution against the nearest enclosing base URI designates. The same holds when a (sub)schema is asked for by URI from the catalog, and a reference that designates no schema is reported as an error at construction.",
 ['inputs','programs'],'every arrangement of identifiers, anchors and references in one or several documents',
 NOSCHEMA,['jschon/vocabulary/core.py','jschon/jsonschema.py','jschon/catalog/__init__.py','jschon/uri.py'],
 'base_uri lookup, schema cache keyed by URI, reference resolution after the whole document is built'),
P('C06','Dynamic and recursive references resolve through the dynamic scope',
 "$dynamicRef (2020-12) and $recursiveRef (2019-09) resolve statically first, and, only if the initial target carries the matching dynamic anchor, re-target to the outermost schema resource in the dynamic scope that declares it; otherwise they behave exactly as $ref. This holds for every chain of references, every entry point and every instance depth.",
 ['inputs','programs'],'every arrangement of schema resources, dynamic anchors and reference chains, every entry schema, every instance',
 NOSCHEMA,['jschon/vocabulary/core.py','jschon/vocabulary/legacy.py','jschon/jsonschema.py'],
 'walk up the result tree looking up the anchor in each resource on the path'),
P('C07','Evaluation is a pure, repeatable function of schema and instance',
 "The result of evaluating an instance does not depend on the order in which keywords or object members are written, on what the same or other schemas were evaluated against before, or on unrelated schemas being created, loaded or dropped in between. Evaluation changes neither the schema nor the instance, and re-evaluating yields the same complete result.",
 ['histories','programs'],'every history of schema constructions, evaluations and cache operations; every permutation of keywords and members',
 'Tests evaluate each schema once, in one written order; none interleaves evaluations.',
 ['jschon/jsonschema.py','jschon/vocabulary/__init__.py','jschon/vocabulary/applicator.py','jschon/vocabulary/core.py','jschon/json.py'],
 'keyword dependency ordering; per-evaluation result tree; cached properties',
 [('schema.keywords','ordered keyword objects, must stay constant'),('Result.children','per-evaluation state')]),
P('C08','Annotations come from exactly the successful parts of an evaluation',
 "The annotations collected from a successful evaluation are exactly those the specification prescribes: one per annotation-producing keyword application whose schema object and every enclosing subschema application succeeded, with the prescribed value. Annotations below a failed, negated or untaken subschema are never reported, whether collected directly or listed by the basic, detailed or hierarchical output of a successful evaluation; unknown keywords annotate with their own value.",
 ['inputs','programs'],'every nesting of annotating keywords under applicators, and every instance',
 NOSCHEMA,['jschon/jsonschema.py','jschon/vocabulary/annotation.py','jschon/vocabulary/applicator.py','jschon/output.py'],
 'Result.annotate / collect_annotations / output formatters'),
P('C09','Every output unit names the true instance, evaluation path and schema location',
 "In every output format, each unit's instance location identifies the evaluated part of the instance, its keyword location is the dynamic path from the root schema through references to the keyword, and its absolute location, dereferenced on its own, designates the very keyword or schema reached by following that path. This holds for any key characters, nested identifiers and reference chains.",
 ['inputs','programs'],'every schema with embedded resources, references and awkward keys, every instance, every output format',
 NOSCHEMA,['jschon/output.py','jschon/jsonschema.py','jschon/jsonpointer.py'],
 'Result.path, relpath, absolute_uri; canonical_uri'),
P('C10','All output formats agree with the verdict and with one another',
 "The flag, basic, detailed, verbose and hierarchical outputs of one evaluation all report the same verdict as the evaluation; at each level a successful unit carries no error and a failed one no annotation. Basic lists exactly the messages of the nodes that, with everything enclosing them, share the overall verdict (restricting the annotations it lists hides no error), detailed keeps every such leaf message, verbose mirrors the complete result tree, hierarchical lists the schemas among those nodes under their locations, every failed evaluation yields at least one error location in every format that lists errors, and every output is plain JSON data.",
 ['inputs','programs'],'every schema, instance and output format',
 NOSCHEMA,['jschon/output.py','jschon/jsonschema.py'],'formatters walk the result tree'),
P('C11','A JSON document stays a consistent tree under every edit history',
 "After any sequence of edits through the sequence, mapping and patch-style methods of a JSON document, at any depth and interleaved with any reads, the document is indistinguishable from one freshly built from the same value: same value, serialization, equality, length, and for every node the same type, parent, key, path and item class. A single edit that raises an error leaves the document unchanged.",
 ['histories'],'every sequence of edits and reads on every document, with positive, negative and out-of-range indices',
 'Property tests apply one round of in-range edits per document; negative indices, pop/clear/reverse/extend and edit-after-edit cache staleness are never reached.',
 ['jschon/json.py'],'parent/key links, renumbering on insert/delete, cached path and value invalidated on edit',
 [('JSON.key','index of the node in its parent'),('JSON.path','cached pointer'),('JSON.value','cached plain value')]),
P('C12','JSON values survive construction, serialization and files unchanged',
 "Building a JSON document from any JSON-compatible value and reading it back, serializing it to text or to a file and loading that again, all preserve the value and its JSON types exactly, whatever its nesting, characters, or number magnitude, and whatever the process locale. The constants NaN and Infinity are rejected on load and on save, and values that are not JSON-compatible are rejected.",
 ['inputs','configurations'],'every JSON value, character, and locale',
 'Random values under a UTF-8 locale only.',
 ['jschon/json.py','jschon/utils.py'],'type dispatch in the constructor; json module with strict constants'),
P('C13','JSON equality and ordering follow the JSON data model',
 "Two JSON documents are equal exactly when they denote the same JSON value: numbers by mathematical value, booleans never equal numbers, arrays in order, objects regardless of member order. Equality is reflexive, symmetric, transitive, agrees between wrapped and plain operands, survives edits, and decides const, enum and uniqueItems in the same way; ordering comparisons agree with those of the underlying numbers or strings.",
 ['inputs'],'every pair and triple of JSON values, wrapped or plain',
 'Two random values are seldom nearly equal; the schema keywords that depend on equality are not run at all.',
 ['jschon/json.py','jschon/vocabulary/validation.py'],'recursive __eq__ on typed nodes'),
P('C14','JSON Pointer text, keys and URI fragments convert without loss',
 "For every sequence of keys, the pointer's text form parses back to the same keys, as does its URI fragment form, which contains only characters legal in a URI fragment; exactly the strings allowed by RFC 6901 are accepted as pointers. Concatenation, indexing, slicing, equality, hashing and the prefix ordering behave as those of the key sequence, and pointers are never modified.",
 ['inputs','histories'],'every key sequence, every string over the syntax-relevant alphabet, every combination of the pointer operators',
 'Random text rarely produces escape sequences, percent signs or their combinations; operator algebra is sampled.',
 ['jschon/jsonpointer.py'],'escape/unescape, URI quoting, key list'),
P('C15','JSON Pointer evaluation follows RFC 6901 on plain and wrapped documents',
 "Evaluating a JSON Pointer returns exactly the node that RFC 6901 designates, and raises the pointer reference error, and nothing else, exactly when there is no such node: array tokens must be canonical in-range decimal indices, object tokens must match a member name exactly, scalars have no children. Plain Python documents, JSON documents and schemas give the same answer, and the node found in a JSON document reports that pointer as its path.",
 ['inputs'],'every pointer and every document, plain, wrapped or schema',
 'Tests evaluate pointers generated from the document, plus a few keys known to be absent; wrapped arrays with non-index tokens are not reached.',
 ['jschon/jsonpointer.py','jschon/json.py'],'recursive descent on Mapping/Sequence/JSON nodes'),
P('C16','Relative JSON Pointers locate exactly the specified node, key or index',
 "Evaluating a relative JSON Pointer from any node of any JSON document yields exactly the value, member name or index that the specification designates, and raises the relative pointer reference error, and nothing else, exactly when it designates nothing. Exactly the strings the specification allows are accepted, text and keyword forms construct equal pointers, and the text form round-trips.",
 ['inputs'],'every relative pointer, every document and every start node',
 'Tests sample a fixed table plus generated pointers that mostly exist.',
 ['jschon/jsonpointer.py','jschon/json.py'],'walk of parent links, index manipulation, then pointer evaluation'),
P('C17','JSON Patch applies every operation sequence as RFC 6902 prescribes',
 "Applying a well-formed JSON Patch to any JSON document yields exactly the document RFC 6902 prescribes when every operation succeeds, and raises the patch error, and nothing else, when any operation fails: missing targets, bad or non-canonical array indices, scalar parents, failed tests, or moving a value into itself.",
 ['inputs','histories'],'every document and every sequence of add, remove, replace, move, copy and test operations',
 'Tests run the 19 RFC examples.',
 ['jschon/jsonpatch.py','jschon/jsonpointer.py'],'sequential application to a deep copy'),
P('C18','JSON Patch never changes or shares its inputs',
 "Applying a patch never modifies the input document or the patch, whether it succeeds or fails, and the result shares no mutable structure with either or between its own parts: later changes to the result, the document, or the values in the patch are not visible in the others, and applying the same patch again gives the same result.",
 ['histories','inputs'],'every document, patch, and subsequent mutation of any reachable container',
 'Tests compare the input document afterwards but never mutate the result or re-apply the patch.',
 ['jschon/jsonpatch.py'],'deep copies of the document and of inserted values'),
P('C19','In-place JSON edits agree with JSON Patch and fail without effect',
 "The add, remove and replace methods of a JSON document, called on any node with any pointer, leave exactly the document that the corresponding JSON Patch operation produces, with a consistent tree of parents, keys and paths; when the patch operation would fail they raise the JSON error and leave the document unchanged.",
 ['histories','inputs'],'every document, start node, pointer, value and sequence of in-place operations',
 'Tests exercise generated valid targets; failing targets are limited to the RFC examples for add.',
 ['jschon/json.py','jschon/jsonpatch.py'],'in-place edit methods over parent links'),
P('C20','Patch and patch-operation objects are faithful containers',
 "A patch behaves as a mutable sequence of its operations under any sequence of insert, set, delete, slice and iterate operations, whether operations are given as dictionaries or objects. Converting a patch to plain data and back gives an equal patch with the same effect on every document, and equality distinguishes any two operations that differ in JSON value.",
 ['histories','inputs'],'every operation and every edit history of a patch',
 'Only construction from the RFC examples is tested.',
 ['jschon/jsonpatch.py'],'list of operation objects; asdict/aslist'),
P('C21','URIs compare, hash, resolve and validate per RFC 3986',
 "URI references resolve against any base exactly as RFC 3986 prescribes; equal URIs always have equal hashes and are interchangeable as identifiers of cached schemas and vocabularies, and comparison with any other object never raises. Component access, selective copying and the validation options agree with the components of the text form.",
 ['inputs'],'every URI reference and base URI, every combination of validation and copy options',
 'Tests cover construction round trip on generated URIs only.',
 ['jschon/uri.py','jschon/catalog/__init__.py'],'wrapper around rfc3986 references, used as dictionary key'),
P('C22','Documents are loaded from the most specific matching source',
 "Whatever sources are registered, re-registered and in whatever order, loading a URI consults exactly the source with the longest base URI that is a prefix of it, falling back to the default source only when none matches, and passes it exactly the remainder of the URI. Invalid base URIs and invalid URIs are rejected, and every loading failure surfaces as a catalog error without consulting other sources.",
 ['histories','fault_sequences'],'every sequence of source registrations, every requested URI, every source failure',
 'Tests register one source at a time.',
 ['jschon/catalog/__init__.py'],'prefix table of sources',
 [('catalog sources','map of base URI to source')]),
P('C23','A local source never reads outside its directory',
 "No URI or reference, however it is spelled, makes a local directory source open a file that is not under its base directory; it opens exactly the base directory joined with the relative path and the configured suffix, or fails with a catalog error.",
 ['inputs'],'every URI under the registered base, directly or through references in schemas',
 'Tests load one well-behaved file name.',
 ['jschon/catalog/__init__.py'],'path join of base directory and URI remainder'),
P('C24','Schema caches are isolated, and hold what was last put in them',
 "Across any history of creating, adding, deleting, re-identifying and looking up schemas in several caches and catalogs, a lookup returns exactly the schema most recently stored under that URI in that cache of that catalog, or loads it, or fails; operations on one cache or catalog are never visible in another. A scoped cache and everything in it disappears when its block ends, however it ends, and its identifier cannot be taken while in use.",
 ['histories'],'every sequence of cache operations over several caches, catalogs and URIs, with normal and exceptional block exits',
 'Tests perform single operations in fresh catalogs and need metaschemas that are absent.',
 ['jschon/catalog/__init__.py','jschon/jsonschema.py'],'two-level dictionary of cache id and URI',
 [('schema cache','map cacheid -> URI -> schema')]),
P('C25','A failed load or construction leaves the catalog as it was',
 "If loading or constructing a schema or metaschema fails for any reason (missing or malformed document, unresolvable reference, invalid or unknown metaschema, bad keyword value, source error), at any point of any chain of references, the caller gets an error and no trace remains: the same request fails again in the same way, and once the cause is removed it succeeds and evaluates correctly.",
 ['fault_sequences','histories'],'every document graph, every choice of failing loads, every subsequent repair and retry',
 'No test retries after a failure.',
 ['jschon/catalog/__init__.py','jschon/jsonschema.py','jschon/vocabulary/core.py'],
 'schemas are registered in the cache before they are complete',
 [('schema cache','must contain only complete schemas')]),
P('C26','A schema is governed by exactly the vocabularies its metaschema declares',
 "The keywords that take effect in a (sub)schema are exactly those of the vocabularies declared by the metaschema in force there (its own $schema, or the nearest enclosing one), in the version declared; all others only annotate. A metaschema that requires an unknown vocabulary, lacks a core vocabulary, or is invalid is refused, every time it is requested, and metaschemas never influence one another.",
 ['configurations','histories'],'every set of vocabularies, required or optional, known or unknown; every nesting of dialects; every creation order',
 'Tests build three sample metaschemas.',
 ['jschon/vocabulary/__init__.py','jschon/vocabulary/core.py','jschon/catalog/__init__.py','jschon/catalog/_2020_12.py','jschon/catalog/_2019_09.py','jschon/catalog/_next.py'],
 'per-metaschema table of keyword classes'),
P('C27','Validating a schema gives the metaschema verdict',
 "For every schema that can be constructed, validating it reports valid exactly when the schema conforms to the metaschema of its dialect as published: each keyword's value form, at any depth at which subschemas may occur.",
 ['inputs','programs'],'every keyword, every well-formed and malformed value, at every subschema position, in 2019-09 and 2020-12',
 NOSCHEMA,['jschon/jsonschema.py','jschon/vocabulary/core.py','jschon/vocabulary/legacy.py','jschon/catalog/_2020_12.py','jschon/catalog/_2019_09.py'],
 'the schema evaluated as an instance of its metaschema, through dynamic references'),
P('C28','format asserts only where enabled, and only for the types it governs',
 "A format keyword affects the verdict exactly when its format is enabled in that schema's catalog at construction, has a registered validator, and the instance is of a type that validator governs; then the verdict is the validator's. In every other case it only annotates; enabling a format in one catalog has no effect in another.",
 ['configurations','histories'],'every combination and order of registering, enabling, constructing and evaluating, in several catalogs, for every instance type',
 'Tests cover one format in one catalog.',
 ['jschon/vocabulary/format.py','jschon/formats.py','jschon/catalog/__init__.py'],
 'set of enabled formats per catalog; global validator table'),
P('C29','Concurrent evaluations do not disturb one another',
 "When several threads evaluate instances against the same or related schema objects at the same time, every evaluation produces the same complete result it would produce alone, under every interleaving.",
 ['schedules'],'every interleaving of two or three concurrent evaluations sharing schemas, instances and catalog',
 'No test uses threads.',
 ['jschon/jsonschema.py','jschon/vocabulary/__init__.py','jschon/vocabulary/core.py','jschon/json.py'],
 'all mutable evaluation state lives in the per-evaluation result tree; lazily cached properties are idempotent'),
P('C30','A schema is a faithful document whose nodes know their place',
 "A schema, however obtained (from a Python value, text, a file or the catalog), is a JSON document with exactly the source's value, in which every node has the right parent, key and path. A node is a JSONSchema exactly where its keyword takes a schema; each such node has the right enclosing schema, resource root, document root, base URI, canonical URI, dialect, catalog, cache and keywords, and asking the catalog for its canonical URI gives that very node. This holds whatever order the keywords are written in, and before and after any evaluation.",
 ['inputs','programs','configurations'],'every arrangement of subschemas, identifiers and anchors at every keyword position, every written order, every way of obtaining the schema',
 NOSCHEMA,['jschon/jsonschema.py','jschon/vocabulary/__init__.py','jschon/vocabulary/core.py','jschon/json.py','jschon/catalog/__init__.py'],
 'subschemas built by the keyword mixins; parent links; lazily cached root lookups'),
P('C31','Custom keywords take part in evaluation like the built-in ones',
 "A keyword class registered in a vocabulary is called exactly for the instance types it declares (never if static), after the keywords it declares to depend on, whatever order they are written in; its value is built of subschemas exactly as its mixins say. What it does to its result (annotate, fail, pass, noassert, discard, drop annotations, evaluate its subschema in place or on children, look at siblings, share globals, give a subtree its own result class) has exactly the documented effect on the verdict, the result tree, collected annotations and errors, and outputs, in any combination; an error it raises comes out unchanged and affects no later evaluation. Registered output formatters are called with the result and the caller's arguments.",
 ['programs','inputs','configurations'],'every sequence of result operations by one or several custom keywords, every acyclic dependency graph, every set of instance types, every combination of mixins',
 'No stable test defines a keyword.',
 ['jschon/jsonschema.py','jschon/vocabulary/__init__.py','jschon/output.py'],
 'topological ordering of keyword classes; context-managed subresults; the Result methods'),
P('C32','A failed evaluation reports every failure and nothing else',
 "Evaluation does not stop at the first failure: for every assertion keyword and every false subschema that fails on some part of the instance, while every subschema application enclosing it fails too, the basic output lists exactly one error, at the evaluation path of that keyword and that part of the instance, through applicators and references alike. Nothing is listed for a keyword that was not applied there, that passed, or that lies below an application that passed (such as a failing branch of a satisfied anyOf, or the subschema of a satisfied not); errors below if, for contains with its bounds, and for keywords that look at annotations within a schema object that fails anyway, are left open. The errors collected from the result, overall or restricted to one keyword or instance, are those the output lists.",
 ['programs','inputs'],'every applicator nesting to a depth with several failures at once, every pair of keywords, through every kind of reference, on instances that fail at several places',
 'Stable tests do not evaluate schemas; upstream examples check single errors.',
 ['jschon/jsonschema.py','jschon/output.py','jschon/vocabulary/applicator.py','jschon/vocabulary/legacy.py','jschon/vocabulary/validation.py'],
 'keywords that go on after a failure and reset or drop what their subschemas reported'),
P('C33','A catalog supports exactly the dialects it was created with',
 "A catalog created for any selection of the dialect versions, in any order and with repetitions, evaluates and validates schemas of each selected dialect, chosen by argument, by $schema, or in an embedded resource, exactly as that dialect prescribes, whatever else is selected and whatever other catalogs exist or are created later; a schema with keywords in a dialect that was not selected is refused. An unknown version is refused and no catalog is registered or replaced. A catalog is found by its name, the latest of that name counting.",
 ['configurations','histories'],'every sequence of versions, every pair of selections in two catalogs of the same or different names, and every keyword in each dialect',
 'Tests create one catalog for all dialects, or a few for one.',
 ['jschon/__init__.py','jschon/catalog/__init__.py','jschon/catalog/_2019_09.py','jschon/catalog/_2020_12.py','jschon/catalog/_next.py','jschon/vocabulary/__init__.py'],
 'initializers of the dialects; catalog registry'),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(props))
