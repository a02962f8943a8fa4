"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
B = 'src/node/behaviors/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', 'Nodes behave as full (ordered) mappings of their children',
     'For every sequence of mapping operations (item get/set/delete, get, in, has_key, len, keys/values/items and their iter variants, setdefault, pop, popitem, update, clear) a node backed by the provided storages returns, raises and contains exactly what an insertion-ordered dictionary of key/value pairs would; overwriting a key keeps its position and a key that is re-added goes last. Operations on a missing key raise KeyError (or return the given default, whatever its value) and leave the node unchanged.',
     ['histories', 'inputs'], 'all keys (any strings), all pre-states up to the size bound, all operation sequences up to the length bound, for every shipped node class',
     'The tests run one fixed script of keys and values; aliasing between keys, falsy stored values, falsy defaults and order after delete/re-add over all histories are not settled by samples.',
     [B + 'mapping.py', B + 'storage.py', B + 'nodify.py', 'src/node/base.py'],
     [('FullMapping defaults', B + 'mapping.py'), ('Storage delegation', B + 'storage.py'), ('Adopt.setdefault', B + 'common.py')],
     [('storage', 'per-instance dict/odict holding the children', B + 'storage.py')], ['node mapping API'])

prop('C02', 'Derived mapping operations follow from the four primitives',
     'For any class that supplies item get, set, delete and iteration (in whatever key order), every other mapping operation the mapping behaviors add is exactly the one those primitives determine: same key order for keys, values, items and their iterators, length and membership in agreement with iteration, update equal to the item assignments in order (positional mapping or pairs first, then keywords), pop/popitem/clear/setdefault equal to the corresponding reads, deletes and writes. A missing key is reported with KeyError by pop without default and by popitem on an empty mapping, never by get, in or has_key.',
     ['inputs', 'histories'], 'all primitive implementations modelled as an arbitrary finite mapping with arbitrary order, all keys, values and defaults',
     'Tests exercise the defaults only through dict storages and fixed data; agreement must hold for any backing and any content (including falsy values and defaults).',
     [B + 'mapping.py'], [('default implementations', B + 'mapping.py')], (), ['mapping API on a user class'])

prop('C03', 'A child knows its place: name, parent, path and root agree with the tree',
     'After a node is put under a key of a parent (by item assignment, setdefault, update or the insertion operations) its name is that key and its parent is that node, also after it was previously elsewhere. Then for every node its path is the sequence of names from the topmost ancestor down to it, its root is that ancestor, and looking its path below the root up by sequence of keys (or joined by slashes, with or without leading and trailing slashes) from the root yields the very same node.',
     ['inputs', 'histories'], 'all keys, all tree shapes and move sequences up to the bound',
     'Tests look at a handful of fixed trees; the relation must survive every history of assignments, moves and overwrites.',
     [B + 'common.py', B + 'nodify.py', 'src/node/utils.py', B + 'order.py'],
     [('Adopt', B + 'common.py'), ('LocationIterator, node_by_path', 'src/node/utils.py'), ('path/root', B + 'nodify.py')],
     [('__name__/__parent__', 'position of the node', B + 'nodify.py')], ['name, parent, path, root, node_by_path'])

prop('C04', 'A failed assignment leaves the child where it was',
     'If putting a node under a key fails with any exception raised by validation, by another behavior or by the storage, the exception reaches the caller and the node has the same name, parent, children and unique id as before. The container likewise has the same children in the same order as before the attempt.',
     ['fault_sequences', 'inputs'], 'every exception type raised at the storage or validation step, every prior position of the child, every key',
     'Tests try two failing storages with one exception type each; restoring must hold whatever the exception and whatever the child looked like before.',
     [B + 'common.py', B + 'reference.py', B + 'nodespace.py'],
     [('Adopt.__setitem__ revert', B + 'common.py')], [('__name__/__parent__', 'position of the node', B + 'nodify.py')], ['child.name, child.parent, container content'])

prop('C05', 'Child validation admits nodes only, unless told otherwise',
     'A validating container accepts a value exactly when non-node children are allowed for it or the value is a node instance; classes (even node classes) and all other values are otherwise refused with ValueError and the container is unchanged. Containers with non-node children allowed, such as node attributes, take any value and give back the identical object.',
     ['inputs'], 'all values by kind, all keys, all settings of the permission flag on class or instance, every operation that stores a value',
     'Tests sample a few refused values through item assignment only.',
     [B + 'common.py', B + 'attributes.py'], [('NodeChildValidate', B + 'common.py')], (), ['ValueError on assignment'])

prop('C06', 'Nodespaces and children never mix',
     'On nodes with nodespaces a key that both starts and ends with a double underscore addresses a nodespace, any other key addresses a child: storing, reading or deleting one kind never changes what the other kind contains or how it is listed, and nodespaces are not listed as children. A stored nodespace is found under the same key both through the node and through its nodespaces mapping, knows its name and parent, and the children nodespace (key `__children__`) is the node itself; replacing or deleting that one is unspecified.',
     ['inputs', 'histories'], 'all keys (strings), all operation sequences up to the bound',
     'Tests use three literal keys; whether a key such as one with only a leading double underscore is routed correctly is a statement over all strings.',
     [B + 'nodespace.py', B + 'attributes.py'], [('Nodespaces', B + 'nodespace.py')], [('_nodespaces', 'mapping of nodespaces', B + 'nodespace.py')], ['node[key], node.nodespaces'])

prop('C07', 'Node attributes are a separate, per-node mapping',
     'Every node with attributes has exactly one attribute mapping of its own, created on first use, whose contents behave as an ordered mapping of arbitrary values, belong to that node only, and are disjoint from its children. Attribute-style access, when enabled, reads and writes the same data, and reading a missing attribute raises AttributeError.',
     ['inputs', 'histories'], 'all keys and values, all operation sequences up to the bound over several nodes',
     'Tests touch one or two attribute names on one node.',
     [B + 'attributes.py', 'src/node/utils.py'], [('Attributes.attrs', B + 'attributes.py')], (), ['node.attrs'])

prop('C08', 'Aliasers translate keys losslessly',
     'For prefix, suffix, combined, chained and (one-to-one) dictionary aliasers with any configuration, unalias(alias(key)) gives back the key for every key the aliaser accepts, and whenever unalias(name) succeeds alias of the result gives back the name. Names that the aliaser cannot produce are refused with KeyError, except that a non-strict dictionary aliaser passes unlisted keys through (its inverse law is claimed for unlisted keys that coincide with no listed key or alias).',
     ['inputs', 'configurations'], 'all strings as keys, prefixes and suffixes, including empty and unset ones, all chains up to the bound',
     'Tests use literal prefixes and keys; the inverse law is over all strings (for instance the empty suffix).',
     [B + 'alias.py'], [('aliasers', B + 'alias.py')], (), ['alias, unalias'])

prop('C09', 'An aliased node is the same mapping under translated keys',
     'A node with an aliaser behaves, seen from outside, as a mapping from the aliased keys, while the underlying storage holds the same values in the same order under the unaliased keys; without an aliaser keys pass unchanged. A key that is missing or cannot be translated raises KeyError, carrying the requested (aliased) key when the storage lacks it, and underlying keys that a whitelisting dictionary aliaser does not list are left out of iteration. For a non-strict dictionary aliaser this is claimed for unlisted keys that coincide with no listed key or alias.',
     ['inputs', 'histories', 'configurations'], 'all keys and aliaser configurations, all operation sequences up to the bound',
     'Tests check one alias table and one prefix.',
     [B + 'alias.py'], [('Alias', B + 'alias.py')], (), ['mapping API of the aliased node'])

prop('C10', 'Ordering operations put children exactly where asked',
     'Inserting a new named node before, after, first or last, and swapping two children, yields exactly the old child order with just that change: the new node directly before/after the reference or at the very front/end, or the two children exchanged; all other children keep their relative order. Forward listings (keys, values, items and iterators) agree with each other and the inserted node is adopted under its name.',
     ['inputs', 'histories'], 'all names, all child counts up to the bound, all positions, all operation sequences up to the bound',
     'Tests use three children and a few fixed positions.',
     [B + 'order.py', B + 'storage.py'], [('Order', B + 'order.py')], [('storage', 'linked ordered dict', B + 'storage.py')], ['keys(), values(), items()'])

prop('C11', 'A refused insertion or swap changes nothing',
     'Inserting is refused with an exception when the new node has no name, when the container has no child under the name of the reference, when the container already has a child of that name, when (for referencing nodes) the node is already contained in the tree, or when the child is not acceptable to the container. After any refusal the children, their order, the unique-id lookup and the name and parent of every node involved are exactly as before, and all listings still terminate.',
     ['inputs', 'fault_sequences'], 'all names, all reference choices, all sources of refusal',
     'Tests assert only that an exception is raised in three fixed situations, not the state afterwards.',
     [B + 'order.py', B + 'reference.py'], [('Order._validateinsertion', B + 'order.py')], (), ['state after the exception'])

prop('C12', 'The unique-id index holds exactly the nodes of the tree',
     'In a tree of referencing nodes, lookup by unique id from any node of the tree finds exactly the nodes currently in that tree, under all histories of adding single nodes and subtrees, overwriting, deleting, detaching and re-adding: every contained node is found as the identical object and removed nodes are not found. A detached subtree has an index of exactly its own nodes, and adding a node whose subtree shares a unique id with a node already in the tree is refused with ValueError and changes nothing. A node is moved by detaching (or deleting) it first; shallow copies of referencing nodes are not covered.',
     ['histories', 'inputs'], 'all operation sequences up to the bound on trees up to the bound, all keys',
     'Tests follow a single scripted history.',
     [B + 'reference.py'], [('Reference', B + 'reference.py')], [('_index', 'shared map uuid int -> node', B + 'reference.py')], ['node(uuid), index'])

prop('C13', 'Changing a unique id re-keys the lookup, or is refused',
     'Assigning any free unique id to a node makes lookup find it under exactly the new id and nothing under the old one, for every id value. Assigning an id used by another node of the tree is refused with ValueError and leaves both nodes findable under their old ids; every new referencing node starts with an id of its own.',
     ['inputs', 'histories'], 'all 128-bit id values including zero, all reassignment sequences up to the bound',
     'Tests set three literal ids.',
     [B + 'reference.py'], [('Reference.uuid', B + 'reference.py')], [('_uuid', 'id of the node', B + 'reference.py')], ['uuid, node(uuid), index'])

prop('C14', 'Id-aware nodes never share a unique id by copying',
     'Every id-aware node gets a unique id when created, keeps it through adding, moving and detaching, and refuses shallow copying with RuntimeError. A deep copy of an id-aware node (made with the node\'s own deepcopy) has a fresh id on its root and, unless recursive renewal is disabled, on every descendant, while the ids of the original tree stay as they are.',
     ['inputs', 'histories', 'configurations'], 'all tree shapes up to the bound, both settings of recursive renewal, mixed trees',
     'Tests copy one three-node tree.',
     [B + 'common.py'], [('UUIDAware', B + 'common.py')], (), ['uuid of all nodes'])

prop('C15', 'A cached read never differs from the uncached one',
     'A caching node returns for every key, after any sequence of reads, writes, deletes and invalidations made through the node, the value the underlying mapping currently holds, and raises KeyError when it holds none; failed writes and deletes do not leave outdated values readable. While nothing was written, deleted or invalidated, repeated reads of a present key return the identical object and load it from below only once.',
     ['histories', 'inputs', 'fault_sequences'], 'all operation sequences up to the bound, all keys, arbitrary values (including falsy ones)',
     'Tests walk one sequence of invalidate and read.',
     [B + 'cache.py'], [('Cache', B + 'cache.py')], [('cache', 'per-instance key -> value', B + 'cache.py')], ['__getitem__'])

prop('C16', 'Invalidation drops exactly what was asked',
     'Invalidating with a key drops that child from memory and nothing else, whatever the key; invalidating without a key drops all of them; invalidating an unknown key raises KeyError and changes nothing. For volatile storages a key that is valid but not currently loaded is accepted, and children can be loaded again afterwards. (A child-factory node, whose listing is its factory keys, is meant to hold children under those keys; deleting one not yet loaded is unspecified.)',
     ['inputs', 'histories'], 'all keys, all pre-states up to the bound, all orders of loading and invalidating',
     'Tests invalidate one fixed key and then everything.',
     [B + 'cache.py', B + 'common.py'], [('Invalidate, VolatileStorageInvalidate', B + 'cache.py')], (), ['invalidate(), storage content'])

prop('C17', 'Fallback lookup finds the nearest configured subtree and always ends',
     'Reading a key that exists returns that child; reading a missing key returns what lies at the corresponding path below the fallback child of the nearest proper ancestor that configures one - the fallback child taking the place of that ancestor\'s child on the way, followed by the rest of the path and the key - trying fallbacks of the fallback subtree first and then farther ancestors when that path does not exist there, and raises KeyError when none has it. The lookup ends for every tree and configuration, changes nothing in the tree and leaves no state behind that would influence later lookups. (Trees of nodes with non-empty fallback keys; non-node values only as leaves.)',
     ['inputs', 'configurations', 'histories'], 'all trees up to the bound, all choices of fallback keys, all keys',
     'Tests use one four-level tree.',
     [B + 'fallback.py'], [('Fallback', B + 'fallback.py')], [('fallback_processing.data', 'recursion guard', B + 'fallback.py')], ['__getitem__'])

prop('C18', 'Lifecycle events: exactly one per completed change, none for a failed one',
     'A lifecycle node announces creation once at construction, exactly one added event per completed child assignment, one removed event per completed deletion and one detached event (and no removed event) per completed detach, in order, each carrying the affected child, container and key; reads announce nothing. An operation that raises announces nothing and later operations announce normally. Insertion operations count as assignments; if a subscriber raises, what was announced before stays announced.',
     ['histories', 'fault_sequences', 'inputs'], 'all operation sequences up to the bound including failing operations, all keys',
     'Tests run each operation once on the success path.',
     [B + 'lifecycle.py', 'src/node/events.py'], [('Lifecycle', B + 'lifecycle.py')], [('_notify_suppress', 'suppression during detach', B + 'lifecycle.py')], ['zope event subscribers'])

prop('C19', 'Attribute changes announce exactly one modification of the owner',
     'With lifecycle attributes, every completed setting or deletion of an attribute announces exactly one modified event carrying the node that owns the attributes, and a failed one announces nothing; reading attributes announces nothing. This holds after any earlier failed or detaching operation on the node (not for changes that subscribers or storages make while that node is being detached from).',
     ['histories', 'fault_sequences', 'inputs'], 'all operation sequences up to the bound, all keys',
     'Tests set and delete one attribute.',
     [B + 'lifecycle.py'], [('AttributesLifecycle', B + 'lifecycle.py')], (), ['zope event subscribers'])

prop('C20', 'Dispatch reaches exactly the bound subscribers',
     'Dispatching an event calls each subscriber currently bound to that event on that dispatcher exactly once, in binding order, with the given arguments, and no other subscriber; binding the same subscriber twice counts once, and binding to an event that was not declared is refused with UnknownEvent. Unbinding removes exactly the selected subscribers: all, those of one event, one subscriber everywhere, or one subscriber of one event.',
     ['histories', 'inputs'], 'all sequences of register/bind/unbind/dispatch up to the bound over several dispatchers, all event names',
     'Tests check one or two subscribers in a fixed script.',
     [B + 'events.py'], [('Events.bind/unbind/dispatch', B + 'events.py')], [('__subscribers__', 'per-instance event -> subscribers', B + 'events.py')], ['subscriber calls'])

prop('C21', 'Event suppression is exactly as wide as its block',
     'While a suppression block is active in a thread, events selected by it (all, one or a list) reach no subscriber of any dispatcher in that thread, all other events do; the entered block reports its nesting level. On leaving the block, normally or by exception, exactly what was in force before is restored, in every nesting, and a block that was created but not entered suppresses nothing.',
     ['histories', 'fault_sequences', 'inputs'], 'all nestings and selections up to the bound, exits by exception, all event names',
     'Tests use one nesting with two fixed events.',
     [B + 'events.py'], [('suppress_events', B + 'events.py')], [('suppress_events.data', 'active suppressions', B + 'events.py')], ['subscriber calls'])

prop('C22', 'Event attributes hold their value and notify exactly on change',
     'Reading an event attribute yields the value last assigned on that object, or the default when none was assigned or it was deleted, whatever storage is configured. Assigning calls the decorated and the bound subscribers once each with the new value when the value differs from the old one (or always, if so configured) and otherwise calls none; no subscriber of another attribute, another object or another event is called, then or later. (Whether a deletion is announced is unspecified.)',
     ['histories', 'inputs', 'configurations'], 'all values and assignment sequences up to the bound, all configurations',
     'Tests assign a few literal values on one object.',
     [B + 'events.py'], [('EventAttribute', B + 'events.py')], (), ['attribute value, subscriber calls'])

prop('C23', 'Declared events belong to the class that declares them',
     'A dispatcher accepts subscribers for exactly the events declared by its class and its dispatcher base classes (event lists and event attributes) and those registered on that instance. Declaring events on one class, or registering them on one instance, never makes them known to a base class, a sibling class or another instance.',
     ['programs', 'histories'], 'all class hierarchies up to the bound with arbitrary declarations, all registration orders',
     'Tests define one class at a time.',
     [B + 'events.py'], [('event_dispatcher_metclass_hook', B + 'events.py')], [('__events__', 'declared events per class and instance', B + 'events.py')], ['bind() acceptance'])

prop('C24', 'At most one thread at a time holds the lock of a tree',
     'For every interleaving of threads that take the tree lock through any nodes of the same tree, including the very first use of the lock, at most one thread is inside the locked section at any time. Trees with different roots (as told by the root of the node) do not block each other.',
     ['schedules'], 'all interleavings of two (three in the thorough tier) threads at the granularity of shared accesses, all positions of the nodes in the tree',
     'Tests take the lock from one thread only; the first-use race needs a particular interleaving.',
     ['src/node/locking.py'], [('TreeLock', 'src/node/locking.py')], [('_treelock', 'lock stored on the root', 'src/node/locking.py')], ['threads inside the locked section'])

prop('C25', 'The tree lock is re-entrant and always released',
     'A thread that holds the lock of a tree can take it again through any node of that tree, directly or through decorated methods, and the lock is free again exactly when every acquisition has ended, whether by return or by exception. A decorated method receives its arguments, and its result or exception reaches the caller unchanged.',
     ['inputs', 'fault_sequences', 'histories'], 'all nestings up to the bound over all nodes of a tree, all exit kinds',
     'Tests use a mock lock on one node and no exception exit.',
     ['src/node/locking.py'], [('locktree', 'src/node/locking.py')], (), ['lock state as seen from another thread'])

prop('C26', 'Serializing and deserializing a tree gives the same tree',
     'For every tree of serializable nodes whose classes can be imported under their dotted name, deserializing its serialization yields a tree with the same classes, names, child order, parent links and attributes (names, order and values), also when put below a given root, and leaves the original unchanged. Lists of such trees round-trip as lists, and simple mode yields the plain data structure of names, children and attributes, with class names only if requested.',
     ['inputs', 'programs'], 'all trees up to the bound, all names and attribute names and values of the supported kinds',
     'Tests serialize a few literal trees.',
     ['src/node/serializer.py'], [('NodeEncoder/NodeDecoder', 'src/node/serializer.py')], (), ['serialize, deserialize'])

prop('C27', 'Serialized values keep their type and value',
     'UNSET, unique ids, classes, functions, None, booleans, numbers, strings and lists of these come back from deserialization as equal values of the same type, as attribute values, as list items and on their own. Dotted names resolve to the very object they name in whatever importable module it is defined, independent of what was imported before; what does not exist is refused with ImportError or AttributeError. (NaN is excluded, tuples and dictionaries nested in values are not covered.)',
     ['inputs', 'configurations'], 'all strings and ids, nested lists up to the bound, all import states',
     'Tests check one literal of each kind after the modules were already imported.',
     ['src/node/serializer.py'], [('NodeEncoder.default, NodeDecoder.decode/resolve', 'src/node/serializer.py')], (), ['serialize, deserialize'])

prop('C28', 'The string codec round-trips text and never touches its input',
     'Decoding the encoding of any structure of text, lists, tuples, dictionaries (and nodes, which become dictionaries) nested in any way yields an equal structure, container kinds are preserved, and all non-text values come through as the identical objects. The input structure is never modified; undecodable bytes are left as they are in soft mode and raise UnicodeDecodeError otherwise.',
     ['inputs'], 'all nested structures up to the bound, all strings, both modes',
     'Tests run a few literal structures.',
     ['src/node/utils.py', B + 'common.py'], [('StrCodec', 'src/node/utils.py')], (), ['encode, decode'])

prop('C29', 'Adapters are faithful views of the mapping they wrap',
     'Attribute access wrappers read, write and delete exactly the wrapped mapping entries, report a missing attribute with AttributeError and a missing item with KeyError; child access by attribute returns the child of that name. A reverse mapping is the wrapped mapping with keys and values exchanged: same order and length, lookup of a value gives the first key holding an equal value, KeyError or the default otherwise.',
     ['inputs', 'histories'], 'all mappings up to the bound, all keys, values (including equal and falsy values) and defaults',
     'Tests use one mapping of three distinct strings.',
     ['src/node/utils.py', B + 'common.py'], [('AttributeAccess, ReverseMapping', 'src/node/utils.py'), ('GetattrChildren', B + 'common.py')], (), ['adapter API'])

prop('C30', 'Factory children are made once, in order, and adopted',
     'A child-factory node lists exactly its factory keys in factory order; reading a listed key creates the child at first access only, places it in the tree under that key and returns the identical object from then on, a key neither stored nor listed raises KeyError. (Deleting a listed key that was not read yet is unspecified; children are meant to be stored under listed keys only.) A fixed-children node has exactly one child per configured factory (distinct keys), in order, adopted under its key, per instance, and refuses every modification, leaving everything unchanged.',
     ['inputs', 'histories'], 'all factory tables up to the bound, all read/write orders up to the bound',
     'Tests read two literal keys.',
     [B + 'common.py'], [('ChildFactory, FixedChildren', B + 'common.py')], (), ['node API'])

prop('C31', 'Copies are independent of the original',
     'A deep copy of a node has the same class, names, child order, attributes and values as the original, its nodes are new objects linked to each other, and no later change to either tree is visible in the other. A shallow copy (made with the node\'s own copy) has the same children (identical objects), name and parent, and later adding, replacing or removing children on one does not change what the other contains.',
     ['histories', 'inputs'], 'all trees up to the bound, all mutations of either side after copying',
     'Tests compare one copied tree immediately after copying.',
     [B + 'nodify.py', B + 'mapping.py', B + 'storage.py'], [('copy, deepcopy', B + 'mapping.py')], (), ['tree content after mutations'])

prop('C32', 'Tree queries report exactly the matching nodes',
     'Filtered values are exactly the children providing the interface, in child order; acquire returns the nearest proper ancestor providing the interface or being an instance of the class, and None if there is none. The tree representation has one line per node and value, in child order (sorted by key text, which differ among siblings, for unordered nodes), indented by depth, and detaching a child returns the identical node and removes exactly it.',
     ['inputs'], 'all trees up to the bound, all distributions of interfaces over nodes, all names',
     'Tests use fixed trees.',
     [B + 'nodify.py'], [('acquire, filteredvalues, treerepr, detach', B + 'nodify.py')], (), ['return values'])

prop('C33', 'Nodes work the same in every thread',
     'Dispatching events, assigning event attributes, suppressing events and fallback lookups give the same results in any thread as in the thread that imported the library. Suppression or a lookup in progress in one thread never affects another thread.',
     ['schedules', 'histories', 'inputs'], 'all assignments of operations to the importing thread and to fresh threads up to the bound, including overlap at every block boundary',
     'Tests run everything in the importing thread.',
     [B + 'events.py', B + 'fallback.py'], [('thread local state', B + 'events.py')], [('suppress_events.data, fallback_processing.data', 'thread local state', B + 'events.py')], ['subscriber calls, lookup results'])

prop('C34', 'Cached instance properties compute once per instance',
     'An instance property calls its function exactly once per instance, returns the identical result from then on whatever the result is, keeps results of different instances and properties apart, and retries after a failed computation. UNSET is falsy, empty, distinct from None and every other value, and remains the one object through serialization.',
     ['inputs', 'histories'], 'all results (including None, falsy values and exceptions), all access orders up to the bound',
     'Tests read one property twice.',
     ['src/node/utils.py'], [('instance_property', 'src/node/utils.py')], (), ['property value, number of calls'])

prop('C35', 'The library can be imported in any order',
     'Every module of the library (the profiling script node.testing.profiling excepted) can be imported as the first one in a fresh interpreter, and all others after it in any order, without error. Whatever the order, all modules offer the same names, classes, functions and interfaces offered in several places are one and the same object, and trees, lifecycle events, event dispatch, event suppression and serialization work across the modules.',
     ['histories', 'inputs'], 'all orders of importing up to the bound, then any use',
     'Each test run imports the modules in the one order in which its test files happen to be collected.',
     ['src/node/events.py', B + '__init__.py', 'src/node/parts.py'], [('imports of node.events and node.behaviors', 'src/node/events.py')], (), ['import result, identity of offered objects'])

prop('C36', 'Unicode aware nodes hold text, however it was given',
     'In a unicode aware node a key given as text or as its UTF-8 bytes addresses the same child in every mapping operation, all listings give the keys as text, and a byte string stored as a value comes back as the text it encodes. Byte strings that are not valid UTF-8 and all other values are kept as they are (the identical object).',
     ['inputs', 'histories'], 'all text keys and values, in both forms, all mapping operations up to the bound',
     'Tests use ASCII text keys only, never byte strings.',
     [B + 'common.py'], [('UnicodeAware', B + 'common.py')], (), ['node API'])

prop('C37', 'Combined behaviors keep the mapping contract and each its own promise',
     'A node built from any two (in depth: three) of the behaviors the library offers - child validation, name spaces, adoption, attributes, reference index, ordering, lifecycle, events, cache, either invalidation, unicode awareness, unique ids, aliased keys, fallback, attribute access to children - in either order, over unordered or ordered storage, can be constructed with the arguments it takes without that behavior and is still a mapping: every mapping operation, detach, insert, swap, invalidate and copy has the documented effect on exactly the addressed children and all listings agree afterwards. At the same time each behavior keeps its own promise: children are placed under the parent, other values are refused, what is in the tree is found by unique id and what left it is not, additions and removals are announced once each, attributes stay apart from children, events reach their subscribers once, children can be read as attributes, byte keys address the children of outermost unicode aware nodes, a missing key is looked up in the fallback. (Not claimed: nodes that hold unique ids and are dropped from a volatile storage by invalidation, ordering of nodes that are not adopted or have aliased keys, an aliaser together with the reference index, lifecycle or a volatile storage: see the known findings.)',
     ['configurations', 'inputs', 'histories'], 'all pairs (in depth: triples) of 17 behaviors in every order, all keys, every operation',
     'Tests exercise each behavior on its own or in the few fixed stacks of the node classes.',
     [B + 'events.py', B + 'cache.py', B + 'reference.py', B + 'alias.py', B + 'lifecycle.py', B + 'adopt.py', B + 'order.py'],
     [('Events.__new__', B + 'events.py'), ('Cache.__delitem__', B + 'cache.py'), ('Reference.__setitem__', B + 'reference.py')],
     [('_index', 'unique id -> node of a tree', B + 'reference.py'), ('cache', 'key -> child', B + 'cache.py')], ['node API'])

prop('C38', 'The mapping tester passes full mappings and reports broken operations',
     'The mapping tester of node.testing reports every operation of a correct full mapping as OK, in the order of the contract, with or without checks of names, in a created or a given context (whose name and parent it restores and which it leaves empty). An operation that does something else - a listing with missing, additional or repeated children (with name checks also in the values), a wrong count, a wrong result, a missing effect, a missing refusal, an unexpected exception - is reported as failed under its own name, those tested before it are not; with direct errors the error itself reaches the caller. A contract without test is refused, and the origin report names exactly the class or first base class an operation comes from.',
     ['configurations', 'inputs'], 'all listings and counts up to the bound, all names, 43 kinds of faults, all contracts up to the bound',
     'Tests run the tester on a handful of fixed mock classes.',
     ['src/node/testing/base.py', 'src/node/testing/fullmapping.py'], [('FullMappingTester', 'src/node/testing/fullmapping.py'), ('BaseTester', 'src/node/testing/base.py')], (), ['tester results'])

prop('C39', 'A node is one object: true, equal to itself only, hashable, printable',
     'Every node, also an empty one, is true in a boolean context, equal to itself and to nothing else (also not to a node of the same name with the same content), and can be used as a dictionary key or in a set; its hash depends neither on its children nor on its name or parent. repr, str and formatting work for every name and show the class and the name.',
     ['inputs', 'configurations'], 'all names, all children keys up to the bound, 16 compositions',
     'Tests print a few nodes with fixed names and rarely compare nodes.',
     [B + 'nodify.py', B + 'mapping.py', B + 'attributes.py'], [('Nodify.__bool__/__repr__', B + 'nodify.py')], (), ['node API'])

prop('C40', 'The debug decorator changes nothing but the log',
     'A function, method, class method, property or generator decorated with debug is called exactly once per call, with the identical arguments, and gives back the identical result or raises the identical exception, whatever the arguments and results are, whether or not debug messages are logged; without debug logging nothing is logged.',
     ['inputs', 'histories'], 'all arguments, results and exceptions of the given kinds up to the bound',
     'Tests call one decorated function with two literals.',
     ['src/node/utils.py'], [('debug', 'src/node/utils.py')], (), ['calls, results, exceptions'])

prop('C41', 'Errors reach the caller as they are, and the node goes on working',
     'If the storage below a node, a factory, an aliaser, an event or attribute subscriber, a (de)serializer or an imported module fails with an error that is no missing key - whatever error, also siblings and bases of KeyError and errors that are no Exception - then the operation that caused it raises that very error: it is not swallowed, replaced by a KeyError, an AttributeError, a default or a fallback, and no other child is made or found in its place. If it failed before the change was made the node is unchanged, and in any case it goes on working afterwards: all listings agree with the storage, and the same operation without the failure does what it always does.',
     ['fault_sequences', 'inputs', 'configurations'], 'all failing operations of the storage at their first to third use, 6 kinds of errors, 22 operations, 14 compositions, all keys',
     'Tests raise KeyErrors only and never look at a node again after a failure in the middle of an operation.',
     [B + 'mapping.py', B + 'alias.py', B + 'cache.py', B + 'common.py', B + 'fallback.py', B + 'reference.py', B + 'order.py', 'src/node/utils.py', 'src/node/serializer.py'],
     [('except clauses of the behaviors', B + 'alias.py'), ('AttributeAccess, ReverseMapping', 'src/node/utils.py')], (), ['node API, adapters, serializer'])

prop('C42', 'Nodes share nothing they were not given',
     'Two nodes that are not in one tree do not influence each other, whether they are of one class, of two classes made of the same behaviors or of a class and its subclass, and whether they exist already or are created later: whatever is done to the children, attributes, name spaces, ids, indexes, events, subscribers, event attributes, aliaser, fallback key, child validation, factories, caches and invalidation of one node (also when that is refused), all others keep their name, parent, children, attributes, name spaces, id, index, known events, subscribers, attribute values and settings, and new nodes start with the defaults of their class.',
     ['histories', 'inputs', 'configurations'], 'two operations of 21 kinds on one node, 9 compositions that use every behavior with state of its own, all keys and names',
     'Tests look at one node at a time; state that leaks through a class shows only in other nodes.',
     [B + 'events.py', B + 'nodespace.py', B + 'attributes.py', B + 'reference.py', B + 'cache.py', B + 'storage.py', B + 'alias.py', B + 'common.py', B + 'fallback.py'],
     [('Events.__new__, EventAttribute', B + 'events.py'), ('defaults of the behaviors', B + 'nodespace.py')], (), ['node API'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
if __name__ == '__main__':
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            jsonschema.validate(p, s)
    except ImportError:
        pass
    print(len(P), 'properties')
