# -*- coding: utf-8 -*-
"""Prose of DESIGN.md; tables are generated (gen_design.py)."""
HEAD = '''# Solver-based checking of bluedynamics/node

bluedynamics/node is a pure Python library: classes are put together from
behaviors (plumber) to tree nodes that act as mappings. All properties in
`properties.jsonl` are about what such objects do for *every* key, name, value,
id, tree shape, operation history, exception and (where threads matter)
schedule. One family of technique decides all of them: symbolic execution of
the real code with an SMT solver (Z3 5.3, python bindings in
/opt/veriftools/pyvenv) deciding every branch and every assertion. Levels in
MANIFEST.json are `model_checking`: exhaustive within the stated bounds,
nothing is claimed outside of them.

Files: `vsym/` the engine, `checks/cNN.py` one harness module per property,
`checks/common.py` the reference mapping and helpers, `tools/` generators of
properties.jsonl, MANIFEST.json and this file, `known_findings.txt`,
`seeded/` planted bugs (read by no check).

## 1. The engine

### 1.1 Encoding of the real code (`vsym/loader.py`, `vsym/sym.py`)

Every run reads the current source of every `node.*` module below /repo/src
and of `odict` (the linked dictionary that holds the children), rewrites the
AST and executes the result under CPython. Nothing of node is modelled by
hand; only operations at which CPython would lose symbolic values are
rerouted: dict/set displays and constructors, `in`, `len`, `int`, `str`,
`isinstance`, `getattr`-family calls, string methods, `%`, `format` and
f-strings, `json` and `collections`. `plumber`, `zope.interface`,
`zope.component`, `copy`, `threading` and `uuid.UUID` run unmodified.

Symbolic values are `SymStr` (Z3 sequences; a concatenation of literals and
atoms), `SymInt` (Z3 integers; also the int of a unique id, bounded to 128
bit), `SymBytes` (encoded symbolic text, the codec as a bijection) and choices
(a bounded integer that selects an operation, a position, a class, an
exception, the next thread). Dictionaries with symbolic keys become
association lists whose lookup compares keys with `==`: each comparison is a
branch, so aliasing between keys (which decides everything in a mapping
library) is explored by the solver and not by chance.

String operations decided by the solver: (in)equality, order, prefix, suffix,
containment, find, slices (a constant slice at an end is compared as a
prefix/suffix test), strip with any characters, split/rsplit/partition/replace
with any separator, character classes (ASCII regular expressions), join,
formatting, int(). Anything else concretizes the value, which is recorded;
the other values are tried up to a limit and a check that leaves some untried
says "NOT exhaustive".

### 1.2 Exploration (`vsym/explore.py`, `vsym/core.py`)

Concolic: a path runs with concrete shadow values; every predicate over
symbolic values is appended to the path condition. Each branch whose other
side was not decided yet is negated and given to Z3 with the prefix: `sat`
gives the inputs of a new path, `unsat` shows there is none, `unknown` is
counted and makes the result non-exhaustive. Assertions are branches as well
(their false side reports), so when the frontier is empty Z3 has decided every
assertion for all inputs within the bounds. `assume` prunes and is counted.
Facts (a key is not empty, does not start with `__`, ...) are kept per atom to
answer repeated questions without the solver.

### 1.3 Why its verdicts can be trusted

* Every explored path is replayed on the *un-instrumented* code in a second
  process with the inputs of the model; all observations (results, exceptions,
  checks) have to agree (`traces_validated_against_impl`, `native_mismatches`
  in the evidence). This validates the rewriting and the models of dict, set,
  str and int on all paths of every run.
* A failing assertion counts only after the inputs fail on the unpatched code
  in a fresh interpreter (`vsym/replay.py`), if necessary together with the
  paths that ran before it in that process (for state that leaks between
  operations). Otherwise it is recorded as an inconclusive artifact.
* Every scenario names labels that have to be reached (`must_reach`); a
  scenario that reaches none or completes no path is an error, so a vacuous
  harness cannot pass.
* Runaway loops are caught by a time limit per path and reported as a
  violation when they replay.

### 1.4 Threads

Two means:

* `vsym/conc.py` (C24). Each thread body is executed alone on the real source;
  reads and writes of shared cells (attributes of nodes and of objects of the
  code under test, entries of its module and class level containers, rebound
  globals) and lock operations are intercepted. The value a read returns is
  chosen among the writes known so far, up to a fixpoint, so that each thread
  yields all its event sequences. The schedule is one integer clock per event;
  reads see the last write before them, critical sections of one lock do not
  overlap. Z3 decides whether some clock assignment puts two threads into the
  locked section of one tree (or blocks threads of different trees on each
  other); a model is replayed with real threads in exactly that order.
* `env.threads` (C33): threads run on the engine, switching at harness defined
  points, who goes on is a symbolic choice.

### 1.5 Bounds and tiers

`quick` is what MANIFEST registers for every change (8 workers, 8..70 s each;
capped at 780 s). `thorough` uses the larger bounds listed below and caps at
3 hours. Scenarios have time budgets; a scenario that is stopped says so in
the output and in the evidence (`exhaustive: false`), it does not fail.

Evidence lists the functions encoded (recorded with `sys.monitoring` while the
instrumented code runs), the bounds, queries (sat/unsat/unknown), solver time,
paths, scenarios, assumptions and samples.
'''

METHOD = {
 'C01': 'Oracle: `Ref`, an insertion ordered association list of a few lines. Pre-state of n children under pairwise distinct symbolic keys, then every operation with a symbolic key that may or may not be one of them; afterwards every listing, item, membership and a probe key are compared. Inductive in spirit: single operations from an arbitrary reachable state, plus pairs and triples for order-dependent effects.',
 'C02': 'The behaviors are plumbed over three hand written sets of primitives with deliberately odd key orders; every derived operation is compared with what the primitives determine, including the exact sequence of primitive writes of update.',
 'C03': 'Every shape of tree, one more put by any of the assignment and insertion operations of a new or an already placed node (moving subtrees, replacing); then name, parent, path, root and node_by_path (sequence and joined forms with any slashes) of every node are compared with the harness\' own parent table.',
 'C04': 'Faults (9 exception types) are injected into the layers of the plumbing, chosen symbolically; the state of child and container is compared with the one before. Index and id lookups included.',
 'C05': 'Symbolic choice over containers, permission by class or instance, 20 kinds of values, all assignment routes.',
 'C06': 'Keys are unrestricted symbolic strings, so the solver itself finds `__`, `___`, `__x`, `x__`, `__x__` from the branches of the code. Oracle: two reference mappings and the documented rule for reserved names.',
 'C07': 'Reference mapping per node; two nodes and the children under equal keys are observed after each operation, attribute-style access with symbolic attribute names.',
 'C08': 'Prefix, suffix, keys and names are all symbolic, including empty ones and None; inverse laws and refusals are asserted directly.',
 'C09': 'Oracle: the reference mapping over the unaliased keys plus the aliaser applied by the harness; symbolic aliasers, keys and pre-existing storage entries.',
 'C10': 'Expected order computed by list operations; all listings, adoption and positions compared.',
 'C11': 'All refusals from every place; snapshot comparison of children, order, index, name, parent; listings are run with a step limit so that a corrupted linked list is reported.',
 'C12': 'Oracle: the harness\' own parent table; after each operation the lookup of every id ever used is made from every node. Ids of new nodes are symbolic 128 bit integers and may collide with any other.',
 'C13': 'Arbitrary ids (0 included) assigned repeatedly; lookup through node(), index item, get and membership.',
 'C14': 'Ids of copies compared with everything seen before; unique by the fresh id assumption on uuid4.',
 'C15': 'A counting back end; oracle is the reference mapping plus the number of loads. Failures before and after the back end changed.',
 'C16': 'Loaded/not loaded per key is symbolic; the whole state is compared after each invalidation, then all children are loaded again.',
 'C17': 'Oracle: a specification of the lookup written independently as a recursive search over the description of the tree (nearest ancestor first, fallbacks of fallbacks first, each branch once). Fallback keys are symbolic. Termination by path limit; thread state and second lookups compared.',
 'C18': 'Handlers registered with zope.component record events; expected list is computed by the harness from the operations that completed; failures injected in storage, validation and subscribers.',
 'C19': 'As C18 for attributes.',
 'C20': 'Oracle: ordered list of (event, subscriber) bindings. Event names symbolic, equal-but-not-identical subscribers, nested and failing dispatches.',
 'C21': 'Oracle: a stack of selections; every exit (also by exception, also out of nested blocks) is followed by dispatches of every event.',
 'C22': 'Oracle: value per (object, attribute) and expected calls; symbolic values, several storages, inheritance, nested assignments.',
 'C23': 'Class hierarchies are built by the harness with symbolic names; oracle: declared sets along the mro.',
 'C24': 'See 1.4. All interleavings of up to 3 threads within the bounds as one formula per combination of thread paths.',
 'C25': 'The real lock is replaced by a stand-in that raises where the real one would wait for ever; after every step both locks are tried from another thread through any node.',
 'C26': 'JSON text is modelled as the data it stands for (validated by replaying with the json module); both trees are compared recursively, also the unchanged original.',
 'C27': 'Values of every kind at every place; dotted names resolved with every import state of a package of fixture modules. One known finding (below).',
 'C28': 'Structures built from symbolic choices, deep copies of the expectation made by the harness; identity of non-text leaves asserted.',
 'C29': 'Oracle: the wrapped mapping itself, read by the harness; symbolic attribute names.',
 'C30': 'Factories count their calls and may fail once; order, identity, adoption compared.',
 'C31': 'Both trees are compared with a recursive description after copying and after each change of either side; shared mutable internals show up as a change of the other side.',
 'C32': 'Expected lists and text computed by the harness from the description of the tree; symbolic keys, indents, prefixes, interfaces.',
 'C33': 'The programs of C17, C20-C22 in fresh threads, and interleavings at block boundaries (1.4).',
 'C34': 'Call counts and identity of results; symbolic results, failing computations, overriding classes.',
 'C35': 'A fresh interpreter is represented by removing all node modules; the order of the first imports is symbolic. The solver\'s part is small here (the choice of the order); it is in because an import cycle is invisible to tests that always import in one order.',
 'C36': 'Oracle: reference mapping over text; every key and value in either form, symbolic text, undecodable bytes.',
 'C37': 'Oracle: reference mapping plus one assertion per promise of the behaviors in the combination; the combination, its order and the operation are choice variables, keys are symbolic text. Combinations with Alias and Reference, Lifecycle or VolatileStorageInvalidate have their own scenarios (known findings).',
 'C38': 'Oracle: a list of faults, each a class with one operation replaced, and for listings the set of children. The fault, the entries, counts and names are choice variables or symbolic; the verdicts of the tester are compared with what the fault breaks.',
 'C39': 'Oracle: object identity. Names and keys are symbolic.',
 'C40': 'Oracle: recorded calls of the decorated function. Arguments, results and exceptions are chosen, strings symbolic.',
 'C41': 'Oracle: identity of the raised error; the association list below the node before and after; the reference mapping for the second attempt. The failing operation, the use at which it fails, the kind of error and the operation are choice variables, keys are symbolic.',
 'C42': 'Oracle: one reference mapping per node, taken before the operations; what a new node of the class has. The operations, their keys and names, the values and new ids are symbolic; node, neighbour, twin class, subclass and nodes created afterwards are all looked at through the whole API. Seen with the class-level default of `ChildFactory.factories`: that odict belongs to the class by its documentation (a table the class defines), so factories are given to a node by assignment here.',
}

TAIL = '''
## 4. Findings

%(fixed)s

Known finding, not repaired (`known_findings.txt`): C27 `encoded`: the
serializer writes UNSET and ids as the strings `<UNSET>` and `<UUID>:...`, so
string values that look like these come back as something else. There is no
escape in the format; repairing it would change the serialization format for
data already stored, so it is recorded. The check asserts that every other
string round-trips and reports any other deviation.

Known findings, not repaired: C37 `alias-above-delete`, `alias-below-replace`,
`alias-volatile`. `Alias` translates keys on the way down the plumbing, but
`Reference`, `Lifecycle` and `VolatileStorageInvalidate` use a key both on the
way down and with the whole node or the storage; depending on which side of
Alias they are, one of the two is wrong. A repair needs a rule which keys a
behavior sees (a change of the design of Alias), so it is recorded. All other
operations of these combinations are asserted in the same scenarios.

## 5. False alarms met and corrected

* C06/C03: reserved names inserted with the insertion operations and
  replacing `__children__` are unspecified: taken out of the statements.
* C20: a subscriber unbound by another one during the same dispatch: either
  outcome is legitimate; binding with several keywords of which one is unknown:
  whether the others were bound is unspecified.
* C22: whether a deletion is announced is unspecified (it is, with UNSET).
* C17: plain (non-node) values on the way, empty fallback keys: excluded.
* C19: changes made by subscribers or storages while the node is being detached
  from are excluded.
* C28: lone surrogates and namedtuples (their constructor takes no iterable).
* C30: deletion of a listed but never read key; storing under unlisted keys.
* C26/C27: NaN; tuples and dictionaries nested in values (JSON has neither);
  functions defined in functions (`<locals>`).
* C31: tree identity is by `root`; deep copies of inner nodes of a tree.
* Engine: a stale `.pyc` made the native replay run older code when the source
  changed within the same second: sources are always compiled now.
* Engine: slices of reserved-name tests (`key[:2] == '__'`) used to time out
  and made results non-exhaustive: compared as prefix/suffix tests now.

## 6. Behaviour preserving edits

Checks judge behaviour through the public API. To test this, large
behaviour-preserving rewrites of all modules (helpers extracted, loops turned
into comprehensions and back, try/except versus membership, early returns,
other string operations for the same test, `map`/`next`/`reduce`) were run
against all checks; see `tools/refactor_*.py` which hold these rewrites
(applied to a copy of the source, `VSYM_SRC` points the checks at it).

## 7. What is out of reach or left out

* Python 2 and PyPy branches (`IS_PY2`).
* `printtree` (prints `treerepr`) and `node.testing.profiling` (a script).
* Unbounded claims: all statements are for bounded trees and histories.
* The memory model of free-threaded builds; C24 assumes the GIL.
* `plumber`, `zope.*` and CPython are trusted.
No property is listed as not applicable.
'''
