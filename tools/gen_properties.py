#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of that file)."""
import json, os
B = 'src/node/behaviors/'
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
            'mechanism': [dict(name=a, where=b) for a, b in mechanism],
            'observe_at': observe,
            'hook_needed': hook,
        }})


p('P01', 'Every node is a faithful mapping of the operations applied to it',
  'After any sequence of mapping operations, a node answers every read (item access, get, membership, length, '
  'iteration, keys/values/items and their iterator forms, has_key) exactly as a plain dictionary - an ordered one for '
  'ordered node types - that received the same writes (set, delete, update, setdefault, pop, popitem, clear). '
  'Overwriting a key keeps its position, a new key goes last, popitem removes the last entry, a missing key '
  'raises KeyError with no effect, and update takes mappings, pair iterables and keyword arguments in order. '
  'Independently created nodes never share contents.',
  ['histories', 'inputs', 'configurations'],
  'every finite operation sequence, over every key/value and every node type assembled from the storage and mapping behaviors',
  'Tests run one fixed script of ~20 calls per node class; the guarantee is over all histories, key types, values that '
  'are falsy/None, and all behavior compositions.',
  [B + 'mapping.py', B + 'storage.py', B + 'nodify.py', 'src/node/base.py'],
  [('derived mapping operations written in terms of the four primitives', B + 'mapping.py FullMapping'),
   ('per-instance storage', B + 'storage.py + utils.instance_property')],
  ['return values and exceptions of the mapping API', 'full read-back after each write'],
  [('storage', 'the children of one node', B + 'storage.py')])

p('P02', 'A child always knows its name, parent, path and root',
  'Whenever a node is attached to an adopting container by any write route (item assignment, setdefault, update, '
  'ordered insertion, child factory), it afterwards reports the key as its name and that container as its parent. '
  'Hence in every tree built that way the path of each node is the list of names from the root down to it, its root is the '
  'topmost ancestor, and following that path from the root returns that very node, and parent and name are read-only views of the node location.',
  ['histories', 'configurations'],
  'every history of building, rearranging and re-attaching subtrees, for every adopting node type and every depth',
  'Tests look at a handful of two- or three-level trees built once; never at re-attachment histories or deep trees.',
  [B + 'common.py', B + 'nodify.py', 'src/node/utils.py', 'src/node/base.py'],
  [('name and parent are set around the delegated assignment', B + 'common.py Adopt.__setitem__/setdefault'),
   ('path/root walk the parent chain', B + 'nodify.py Nodify.path/root, utils.LocationIterator'),
   ('path lookup', 'src/node/utils.py node_by_path')],
  ['name, parent, path, root of every node after every operation', 'node_by_path(root, path)'])

p('P03', 'A rejected child assignment leaves child and container as they were',
  'If attaching a node to an adopting container is rejected with an error of whatever kind raised at any point below '
  'the adoption step, the exception reaches the caller, the node keeps the name and parent it had before, and '
  'the container has neither gained, lost, replaced nor reordered an entry. '
  'A container that does not allow non-node children rejects every class object and every non-node value with a value '
  'error on every write route, and accepts every node; one that allows them stores any value unchanged.',
  ['fault_sequences', 'inputs', 'histories'],
  'every container state, every rejected value, every write route and every point of the assignment at which the rejection happens',
  'Tests inject one failure into one two-node case per exception type.',
  [B + 'common.py'],
  [('saved name/parent restored on failure', B + 'common.py Adopt.__setitem__'),
   ('value validation before delegation', B + 'common.py NodeChildValidate.__setitem__')],
  ['exception seen by the caller', 'name/parent of the rejected node', 'container contents before and after'])

p('P04', 'Ordered insertion and swap behave like list operations',
  'On an ordered node, insert-first/last/before/after put the new child exactly at the requested position and swap exchanges '
  'exactly the two named children; every other child keeps its relative order and no child is lost or duplicated, so forward '
  'iteration, keys, values, items, length and later inserts all agree. '
  'A nameless node, a reference that is not a child, a name already in use or a node already in the tree is rejected '
  'with an error and leaves the order, the contents and the node itself unchanged.',
  ['histories', 'inputs'],
  'every sequence of insertions, swaps, deletions, assignments, valid or rejected, starting from every order',
  'Tests insert a few nodes at a few positions once; corruption of the linked order shows only in longer mixed histories.',
  [B + 'order.py', B + 'storage.py'],
  [('positional insertion into the ordered storage, then regular assignment', B + 'order.py insertbefore/insertafter'),
   ('pre-insertion validation', B + 'order.py _validateinsertion')],
  ['iteration order after each operation', 'exceptions of rejected operations'],
  [('ordered storage', 'children in order', B + 'storage.py OdictStorage')])

p('P05', 'The UUID index of a tree contains exactly the nodes of that tree',
  'In a tree of reference-aware nodes, after any sequence of attaching leaves and subtrees, deleting, popping, clearing, detaching and '
  're-attaching, looking up a UUID through any node of the tree returns the node carrying it if that node is currently in the same '
  'tree, and nothing otherwise. All nodes of a tree give the same answers, and membership tests, get and item access on the index agree.',
  ['histories'],
  'every history of tree edits over any number of trees; the index is compared with a full walk of every tree',
  'Tests count index entries after a few scripted edits; stale entries appear after mixed histories (move, delete, move back).',
  [B + 'reference.py'],
  [('index merged on assignment', B + 'reference.py Reference.__setitem__'),
   ('entries of the whole subtree removed on deletion', B + 'reference.py Reference.__delitem__/_to_delete'),
   ('fresh index on detach', B + 'reference.py Reference.detach/_index_nodes')],
  ['index and node(uuid) of every node of every tree, after each operation'],
  [('index', 'uuid -> node map shared by the nodes of a tree', B + 'reference.py')])

p('P06', 'UUIDs stay unique within a tree and conflicting use is refused',
  'No tree of reference-aware nodes ever holds two nodes with the same UUID: attaching a leaf or subtree that contains '
  'a UUID already present in the tree, or assigning a UUID in use by another node of the tree, raises a value error '
  'and changes nothing (contents, order, names, parents, UUIDs and lookups). '
  'Assigning a free UUID moves the lookup from the old to the new UUID at once, and newly created nodes always get fresh, distinct UUIDs.',
  ['histories', 'inputs'],
  'every history of attach and UUID-assignment operations, with collisions of every shape (leaf/leaf, leaf/subtree, deep/deep)',
  'Tests try one subtree collision and one reassignment.',
  [B + 'reference.py'],
  [('intersection test on attach', B + 'reference.py Reference.__setitem__'),
   ('conflict test on uuid assignment', B + 'reference.py Reference.uuid setter')],
  ['exceptions, uuid values, lookups, tree contents'])

p('P07', 'Detaching and moving subtrees preserves them and splits trees cleanly',
  'Detaching a child returns exactly that child, removes exactly that entry from the container and leaves every other node of '
  'the remaining tree untouched; the detached subtree keeps all its descendants, their order, names, attributes and UUIDs. '
  'It can then be attached in any place of any tree, and afterwards both trees are complete and independent: editing one never '
  'shows in the other; detaching a missing key raises KeyError without effect.',
  ['histories'],
  'every history of detach/move operations across several trees and every node type',
  'Tests detach one subtree once and look at the index size only.',
  [B + 'nodify.py', B + 'reference.py', B + 'lifecycle.py'],
  [('read then delete', B + 'nodify.py Nodify.detach'),
   ('reindexing', B + 'reference.py Reference.detach')],
  ['structure snapshots of all trees before and after each move'])

p('P08', 'Deep copies and pickles are complete, equal-shaped and disjoint',
  'A deep copy or a pickle round trip of a node reproduces type, name, all descendants with their order, names and values, and attributes, '
  'with each copied child reporting its copied container as parent, and shares no mutable node state with the '
  'original: any later change on either side is invisible on the other. A shallow copy is a distinct node with the same name and parent '
  'holding the same children under the same keys in the same order.',
  ['inputs', 'histories', 'configurations'],
  'every tree (shape, type composition, values, attributes) and every sequence of edits to either side afterwards',
  'Tests copy two or three fixed small trees and compare a few identities.',
  [B + 'nodify.py', B + 'mapping.py', B + 'nodespace.py', B + 'storage.py'],
  [('copy/deepcopy delegating to the copy protocol', B + 'mapping.py ClonableMapping'),
   ('name and parent carried over', B + 'nodify.py Nodify.copy')],
  ['structure snapshot and identity graph of both sides after copying and after each later edit'])

p('P09', 'UUID-aware nodes get fresh unique identities on creation and deep copy',
  'Every UUID-aware node has its own UUID from creation on. Deep-copying one gives the copy, and by default '
  'every UUID-aware descendant of the copy, a new UUID not used anywhere else, while the original tree keeps all of its own; '
  'with recursive overwriting turned off only the top of the copy changes. Shallow copying is refused with a runtime error.',
  ['inputs', 'configurations', 'histories'],
  'every tree mixing UUID-aware, other nodes and plain values, both recursion settings, repeated copies of copies',
  'Tests copy one two-level tree of uniform nodes.',
  [B + 'common.py'],
  [('uuid set after init', B + 'common.py UUIDAware.__init__'), ('uuid overwrite on deepcopy', B + 'common.py UUIDAware.deepcopy/set_uuid_for')],
  ['uuid of all nodes of original and copies'])

p('P10', 'A caching node never serves a stale child and reads each child once',
  'Reading a child through a caching node always returns the same answer as the uncached node would give for all writes and deletes '
  'made through that node, in every composition with other behaviors: after a set the new value, after a delete or pop KeyError, after '
  'invalidation what the backend then holds. Between such changes, repeated reads of a key return the identical object and consult the backend at most once.',
  ['histories', 'configurations', 'fault_sequences'],
  'every interleaving of reads, writes, failing writes, deletes, invalidations and backend changes, and every behavior order around the cache',
  'Tests make a few reads and one write on one composition.',
  [B + 'cache.py'],
  [('cache lookup and fill', B + 'cache.py Cache.__getitem__'), ('drop on set/delete/invalidate', B + 'cache.py Cache.__setitem__/__delitem__/invalidate')],
  ['values returned by reads versus a monitored backend', 'number of backend reads'],
  [('cache', 'key -> child of one node', B + 'cache.py')])

p('P11', 'Invalidation drops exactly the requested children',
  'Invalidating a key drops that child and nothing else, invalidating without key drops all children, and an unknown key raises '
  'KeyError without dropping anything; on volatile storages only loaded children are dropped, the set of valid keys of a lazily populated node is unchanged, and a valid '
  'but unloaded key is accepted silently. The next access to a dropped lazy child produces a new child.',
  ['histories', 'configurations'],
  'every history of loading, invalidating and reloading over every key subset, for plain, volatile, cached and factory-backed nodes',
  'Tests invalidate a two-child node once per flavour.',
  [B + 'cache.py', B + 'common.py'],
  [('delete-based invalidation', B + 'cache.py Invalidate'), ('storage-based invalidation', B + 'cache.py VolatileStorageInvalidate')],
  ['keys, identities of children before and after, factory calls'])

p('P12', 'Child factories create each child once, on demand, adopted, for known keys',
  'A node with child factories lists exactly the factory keys in factory order whether or not children were created, calls the factory '
  'of a key once, on the first read of that key only, and returns that same adopted child on every later read until it is removed, replaced or invalidated. '
  'A key assigned by the user takes precedence over its factory, unknown keys raise KeyError and call no factory, a failing factory leaves no entry, and instances never share children.',
  ['histories', 'inputs', 'fault_sequences'],
  'every history of reads, writes, deletes and invalidations and factory failures over several instances of several factory tables',
  'Tests read two factory children once.',
  [B + 'common.py'],
  [('factory fallback on KeyError', B + 'common.py ChildFactory.__getitem__')],
  ['factory call log, identities, parent/name of children, key lists'])

p('P13', 'Aliasers are lossless: unalias inverts alias, foreign keys are refused',
  'For every aliaser (one-to-one dictionary, prefix, suffix, prefix+suffix, chains of them, including absent or empty affixes) un-aliasing the alias of a key gives '
  'back the key, and aliasing an un-aliased key gives back the alias. Keys lacking the affix or, in strict dictionaries, keys not listed are refused with KeyError, '
  'while a non-strict dictionary passes unlisted keys through unchanged.',
  ['inputs', 'configurations'],
  'every string key, every affix including empty ones and ones overlapping the key, every one-to-one dictionary and every nesting of chains',
  'Tests use a few literal keys with one prefix and one suffix.',
  [B + 'alias.py', 'src/node/utils.py'],
  [('alias/unalias pairs', B + 'alias.py DictAliaser, PrefixAliaser, SuffixAliaser, AliaserChain')],
  ['alias/unalias return values and exceptions'])

p('P14', 'An aliased node is the same mapping seen under its aliases',
  'Through a node with an aliaser, setting, reading, deleting, testing and iterating aliased keys acts exactly on the entries with the corresponding real keys of the '
  'underlying mapping, so listing, length and item access always agree with each other. An enumerable aliaser acts as a whitelist: unlisted underlying keys are neither listed nor reachable, and writes '
  'to keys it does not know are refused, even when it lists no key at all; errors for missing entries name the key the caller used, and without aliaser nothing changes.',
  ['histories', 'inputs', 'configurations'],
  'every history of operations on both the aliased and the underlying view, for each kind of aliaser including empty ones',
  'Tests read and write a few keys through one aliaser each.',
  [B + 'alias.py'],
  [('key translation around each primitive', B + 'alias.py Alias')],
  ['both views of the mapping after each operation'])

p('P15', 'Lifecycle events match the edits actually made, exactly once each',
  'A lifecycle node announces one created event per construction, one added event per successful attach, one removed event per successful delete '
  '(also through pop, popitem, clear, update, setdefault) and one detached event per successful detach, each after the edit is visible and carrying the affected node, its container and key, in the '
  'order of the edits. A failed edit announces nothing, a detach announces no removed event, and no failure ever mutes later events; other nodes of the tree are not affected.',
  ['histories', 'fault_sequences', 'configurations'],
  'every history of edits with failures injected at any point, for several nodes and behavior compositions with listeners that read the tree',
  'Tests run one script of five edits without failures.',
  [B + 'lifecycle.py', 'src/node/events.py'],
  [('notify after delegation', B + 'lifecycle.py Lifecycle'), ('suppression during detach', B + 'lifecycle.py Lifecycle.detach')],
  ['ordered log of notified events compared with the log of successful edits'],
  [('suppression flag', 'set while detaching', B + 'lifecycle.py')])

p('P16', 'Attribute edits announce exactly one modified event of the owning node',
  'With attribute lifecycle enabled, each successful setting or deleting of an attribute of a node, by any mapping operation, announces exactly one modified event '
  'whose object is the node owning the attributes, after the change is visible. Failed attribute edits and attribute reads announce nothing, and edits of attributes never announce child events.',
  ['histories', 'fault_sequences'],
  'every history of attribute and child edits, failing and succeeding, on trees of lifecycle nodes',
  'Tests set and delete one attribute.',
  [B + 'lifecycle.py', B + 'attributes.py'],
  [('notify owner after delegation', B + 'lifecycle.py AttributesLifecycle')],
  ['ordered event log compared with attribute edit log'])

p('P17', 'Dispatch calls exactly the bound subscribers, once each, in bind order',
  'Dispatching an event on a dispatcher calls every subscriber currently bound to that event on that instance exactly once, in the order of binding, with exactly the given '
  'arguments, and nothing else; binding twice has no further effect, and unbinding by event, by subscriber, by both or altogether removes exactly those bindings. '
  'Binding an unknown event is refused with the unknown-event error, registered or declared events are accepted, and neither instances nor sibling or parent classes share events or '
  'subscribers; subscribers that bind or unbind during dispatch never cause another subscriber bound throughout to be skipped or called twice.',
  ['histories', 'configurations'],
  'every history of register/bind/unbind/dispatch over several instances of several related classes, with subscribers that re-enter the dispatcher',
  'Tests bind one or two subscribers and dispatch a few times; none modifies bindings from a subscriber or checks class isolation.',
  [B + 'events.py', 'src/node/events.py'],
  [('per-instance tables', B + 'events.py Events.__new__'), ('bind/unbind/dispatch', B + 'events.py Events'),
   ('class-level declaration', B + 'events.py event_dispatcher_metclass_hook')],
  ['call log of subscribers with arguments'],
  [('subscriber table', 'event -> ordered subscribers of an instance', B + 'events.py'), ('declared events', 'events of a class', B + 'events.py')])

p('P18', 'Observable attributes keep plain attribute semantics and announce changes',
  'An observable attribute reads as its default until set, then as the last value set, per instance, in whatever storage it is configured for; deleting it restores the default. '
  'Its event is dispatched with the new value once per assignment that changes the value - or once per assignment if configured so - and with the unset marker on deletion; subscribers registered on the attribute are called '
  'first with the owner and the value, then bound subscribers with the value, and both already see the new value. Attributes of the same instance or of other instances are not affected.',
  ['histories', 'inputs', 'configurations'],
  'every history of set/get/delete with equal, unequal, falsy and default values on several attributes, storages, instances and (sub)classes, including assignments made by subscribers',
  'Tests assign two or three values to one attribute.',
  [B + 'events.py'],
  [('descriptor with storage lookup and change test', B + 'events.py EventAttribute')],
  ['attribute reads, subscriber call log'])

p('P19', 'Event suppression covers exactly its dynamic extent and its events',
  'While a suppression block is active in a thread, the suppressed events (all, one, or a list) call no subscriber and every other event is dispatched normally; leaving the outermost block that covers an event - normally or by exception - '
  'restores its dispatching completely, for any nesting and repetition of blocks, also for the same suppression object used again. The nesting level is reported correctly and creating a suppression object without entering it has no effect; '
  'calls suppressed once are never delivered later.',
  ['histories', 'fault_sequences'],
  'every nesting/sequence of blocks with overlapping event sets, exits by exception at any depth, and dispatches (explicit and by attribute) in between',
  'Tests nest two blocks once and never leave one by exception.',
  [B + 'events.py'],
  [('thread-local suppression stack', B + 'events.py suppress_events')],
  ['subscriber call log versus the stack of active blocks'],
  [('suppression data', 'active suppressions of a thread', B + 'events.py')])

p('P20', 'Events, suppression and fallback work in every thread and stay thread-local',
  'Setting observable attributes, dispatching, suppressing events, and fallback lookups give in every thread the results they give in a single-threaded program: a suppression or a '
  'lookup in progress in one thread has no effect on another thread working on other objects or dispatching at the same time, whatever the thread schedule. '
  'Subscribers registered on an attribute are called for the assignment that triggered them, in that thread, and never for another one.',
  ['schedules'],
  'every interleaving of threads that dispatch, assign, suppress and look up, in threads other than the importing one',
  'No existing test starts a thread.',
  [B + 'events.py', B + 'fallback.py'],
  [('thread-local bookkeeping', B + 'events.py suppress_events.data, _attribute_subscribers; fallback.py fallback_processing.data')],
  ['per-thread call logs and lookup results under forced interleavings'])

p('P21', 'Fallback lookup finds what the documented search order defines',
  'Looking up a missing key below a node with a configured fallback child returns, inside the fallback child of the nearest ancestor offering one, the node at the subpath the requested key has below the child of that ancestor, else that of the next ancestor towards the root, '
  'following fallbacks inside fallback trees without visiting one twice, else raises KeyError for the requested key. Existing children always win, the search terminates, modifies nothing, and failed or nested lookups never disturb later ones.',
  ['inputs', 'histories'],
  'every tree shape, every placement of fallback keys (also naming missing children) at any level, every requested path',
  'Tests use one fixed tree of three levels.',
  [B + 'fallback.py'],
  [('two-phase search towards root and leaf', B + 'fallback.py _to_root/_to_leaf'), ('recursion guard', B + 'fallback.py fallback_processing')],
  ['lookup results over all paths compared with a reference search'])

p('P22', 'The tree lock gives mutual exclusion per tree and is always released',
  'At any time at most one thread is inside a tree-locked section or locked method of the same tree, whichever node of the tree it was taken on and even if all threads take the '
  'first lock of the tree at once; the owning thread may re-enter at will. The lock is released on normal exit and on exception, no schedule deadlocks, and locks of different trees do not block each other; '
  'a locked method returns or raises what the plain method does.',
  ['schedules', 'fault_sequences'],
  'every interleaving of threads locking the same or different trees through any node, with exceptions inside sections',
  'Tests acquire and release in one thread with a patched lock.',
  ['src/node/locking.py'],
  [('one re-entrant lock per root', 'src/node/locking.py TreeLock'), ('locked methods', 'src/node/locking.py locktree')],
  ['enter/exit log of critical sections, lost updates on unprotected counters, liveness'],
  [('tree lock', 're-entrant lock held by the root', 'src/node/locking.py')])

p('P23', 'Serialize then deserialize reproduces the tree',
  'Deserializing the serialized form of any node tree, or list of trees, of importable module-level node types with JSON-compatible attribute values gives nodes of the same types, names, order, hierarchy, and attributes, including attribute values that are UUIDs, the unset marker and '
  'references to classes and functions at any nesting inside attribute lists and dictionaries, also in a fresh process. Given a parent, the trees are attached to it under their names; registered custom serializers and deserializers are '
  'applied to exactly the objects of their type with their data round-tripped.',
  ['inputs', 'configurations'],
  'every tree shape, node type, name, attribute value and registration order',
  'Tests serialize a few one- and two-node trees.',
  ['src/node/serializer.py'],
  [('encoder with registry callbacks', 'src/node/serializer.py NodeEncoder.default'), ('decoder', 'src/node/serializer.py NodeDecoder')],
  ['structure snapshot of original versus decoded tree, in process and in a new process'])

p('P24', 'Serialization is pure, deterministic valid JSON; simple mode has no type data',
  'Serializing never changes the tree and gives the same text each time; the text is valid JSON that lists every node and attribute of the tree exactly once, in order. '
  'In simple mode it is plain nested name/children/attribute data without type markers, with class names exactly if asked for, and references to classes or functions as dotted names. '
  'Using one mode or custom encoder never influences later calls.',
  ['inputs', 'histories'],
  'every tree, option combination and order of calls',
  'Tests compare two literal dumps.',
  ['src/node/serializer.py'],
  [('mode flags per encoder', 'src/node/serializer.py serialize/NodeEncoder')],
  ['JSON text compared with an independent renderer of the tree, snapshots before/after'])

p('P25', 'Recursive string encoding and decoding is lossless and non-destructive',
  'Encoding any nested structure of text, lists, tuples, dictionaries and nodes gives the same structure with all text - keys included - as bytes in the chosen encoding, and decoding that restores the original text structure, nodes becoming dictionaries; '
  'all other values pass unchanged. The input is never modified nor shared as a container; bytes that cannot be decoded are left as they are in soft mode and raise the decoding error in strict mode, and both functions terminate on every input.',
  ['inputs', 'configurations'],
  'every nested value, every encoding, soft and strict mode',
  'Tests encode a few literals.',
  ['src/node/utils.py'],
  [('recursive transcoding', 'src/node/utils.py StrCodec')],
  ['result structure versus a reference transcoder, deep snapshot of the input'])

p('P26', 'Attributes and other nodespaces stay separate from children',
  'Reserved keys (starting and ending with double underscores) always address the node\'s own nodespaces and all other keys its children: setting, reading or deleting one kind never changes listing, length, order or values of the other. '
  'Attributes of each node are a separate mapping, created once, faithful to all edits, owned by exactly that node and independent of the attributes of every other node, and a node placed as nodespace reports that key and node as name and parent.',
  ['histories', 'inputs'],
  'every history mixing child, attribute and nodespace operations over several nodes, including keys equal across them',
  'Tests set one attribute and one nodespace.',
  [B + 'nodespace.py', B + 'attributes.py'],
  [('reserved key routing', B + 'nodespace.py Nodespaces'), ('lazy attribute nodespace', B + 'attributes.py Attributes.attrs')],
  ['children view, attribute view and nodespace view after each operation'],
  [('nodespaces', 'reserved name -> mapping', B + 'nodespace.py')])

p('P27', 'The tree rendering shows every node and value once, indented, in stable order',
  'The textual tree rendering has exactly one line per node and per plain value of the subtree (for values without line breaks), each child two indent steps deeper than its parent and '
  'directly within its block, in child order for ordered nodes and sorted by the text of the key for unordered ones. It therefore does not depend on insertion history for unordered nodes, honours indent and prefix arguments, and changes nothing.',
  ['inputs', 'histories', 'configurations'],
  'every tree mixing node types, plain values and key types, every indent and prefix, and every insertion order',
  'Tests compare literal output of a few trees.',
  [B + 'nodify.py'],
  [('recursive rendering', B + 'nodify.py Nodify.treerepr')],
  ['text output versus an independent renderer'])

p('P28', 'Acquire and filtering return exactly the matching nodes',
  'Acquiring by interface or class returns the nearest proper ancestor that provides or is an instance of it, or nothing if there is none, whatever the truth value, length or type of the nodes on the way. '
  'Filtering by interface yields exactly the children providing it, whether by class or directly on the instance, in the order of the children, in both the list and the iterator form; neither changes the tree.',
  ['inputs', 'configurations'],
  'every tree, every placement of class-level and instance-level interfaces and interface inheritance, every starting node',
  'Tests query two interfaces on a three-level tree.',
  [B + 'nodify.py'],
  [('walk along parents', B + 'nodify.py Nodify.acquire'), ('filter by interface', B + 'nodify.py filtereditervalues')],
  ['results versus a reference search on the parent chain'])

p('P29', 'Fixed children never change',
  'A fixed-children node has, from construction on, exactly one child per configured factory, in configured order, created once for that instance, named by its key and parented by the node. '
  'No mapping operation (set, delete, update, pop, popitem, clear, setdefault of a missing key, detach) changes, renames, moves or removes them - each is refused with an error and a node it was tried with keeps its name and parent - while all reads behave as on a mapping, and other instances have their own children.',
  ['histories', 'configurations'],
  'every sequence of read and (refused) write operations on several instances',
  'Tests try one set and one delete.',
  [B + 'common.py'],
  [('children created at init, writes refused', B + 'common.py FixedChildren')],
  ['contents and identities after every attempted write'])

p('P30', 'The mapping contract tester accepts conforming and flags broken mappings',
  'The shipped mapping contract tester reports every contract method of a conforming node or mapping class as OK. For a class in which one contract method raises an exception, '
  'answers wrongly about the entries the contract script has put in (missing, foreign or exchanged entries, ignored defaults, unexpected identity), or is one of update, delete, copy, setdefault, pop, popitem and clear and leaves out or exceeds its effect, '
  'it reports that method as failed. It gives exactly one result per contract method, in contract order, also after failures, the same on every run.',
  ['programs', 'configurations'],
  'every conforming behavior composition, and mutations of each contract method of a conforming class',
  'Tests use it on working classes plus a few broken ones.',
  ['src/node/testing/fullmapping.py', 'src/node/testing/base.py'],
  [('scripted contract', 'src/node/testing/fullmapping.py'), ('result collection', 'src/node/testing/base.py BaseTester.run')],
  ['reported results per contract method'])

p('P31', 'Attribute-style access mirrors item access of the same mapping',
  'Through attribute access to a node or its attributes, reading and writing by attribute, and reading, writing and deleting by item, acts on exactly the item of that name of the underlying mapping, immediately visible both ways; '
  'a missing name raises AttributeError when read as attribute and KeyError as item. Nodes with attribute child access return the child of that name for every name not already an attribute of the node, and raise AttributeError for a missing one, as attributes do.',
  ['histories', 'inputs'],
  'every history of mixed attribute-style and item-style operations, any valid name including ones that clash with internal names of mappings',
  'Tests set and read two names.',
  ['src/node/utils.py', B + 'common.py', B + 'attributes.py'],
  [('delegating proxy', 'src/node/utils.py AttributeAccess'), ('child lookup as attribute', B + 'common.py GetattrChildren')],
  ['both views after each operation'])

p('P32', 'A reversed mapping view is always the live inverse of its mapping',
  'A reversed view of a mapping lists, tests, counts and looks up exactly the value-to-key pairs the mapping holds at that moment, with looking up a value giving the first key holding it and unknown values raising KeyError or '
  'giving the default. It follows later changes of the mapping and never changes it; falsy and unhashable values are treated like any other.',
  ['inputs', 'histories'],
  'every mapping, value type and history of changes of the underlying mapping',
  'Tests query one fixed three-item mapping.',
  ['src/node/utils.py'],
  [('linear reverse lookup', 'src/node/utils.py ReverseMapping')],
  ['all read operations after each change of the mapping'])

p('P33', 'Errors of a data source reach the caller and are never mistaken for missing keys',
  'When the storage or aliaser below a node fails with an error other than KeyError, the operation which needed it - item access, get, membership, setting, deleting, pop, detach, setdefault, update, iteration, attribute access, fallback '
  'lookup, path lookup, rendering, encoding, serialization - raises exactly that error, whatever behaviors are composed above. It is never turned into a missing key, a default, False or an empty result. A refused write or delete of one '
  'entry leaves the entries of the node as they were, and once the storage works again every operation works as before.',
  ['inputs', 'histories', 'fault_sequences'],
  'every composition of behaviors, every operation, every kind of error, raised at every use of the storage',
  'Tests use storages which never fail.',
  [B + 'mapping.py', B + 'common.py', B + 'cache.py', B + 'alias.py', B + 'fallback.py', B + 'lifecycle.py', B + 'reference.py', 'src/node/utils.py', 'src/node/serializer.py'],
  [('reads catching KeyError only', B + 'mapping.py ReadMapping'), ('per behavior KeyError handling', B + 'alias.py Alias'), ('lookup further up on KeyError only', B + 'fallback.py Fallback')],
  ['failing uses of the storage', 'error leaving the operation', 'entries before and after'])

p('P34', 'Instance properties are computed once, debug logging changes nothing',
  'An instance property computes its value at the first read on an instance, keeps it (also if it is false or None) under the documented underscore attribute, and returns the same object at each later read, independently for each '
  'instance, in class hierarchies and classes with own attribute lookup; a computation which fails is not kept and its error reaches the caller. A function wrapped for debug logging is called exactly once per call with the given '
  'arguments, and returns its result or raises its error unchanged, whether debug logging is enabled or not.',
  ['histories', 'inputs'],
  'every history of reads, presets, resets and failing computations on several instances; every signature, result and error of a logged function',
  'Tests read one property twice and call one logged function.',
  ['src/node/utils.py'],
  [('first read stores the value', 'src/node/utils.py instance_property'), ('logging wrapper', 'src/node/utils.py debug')],
  ['computations per instance', 'calls, arguments and results of logged functions'])

p('P35', 'Instances are independent of each other',
  'Nothing done to one node - editing children, attributes or nodespaces, filling caches, creating lazy children, setting its UUID, reordering, binding handlers, registering events, setting observable attributes, locking, failing '
  'operations - shows in another instance of the same class or of its base or derived classes which is not part of the same tree, and a newly created instance always looks like the very first one.',
  ['histories', 'inputs'],
  'every node class and composition of behaviors, every history of operations on several instances side by side',
  'Tests rarely use two instances of a class, and never compare the second after editing the first.',
  [B + 'storage.py', B + 'attributes.py', B + 'nodespace.py', B + 'events.py', B + 'cache.py', B + 'reference.py', B + 'common.py', 'src/node/utils.py'],
  [('state created per instance on first use', 'src/node/utils.py instance_property'), ('state created in constructors', B + 'events.py Events.__new__')],
  ['complete image of every other instance before and after each operation', 'image of a fresh instance'])

p('P36', 'Removed nodes and finished operations keep nothing alive',
  'Once a child, plain value, attribute, nodespace, subscriber, observable or cached value has been removed, replaced, detached, invalidated, unbound or refused, nothing in the tree it was part of - storage, order, '
  'UUID index, cache, attributes, nodespaces - and no process-wide or per-thread state refers to it any more; when the user drops it, it is gone after a garbage collection. The same holds for arguments of lookups, '
  'dispatches, locks, suppression, copies, serialization and rendering, also when these operations fail, and for whole trees which are dropped.',
  ['histories', 'fault_sequences', 'configurations'],
  'every composition of behaviors and every history of edits, lookups, dispatches, copies, serializations and failing operations',
  'Tests hold references to everything they create and never ask what is still alive.',
  [B + 'storage.py', B + 'attributes.py', B + 'nodespace.py', B + 'events.py', B + 'cache.py', B + 'reference.py', B + 'common.py', B + 'lifecycle.py',
   B + 'order.py', B + 'fallback.py', 'src/node/locking.py', 'src/node/serializer.py', 'src/node/utils.py'],
  [('removed subtree leaves the index', B + 'reference.py Reference'), ('cache entries dropped on edits', B + 'cache.py Cache'),
   ('per-thread state reset on exit', B + 'events.py suppress_events, ' + B + 'fallback.py fallback_processing')],
  ['weak references to everything created', 'objects in reach of the kept trees through public interfaces'])

p('P37', 'Path lookup equals item access step by step and touches nothing else',
  'Looking up a path from any node or mapping gives exactly the object which item access gives key by key, or raises exactly the error item access raises, for paths given as list, tuple or text, with or without '
  'slashes around, whatever classes, aliases, lazy children, false nodes or values are on the way; an empty path gives the starting object itself. The given path and everything beside it stays untouched, '
  'lazy children beside the path are not created. Iterating locations yields an object, then each of its parents up to the root.',
  ['inputs', 'configurations'],
  'every tree, starting node, notation and path, existing or not',
  'Tests look up two paths in one tree of plain nodes.',
  ['src/node/utils.py', B + 'nodify.py'],
  [('successive item access', 'src/node/utils.py node_by_path'), ('parent chain', 'src/node/utils.py LocationIterator')],
  ['result or error of each lookup', 'reads and creations beside the path', 'the tree before and after'])

p('P38', 'Nodes keep what their interfaces promise',
  'Whatever behaviors a class combines, in whatever order, the instances of it and of classes derived from it - also after any history of edits, as copies and as attributes - provide exactly the interfaces these behaviors '
  'stand for, and every attribute and method such an interface promises is there and can be called as promised. Name, parent, path and root of a node are read only, a node is true whatever it contains, and a '
  'container declared ordered iterates in insertion order. The same goes for aliasers, events, the UUID index, reversed mappings and attribute access.',
  ['configurations', 'histories'],
  'every composition and order of behaviors, derived classes, and histories of edits on their instances',
  'Tests check single interfaces on single hand-made classes.',
  ['src/node/interfaces.py', B + '__init__.py', B + 'nodify.py', B + 'mapping.py', B + 'storage.py', 'src/node/events.py', 'src/node/base.py'],
  [('interfaces declared by behaviors', B + '*.py @implementer'), ('read only properties', B + 'nodify.py Nodify')],
  ['interfaces provided by each instance', 'promised names and signatures', 'truth value, read only attributes, order of keys'])

p('P39', 'Unicode-aware nodes hold text, however keys and values are encoded',
  'A node class combined with the unicode-aware behavior around the behaviors using keys holds text: a key or value given as UTF-8 bytes is stored as the text it stands for, a value or child is read, tested, looked up by '
  'path, replaced, popped and deleted with the text and with the bytes of its key alike, and both name the same entry. Bytes which are no UTF-8 text, other keys, and values which are nodes or any other objects are kept as '
  'they are. Inner behaviors - adoption, events, caches - see the text only, so children are named by text.',
  ['inputs', 'histories', 'configurations'],
  'all keys and values given as text, bytes or other objects, and every history of mapping operations mixing them',
  'The test of the behavior uses plain text only, for which it need not do anything.',
  [B + 'common.py', 'src/node/utils.py'],
  [('decoding of keys and values', B + 'common.py UnicodeAware'), ('codec', 'src/node/utils.py StrCodec.decode')],
  ['keys, values and items after each operation', 'membership, get and item access with both forms of each key', 'names of children, what inner behaviors get'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
