#!/usr/bin/env python3
"""Writes /verif/known_findings.json: open findings and the defects repaired in /repo (by commit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
    {'id': 'F20', 'property': 'P08',
     'what': 'deep copying or pickling the root of a tree on which TreeLock or locktree was used before raises TypeError '
             '(the lock kept on the root cannot be copied)'},
]
FIXED = [
    ('P20', 'b80e2b0', 'suppressing events, reading EventAttributes or falling back in any thread but the importing one raised AttributeError'),
    ('P19', '23c853b', 'creating suppress_events without entering it suppressed events from then on; entering one twice failed'),
    ('P17', 'eb3d6b7', 'an Events class whose constructor takes arguments could not be instantiated'),
    ('P17', '40e621a', 'events and EventAttributes of a subclass were registered on its base classes as well'),
    ('P17', '12a9c7b', 'a subscriber unbinding itself (or another) during dispatch made the next subscriber be skipped'),
    ('P15', '954424b', 'after a detach which failed, lifecycle events of the thread stayed muted'),
    ('P05', '7b42c66', 'a node whose uuid is the nil UUID was not indexed'),
    ('P06', '81a187b', 'a leaf with a uuid already used in the tree was accepted and hid the other node'),
    ('P05', '7a08810', 'nodes below an attached node kept their own index; later additions below them were not found from the root'),
    ('P05', '6ba58b3', 'a deleted or popped node kept using the index of its former tree'),
    ('P07', '92c1593', 'detaching a value which is no referencing node raised AttributeError and lost it'),
    ('P05', '4f16ddb', 'a set or delete refused further down changed the index all the same'),
    ('P05', '57c6096', 'replacing a child left the replaced nodes in the index'),
    ('P10', '4efda08', 'a reader re-reading a child while it was set or deleted put the old child back into the cache'),
    ('P04', 'eeef1b4', 'inserting a node under a name already in use replaced the child and broke the order'),
    ('P04', 'f1c3456', 'the first node inserted into an empty node was not validated'),
    ('P04', '061c298', 'a node refused at ordered insertion was left behind in the order'),
    ('P13', 'd9ac821', 'an empty suffix could not be unaliased'),
    ('P14', '0b14ecd', 'an aliaser with no entries was ignored, all keys showed up'),
    ('P09', '1e5e1ec', 'deepcopy of a UUID aware node containing plain values raised AttributeError'),
    ('P08', '7a716db', 'UNSET lost its identity when a node holding it was copied or pickled'),
    ('P23', 'e1e8ae9', 'UUIDs, objects and nodes inside of dictionaries were not decoded'),
    ('P23', '953d7a0', 'classes of modules not imported yet could not be deserialized'),
    ('P23', '17eb9b7', 'nodes using attribute access for attributes could not be serialized'),
    ('P22', '5c40723', 'two threads asking for the first tree lock at once got different locks'),
    ('P21', '0ccc29a', 'a fallback path with a missing child ended the lookup instead of continuing further up'),
    ('P10', '95c0f73', 'Cache.invalidate without key invalidated only the child cached last below'),
    ('P31', '55f3b7e', 'reading an item named context through attribute access returned the mapping itself'),
    ('P28', 'c6122c5', 'acquire stopped at the first ancestor considered false'),
    ('P29', 'c488d12', 'assigning a fixed child to another key was refused but renamed it'),
    ('P04', 'b3d8874', 'insertfirst and insertlast raised AttributeError next to a plain value'),
    ('P33', 'e03a8af', 'an AttributeError raised by the storage while a referenced child was read for deletion was swallowed'),
    ('P21', '401937a', 'a fallback lookup over nodes equal to each other skipped ancestors, over nodes without hash raised TypeError'),
    ('P31', 'e02460f', 'reading a missing child as attribute raised KeyError: such nodes failed hasattr, adoption, encoding and deep copy'),
    ('P05', '86fde1a', 'replacing a child of an aliased node or of a node without storage attribute left the replaced nodes in the index'),
    ('P05', 'd281768', 'deleting or detaching next to or below a value which is a node class raised TypeError'),
    ('P03', '1f627ac', 'a child refused with an error other than key, value, attribute or not implemented error kept the name and parent of the container'),
    ('P38', 'd5abff8', 'IAttributes promised attrs_factory, which nodes do not have, instead of attributes_factory'),
    ('P39', '06b15d6', 'unicode aware nodes stored keys and values given as bytes undecoded and did not find text keys given as bytes'),
]
json.dump({'open': OPEN, 'fixed': ['fixed: property={} {} {}'.format(*x) for x in FIXED]},
          open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
