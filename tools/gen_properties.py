#!/usr/bin/env python3
"""Writes properties.jsonl from the list below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [f'arroba/{f}' if '/' not in f and f != 'app.py' else f for f in files.split()],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]} if state else {}),
            **({'observe_at': list(observe)} if observe else {}),
        }})


# ------------------------------------------------------------------ commits
prop('C01', "Inactive repos can't be written to",
     "A repo that is deactivated, deleted or tombstoned, according either to the caller's repo object or to "
     "storage, never gains a commit: the attempt fails with the inactive-repo error and stores and publishes nothing. "
     "Deactivating, reactivating and tombstoning a repo set its status both in memory and in storage, and "
     "reactivating never revives a tombstoned repo.",
     'inputs histories', 'every repo status, every sequence of writes and status changes, stale and fresh repo objects, every storage implementation',
     'Tests try one write on one inactive repo; they never use a stale repo object, and the status tests only use one storage backend.',
     'storage.py datastore_storage.py repo.py xrpc_repo.py',
     [('status tests before any write', 'arroba/storage.py Storage._commit'),
      ('status transitions', 'arroba/storage.py activate_repo, deactivate_repo, tombstone_repo; _set_repo_status in both storages')])
prop('C02', 'A commit is published only once it is completely stored',
     "A repo's published head and tree, in storage and in memory, only ever point at a commit whose commit block, new tree nodes "
     "and new records were all written first. A commit that fails, at any point, leaves the caller's repo object and the stored head as they were, "
     "and a rejected one writes nothing.",
     'crash_points fault_sequences inputs', 'every point at which a commit can fail, and every batch of writes',
     "Tests only see commits that succeed, or that are rejected by their first write; none fails between the block writes and the head update.",
     'storage.py datastore_storage.py repo.py',
     [('all blocks are written in one batch before the head moves', 'arroba/storage.py Storage._commit'),
      ('transaction around the commit', 'arroba/datastore_storage.py DatastoreStorage._commit, write_blocks, store_repo')])
prop('C03', 'Commits are well formed, signed and chained',
     "Every commit has exactly the protocol's fields: the repo's DID, version 3, the previous commit's CID (null for the first), the new tree's root, "
     "a revision derived from its own sequence number, and a signature made last, over all of the other fields, with the repo's own signing key. "
     "Every block in a commit carries that commit's sequence number and repo.",
     'inputs histories', 'every commit of every repo, first or later',
     'Tests check a few commits, and mostly compare them against the same code that made them.',
     'storage.py util.py repo.py', [('commit construction and signing', 'arroba/storage.py Storage._commit; arroba/util.py sign')])
prop('C04', 'Every write is validated before it changes the tree',
     "A record is committed only if it validates against its type's lexicon, is no larger than 1 MB encoded, and could not be mistaken for a commit or an event when read back; "
     "updates and deletes need an existing record, creates need that none exists, and a commit has at most 200 writes. "
     "Each write makes exactly one change to the tree, the one it names, at its own collection and record key.",
     'inputs', 'every batch of writes, every action, path and record',
     'Tests try one violation per limit; the limits and the order of checks hold for every write in every position of a batch.',
     'storage.py mst.py', [('per-write checks', 'arroba/storage.py Storage._commit'), ('create rejects an existing key', 'arroba/mst.py MST.add')])
prop('C05', "A commit's operations list says exactly what changed",
     "A commit's operations list has one entry per write, in order, with the write's action and path, the record's new CID (null for deletes), and "
     "the CID it replaced (null for creates); only updates that change nothing are left out. "
     "Storing and reloading a commit preserves its operations.",
     'inputs histories', 'every batch of writes, including repeated writes to one path, on every storage',
     "Tests use short batches with distinct paths, so a wrong previous CID, order or omission in a mixed batch isn't seen.",
     'storage.py datastore_storage.py', [('ops are recorded as the tree changes', 'arroba/storage.py Storage._commit'),
                                         ('ops serialisation', 'arroba/datastore_storage.py AtpBlock.from_block, to_block')])
prop('C06', 'Every sequence number is used once or reported lost',
     "Each commit and each event allocates exactly one sequence number, is stored under it, and is then announced to the repo's callback exactly once. "
     "If a commit fails in any way after allocating its number, that number is reported lost exactly once and the failure is passed on; a number that was used is never reported lost.",
     'inputs fault_sequences', 'every commit and event, every failure point, with and without a callback',
     "Tests cover one failing commit; they can't enumerate every exception path.",
     'storage.py datastore_storage.py', [('allocate, commit, callback, lost_seq', 'arroba/storage.py Storage.commit, write_event; write in both storages')])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_properties.py')).read())
P.sort(key=lambda p: p['id'])
with open(json_path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
