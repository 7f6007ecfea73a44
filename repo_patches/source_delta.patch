From f89d1813cb237e4eec3c465ba5f1811449a14e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 01/31] fix: sync.getRecord: include the covering proof for the
 record's own path

The proof was built for the bare collection, without the rkey, so the
returned CAR was usually missing MST nodes on the path to the record.
---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..0c2a514 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From 0c23361e21f8f0d29e02eb744c43793b6ee86d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 02/31] fix: Storage.read_events_by_seq: skip imported blocks,
 which have seq 0

With start=0, eg a subscribeRepos cursor of 0 or a firehose collector
preload window that goes back to the beginning, they tripped an assertion.
---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..45d7d05 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -397,7 +397,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # blocks imported from another PDS have seq 0. they're not events
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From e68e8d77c85c0c452485272b7ae633b0471395fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 03/31] fix: Storage.commit: don't change the repo's MST if the
 commit fails

The loaded repo's MST was updated in place, write by write. If a later write
in the same commit then failed, MemoryStorage's stored repo kept the earlier
ones, and the next commit included them.
---
 arroba/storage.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 45d7d05..a6e8736 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -556,6 +556,8 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # only update the repo(s) at the end, once this commit has succeeded
+        mst = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -565,12 +567,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := mst.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                mst = mst.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -590,23 +592,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                mst = mst.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = mst.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                mst = mst.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if mst.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = mst.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -634,13 +636,14 @@ class Storage:
         logger.debug('  done')
 
         # update repo head
+        repo.mst = mst
         if repo.did:
             repo.head = commit_data.commit
             logger.info(f'Updating {repo.did} head {repo.head.cid}')
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        orig_repo.mst = mst
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From 4a9f36a5118ddb4077c8d639c2081a855a8c1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 04/31] fix: Storage.commit: check the repo's stored status too

A Repo object loaded before the repo was deactivated or tombstoned could
still commit to it afterward.
---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index a6e8736..74f40bc 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -546,6 +546,8 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            if repo.status:
+                raise InactiveRepo(repo_did, repo.status)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From 76df08c2e2b8cb8fd223070461c3cbef12996234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 05/31] fix: Storage.activate_repo: do nothing if the repo is
 tombstoned, as documented

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 74f40bc..c04d466 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -286,6 +286,9 @@ class Storage:
         Args:
           repo (Repo)
         """
+        if repo.status == TOMBSTONED:
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From 84dfcc8ac19da53f46e76eef49d4eaf1a43aa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 06/31] fix: Storage.commit: reject records that look like
 commits or subscribeRepos events

read_events_by_seq identifies events and commits by their contents, so these
records were emitted over the firehose as is, as if they were our own events,
eg to deactivate other repos. A non-string $type crashed it.
---
 arroba/storage.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index c04d466..131f9c3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -67,6 +67,7 @@ CommitOp = namedtuple('CommitOp', [  # for subscribeRepos
 #     'prev': [CID or None],
 #     'sig': [bytes],
 # }
+COMMIT_FIELDS = frozenset(('version', 'did', 'rev', 'prev', 'data', 'sig'))
 
 
 class Block:
@@ -419,8 +420,7 @@ class Storage:
                 continue
 
             blocks[block.cid] = block
-            commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            if block.decoded.keys() == COMMIT_FIELDS:
                 commit_block = block
 
         # final commit
@@ -585,7 +585,13 @@ class Storage:
 
             # raises ValidationError if it doesn't validate
             assert write.record is not None
-            server.validate(write.record.get('$type'), 'record', write.record)
+            type = write.record.get('$type')
+            server.validate(type, 'record', write.record)
+            # read_events_by_seq would misinterpret these
+            if ((type and not isinstance(type, str))
+                    or (type or '').startswith(f'{SUBSCRIBE_REPOS_NSID}#')
+                    or write.record.keys() == COMMIT_FIELDS):
+                raise ValueError(f"{path} isn't a record")
 
             block = Block(decoded=write.record, repo=repo_did, seq=seq)
             if len(block.encoded) > MAX_RECORD_SIZE_BYTES:
-- 
2.43.0


From 42cbb08774606e73afdee875cfa4e3365097dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 07/31] fix: util.next_tid: make thread safe

Concurrent calls could return the same TID.
---
 arroba/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..fe54546 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_ts_last_lock = threading.Lock()
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,10 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_ts_last_lock:
+        ts = _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From 2ae49b48dc627154430c420f9b88a74abb5950a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 08/31] fix: createSession: check password

It returned the access token to anyone who asked.
---
 arroba/xrpc_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..5003978 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -1,4 +1,5 @@
 """``com.atproto.server.*`` XRPC methods."""
+import hmac
 import logging
 import os
 
@@ -10,6 +11,10 @@ logger = logging.getLogger(__name__)
 @server.server.method('com.atproto.server.createSession')
 def create_session(input):
     """Handler for ``com.atproto.server.createSession`` XRPC method."""
+    if not hmac.compare_digest(input['password'].encode(),
+                               os.environ['REPO_PASSWORD'].encode()):
+        raise ValueError('Invalid identifier or password')
+
     id = input['identifier']
     repo = server.storage.load_repo(id)
     if not repo:
-- 
2.43.0


From adf936e929e6b65382a6c1b643ca3c289152338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 09/31] fix: listRepos: return the head commit's own rev

Imported repos' head commits have seq 0, not the seq for their rev.
---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 0c2a514..8cf0c12 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From b786c3098f1c8ff40dab722fbfb70cd6a3e8317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 10/31] fix: AtpRemoteBlob.maybe_fetch: use the SSRF-protected
 session by default

---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..c57fb44 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -488,7 +488,7 @@ class AtpRemoteBlob(ndb.Model):
         blob.validate(max_size=max_size, accept_types=accept_types, name=name)
         return blob
 
-    def maybe_fetch(self, get_fn=requests.get):
+    def maybe_fetch(self, get_fn=webutil.util.session.get):
         """Fetches the blob from its URL and updates its metadata, if necessary.
 
         Args:
-- 
2.43.0


From 1e099b3ac82f0d3af2887b7cfa316b645b3499bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 11/31] fix: DatastoreStorage.store_repo: enter an ndb context
 if necessary

...like all of the other methods.
---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index c57fb44..a860eb2 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -717,6 +717,7 @@ class DatastoreStorage(Storage, NdbMixin):
 
         update()
 
+    @ndb_context
     def store_repo(self, repo):
         @ndb.transactional(join=True)
         def store():
-- 
2.43.0


From 155a6747b88d0d77fd02985fbe370fe6516653a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 12/31] fix: AtpBlock.to_block: Block.repo is a str DID, not an
 ndb Key

This broke round tripping through AtpBlock.from_block.
---
 arroba/datastore_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index a860eb2..606501e 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -189,7 +189,8 @@ class AtpBlock(ndb.Model):
                                 prev_cid=CID.decode(op.prev_cid) if op.prev_cid else None)
                for op in self.ops]
         return Block(cid=self.cid, encoded=self.encoded, seq=self.seq, ops=ops,
-                     time=self.created, repo=self.repo)
+                     time=self.created,
+                     repo=self.repo.id() if self.repo else None)
 
     @classmethod
     def from_block(cls, block):
-- 
2.43.0


From 1a33fc9a5dbf70d5c87526329b76ab77962fe2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 13/31] fix: DatastoreStorage: don't log repos' private keys

AtpRepo's repr includes its properties, including the unencrypted keys.
---
 arroba/datastore_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 606501e..e9722fb 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -660,7 +660,7 @@ class DatastoreStorage(Storage, NdbMixin):
                            encrypted_rotation_key=rotation_key_pem,
                            status=repo.status)
         atp_repo.put()
-        logger.debug(f'Stored repo {atp_repo}')
+        logger.debug(f'Stored repo {atp_repo.key}')
 
     @ndb_context
     def load_repo(self, did_or_handle):
@@ -727,7 +727,7 @@ class DatastoreStorage(Storage, NdbMixin):
             atp_repo.status = repo.status
             atp_repo.head = repo.head.cid.encode('base32')
             atp_repo.put()
-            logger.debug(f'Stored repo {atp_repo}')
+            logger.debug(f'Stored repo {atp_repo.key}')
 
         store()
 
-- 
2.43.0


From fd8e0f53af640d0eb22391fa27461631b3e0a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 14/31] fix: memcache.Lease: never calculate an expires_at
 later than memcache's own

If add was slow, or expiration included a fraction of a second, release could
delete the lease after it had expired and someone else had acquired it.
---
 arroba/memcache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..b7f6a2a 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -61,9 +61,12 @@ class Lease:
         for attempt in range(self.retries + 1):
             # add returns True if the key didn't exist and was set,
             # False if it already existed
-            if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+            expire = int(self.expiration.total_seconds())
+            # calculate before add so that we never think we still hold the lease
+            # after it's expired in memcache
+            expires_at = webutil.util.now() + timedelta(seconds=expire)
+            if self.client.add(self.key, 'locked', noreply=False, expire=expire):
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From 4fe281cd1ef1c7354b803ea4dcc30202f98b0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 15/31] fix: firehose.subscribe: handle cursor when the
 rollback window is empty

---
 arroba/firehose.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..ff4c902 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -167,7 +167,7 @@ def subscribe(cursor=None):
     if cursor is not None:
         if not handoff:
             handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
+        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"]) if handoff else cursor}')
         for header, payload in handoff:
             if payload['seq'] >= cursor:
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
@@ -178,8 +178,8 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                last_seq = handoff[-1][1]['seq'] if handoff else cursor - 1
+                assert not handoff or last_seq >= rollback[0][1]["seq"]
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
-- 
2.43.0


From 48dc30244087f96f89def8a171debce171883dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 16/31] fix: Repo.create: omit handle from #identity event if
 the repo doesn't have one

handle isn't nullable in the subscribeRepos lexicon.
---
 arroba/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/repo.py b/arroba/repo.py
index f71523b..efa515a 100644
--- a/arroba/repo.py
+++ b/arroba/repo.py
@@ -156,7 +156,8 @@ class Repo:
         assert repo.head
         assert repo.did
 
-        storage.write_event(repo=repo, type='identity', handle=kwargs.get('handle'))
+        identity = {'handle': repo.handle} if repo.handle else {}
+        storage.write_event(repo=repo, type='identity', **identity)
         storage.write_event(repo=repo, type='account', active=True)
 
         # TODO: #sync event should be after #account/#identity but before first #commit
-- 
2.43.0


From 99b330ad84e9eaec815d81fe93cfd06ac788d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 17/31] fix: demo app: undefined variables

---
 app.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app.py b/app.py
index d1978e4..c1db7ae 100644
--- a/app.py
+++ b/app.py
@@ -12,6 +12,7 @@ from flask import Flask, make_response, redirect, request
 import google.cloud.logging
 from google.cloud import ndb
 import jwt
+import lexrpc.client
 import lexrpc.flask_server
 import requests
 
@@ -51,7 +52,7 @@ os.environ.setdefault('REPO_HANDLE', handle)
 is_prod = 'GAE_INSTANCE' in os.environ
 if is_prod:
     logger.info('Running against production GAE')
-    logging_client = thread_local.logging_client = google.cloud.logging.Client()
+    logging_client = google.cloud.logging.Client()
     logging_client.setup_logging(log_level=logging.DEBUG)
 else:
     logger.info('Running locally')
@@ -122,7 +123,7 @@ def proxy_appview(nsid_rest=None):
 
 lexrpc.flask_server.init_flask(server.server, app)
 
-ndb_client = thread_local.ndb_client = ndb.Client()
+ndb_client = ndb.Client()
 
 with ndb_client.context():
     server.storage = DatastoreStorage(ndb_client=ndb_client)
@@ -194,7 +195,7 @@ RELAY_HEADERS = {
 # delay because we're not up and serving XRPCs at this point yet. not sure why not.
 if is_prod:
     def request_crawl():
-        relay = lexrpc.client.Client(f'https://{relay}',
+        relay = lexrpc.client.Client(f"https://{os.environ['RELAY_HOST']}",
                                      headers={'User-Agent': util.USER_AGENT})
         resp = relay.com.atproto.sync.requestCrawl({'hostname': os.environ['PDS_HOST']})
         logger.info(resp)
-- 
2.43.0


From c5c62c7488a7b16c6d4fcf2d0ce56eb3658ce46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 18/31] fix: demo app: don't log private key, password, and
 tokens

---
 app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index c1db7ae..82f143f 100644
--- a/app.py
+++ b/app.py
@@ -63,7 +63,7 @@ else:
     os.environ.setdefault('GOOGLE_CLOUD_PROJECT', 'app')
     os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:8089')
 
-logger.info(f'Env: {json.dumps(dict(sorted(os.environ.items())), indent=2)}')
+logger.info(f'Env: {sorted(os.environ)}')
 app = Flask(__name__)
 app.config['SECRET_KEY'] = os.environ['REPO_TOKEN']
 app.json.compact = False
@@ -111,7 +111,7 @@ def cors_preflight(nsid_rest=None):
 @app.route(f'/xrpc/app.bsky.<nsid_rest>', methods=['GET', 'POST'])
 def proxy_appview(nsid_rest=None):
     url = urljoin('https://' + os.environ['APPVIEW_HOST'], request.full_path)
-    logger.info(f'requests.{request.method} {url} {APPVIEW_HEADERS}')
+    logger.info(f'requests.{request.method} {url}')
     resp = requests.request(request.method, url, headers=APPVIEW_HEADERS)
     logger.info(f'Received {resp.status_code}: {"" if resp.ok else resp.text[:500]}')
     resp.headers.pop('Transfer-Encoding', None)
-- 
2.43.0


From 77d316541ce0475d131ec10a4790eef75e09ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 19/31] fix: MemorySequences.allocate: make thread safe

---
 arroba/storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 131f9c3..5727be4 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,7 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
-
+import threading
 
 import dag_cbor
 from multiformats import CID, multicodec, multihash
@@ -667,12 +667,14 @@ class MemorySequences(Sequences):
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] += 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From edd3b174233f0cab1ec406c8293e735f802da331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 20/31] fix: don't trust a sequence number batch whose
 transaction didn't commit

MemcacheSequences.allocate raised max_seqs inside the transaction that stores it. If that
transaction then failed to commit, later numbers were handed out beyond the stored one, and
handed out again once memcache was evicted.
---
 arroba/datastore_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index e9722fb..70a5a73 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -367,11 +367,12 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
                 stored_seq.next = seq + MEMCACHE_SEQUENCE_BATCH
                 logger.info(f'allocating {MEMCACHE_SEQUENCE_BATCH} seqs batch for {nsid}, up to {stored_seq.next}')
                 stored_seq.put()
-            self.max_seqs[nsid] = stored_seq.next
+            return stored_seq.next
 
         with self.max_seqs_lock:
             if self.max_seqs.get(nsid, 0) - seq < MEMCACHE_SEQUENCE_BUFFER:
-                alloc_batch()
+                # only update max_seqs once the transaction has committed
+                self.max_seqs[nsid] = alloc_batch()
 
         assert seq and seq <= self.max_seqs[nsid], (seq, self.max_seqs[nsid])
         logger.info(f'allocated seq {seq}')
-- 
2.43.0


From 84ae6e4e6e533323b50a56ae7dccb0f19ecd50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 21/31] fix: MemoryStorage.read_many_raw failed on a block that
 isn't stored

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 5727be4..e3a9ec2 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -736,7 +736,8 @@ class MemoryStorage(Storage):
 
     def read_many_raw(self, cids):
         blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)
+                if block}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From 2026bda99e751a9407aa5c74eb9a39a16e7d2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 22/31] fix: don't emit events to a pre-rollback subscriber
 twice

---
 arroba/firehose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index ff4c902..8a506b8 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -161,6 +161,9 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            # other subscribers may merge events we've already emitted into rollback
+            # before we get there. don't emit them again.
+            cursor = payload['seq'] + 1
             yield (header, payload)
 
     # hand off to rollback window and new events
-- 
2.43.0


From 359e2043ef08969ac76d414456bf5db7f1070b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 23/31] fix: don't skip events when the rollback window moves
 past a subscriber

---
 arroba/firehose.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 8a506b8..5ad7648 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,8 +123,14 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
-    if cursor is not None and cursor < rollback_start:
+    while cursor is not None and not handoff:
+        with lock:
+            rollback_start = rollback[0][1]['seq'] if rollback else 0
+            if cursor >= rollback_start:
+                handoff = rollback.copy()
+                break
+
+        start = cursor
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
         pre_rollback = []  # events prior to rollback window that we load here
@@ -166,6 +172,11 @@ def subscribe(cursor=None):
             cursor = payload['seq'] + 1
             yield (header, payload)
 
+        # if we read everything before we reached the rollback window, the window has
+        # moved on since we started. catch up with it.
+        if cursor == start:
+            break
+
     # hand off to rollback window and new events
     if cursor is not None:
         if not handoff:
-- 
2.43.0


From 589be0a71b4a950fad6d7cb259db0c920adab0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 24/31] fix: MemcacheSequences.allocate: don't read AtpSequence
 in commit transactions

---
 arroba/datastore_storage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 70a5a73..017c140 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -348,12 +348,17 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
         assert MEMCACHE_SEQUENCE_BATCH > MEMCACHE_SEQUENCE_BUFFER > 1, \
             (MEMCACHE_SEQUENCE_BATCH, MEMCACHE_SEQUENCE_BUFFER)
 
+        # don't include this in commit transactions! see DatastoreSequences.allocate
+        @ndb.non_transactional()
+        def stored_max():
+            return AtpSequence.get_or_insert(nsid, next=1).next - 1
+
         key = self._memcache_key(nsid)
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
             with self.max_seqs_lock:
                 # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
+                self.max_seqs[nsid] = stored_max()
                 # we'll allocate a new batch below
                 if self.memcache.add(key, self.max_seqs[nsid]):
                     logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
-- 
2.43.0


From 450eb28db9c31211c6b478c9b9b1be53f55c5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 25/31] fix: rollback_plc: return the new DidPlc, as documented

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..1db51cf 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -321,7 +321,8 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did,
+                               post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From 01283eba7f4e98aa19b5a9909572cb17fad47373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 26/31] fix: Repo.create: announce the first commit to the
 callback only once

Storage.commit already calls it.
---
 arroba/repo.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/arroba/repo.py b/arroba/repo.py
index efa515a..c849544 100644
--- a/arroba/repo.py
+++ b/arroba/repo.py
@@ -171,9 +171,6 @@ class Repo:
                             rev=commit.decoded['rev'])
 
         storage.create_repo(repo)
-        if repo.callback:
-            repo.callback(data=initial_commit)
-
         return repo
 
     @classmethod
-- 
2.43.0


From f46f6206b4916bd704c8ff2ef945f13459ea1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 27/31] fix: verify_sig: reject high-S signatures

---
 arroba/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index fe54546..556f8f8 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -356,6 +356,11 @@ def verify_sig(obj, public_key):
 
     r = int.from_bytes(sig[:32], 'big')
     s = int.from_bytes(sig[32:], 'big')
+    # https://atproto.com/specs/cryptography#ecdsa-signature-malleability
+    if s > public_key.curve.group_order // 2:
+        logger.debug('Expected low-S signature')
+        return False
+
     der_sig = encode_dss_signature(r, s)
 
     try:
-- 
2.43.0


From 996bd3dd51c80aad17e5f44286cea7f9ecb46c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 28/31] fix: maybe_fetch: recover when the first fetch of a
 blob doesn't finish

---
 arroba/datastore_storage.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 017c140..3d19c38 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -501,8 +501,11 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           get_fn (callable, optional): for making HTTP GET requests
         """
-        if ((self.cid or self.last_fetched)
-            and self.mime_type.split('/')[0] not in BLOB_REFETCH_TYPES):
+        if not self.mime_type:
+            # we've never finished fetching this, eg we crashed part way through
+            pass
+        elif ((self.cid or self.last_fetched)
+              and self.mime_type.split('/')[0] not in BLOB_REFETCH_TYPES):
             # already fetched, and we don't refetch this type
             return
         elif (self.last_fetched
@@ -545,11 +548,20 @@ class AtpRemoteBlob(ndb.Model):
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
+        # we're streaming, so this is where the body is downloaded
+        try:
+            content = resp.content
+        except OSError as e:
+            if not self.cid:
+                self.status = 'inactive'
+                self.put()
+            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
+
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
+        digest = multihash.digest(content, 'sha2-256')
         self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
+        self.size = len(content)
+        self.generate_metadata(content)
         self.status = None
         self.put()
 
-- 
2.43.0


From 2a707c43b7cdabbc315cd3326e4462cf9bbf7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:01 +0000
Subject: [PATCH 29/31] fix: maybe_fetch: fetch blobs that were never
 completely fetched

An unfinished blob's MIME type isn't unset, it's the property's default, so the previous
fix didn't see it.
---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 3d19c38..2216889 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -501,7 +501,7 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           get_fn (callable, optional): for making HTTP GET requests
         """
-        if not self.mime_type:
+        if not self.cid and not self.size:
             # we've never finished fetching this, eg we crashed part way through
             pass
         elif ((self.cid or self.last_fetched)
-- 
2.43.0


From 9714736627fe5545f6e06e7c8d5b0c8191ac2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 30/31] fix: Storage.commit: a local variable hid type() in an
 assertion's message

---
 arroba/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index e3a9ec2..8d5f3b1 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -585,11 +585,11 @@ class Storage:
 
             # raises ValidationError if it doesn't validate
             assert write.record is not None
-            type = write.record.get('$type')
-            server.validate(type, 'record', write.record)
+            record_type = write.record.get('$type')
+            server.validate(record_type, 'record', write.record)
             # read_events_by_seq would misinterpret these
-            if ((type and not isinstance(type, str))
-                    or (type or '').startswith(f'{SUBSCRIBE_REPOS_NSID}#')
+            if ((record_type and not isinstance(record_type, str))
+                    or (record_type or '').startswith(f'{SUBSCRIBE_REPOS_NSID}#')
                     or write.record.keys() == COMMIT_FIELDS):
                 raise ValueError(f"{path} isn't a record")
 
-- 
2.43.0


From a2ed9013bee131501536ca72bb1803b0b4a94053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 31/31] fix: create_identity: new_key wasn't imported

---
 create_identity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/create_identity.py b/create_identity.py
index fd7e38d..9a83073 100755
--- a/create_identity.py
+++ b/create_identity.py
@@ -22,6 +22,7 @@ import sys
 from cryptography.hazmat.primitives import serialization
 
 from arroba.did import create_plc
+from arroba.util import new_key
 
 logging.basicConfig()
 logging.getLogger().setLevel(logging.DEBUG)
-- 
2.43.0

