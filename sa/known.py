"""The functions that exist on the analysed baseline.

Rules keep these abstract unless they ask to look inside them. Functions that
aren't listed here, eg helpers that a refactoring extracts, are always analysed
as part of their callers.
"""
KNOWN = frozenset('''
app.cors_preflight
app.get_preferences
app.health_check
app.homepage
app.ndb_context_middleware
app.options_preferences
app.proxy_appview
app.put_preferences
app.repo_callback
app.request_crawl
arroba.datastore_storage.AtpBlock.cid
arroba.datastore_storage.AtpBlock.create
arroba.datastore_storage.AtpBlock.decoded
arroba.datastore_storage.AtpBlock.from_block
arroba.datastore_storage.AtpBlock.to_block
arroba.datastore_storage.AtpRemoteBlob.as_object
arroba.datastore_storage.AtpRemoteBlob.generate_metadata
arroba.datastore_storage.AtpRemoteBlob.get_or_create
arroba.datastore_storage.AtpRemoteBlob.maybe_fetch
arroba.datastore_storage.AtpRemoteBlob.validate
arroba.datastore_storage.AtpRepo.rotation_key
arroba.datastore_storage.AtpRepo.signing_key
arroba.datastore_storage.DatastoreSequences.allocate
arroba.datastore_storage.DatastoreSequences.last
arroba.datastore_storage.DatastoreStorage.__init__
arroba.datastore_storage.DatastoreStorage._commit
arroba.datastore_storage.DatastoreStorage._set_repo_status
arroba.datastore_storage.DatastoreStorage.create_repo
arroba.datastore_storage.DatastoreStorage.has
arroba.datastore_storage.DatastoreStorage.load_repo
arroba.datastore_storage.DatastoreStorage.load_repos
arroba.datastore_storage.DatastoreStorage.read
arroba.datastore_storage.DatastoreStorage.read_blocks_by_seq
arroba.datastore_storage.DatastoreStorage.read_many
arroba.datastore_storage.DatastoreStorage.read_many_raw
arroba.datastore_storage.DatastoreStorage.store_repo
arroba.datastore_storage.DatastoreStorage.write
arroba.datastore_storage.DatastoreStorage.write_blocks
arroba.datastore_storage.MemcacheSequences.__init__
arroba.datastore_storage.MemcacheSequences._memcache_key
arroba.datastore_storage.MemcacheSequences.allocate
arroba.datastore_storage.MemcacheSequences.last
arroba.datastore_storage.NdbMixin.__init__
arroba.datastore_storage.ndb_context
arroba.did.create_plc
arroba.did.decode_did_key
arroba.did.encode_did_key
arroba.did.get_handle
arroba.did.get_signing_key
arroba.did.plc_operation_to_did_doc
arroba.did.resolve
arroba.did.resolve_handle
arroba.did.resolve_plc
arroba.did.resolve_web
arroba.did.rollback_plc
arroba.did.update_plc
arroba.did.write_plc
arroba.did.write_plc_operation
arroba.diff.Diff.__init__
arroba.diff.Diff.add_diff
arroba.diff.Diff.of
arroba.diff.Diff.record_add
arroba.diff.Diff.record_delete
arroba.diff.Diff.record_new_cid
arroba.diff.Diff.record_removed_cid
arroba.diff.Diff.record_update
arroba.diff.Diff.updated_keys
arroba.diff.mst_diff
arroba.diff.null_diff
arroba.firehose.Collector.__init__
arroba.firehose.Collector._collect
arroba.firehose.Collector.run
arroba.firehose.mark_seq_lost
arroba.firehose.non_monotonic
arroba.firehose.process_event
arroba.firehose.reset
arroba.firehose.send_events
arroba.firehose.start
arroba.firehose.subscribe
arroba.memcache.Lease.__enter__
arroba.memcache.Lease.__exit__
arroba.memcache.Lease.__init__
arroba.memcache.Lease.acquire
arroba.memcache.Lease.release
arroba.mst.MST.__eq__
arroba.mst.MST.__init__
arroba.mst.MST.__repr__
arroba.mst.MST.__unicode__
arroba.mst.MST.add
arroba.mst.MST.add_covering_proofs
arroba.mst.MST.all_nodes
arroba.mst.MST.append
arroba.mst.MST.append_merge
arroba.mst.MST.at_index
arroba.mst.MST.attempt_get_layer
arroba.mst.MST.cids_for_path
arroba.mst.MST.create
arroba.mst.MST.create_child
arroba.mst.MST.create_parent
arroba.mst.MST.delete
arroba.mst.MST.delete_recurse
arroba.mst.MST.find_gt_or_equal_leaf_index
arroba.mst.MST.get
arroba.mst.MST.get_entries
arroba.mst.MST.get_layer
arroba.mst.MST.get_pointer
arroba.mst.MST.get_unstored_blocks
arroba.mst.MST.leaf_count
arroba.mst.MST.leaves
arroba.mst.MST.list
arroba.mst.MST.list_with_prefix
arroba.mst.MST.load
arroba.mst.MST.load_all
arroba.mst.MST.new_tree
arroba.mst.MST.prepend
arroba.mst.MST.remove_entry
arroba.mst.MST.replace_with_split
arroba.mst.MST.slice
arroba.mst.MST.splice_in
arroba.mst.MST.split_around
arroba.mst.MST.trim_top
arroba.mst.MST.update
arroba.mst.MST.update_entry
arroba.mst.MST.walk
arroba.mst.MST.walk_leaves_from
arroba.mst.Walker.__init__
arroba.mst.Walker.advance
arroba.mst.Walker.layer
arroba.mst.Walker.step_into
arroba.mst.Walker.step_over
arroba.mst.cid_for_entries
arroba.mst.common_prefix_len
arroba.mst.deserialize_node_data
arroba.mst.ensure_valid_key
arroba.mst.layer_for_entries
arroba.mst.leading_zeros_on_hash
arroba.mst.serialize_node_data
arroba.repo.Repo.__eq__
arroba.repo.Repo.__init__
arroba.repo.Repo.create
arroba.repo.Repo.did
arroba.repo.Repo.get_contents
arroba.repo.Repo.get_record
arroba.repo.Repo.load
arroba.repo.Repo.version
arroba.server.auth
arroba.server.load_repo
arroba.storage.Block.__eq__
arroba.storage.Block.__hash__
arroba.storage.Block.__init__
arroba.storage.Block.__str__
arroba.storage.Block.cid
arroba.storage.Block.decoded
arroba.storage.Block.encoded
arroba.storage.MemorySequences.__init__
arroba.storage.MemorySequences.allocate
arroba.storage.MemorySequences.last
arroba.storage.MemoryStorage.__init__
arroba.storage.MemoryStorage._set_repo_status
arroba.storage.MemoryStorage.create_repo
arroba.storage.MemoryStorage.has
arroba.storage.MemoryStorage.load_repo
arroba.storage.MemoryStorage.load_repos
arroba.storage.MemoryStorage.read
arroba.storage.MemoryStorage.read_blocks_by_seq
arroba.storage.MemoryStorage.read_many
arroba.storage.MemoryStorage.read_many_raw
arroba.storage.MemoryStorage.store_repo
arroba.storage.MemoryStorage.write
arroba.storage.MemoryStorage.write_blocks
arroba.storage.Sequences.__init__
arroba.storage.Sequences.allocate
arroba.storage.Sequences.last
arroba.storage.Storage.__init__
arroba.storage.Storage._commit
arroba.storage.Storage._tombstone_repo
arroba.storage.Storage.activate_repo
arroba.storage.Storage.commit
arroba.storage.Storage.create_repo
arroba.storage.Storage.deactivate_repo
arroba.storage.Storage.has
arroba.storage.Storage.load_repo
arroba.storage.Storage.load_repos
arroba.storage.Storage.read
arroba.storage.Storage.read_blocks_by_seq
arroba.storage.Storage.read_events_by_seq
arroba.storage.Storage.read_many
arroba.storage.Storage.read_many_raw
arroba.storage.Storage.store_repo
arroba.storage.Storage.tombstone_repo
arroba.storage.Storage.write
arroba.storage.Storage.write_blocks
arroba.storage.Storage.write_event
arroba.util.InactiveRepo.__init__
arroba.util.apply_low_s_mitigation
arroba.util.at_uri
arroba.util.dag_cbor_cid
arroba.util.datetime_to_tid
arroba.util.int_to_tid
arroba.util.new_key
arroba.util.next_tid
arroba.util.parse_at_uri
arroba.util.s32decode
arroba.util.s32encode
arroba.util.service_jwt
arroba.util.sign
arroba.util.tid_to_datetime
arroba.util.tid_to_int
arroba.util.time_ns
arroba.util.verify_sig
arroba.vis.render
arroba.vis.render_from_prod
arroba.vis.render_test_cases
arroba.xrpc_repo.apply_writes
arroba.xrpc_repo.create_record
arroba.xrpc_repo.delete_record
arroba.xrpc_repo.describe_repo
arroba.xrpc_repo.get_record
arroba.xrpc_repo.import_repo
arroba.xrpc_repo.list_records
arroba.xrpc_repo.put_record
arroba.xrpc_repo.upload_blob
arroba.xrpc_repo.validate
arroba.xrpc_server.create_session
arroba.xrpc_server.describe_server
arroba.xrpc_server.get_account_invite_codes
arroba.xrpc_server.get_session
arroba.xrpc_server.list_app_passwords
arroba.xrpc_server.refresh_session
arroba.xrpc_sync.get_blob
arroba.xrpc_sync.get_blocks
arroba.xrpc_sync.get_checkout
arroba.xrpc_sync.get_head
arroba.xrpc_sync.get_latest_commit
arroba.xrpc_sync.get_record
arroba.xrpc_sync.get_repo
arroba.xrpc_sync.get_repo_status
arroba.xrpc_sync.list_blobs
arroba.xrpc_sync.list_repos
arroba.xrpc_sync.subscribe_repos
scripts.getRepo_benchmark.cmd_bench
scripts.getRepo_benchmark.cmd_load
scripts.getRepo_benchmark.create_repo
scripts.getRepo_benchmark.fmt_s
scripts.getRepo_benchmark.main
scripts.getRepo_benchmark.mean
'''.split())
