MC = "src/metaserver/internal/controller/"
MS = "src/metaserver/internal/usecase/"
prop("C03", "Writes are served only by a leading, non-migrating owner of the key",
 "A request that changes records, over RPC or HTTP, is handed to the service only on a node that leads (or does not replicate) and while no slot migration is running on it; the migration's own receiving stream is the only exception to the latter. A request naming a record is served only by the node that owns the record's slot, and ownership is claimed only when the slot could be resolved. Members are added to or removed from a replication group only by its leader.",
 ["inputs", "configurations", "histories"], "all registered RPC methods and HTTP routes, all node roles and migration states",
 "Existing tests start no server; which method is covered by which interceptor depends on string tables and registration order that nothing else ties together.",
 [MC+"grpc/middleware.go", MC+"grpc/grpc.go", MC+"http/middleware.go", MC+"http/http.go", MC+"http/bucket_rest.go", MS+"logic/hashslot_logic.go"],
 [("interceptor chain", MC+"grpc/grpc.go"), ("checkWritableMethods and CheckKeySlot", MC+"grpc/middleware.go"), ("CheckInNormal, CheckLeaderInRaftMode, CheckKeySlot", MC+"http/middleware.go"), ("IsKeyOnThisServer", MS+"logic/hashslot_logic.go")],
 "route and interceptor extraction by exploring the server constructors, then path-sensitive abstract interpretation of every interceptor once per method",
 "Decides which guards hold before each handler; a role change between the check and the write is outside it (the replicated log itself refuses then).")
prop("C04", "Versions and their indexes change together",
 "In the metadata store, whenever a version of an object is stored, the same transaction enters it in the hash index under its own hash and in the unique-id index under its own unique id, and refuses it if that unique id is already present. Whenever a version is removed, alone or with its object, the same transaction removes exactly its own entries under the hash and unique id it was stored with. An object and the container of its versions are created and removed together.",
 ["inputs", "histories", "configurations"], "all operations of the metadata repositories that add or remove versions, plain and batched, for all stored contents",
 "The damage shows only later (a version that can never be added again, a location update that hits a record that is gone), after a remove or a migration followed by another operation; the tests run one operation on a fresh store.",
 [MS+"logic/metadata_logic.go", MS+"logic/hash_index_logic.go", MS+"logic/unique_id_index_logic.go", MS+"repo/metadata_repo.go", MS+"repo/batch_meta_repo.go"],
 [("AddVer, AddVerWithSequence, RemoveVer, RemoveMeta, RemoveVersionBucket", MS+"logic/metadata_logic.go"), ("hash index", MS+"logic/hash_index_logic.go"), ("unique-id index", MS+"logic/unique_id_index_logic.go")],
 "path-sensitive abstract interpretation of each repository operation with a model of the embedded store (bucket paths, keys, encoded and decoded records)",
 "Decides which index entries each committed path writes or removes, symbolically, for every record; the store's own transaction atomicity is assumed.")
prop("C05", "Additions never overwrite stored records, stale updates never roll them back",
 "Adding an object, version or bucket never replaces an existing record: it is stored only under a key found free in the same transaction. An update replaces only a record that exists, only if it is strictly newer than the stored one, and it cannot change the fields that identify the record (an object's bucket and creation time; a version's unique id, number and hash; a bucket's creation time). Each operation writes only under the key of the object it names.",
 ["inputs", "histories"], "all add and update operations of the metadata and bucket repositories, plain and batched, for all stored and submitted contents",
 "A lost or rolled-back record needs a particular order of duplicate or stale requests, such as retries and migrations produce; tests send each request once.",
 [MS+"logic/metadata_logic.go", MS+"logic/bucket_logic.go", MS+"repo/metadata_repo.go", MS+"repo/bucket_repo.go", MS+"repo/batch_meta_repo.go", MS+"repo/batch_bucket_repo.go"],
 [("AddMeta, UpdateMeta, AddVer, UpdateVer", MS+"logic/metadata_logic.go"), ("BucketCrud.Create, Update", MS+"logic/bucket_logic.go")],
 "path-sensitive abstract interpretation with a symbolic comparison of the stored and the written record on every committed path",
 "Decides the branch facts and field provenance at every write. Time stamps themselves are taken as given.")
prop("C06", "Replacing the store never loses accepted writes or wedges the server",
 "A write to the metadata store starts only if the store was seen not being replaced. Replacing the store (when a snapshot is received) happens only while this call holds the read-only gate, which is given back on every path, also when the replacement fails; no other path opens it. The replacement is used only if it could be opened, and the store in use is closed only after the exchange; success is reported exactly if the store was exchanged.",
 ["inputs", "fault_sequences", "histories"], "every function of the metadata server that starts a write transaction or opens or swaps the store file",
 "Needs a snapshot arriving while requests are served, or a replacement file that is damaged; no test replaces a store.",
 [MS+"db/storage.go", MS+"repo/metadata_repo.go", MS+"repo/batch_meta_repo.go"],
 [("Storage.Update, Batch, Open, Replace", MS+"db/storage.go")],
 "path-sensitive abstract interpretation with branch facts about the atomic gate and handle (typestate of the store)",
 "A write that saw the gate open and then waits for the old store while it is swapped is not excluded: the gate is a check, not a lock (documented).")
prop("C09", "Migration status: one transition system, always given back",
 "The slot-migration status of a metadata server changes only by compare-and-swap from idle to sending, receiving or closed, and from sending or receiving back to idle; each operation reports success exactly if its change took place. Slot ownership in the registry is written only on paths that saw the status idle. Every operation that runs or prepares a migration gives the status back on every path, including failures, broken streams and a reception that never starts, and only a stream that ended regularly counts as a complete migration.",
 ["inputs", "fault_sequences", "histories", "schedules"], "all operations of the slot store, all callers that obtain or end a migration status, and the RPC handlers that drive them",
 "A status that sticks shows only as writes being refused after some failure in the middle of a migration between two servers; no test runs a migration.",
 [MS+"db/hashslot_db.go", MS+"service/hashslot_service.go", MC+"grpc/hashslot_server.go"],
 [("HashSlotDB", MS+"db/hashslot_db.go"), ("PrepareMigrationTo/From, AutoMigrate, FinishReceiveItem", MS+"service/hashslot_service.go"), ("StartMigration, StreamingReceive", MC+"grpc/hashslot_server.go")],
 "extraction of the status transition relation plus path-sensitive typestate analysis of every holder of the status",
 "The registry's own behaviour and two servers' clocks are outside; panics are covered only where a defer gives the status back.")
prop("C11", "Snapshots are complete or reported as failed, restores too",
 "Writing a snapshot of the metadata store reports success only after the whole state was written, the compressor was closed and the sink was closed, each without error; after any failure the sink is cancelled and never closed as complete. Restoring puts a store in place only after all of the received data was written to an emptied file that was closed without error, reports success only if that file is the one put in place, and drops everything cached from the old store.",
 ["inputs", "fault_sequences"], "the state machine's snapshot and restore, on all error outcomes of every step",
 "A truncated snapshot goes unnoticed until a restart or a new follower needs it, when the log it replaced is gone; no test makes a write fail.",
 [MS+"raftimpl/fsm_impl.go", MS+"repo/metadata_repo.go", MS+"db/storage.go"],
 [("snapshot.Persist, FSMImpl.Restore", MS+"raftimpl/fsm_impl.go"), ("MetadataRepo.Restore", MS+"repo/metadata_repo.go")],
 "path-sensitive abstract interpretation of both operations over all error outcomes (typestate of sink, compressor and file)",
 "That the written bytes are those of one consistent read transaction is the embedded store's guarantee and assumed.")
prop("C07", "Cached records never differ from the committed ones",
 "Every operation of the record cache on one kind of record uses the same key, and keys of different kinds never collide, whatever the records are called. After a change of a record is committed and before it is reported, its cached copy is replaced by the committed record or dropped, and removing an object or its versions drops the copies of all of them; nothing is cached whose change was not committed, and a read caches only the record it read, under the name it read it by. A record is served from the cache only if the cache has it and could decode it, and all record caches share the one store that is emptied when the database is replaced.",
 ["inputs", "histories", "configurations"], "all cache operations and all repository methods that commit or read cached records, plain and batched, for all names and contents",
 "A stale copy appears only after a particular order of reads and changes of the same record, on the path (plain, batched) where the cache update was forgotten; the existing tests never read after a change.",
 [MS+"repo/metadata_repo.go", MS+"repo/batch_meta_repo.go", MS+"repo/bucket_repo.go", MS+"repo/batch_bucket_repo.go", MS+"repo/metadata_cache_repo.go", MS+"repo/bucket_cache_repo.go"],
 [("MetadataCacheRepo, BucketCacheRepo", MS+"repo/metadata_cache_repo.go"), ("MetadataRepo", MS+"repo/metadata_repo.go"), ("BatchMetaRepo", MS+"repo/batch_meta_repo.go"), ("BucketRepo, BatchBucketRepo", MS+"repo/bucket_repo.go")],
 "key template extraction and comparison plus path-sensitive abstract interpretation (typestate of commit and cache operations) of every repository method",
 "A read that misses, loses the processor and fills the cache after a concurrent change is not excluded (schedules are outside); expiry only drops records.")
prop("C10", "A migration never loses a record of the slots it moves",
 "While records are sent to another server, every step that did not provably succeed (reading, sending, the receiver's answer) leaves an error in what the sending function returns, and every version of an object is sent unless one was recorded. Slots are given up only if sending recorded no error; the migrated records are removed from the sender, and success reported, only after that and after the receiver ended the stream regularly, otherwise the slots are taken back. The receiver acknowledges a record only if it is stored or already there, and takes over slots only for a stream reported as successful.",
 ["inputs", "fault_sequences", "histories"], "the sending and receiving side of slot migration on all outcomes of every read, send, answer and save",
 "Loss needs a failure of one particular step in the middle of a stream between two servers, after which the sender deletes its copy; no test runs a migration.",
 [MS+"service/hashslot_service.go", MC+"grpc/hashslot_server.go"],
 [("AutoMigrate, sendBucket, sendMetadata", MS+"service/hashslot_service.go"), ("ReceiveItem, FinishReceiveItem", MS+"service/hashslot_service.go"), ("StreamingReceive", MC+"grpc/hashslot_server.go")],
 "path-sensitive abstract interpretation of both sides with error-accumulation facts (which failures provably reach the returned errors) and event order",
 "Writes the sender accepts between the end of sending and giving up the slots, and store errors hidden by the iteration helpers, are outside (DESIGN.md).")
prop("C33", "Version order is numeric and pages of versions are complete",
 "The first and latest version of an object are determined by the numeric order of version numbers, never by the order of stored keys, which is that of text. A read without a version number returns the version with the highest number. Pages of versions are bounded by positions in that order, never by version numbers, which have gaps once versions were removed.",
 ["inputs", "histories"], "all functions of the metadata server that look at the versions of an object, for all sets of version numbers",
 "Needs an object with ten or more versions, or one whose old versions were removed by the retention rule, before it is read or listed; tests use one version.",
 [MS+"logic/metadata_logic.go", MS+"repo/metadata_repo.go", MS+"service/metadata_service.go"],
 [("VersionNumbers, GetExtra", MS+"logic/metadata_logic.go"), ("versionRange, ListVersions", MS+"repo/metadata_repo.go"), ("GetVersion", MS+"service/metadata_service.go")],
 "path-sensitive abstract interpretation with provenance of version numbers (sorted list, cursor position, parameter) and a check of every numeric sort's comparison",
 "That the page arithmetic of callers covers all positions is not decided.")
