AP = "src/apiserver/internal/"
OS = "src/objectserver/internal/"
CO = "src/common/"
prop("C08", "Memory of the embedded stores never outlives its transaction",
 "Keys and values handed out by the embedded key-value stores, and strings or slices over the same memory, are used only while the transaction they were read in is open. Nothing that is returned to callers outside it, collected by a callback, kept in a variable, sent over a channel or given to a goroutine shares that memory; what leaves is a copy. That memory is also never written to or appended to.",
 ["inputs", "histories", "schedules"], "every read of the embedded stores in all modules, through every conversion, helper, closure and callback",
 "The sharing shows only when a later write reuses or unmaps the page, which depends on the file's size and on what else is stored; most tests see unchanged bytes.",
 [MS+"repo/metadata_repo.go", MS+"logic/metadata_logic.go", MS+"logic/hash_index_logic.go", MS+"logic/bucket_logic.go", OS+"db/object_path_cache.go", CO+"performance/local_store.go"],
 [("GetMetadataBytes, ForeachVersionBytes", MS+"repo/metadata_repo.go"), ("ForeachKeys", MS+"logic/metadata_logic.go"), ("PathCache", OS+"db/object_path_cache.go"), ("LocalStore.Get", CO+"performance/local_store.go")],
 "interprocedural flow-insensitive taint (escape) analysis over SSA with per-function summaries, from store reads to code outside the transaction",
 "Which library calls copy and which share is a fixed table; function values are resolved by signature.")
prop("C16", "A version is recorded only after its data is stored, verified and as stored",
 "On the API server a new version is recorded only after its data was committed to storage nodes without error, or all its shards were located there; uploaded data is committed only after all of it was written and, with checksums on, its digest equalled the one the client gave. The recorded hash and locations are those the data was stored or located under, and the hash was computed with the version's own strategy, shard numbers and compression. A resumed upload is continued only at the size it has reached, and its token says where and under which names, hash and digest its data is kept.",
 ["inputs", "fault_sequences", "histories"], "every operation of the API server that records a version (plain and resumable uploads, deduplicated ones), on every outcome of every read, write, lookup and commit",
 "The loss needs one particular storage node or read to fail between two steps of an upload; the object then is acknowledged and listed but cannot be read. No test runs an upload.",
 [AP+"usecase/service/object_service.go", AP+"controller/http/big_api.go", AP+"usecase/service/rs_resumable_stream.go", CO+"util/crypto/crypto.go"],
 [("StoreObject, streamToDataServer, LocateObject", AP+"usecase/service/object_service.go"), ("Post, Patch, finishUpload", AP+"controller/http/big_api.go"), ("resumeToken, Verify", AP+"usecase/service/rs_resumable_stream.go")],
 "path-sensitive interprocedural abstract interpretation (event typestate: opened, written, verified, committed, recorded) with provenance of the recorded fields",
 "That streams report failed writes is a separate property; two clients continuing the same resumable upload at once are outside.")
prop("C18", "A failed lookup is never taken for a missing object",
 "The API server records a version only if the object's metadata was looked up without error or the failure carries exactly the status \"not found\", and only if its bucket was looked up without error. What is looked up in the background is used only after it was waited for.",
 ["inputs", "fault_sequences", "schedules"], "every operation of the API server that records a version, on every outcome of the lookups and every order in which they end",
 "Needs a metadata server that is slow, without leader or unreachable for exactly one of several requests; tests with a healthy server never see it.",
 [AP+"usecase/service/object_service.go", AP+"controller/http/big_api.go", CO+"response/errors.go", CO+"util/done_group.go"],
 [("StoreObject", AP+"usecase/service/object_service.go"), ("finishUpload", AP+"controller/http/big_api.go"), ("CheckErrStatus", CO+"response/errors.go")],
 "path-sensitive interprocedural abstract interpretation (typestate of lookups, with joined goroutines inlined)",
 "That the metadata servers answer \"not found\" only for missing objects is not part of this property.")
prop("C19", "Bucket settings are enforced on every write",
 "Object data is stored and versions are recorded only after the bucket they are recorded in was read without error and found not to be read-only, and in a bucket that forces compression the content hash is computed for compressed data. An old version is removed only after the new one was recorded in the same object without error, only if the bucket keeps no versions or the object already holds as many as the bucket keeps, and it is the first version of the object as it was read.",
 ["inputs", "histories", "configurations"], "every operation of the API server that stores data or records or removes a version, for every bucket setting and object state",
 "Each upload path applies the settings on its own, at several moments; tests do not combine bucket settings with upload paths.",
 [AP+"usecase/service/object_service.go", AP+"controller/http/big_api.go", AP+"entity/metadata.go"],
 [("StoreObject", AP+"usecase/service/object_service.go"), ("Post, Patch, finishUpload", AP+"controller/http/big_api.go"), ("Bucket.MakeVersion", AP+"entity/metadata.go")],
 "path-sensitive interprocedural abstract interpretation (branch facts on the bucket's fields at each store, commit, record and removal)",
 "A bucket made read-only after it was read, and concurrent uploads that both remove the same version, are outside.")
prop("C35", "A request to another server succeeds only if the answer says so",
 "Every function that asks another server (HTTP request or remote call) and reports an error reports success only if the request had no error and the answer had a status of success (2xx) or, for commands, says so. An error of another server is converted to no error only if there was none.",
 ["fault_sequences", "inputs"], "every function in all modules that sends HTTP requests or unary remote calls and has an error result, on every outcome of each request",
 "The tests have no servers that answer with failures; a missed status shows only when one particular server fails in one particular way.",
 [AP+"usecase/webapi/object_server.go", AP+"usecase/webapi/meta_server.go", AP+"usecase/grpcapi/meta_server.go", CO+"proto/generate.go", "src/metaserver/internal/controller/grpc/raft_cmd_server.go", OS+"controller/grpc/migration_server.go", "src/adminserver/internal/usecase/logic/metadata_logic.go"],
 [("PutTmpObject, HeadObject, PutObject", AP+"usecase/webapi/object_server.go"), ("SaveVersion, GetBucket", AP+"usecase/grpcapi/meta_server.go"), ("ResolveErr, ResolveResponse", CO+"proto/generate.go"), ("JoinCommand", OS+"controller/grpc/migration_server.go"), ("LeaveRaftCluster", "src/adminserver/internal/usecase/logic/metadata_logic.go")],
 "path-sensitive interprocedural abstract interpretation (each request must be settled by branch facts on its error, status and answer where success is reported)",
 "A function that hands the HTTP answer on leaves its status to the caller, which is then judged; answers of streams are judged by C10; functions without an error result are outside.")
prop("C17", "The API server reports a write as done only if all of it was",
 "Every function of the API server that writes to other servers and reports an error reports success only if none of its writes failed, the goroutines it started to write are done (unless the configuration asks for asynchronous work), what is buffered was written, and Commit(true) made the temporary object permanent or the stream had ended before. Waiting for a group gives no error only if everything is done and no error or panic was delivered.",
 ["inputs", "fault_sequences", "schedules"], "every function of the API server's use cases (streams, encoder, services, repositories) that writes to other servers and has an error result, and the done groups, on every outcome of each write",
 "Data is written by many goroutines to many servers; the loss needs one of them to fail at one moment. No test writes to servers.",
 [AP+"usecase/service/rs_encoder.go", AP+"usecase/service/copy_put_stream.go", AP+"usecase/service/rs_put_stream.go", AP+"usecase/service/put_stream.go", AP+"usecase/repo/version_repo.go", AP+"usecase/service/object_service.go", CO+"util/done_group.go"],
 [("rsEncoder.Write, Flush", AP+"usecase/service/rs_encoder.go"), ("Commit", AP+"usecase/service/rs_put_stream.go"), ("WaitUntilError, Done", CO+"util/done_group.go")],
 "path-sensitive interprocedural abstract interpretation (writes as obligations that branch facts must discharge where success is reported; joined goroutines inlined)",
 "That each request's own success is real is C35; that a write is given the right bytes is outside.")
prop("C15", "With authentication on, no request gets through without proof",
 "A route of the API server that works on objects, metadata or buckets runs its handler only if authentication is off, the route is on the white list, name and password of the request both equal the stored credential (looked up and decoded without error), or the enabled callback answered with success. A request that is turned away gets an answer, never one of success. The stored credential is written at start only if the lookup had no error and found none.",
 ["inputs", "configurations", "fault_sequences"], "every route registered by the API server, for every authentication setting and every outcome of the lookups, in every order of the handlers in front of it",
 "A hole needs one particular combination of settings, request and failure (callback down, etcd down, one of two values right); the tests start no authenticated server.",
 [AP+"usecase/componet/auth/auth_middleware.go", AP+"usecase/componet/auth/password_validator.go", AP+"usecase/componet/auth/callback_validator.go", AP+"controller/http/server.go"],
 [("AuthenticationMiddleware", AP+"usecase/componet/auth/auth_middleware.go"), ("PasswordValidator.Verify, init", AP+"usecase/componet/auth/password_validator.go"), ("CallbackValidator.Verify", AP+"usecase/componet/auth/callback_validator.go"), ("NewHttpServer", AP+"controller/http/server.go")],
 "path-sensitive abstract interpretation of the routes' handler chains (route table from the engine's construction, values kept in the request's context, branch facts as proofs)",
 "What the callback is asked is not judged; servers other than the API server have no authentication.")
prop("C12", "A stored object is whole, and its name says so",
 "On an object server a file gets the name of an object only by being moved there after every write to it and closing it succeeded; no file with such a name is opened for writing. Storing an object or committing an upload is acknowledged only if a file of that name was seen on the disk or moved there without error, and an object is marked as existing only where it was seen; removing is acknowledged only after each file found was removed and the mark dropped. Readers between network and disk report the end of the data only if their source did. Files made up on the way are moved or removed, and what is stored and removed is counted in the capacity.",
 ["inputs", "fault_sequences", "crash_points"], "every HTTP handler, remote method, background function and start-up function of the object server that works on files, on every outcome of each file operation",
 "The damage needs a full disk, a broken connection or a crash in the middle of a write; what remains is a file with the right name and wrong content. The object server has no tests.",
 [OS+"usecase/service/objects_service.go", OS+"usecase/service/migration_service.go", OS+"controller/http/objects/objects_rest.go", OS+"controller/http/temp/temp_rest.go", CO+"system/disk/aligend_reader.go"],
 [("Put, SaveAs, CommitFile, Delete", OS+"usecase/service/objects_service.go"), ("ReceivingFile.Finish", OS+"usecase/service/migration_service.go"), ("AlignedReader.Read", CO+"system/disk/aligend_reader.go"), ("FindMountPath", OS+"usecase/component/driver_manager.go")],
 "path-sensitive interprocedural abstract interpretation (typestate of files: created, written, closed, renamed, removed, seen) from every entry point that reaches file operations",
 "Data is not forced to the disk before the answer, so a power loss is outside; a file that cannot be looked at counts as missing.")
prop("C13", "A temporary upload keeps its data and leaves nothing behind",
 "On an object server a request about a temporary upload works only on the file of the record found for the id it names. Adding data is acknowledged only if it was appended and opening, writing and closing the file succeeded; the size is answered only if the file was looked at or is known not to exist; starting is acknowledged only if the record was kept under the answered id with the name, size and place of the upload. The record is dropped where the upload was committed under the name of its record or removed, and only there. The file of every record that leaves the cache is removed, every such entry reaches every listener, and files left over at start are removed and neither taken as objects nor counted.",
 ["inputs", "fault_sequences", "schedules", "crash_points"], "every request about temporary uploads, the background cleaners, the cache's removal callback and the start of the object server, on every outcome of each lookup and file operation",
 "Temporary data goes wrong when a disk, a connection or a client fails between two requests, or when many uploads expire at once; the object server has no tests.",
 [OS+"controller/http/temp/temp_rest.go", OS+"usecase/service/temp_service.go", OS+"usecase/service/objects_service.go", CO+"cache/cache.go"],
 [("Post, Patch, Put, Head, Delete", OS+"controller/http/temp/temp_rest.go"), ("GetTempInfo, StartTempRemovalBackground", OS+"usecase/service/temp_service.go"), ("AppendFileAligned, CommitFile", OS+"usecase/service/objects_service.go"), ("Cache.onRemove", CO+"cache/cache.go")],
 "path-sensitive interprocedural abstract interpretation (typestate of upload records and their files, provenance of paths from the record looked up)",
 "Two requests about the same upload at once are outside; an entry whose listener never receives again is not delivered.")
prop("C14", "An object server answers reads with exactly the bytes asked for",
 "A request for an object, or for a temporary upload, is answered with success only after bytes of the file found under the name it asks for were copied without error, from the offset of its range on (of the plain data, if it is stored compressed) and not more than the size it asks for; or, from the cache, with exactly the part from the offset with that size, known to lie inside of what is cached under the same name and kind. Objects are stored compressed, and unpacked when read, if and only if the request asks for it. Content is cached only after the same bytes were stored, or read from the begin, without error, and dropped when the object is removed; keys of different users of the cache are kept apart. Files opened for direct I/O are read in whole pages.",
 ["inputs", "fault_sequences", "histories"], "every HTTP handler of the object server for objects and temporary uploads, for every offset, size and kind, cached or not, on every outcome of each file operation",
 "Offsets, sizes, compression and the state of the cache multiply; the object server has no tests.",
 [OS+"controller/http/objects/objects_rest.go", OS+"controller/http/objects/objects_cache.go", OS+"usecase/service/objects_service.go", OS+"controller/http/temp/temp_rest.go"],
 [("Get, Put, Delete, bindGet", OS+"controller/http/objects/objects_rest.go"), ("GetFromCache, contentKey, removeContent", OS+"controller/http/objects/objects_cache.go"), ("GetFile, GetFileCompress, Get", OS+"usecase/service/objects_service.go")],
 "path-sensitive interprocedural abstract interpretation (events of opening, seeking, skipping, limiting and copying with resolved readers and writers; linear facts for what is cut out of the cache)",
 "What the range header says is taken as parsed, overflow of numbers is not modelled, and data shorter than asked for (the end of the file) is not an error; a reader that fills the cache while the object is removed is outside.")
prop("C37", "Moving objects between object servers loses none of them",
 "Apart from removing what is asked to be removed, an object server removes the file of a stored object only after another complete file got its name there, or after the server it was sent to answered with success both to having received it and to taking it over; and that is only asked for after the whole file was read and sent without error. Receiving an object is answered with success only if every part was written as it was received and a file of the announced size got the name, or had it. Taking over is answered with success only if the file was seen with the announced size and every metadata server accepted the new location or does not know the object.",
 ["fault_sequences", "schedules", "crash_points"], "every place of the object server that removes files, the sending and receiving of objects and the taking over, on every outcome of each file operation, message and answer",
 "The loss needs a disk, stream, receiver or metadata server to fail at one moment of a transfer; nothing is tested.",
 [OS+"usecase/service/migration_service.go", OS+"controller/grpc/migration_server.go", OS+"usecase/service/objects_service.go"],
 [("SendingTo, sendFileTo, writeStream, FinishObject, ReceivingFile.Finish", OS+"usecase/service/migration_service.go"), ("ReceiveData, FinishReceive", OS+"controller/grpc/migration_server.go")],
 "path-sensitive interprocedural abstract interpretation (protocol events of the transfer as typestate, goroutines in line; each removal needs its proof)",
 "That a name has one file per server is not judged; bytes are compared by size only, as the protocol does.")
prop("C38", "What a request says does not lead a server to other files",
 "A path that a server gives to a file operation (opening, creating, looking at, renaming, removing, walking) contains text of a request (path, query, header or body of an HTTP request, field of a remote call, or a record made of them) only where the text is known to contain no separator and not to name the parent directory. Where the file of a temporary upload lies is decided by the server alone.",
 ["inputs"], "every file operation reached by the handlers, remote methods and background functions of the four servers, for every request",
 "No test sends hostile names; one entry point without a check is enough.",
 [OS+"usecase/service/objects_service.go", OS+"usecase/service/migration_service.go", OS+"controller/http/temp/temp_rest.go", OS+"usecase/component/driver_manager.go"],
 [("ValidName, FindRealStoragePath, Put, CommitFile", OS+"usecase/service/objects_service.go"), ("OpenFile, FinishObject", OS+"usecase/service/migration_service.go"), ("Post", OS+"controller/http/temp/temp_rest.go")],
 "path-sensitive interprocedural abstract interpretation (provenance of path elements; branch facts as sanitisers)",
 "Symbolic links inside of the storage directory, and the separators of other systems than the one built for, are outside; paths found in the path index are those put there under a checked name.")
prop("C34", "Lost shards and copies are repaired completely or not at all",
 "When an object is read that has lost shards or copies, a repaired shard is made permanent only if all of the data was read and every rebuilt block was written to it without error, one after the other; a repaired copy is stored only if all bytes of the object were read. What is written to a shard is the rebuilt block of the same shard, a shard that fails while it is read is left out from then on, and data is said to have ended only where all of it was rebuilt. Shards and copies are looked for and repaired under the name of their position. Locations are recorded whenever something was repaired, only after all that was repaired was stored without error, and they are those of all shards or copies, the new ones at the positions of the lost ones.",
 ["fault_sequences", "schedules", "inputs"], "the streams of the API server that read objects and repair them (constructors, decoder, closing), on every outcome of each request, read and write, for every shard and copy",
 "Repairing starts when a server is lost and goes wrong when another one fails meanwhile, or a client reads a part only; the tests read no object with a lost shard.",
 [AP+"usecase/service/rs_get_stream.go", AP+"usecase/service/rs_decoder.go", AP+"usecase/service/copy_get_stream.go", AP+"usecase/service/copy_fix_stream.go"],
 [("NewRSGetStream, provideGetStream, Close", AP+"usecase/service/rs_get_stream.go"), ("getData, waitRewrite", AP+"usecase/service/rs_decoder.go"), ("NewCopyGetStream", AP+"usecase/service/copy_get_stream.go"), ("CopyFixStream.Close, startFix", AP+"usecase/service/copy_fix_stream.go")],
 "path-sensitive interprocedural abstract interpretation (branch facts as proofs of completeness, element indices of readers, writers, names and locations, joined goroutines in line)",
 "The arithmetic of the erasure code is taken from the library; two readers that repair the same object at once are outside.")
prop("C36", "An object is read in the layout it was written in",
 "Wherever the API server makes the layout of an object cut into shards, for an upload, a resumable upload or reading, the size of its blocks is the same function of what the version of the object records (size, data and parity shards) and of the configuration, and no block is empty. Objects are written and read with hash, size, compression and locations of the version they are recorded in. Shards and copies are stored, continued, repaired and looked for under one scheme of names, at the location, id and place of their position, with one formula for their size. Each piece of a block goes to the shard of its position, parity only after it was computed. A resumable upload is continued, read back and recorded with layout, servers, ids and size it was started with.",
 ["inputs", "configurations", "histories"], "every place of the API server that makes a layout, an encoder, a decoder, a stream of a shard or copy, or a version of a resumable upload, for all sizes, numbers of shards and configured block sizes",
 "The tests use one layout and one size; layouts differ only for some combinations of size, shard number and block size, and writing and reading are different code.",
 ["src/apiserver/config/config.go", AP+"usecase/service/object_service.go", AP+"usecase/service/rs_put_stream.go", AP+"usecase/service/rs_get_stream.go", AP+"usecase/service/rs_encoder.go", AP+"usecase/service/rs_resumable_stream.go", AP+"entity/metadata.go", AP+"controller/http/big_api.go"],
 [("RsConfig.ForObject, ShardSize", "src/apiserver/config/config.go"), ("NewStreamProvider, GetObject", AP+"usecase/service/object_service.go"), ("Bucket.MakeConf", AP+"entity/metadata.go"), ("NewRSPutStream, newExistedRSPutStream", AP+"usecase/service/rs_put_stream.go"), ("rsEncoder.Flush", AP+"usecase/service/rs_encoder.go"), ("Post, Patch", AP+"controller/http/big_api.go")],
 "path-sensitive interprocedural abstract interpretation; the values at the places are rewritten as formulas over recorded fields and compared between the places",
 "The block size of the configuration is not recorded in a version, so changing it between writing and reading is outside; formulas are compared as written (up to commutation), equal numbers by other formulas would have to be written the same way.")
prop("C20", "Requests about metadata reach the group that owns them",
 "Every request that the API server sends to a metadata server about a version, an object or a bucket carries one key, and goes to the server that was looked up, without error, for the owner of the slot of the same key; requests that change something go to the server that announced the slots, others to it or to a member of its group that is registered. The key of an object is made of bucket and name in one way everywhere, and names in urls are escaped. The owner is looked up by the whole key among the slots announced by all servers, each taken as those of the server that announced them, or the lookup fails. Connections are kept and found under their address.",
 ["inputs", "configurations", "fault_sequences"], "every place of the API server that sends requests about metadata (gRPC and HTTP), the lookup of slots and servers and the pool of connections, on every outcome of each lookup",
 "With one metadata group, as the tests have it, every key has the same owner.",
 [AP+"usecase/repo/version_repo.go", AP+"usecase/repo/meta_repo.go", AP+"usecase/repo/bucket_repo.go", AP+"usecase/logic/discovery_logic.go", AP+"usecase/logic/hashslot_logic.go", AP+"usecase/grpcapi/base.go", AP+"usecase/webapi/bucket_api.go"],
 [("Find, Update, Add, Delete", AP+"usecase/repo/version_repo.go"), ("FindByName, Insert", AP+"usecase/repo/meta_repo.go"), ("Get, Update, Create, Delete", AP+"usecase/repo/bucket_repo.go"), ("SelectMetaServerGRPC, SelectMetaServerHttp, GetMetaServerGRPC", AP+"usecase/logic/discovery_logic.go"), ("KeySlotLocation", AP+"usecase/logic/hashslot_logic.go"), ("getConn", AP+"usecase/grpcapi/base.go")],
 "path-sensitive interprocedural abstract interpretation (provenance of addresses and keys from the sent message back to the lookup of the slot)",
 "The arithmetic of slots and ranges is taken from common/hashslot, which both sides use; slots that move between the lookup and the request are refused by the metadata server (C06).")
prop("C30", "Servers that register are found, and those that went are not",
 "Whatever fails in between, a server knows of each service it is configured for the servers registered in etcd: it reads the list of that service's keys, replaces what it knew by it, and watches the same keys from the revision it read, so that no change in between is lost; each registration it is told of is added with its key and address, each removal is removed. When reading or watching fails or ends, it starts over with the whole list, until it is closed, and then it ends. A running server keeps a lease: it asks for one until it is granted, stores it, tells all subscribers of it and keeps it alive, holds no lock while it waits, and asks for another one when it is lost, until it is closed; only then the lease is given back. A server registers its address under the lease it is told, below the key its service is looked for, before it begins to keep the lease, and removes the same key when it stops. When a metadata server becomes leader or follower it removes its key before it registers under the one of its new role.",
 ["fault_sequences", "schedules", "histories"], "the discovery loop of every service, the lease loop, registering and unregistering, change of role and the start of all servers that register, on every outcome of each request to etcd",
 "It takes an etcd that fails between two requests, a lease that is lost, or a watch that is cancelled; the tests run without etcd.",
 [CO+"registry/etcd_discovery.go", CO+"registry/etcd_lifecycle.go", CO+"registry/etcd_registry.go", CO+"registry/service_list.go", "src/metaserver/internal/usecase/logic/registry_logic.go", "src/apiserver/internal/app/app.go", "src/objectserver/internal/app/app.go", "src/metaserver/internal/app/app.go"],
 [("initService, follow", CO+"registry/etcd_discovery.go"), ("DeadLoop, notifying", CO+"registry/etcd_lifecycle.go"), ("Register, Unregister, AsMaster, AsSlave", CO+"registry/etcd_registry.go"), ("OnLeaderChanged", "src/metaserver/internal/usecase/logic/registry_logic.go")],
 "path-sensitive interprocedural abstract interpretation of the loops, with what was read, applied and told as typestate per round",
 "A registration that etcd refuses is only logged and tried again with the next lease; how long a dead server stays listed depends on the ttl; two changes of role at once are outside.")

prop("C27", "Shared state is used under its lock, and no lock is kept",
 "At any schedule of requests and background work: a map, a list or a slice that outlives a request and is changed while the servers run - and any other state of which one access is under the lock that guards it - is read and changed under one lock common to all its accesses, held for writing by those that change it; what is handed out of it is a copy. A variable that a goroutine shares with the function that started it, or with other goroutines, one of them changing it, is used by the others under a common lock, before the goroutine starts, or after it was waited for on that path - and each goroutine of a loop works on its own element, not on the one of the loop. Whatever is locked is unlocked on every path, nothing is unlocked that is not locked, no lock is asked for where the same goroutine may hold it already, and locks are nested in one order.",
 ["schedules"], "all functions of the five modules, from every handler, remote call, interceptor and goroutine: 119 roots, all calls resolved by variable type analysis, every place reachable from globals, receivers, captured variables and results",
 "Whether two accesses meet is a matter of scheduling: tests see one schedule, and the race detector only the accesses that happen to run.",
 ["src/common", "src/apiserver", "src/metaserver", "src/objectserver", "src/adminserver"],
 [("serviceList", CO+"registry/service_list.go"), ("Lifecycle", CO+"registry/etcd_lifecycle.go"), ("pmCollector", CO+"performance/collector.go"), ("Metadata.MetadataPaging, getConn", "src/adminserver/internal/usecase/logic/metadata_logic.go"), ("DriverManager", "src/objectserver/internal/usecase/component/driver_manager.go"), ("HashSlotDB", "src/metaserver/internal/usecase/db/hashslot_db.go"), ("FreeSpaceFirst, WeightedIOFirst", "src/apiserver/internal/usecase/componet/selector/space_first_selector.go")],
 "whole-program lockset dataflow: access paths named from their roots, disjunctive lock states per function with deferred unlocks, conditional locking and callbacks, summaries composed along a variable-type call graph",
 "Single words and strings that no access locks (such as a flag or a cached id), configuration structs and code that runs only while shutting down are outside; elements of a slice are told apart by index; what is stored into a fresh container and reached through it again is not followed; a panic with a lock held explicitly (not deferred) is outside.")
prop("C25", "Passwords are not given away",
 "For every configuration and every request: no password - of etcd, of the mail account, of the administrator, or the one a request carries (basic authentication or the Authorization header of the console) - is written to the log, put into an error, an answer or an address. A configuration that is shown over HTTP or gRPC has every password in it, and the user name beside it, replaced whatever the values are; the configuration the server runs with keeps its own, however often it is shown.",
 ["inputs", "configurations"], "every function that reads a secret field, a request's credential, or copies or boxes a structure with one, and what it hands them to; all fields of the configuration types found by name",
 "A test shows the configuration it built; it does not see a field that is added later, a configuration that is only masked when some option is set, or a message logged on a path it does not take.",
 ["src/apiserver", "src/metaserver", "src/objectserver", "src/adminserver", "src/common"],
 [("Config", AP+"controller/http/internal_api.go"), ("ConfigServiceServer.GetConfig", "src/objectserver/internal/controller/grpc/config_service.go"), ("ConfigServiceServer.GetConfig", "src/metaserver/internal/controller/grpc/config_service.go"), ("PasswordValidator", AP+"usecase/componet/auth/password_validator.go"), ("ErrorNotifyHook.Fire", CO+"logs/error_hook.go"), ("SaveToken", "src/adminserver/internal/controller/http/auth.go")],
 "secret-flow analysis on explored paths: values of secret fields and credentials followed through formatting, encoding and message construction to logs, errors, answers and addresses; every secret field of a shown structure must be overwritten on every path to its encoding",
 "Secrets are recognised by the name of their field (password, secret, key of access), so a differently named one is not seen; the resume token, user names in the log, what a server writes to its own configuration file, and the credential kept in etcd are outside, as is what a library prints by itself.")
prop("C26", "Every request gets one honest answer",
 "On all four servers, whatever fails: a request that could not be read is not acted on, and one of which a step failed is not answered as done - over HTTP with a status of success, over gRPC as a success - unless the failure is one the handler knows. A request is answered once: nothing is added to an answer that was given or to a body that has begun, headers and the status are set before the body, the status that is sent is the one that was chosen, and a body that cannot be finished is broken off so that it does not look complete. A handler in front that refuses a request stops it with an answer. A failure that has a status is answered with that status and every other as a failure; the status survives a call between servers, exactly where the caller asks for it and in its class elsewhere.",
 ["inputs", "fault_sequences"], "every handler and every handler in front of it of all HTTP routes of the four servers, all unary remote calls, and the functions that turn failures into answers and back, on every outcome of each call",
 "It takes one step that fails at one moment (after the first bytes were sent, after another step succeeded); handlers have next to no tests, and those use steps that succeed.",
 [CO+"response/response.go", CO+"response/gin_executor.go", CO+"proto/generate.go", AP+"controller/http/objects_api.go", AP+"controller/http/big_api.go", "src/metaserver/internal/controller/http/metadata_rest.go", "src/metaserver/internal/controller/http/middleware.go", "src/metaserver/internal/controller/grpc/metadata_server.go", OS+"controller/http/objects/objects_rest.go", OS+"controller/http/temp/temp_rest.go", "src/adminserver/internal/controller/http/object.go"],
 [("FailErr, GRPCError", CO+"response/response.go"), ("ResolveErr", CO+"proto/generate.go"), ("Get", AP+"controller/http/objects_api.go"), ("CheckLeaderInRaftMode, CheckInNormal, CheckKeySlot", "src/metaserver/internal/controller/http/middleware.go"), ("MetadataApiServer", "src/metaserver/internal/controller/grpc/metadata_server.go")],
 "path-sensitive abstract interpretation of every handler (typestate of the answer: status chosen, body begun, answered, refused; failed calls as obligations); the tables and switches between statuses and codes evaluated for every status that is used",
 "Failures of calls without arguments (optional information), of closing, and of writing the bytes of an answer are not judged; panics are answered by the library; whether the body of an answer is right is outside.")

prop("C39", "The servers understand each other",
 "Whatever HTTP request one server of the system sends to another is a request the other serves: a route with that method and path exists there; everything said in the query and headers, and a body that is sent, is read by what serves it, and everything that requires is sent; the status it answers with when it is done is the one the sender takes for success, and no other; headers of the answer that are read are set; and what is sent and answered as JSON has the fields, of the kinds, that are read from it. Names a user has chosen become part of such an address escaped, so that whatever characters they have they stay one part of it.",
 ["inputs", "programs"], "every HTTP request sent by the API, admin and data servers (method, address, query, headers, body, statuses and headers of the answer) against the handlers of the route that serves it, and the values each address is made of",
 "Both sides compile and pass their tests alone when they disagree; only a call between two real servers of the exact kind (a resumed upload, a repair of copies, a name with a question mark) shows it, and the tests start one server at most.",
 [AP+"usecase/webapi/object_server.go", AP+"usecase/webapi/meta_server.go", AP+"usecase/webapi/bucket_api.go", "src/adminserver/internal/usecase/webapi/api_server.go", "src/adminserver/internal/usecase/webapi/metadata_server.go", OS+"controller/http/temp/temp_rest.go", OS+"controller/http/objects/objects_rest.go", OS+"usecase/service/migration_service.go", "src/metaserver/internal/controller/http/bucket_rest.go", "src/metaserver/internal/controller/http/metadata_rest.go"],
 [("PutTmpObject, HeadTmpObject, GetObject", AP+"usecase/webapi/object_server.go"), ("PutObjects, ListVersion", "src/adminserver/internal/usecase/webapi/api_server.go"), ("Head, Post, Put", OS+"controller/http/temp/temp_rest.go")],
 "abstract interpretation of both ends: the request (method, address as text with holes, query, headers, JSON type, accepted statuses) is recovered from every sender and compared with what the exploration of the matching route's handlers reads, requires and answers; provenance of the texts in the holes through the call graph",
 "Addresses that are not written in the program (the callback address), the registered names of servers, the meaning of values and two values of one kind in each other's place are outside; gRPC calls are typed by generated code on both sides.")

prop("C40", "The console acts only for confirmed credentials",
 "The admin server acts on a request that works on metadata, objects, buckets or servers only after an API server has answered with success that the credential the request came with (in its header or session) is good - whatever else that server answers, or if it cannot be reached, the request is turned away - and says so to who logs in on no other ground; the API server's own check stands in front of that answer. What the console then asks of an API server carries the credential of that user. A session keeps the credential that was given last, is not emptied by requests without one, and is rid of it, and saved, before a user is told to be logged out.",
 ["inputs", "fault_sequences", "configurations"], "every route of the admin server with the handlers in front of it, every request it sends to an API server, every change of a session, on every outcome of each call",
 "It takes a request nobody sends while testing: without or with a wrong credential, while the check fails, with the session of somebody else, after logging out; no test starts the admin server.",
 ["src/adminserver/internal/controller/http/auth.go", "src/adminserver/internal/controller/http/metadata.go", "src/adminserver/internal/controller/http/object.go", "src/adminserver/internal/usecase/webapi/api_server.go", "src/adminserver/internal/controller/http_server.go", "src/adminserver/internal/usecase/logic/object_logic.go"],
 [("RequireToken, SaveToken, ClearCredential, CheckCredential", "src/adminserver/internal/controller/http/auth.go"), ("CheckToken", "src/adminserver/internal/usecase/webapi/api_server.go"), ("Register", "src/adminserver/internal/controller/http/object.go")],
 "path-sensitive abstract interpretation of each route's handlers in their order (the answer of the check and the credential it was asked with as facts of the path), taint of the credential into the headers of what is sent, typestate of the session",
 "The overview and configuration under /api/server are read without a credential by design and not judged; a credential that is revoked between the check and the act, and how sessions are encrypted by the library, are outside.")

prop("C21", "What is opened is closed again",
 "Every file, answer of another server, connection, database, iterator and stream that the code opens is closed on every path of the function that opened it - after failures and early returns as well - or handed on: returned to the caller, to whom the same applies, or kept by something that lives on. What is collected in a list is closed element by element, what replaces a database that is in use closes the old one, and closing a stream or index closes what it holds itself.",
 ["inputs", "fault_sequences", "histories"], "every function that opens a file, sends a request, dials, opens a database or iterator, or obtains a stream from another part of the system, and every Close method of what holds one; all servers and the common module",
 "A leak costs one descriptor or stream at a time and shows only when a server has run out of them after many failing requests; tests stop after a few calls and do not look at what is left open.",
 [AP+"usecase/webapi/meta_server.go", AP+"usecase/webapi/object_server.go", AP+"usecase/service/get_stream.go", AP+"usecase/service/copy_get_stream.go", AP+"usecase/service/rs_get_stream.go", AP+"controller/http/objects_api.go", OS+"usecase/service/objects_service.go", OS+"usecase/service/migration_service.go", "src/objectserver/internal/db/object_path_cache.go", "src/metaserver/internal/usecase/service/hashslot_service.go", "src/metaserver/internal/usecase/db/storage.go", "src/adminserver/internal/usecase/logic/object_logic.go"],
 [("PostMetadata, GetObject", AP+"usecase/webapi/meta_server.go"), ("Get", AP+"controller/http/objects_api.go"), ("GetFileCompress, AppendFileCompress", OS+"usecase/service/objects_service.go"), ("CopyGetStream.Close", AP+"usecase/service/copy_get_stream.go"), ("SendingTo, ReceivingFile", OS+"usecase/service/migration_service.go"), ("Storage.Replace", "src/metaserver/internal/usecase/db/storage.go")],
 "typestate analysis: every acquisition is an obligation followed through calls, deferred calls, literals and memory on all paths of the interprocedural abstract interpretation until it is released or ownership moves (returned, stored in what outlives the function, sent on a channel); Close methods judged against the fields they hold",
 "Writers of uploads are judged by other properties; timers, contexts and etcd leases are outside, and so is whether what lives on is closed when a server stops. Elements of a list are not told apart.")


prop("C23", "A panic in the background stays there, and is a failure",
 "Whatever code that runs beside a request, in the background or in answer to a request panics on, the server goes on: in every goroutine something that recovers is deferred before the first thing that can panic, and the HTTP engines and gRPC servers recover around every handler, the latter answering with an error. Who waits for a goroutine is released although it panicked, and where the goroutine tells of its failures - to the group it is waited for with, or by what it shares - a panic is told as one before who waits goes on, so it is never taken for success.",
 ["inputs", "schedules", "fault_sequences"], "every go statement of the five modules with all functions it may run (literals, methods, functions in variables), the deferred calls of each in their order, the groups' own Done, every gin engine and gRPC server",
 "It takes a panic at a place no test knows of - a nil answer, an index out of range on odd data - at a moment when nobody is waiting; where it is taken up wrongly nothing is seen but a success that was none.",
 [CO+"graceful/recover.go", CO+"util/done_group.go", CO+"util/h2c_handler.go", AP+"usecase/service/copy_put_stream.go", AP+"usecase/service/rs_put_stream.go", AP+"usecase/service/copy_fix_stream.go", AP+"usecase/service/rs_decoder.go", OS+"usecase/service/migration_service.go", OS+"controller/grpc/migration_server.go", "src/metaserver/internal/usecase/service/hashslot_service.go", "src/metaserver/internal/usecase/logic/hashslot_logic.go"],
 [("Recover", CO+"graceful/recover.go"), ("doneGroup.Done", CO+"util/done_group.go"), ("UnaryServerRecoveryInterceptor", CO+"util/h2c_handler.go"), ("PrepareMigrationFrom", "src/metaserver/internal/usecase/service/hashslot_service.go"), ("JoinCommand", OS+"controller/grpc/migration_server.go"), ("startFix", AP+"usecase/service/copy_fix_stream.go")],
 "dominance analysis over the compiled form (SSA): what can panic, transitively through the calls of a goroutine, against the deferred calls that dominate it; only functions that call recover themselves count, in the order deferred calls run; effect comparison of the failure branch and the recovering code",
 "A nil pointer at an instruction of its own is taken to come with the calls around it, panics of library calls made before recovering and fatal errors (concurrent map writes, memory) are outside; where a goroutine tells of failures in another way than by an error branch that changes shared state, that is not seen.")


prop("C24", "Waiting for background work ends, and not before it",
 "At any schedule: whoever waits for goroutines goes on exactly when all of those it counts have ended (or, where it asks for errors, has got one). Every goroutine that is waited for is counted before it starts, by its own count, on every path; what was counted is always started and counts down; each function that counts goroutines waits for them on every path to its end, and asks for the errors they deliver. A channel that is read to its end is closed, and closed only after the last goroutine that may send on it has ended.",
 ["schedules", "inputs"], "every group of the five modules (sync.WaitGroup, WaitGroup, DoneGroup, limited groups) with all places where it is counted up or down, waited for, asked or closed, across literals, methods and arguments; every channel made by the code that is read to its end or closed",
 "A wait that never ends or ends early shows only for one order of events or one odd input (a lost shard, a failing server, an empty list); tests wait for what ends anyway.",
 [CO+"util/done_group.go", AP+"usecase/service/rs_encoder.go", AP+"usecase/service/rs_decoder.go", AP+"usecase/service/rs_get_stream.go", AP+"usecase/service/rs_put_stream.go", AP+"usecase/service/copy_put_stream.go", AP+"usecase/service/copy_fix_stream.go", AP+"usecase/service/object_service.go", OS+"usecase/service/migration_service.go", OS+"controller/http/router.go", CO+"performance/etcd_store.go", CO+"graceful/graceful.go"],
 [("Flush", AP+"usecase/service/copy_put_stream.go"), ("provideGetStream", AP+"usecase/service/rs_get_stream.go"), ("SendingTo, FinishObject", OS+"usecase/service/migration_service.go"), ("Shutdown", OS+"controller/http/router.go"), ("EtcdStore.Get", CO+"performance/etcd_store.go"), ("ListenAndServe", CO+"graceful/graceful.go")],
 "typestate on all control-flow paths of the compiled form (SSA): count up, start, count down, wait per group, with groups identified by where they are made through captured variables, arguments and embedded groups; ordering of sends and the close of a channel",
 "Groups counted up by more than one at a time are only checked to be counted up before; groups kept in fields or received as parameters are followed in the function that uses them only; whether a goroutine itself ends (a request without an answer) is outside, as are channels that live as long as the server.")

prop("C28", "Records survive encoding and conversion",
 "What is encoded is decoded again as it was: each of the encoders and decoders of a record (from bytes and from streams) takes every field from and to the same key, as the same kind of value, and leaves none out; what is encoded by reflection loses no field, each record of a list is framed and encoded by itself, and a failure to encode or decode is never passed over. Where one kind of record is made out of another - between the servers' own records, what they send and what they store - each field is taken over from the field of its name, none is left out, and no number is cut on the way. A remote call carries what its handler goes by, its two ends encode and decode the same kind of record, and the answer carries what the caller reads of it.",
 ["inputs", "configurations"], "every type with binary encoders and decoders, field by field and key by key; every function that makes a record out of another; every remote call of the five modules with its handler; every type encoded by reflection",
 "A field that is lost, swapped or cut on the way shows only for a record in which it matters, after a trip through two servers and a store; tests never run two servers, and look at a few fields of one record.",
 [CO+"proto/msg/metadata.go", CO+"proto/msg/metadata_gen.go", CO+"hashslot/slot_info_gen.go", CO+"system/system_info_gen.go", CO+"datasize/msgpack.go", "src/metaserver/internal/entity/raft_data_gen.go", AP+"usecase/grpcapi/meta_server.go", AP+"controller/http/big_api.go", AP+"usecase/service/rs_resumable_stream.go", OS+"entity/dto.go"],
 [("Version, Metadata, Bucket: MarshalMsg, UnmarshalMsg, EncodeMsg, DecodeMsg", CO+"proto/msg/metadata_gen.go"), ("GetVersion, SaveVersion, UpdateVersion, GetBucket, SaveBucket", AP+"usecase/grpcapi/meta_server.go"), ("MetadataApiServer", "src/metaserver/internal/controller/grpc/metadata_server.go"), ("RaftData", "src/metaserver/internal/entity/raft_data_gen.go")],
 "recovery of the format from the syntax tree (the constant bytes read as structures and names, what is appended in between) and comparison of encoders, decoders and declarations; field-wise comparison of conversions, and of what callers set and handlers read, over the compiled form (SSA)",
 "A field that is computed (not copied) is not compared, nor is what is in the place of a field of a request right; records whose fields have other names in the other record are outside, and so are streams of messages and the library that writes single values.")
