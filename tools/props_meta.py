MS = "src/metaserver/internal/usecase/"
prop("C01", "Every record change goes through the replicated log before the local store",
 "When this node replicates, a request that adds, changes or removes a record (object, version or bucket) is submitted to the replicated log first, and the node's own store is written directly only when the log answers that it does not handle the request. The outcome the log reports (its error, and the version number it assigned) is what the caller gets, and an unknown or failed outcome is never reported as success. The log entry describes exactly the change the direct write would make.",
 ["inputs", "configurations", "fault_sequences"], "all requests to every mutating service operation, in single-node and replicated mode, leader or not, and for every answer of the log",
 "No test starts a replicated metadata server; unit tests call repositories directly and never see the log refusing, failing or answering something unexpected.",
 [MS+"service/metadata_service.go", MS+"service/bucket_service.go", MS+"raftimpl/raft_apply.go", MS+"raftimpl/fsm_impl.go"],
 [("ApplyRaft before repository call", MS+"service/*.go"), ("raftApplier.ApplyRaft", MS+"raftimpl/raft_apply.go"), ("FSMImpl.Apply dispatch", MS+"raftimpl/fsm_impl.go")],
 "path-sensitive abstract interpretation over SSA of all service methods, plus a call-graph who-may-write rule",
 "Decides ordering, result propagation and entry/operation agreement on every control path; does not decide anything about the consensus library itself. Changing a shard location is a known finding.")
prop("C02", "All replicas apply a log entry identically and report what happened",
 "Every kind of entry that can be submitted is understood by every replica, whether entries are applied one by one or in batches, and leads to the same change. A change that fails, an entry that cannot be decoded and an entry of unknown kind are answered with a failure (an already existing record excepted, so that replays are harmless), and the answer to an added version is its assigned number. Nothing a replica stores while applying depends on its clock, randomness, environment, network or map order; creation and update times and unique ids are fixed before submission.",
 ["inputs", "histories", "configurations"], "all log entries, single and batched application, all outcomes of the local change",
 "Replica divergence needs several servers and particular entries; tests never apply a log on two replicas, and batch application is only used by the consensus library under load.",
 [MS+"raftimpl/fsm_impl.go", MS+"service/metadata_service.go", MS+"service/bucket_service.go", MS+"repo/metadata_repo.go"],
 [("FSMImpl.Apply / ApplyBatch", MS+"raftimpl/fsm_impl.go"), ("FSMResult", MS+"raftimpl/fsm_impl.go"), ("timestamps set before ApplyRaft", MS+"service/*.go")],
 "exhaustiveness and outcome rules over explored paths of the state machine; forward taint of nondeterministic sources over the call graph",
 "Decides dispatch exhaustiveness, outcome mapping, absence of nondeterministic sources and stamping before submission; equality of the stored bytes themselves is not computed.")
