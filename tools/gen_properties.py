#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CL = ["clustering/process.go", "clustering/operations.go", "clustering/status.go", "clustering/manager.go", "pkg/dbop"]
MOCKS = "The clustering tests drive a hand-written in-process mock of the database operator through a dozen fixed scenarios without crashes, message loss, stale caches or concurrent client writes; the dbop tests need a real mysqld and are skipped offline."

prop("C01", "Acknowledged writes survive fail-over, switchover and restarts",
 "In a cluster of three or more instances that is not fed from an external source, a write acknowledged to a client is, at that moment, stored on at least half of the other instances. "
 "As long as never more than a minority of the instances is out of service at the same time, every acknowledged write is still present on whichever instance is accepting writes later, and on the final primary.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every interleaving of client writes, replication, controller actions, instance and controller crashes, partitions, lost or late calls, and volume loss within the minority budget",
 MOCKS, CL,
 [("semi-synchronous replication enabled with the right ack count before the primary is opened", "clustering/operations.go configurePrimary"),
  ("fail-over stops all replica IO threads, elects the most advanced, waits for its relay log", "clustering/operations.go failover, pkg/dbop/gtid.go"),
  ("switchover makes the primary read-only and waits for the candidate to catch up", "clustering/operations.go switchover")],
 ["acknowledgements returned to simulated clients; executed GTID sets and relay logs of every simulated mysqld"])

prop("C02", "Never two primaries: no write is accepted behind the current primary's back",
 "Once a new primary has been opened for writes, no write that starts later on any other instance is ever acknowledged, even if the previous primary is alive, partitioned from the controller or comes back later. "
 "The controller only ever opens the instance that is recorded as the current primary, and only fails over when the recorded primary is out of reach or has lost its data and more than half of the instances are usable replicas.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every partition and crash pattern between controller, clients and instances, at every point of a fail-over or switchover, including controller restarts in the middle",
 MOCKS, CL,
 [("fail-over stops replica IO threads first so that the old primary cannot collect acks", "clustering/operations.go failover"),
  ("primary index is recorded before anything is opened", "clustering/operations.go switchover, failover, configure"),
  ("quorum condition for fail-over", "clustering/status.go isFailed, isLost")],
 ["statements executed on each simulated mysqld and the acknowledgements they return; status.currentPrimaryIndex"])

prop("C03", "Replicas with errant transactions are reported, isolated and never elected",
 "A replica holding transactions the primary does not have (other than the primary's own latest ones) is listed in the cluster status, loses its role label so that no client is routed to it, and stops replicating, for as long as it is in that state; replicas without such transactions are never listed. "
 "A replica listed as errant is never made primary, not even when the primary is down, and its extra transactions never spread to another instance.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every history that leaves errant transactions behind (writes by an operator on a replica, unacknowledged writes recovered by a crashed primary) followed by any sequence of crashes, fail-overs and re-initialisations",
 "Unit tests cover a fixed errant GTID string on a mock with the primary up; they never combine detection with fail-over, primary data loss or controller restart.", CL,
 [("errant detection by GTID subtraction, remembered in the status while the primary is unavailable", "clustering/status.go GatherStatus"),
  ("exclusion from election and labels", "clustering/operations.go failover, configureReplica, removeRoleLabel, addRoleLabel")],
 ["status.errantReplicaList, pod labels, replication state and GTID sets of the simulated instances"])

prop("C04", "A planned switchover hands over completely, cleanly and only when safe",
 "When the primary Pod is being deleted or is marked for demotion, the primary role moves to a replica that is healthy, has no errant transactions and has executed everything the old primary executed, and the old primary stops accepting writes and its client connections are cut before the handover is recorded. "
 "The demotion mark is cleared once done, the new primary becomes writable within a bounded time once calls succeed, and no switchover is started while a replica is delayed beyond the configured limit.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every timing of the deletion or demotion request relative to client writes (including long-running statements), replication lag, failing calls and controller crashes, for 3 and 5 replicas",
 "The tests perform one switchover on a mock whose every call succeeds instantly and which has no clients, no running statements and no replication lag.", CL + ["controllers/pod_watcher.go"],
 [("switchover sequence with timeouts and kill fallback", "clustering/operations.go switchover"),
  ("candidate selection", "clustering/status.go isHealthy, isDegraded, DecideState, needSwitch")],
 ["state of both instances at the moment status.currentPrimaryIndex changes"])

prop("C05", "Reported conditions, counts and metrics match the real state of the cluster",
 "When nothing has changed for a short while, the Available, Healthy and Initialized conditions, the state named as their reason, the number of synced replicas, the errant list and the exported per-cluster gauges say what the documentation defines for the actual state of the Pods and database instances. "
 "In particular a cluster is reported Available exactly when its primary is ready and writable (or replicating from its external source) with at least half of the replicas ready, connected, read-only and free of errant transactions, and Healthy exactly when all are.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every reachable combination of instance, replication, Pod readiness and data states, after every history leading to it",
 "Tests check the classification of a handful of hand-made states; a wrong reading of any single attribute in an untested combination goes unnoticed.", ["clustering/status.go", "clustering/process.go", "docs/clustering.md"],
 [("state decision", "clustering/status.go DecideState and predicates"), ("status update", "clustering/process.go updateStatus")],
 ["MySQLCluster status in the API store against an independent classification of the simulated instances; prometheus gauges"])

prop("C06", "The cluster repairs itself within bounded time once faults stop",
 "From any state reached through crashes, restarts, partitions, lost calls, controller restarts and volume loss, once the faults stop and as long as a majority of the data is still there, the cluster returns to a single writable primary with every non-errant instance read-only, replicating from it without error, correctly configured and labelled, within a bounded number of check intervals, without manual help except for re-initialising errant or hung instances and instances whose missing history no longer exists anywhere. "
 "A dead primary with a majority of usable replicas is replaced within a bounded time.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every finite fault sequence followed by a fault-free period",
 "Each test starts from one of a few tidy states and applies a single perturbation; half-finished operations interrupted by crashes or lost replies are never used as starting states.", CL,
 [("level-triggered maintenance loop", "clustering/process.go Start, do"), ("configure primary and replicas from scratch", "clustering/operations.go configure*")],
 ["state of all simulated instances after the fault-free period"])

prop("C07", "Empty instances are re-seeded from the primary; data is never overwritten",
 "An instance that has lost its data is filled by cloning from the current primary, which itself has data, and then follows it; an instance that has data is never the target of a clone. "
 "A primary that comes back empty while replicas have data is replaced instead of being used as the source, and no instance is told to follow a primary that no longer has the history that instance needs.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every order of volume losses, clones interrupted by crashes of either side or of the controller, binary log purges, fail-overs and restarts",
 "Tests clone once into a fresh mock instance; interrupted clones, emptied primaries with concurrent failures and purged histories after fail-over are not generated.", CL + ["clustering/agent.go"],
 [("clone only when the replica is empty and the primary is not", "clustering/operations.go configureReplica"),
  ("lost data detection", "clustering/status.go lostData"), ("purged history check", "clustering/operations.go configureReplica")],
 ["clone requests received by the simulated agents; statements on the simulated instances"])

prop("C08", "Clients are routed to the right instance and stale connections are cut",
 "Once things settle, exactly the Pod of the current primary carries the primary role label, every other live Pod without errant transactions carries the replica role label, and no other live Pod carries a role. "
 "A new primary is not opened while another live Pod is still labelled primary, and client connections opened to an instance before it was demoted or promoted do not survive the change of role, whereas connections of the system users and local ones are left alone.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence of fail-overs, switchovers, Pod re-creations, lost or stale reads and failing patches",
 "Tests look at labels after a single switchover on mocks without connections, with an always fresh view of the Pods.", CL + ["pkg/dbop/kill.go"],
 [("label removal before and addition after configuration", "clustering/operations.go removeRoleLabel, addRoleLabel, configure"),
  ("connection kill", "pkg/dbop/kill.go KillConnections")],
 ["Pod labels at the moment an instance is opened and after settling; sessions of the simulated mysqld"])

prop("C09", "The primary is protected from deletion exactly while replication is delayed",
 "When a maximum replication delay for Pod deletion is configured and some replica is delayed by more than it, the primary Pod, and only it, gets the deletion-prevention mark within a bounded number of check intervals; the mark is removed from every Pod within a bounded time after the delay is gone, and is never set when the limit is not configured.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every lag history of every replica, combined with primary changes, failing patches and limit values",
 "Tests set one fixed delay on a mock and look once.", ["clustering/status.go", "clustering/operations.go", "clustering/process.go"],
 [("delay detection", "clustering/status.go GatherStatus"), ("annotation handling", "clustering/operations.go addAnnPreventDelete, removeAnnPreventDelete")],
 ["Pod annotations against the simulated replication lag over time"])

prop("C10", "Clusters that are offline, being restored or paused by the user are left alone",
 "While a cluster is offline, waiting for its data to be restored, or has clustering paused by the user, the controller changes nothing on its database instances, does not elect a primary and does not relabel its Pods (an operation already under way when the pause was requested may finish). "
 "When the condition ends, maintenance resumes; pausing and resuming is reflected in the status and in the metrics. While the user has stopped reconciliation, the generated resources are left as they are.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every timing of pause, resume, offline, restore completion and deletion requests relative to the maintenance loop and to controller restarts",
 "Tests toggle each switch once with generous waits in between.", ["clustering/process.go", "clustering/manager.go", "controllers/mysqlcluster_controller.go"],
 [("offline and restoring states do nothing", "clustering/process.go do"), ("pause handling", "controllers/mysqlcluster_controller.go clusteringStopV1, clustering/manager.go Pause")],
 ["statements and patches issued by the controller while the condition holds"])

prop("C11", "A cluster fed from an external source stays read-only and promotes losslessly",
 "While a cluster is configured to replicate from an external server none of its instances is ever opened for writes; it is seeded once from that server, its primary then follows that server and its replicas follow the primary asynchronously. "
 "When the external source is removed from the specification the primary is opened only after it has executed every transaction it had received from the external server.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every timing of external writes, lag, crashes, lost calls, fail-overs and removal of the source",
 "Tests check one initial clone and one promotion on mocks with no data in flight.", ["clustering/operations.go", "clustering/status.go", "clustering/process.go"],
 [("intermediate primary configuration", "clustering/operations.go configureIntermediatePrimary, clone"), ("drain before promotion", "clustering/operations.go configurePrimary")],
 ["read_only transitions, replication sources and GTID sets of the simulated instances"])

prop("C12", "Every resource of a cluster converges to its specification and then stays still",
 "After any sequence of specification changes, failing or lost API calls, stale reads, controller crashes and accidental deletion or modification of generated resources, once faults stop the services, configuration, secrets, stateful set, disruption budget, service accounts, backup and restore jobs with their permissions match what the current specification asks for, none of them is missing, and ones no longer wanted are gone. "
 "Once converged, further reconciliations change nothing.",
 ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
 "every crash or failing call inside a reconciliation, every order of specification changes",
 "The controller tests run each reconciliation to completion on a healthy API server; partial reconciliations are not generated.", ["controllers/mysqlcluster_controller.go", "controllers/certificate.go", "controllers/mysql_container.go", "controllers/pvc.go"],
 [("idempotent server-side apply of every child", "controllers/mysqlcluster_controller.go reconcileV1*")],
 ["API store contents compared with a fault-free reference reconciliation of the same specification"])

prop("C13", "Generated passwords never change and are the same everywhere",
 "Once a cluster's passwords have been generated they never change for the life of the cluster, whatever fails or restarts, and the copies given to the Pods always agree with the controller's own copy. "
 "If a copy is deleted or altered it is recreated with the same passwords; no Pod is ever started with other passwords than the ones the controller uses.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every crash or lost reply during creation, stale cached reads, deletion of the copies and re-creation of the cluster under the same name after the deletion has been seen",
 "Tests create each secret once and read it back.", ["controllers/mysqlcluster_controller.go", "pkg/password/password.go"],
 [("password secrets", "controllers/mysqlcluster_controller.go reconcileV1Secret")],
 ["secret contents over the whole run; authentication by the simulated mysqld"])

prop("C14", "Rolling updates never outrun the cluster's health and always finish",
 "While a rolling update of a cluster's Pods is in progress, the next Pod is released for update only when the previously updated Pods are running the new revision and ready and the cluster is healthy, so that the update never takes down a further instance of an already impaired cluster. "
 "Pods are updated one at a time from the highest ordinal down, a new specification change restarts the process from the start, and the update finishes once the cluster is healthy.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every order of specification changes, Pod failures, stale reads, failing calls and controller restarts during an update",
 "Tests set Pod and cluster conditions by hand and check single steps of the partition.", ["controllers/partition_controller.go", "api/v1beta2/statefulset_webhhok.go"],
 [("partition controller", "controllers/partition_controller.go"), ("partition reset on change", "api/v1beta2/statefulset_webhhok.go")],
 ["partition value of the stateful set against the state of Pods and cluster at the time it is lowered"])

prop("C15", "Volume expansion reaches every volume; volumes are never shrunk or lost",
 "When a larger volume size is requested, every existing volume claim of the cluster eventually requests at least that size and the template used for new ones follows, without deleting any Pod or claim on the way, whatever fails in between. "
 "No volume claim ever has its requested size reduced, and re-creation of the stateful set never deletes its Pods or claims.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every crash or failing call between resizing claims and re-creating the stateful set, and every sequence of size changes",
 "Tests run one resize with all calls succeeding.", ["controllers/pvc.go", "controllers/mysqlcluster_controller.go"],
 [("claim resize", "controllers/pvc.go reconcilePVC"), ("orphan re-creation of the stateful set", "controllers/mysqlcluster_controller.go reconcileV1StatefulSet")],
 ["volume claims, Pods and stateful set in the API store over the whole run"])

prop("C16", "Deleting a cluster cleans up everything it left outside and nothing else",
 "Deleting a cluster eventually removes the controller's own secret and the certificate created for it in the system namespace, stops maintaining it and drops its metrics, and only then lets the cluster object go, whatever fails or crashes on the way. "
 "Resources of other clusters are never touched, and a cluster that is not being deleted never loses these resources.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every crash or failing call during deletion, with other clusters (including similarly named ones) present, and re-creation under the same name once the controller has seen the deletion",
 "Tests delete one cluster once with all calls succeeding.", ["controllers/mysqlcluster_controller.go", "clustering/manager.go"],
 [("finalizer", "controllers/mysqlcluster_controller.go finalizeV1")],
 ["system namespace contents, exported metrics and maintenance activity"])

prop("C17", "Configuration in use is never deleted",
 "A configuration object that an existing stateful set revision or Pod of any cluster still refers to is never deleted by the controller (uses its caches do not show yet excepted; it then restores the object by itself), while outdated ones beyond the history limit (of two or more) are eventually removed. "
 "The stateful set does not refer to a configuration object that does not exist, beyond the time the controller needs to see its own deletion of that object.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every sequence of configuration changes, rolling updates, failing calls and controller crashes, with several and similarly named clusters",
 "Tests count leftover objects after a few changes without rolling updates in progress.", ["controllers/mysqlcluster_controller.go"],
 [("configuration history", "controllers/mysqlcluster_controller.go reconcileV1MyCnf, cleanup")],
 ["references from Pods and stateful sets against configuration objects in the API store"])

prop("C18", "A restore yields exactly the requested point in time or fails visibly",
 "A cluster created with spec.restore ends up with exactly this: everything in the latest dump of the source cluster taken not later than the requested time, plus every transaction committed after it and before the requested time (to the second) as far as the next recorded backup stored its binary logs without a warning; no transaction of a later time, of another cluster, or only of a part of a transaction sequence; restricted to the requested schema and users, with MOCO's own users untouched. "
 "This holds whatever failed in earlier backup and restore attempts, and across changes of the backup source and primary between backups. When the requested state cannot be produced the restore fails and the cluster is never marked as restored; when a recorded backup covers the requested time and faults have ceased, the restore succeeds.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every history of writes, backups, failed backups (dump, upload, status update or process failures at any step), primary changes and restore points",
 "Tests run one backup and restore against mocks that do not hold data.", ["backup/backup.go", "backup/restore.go", "backup/key.go", "pkg/bkop"],
 [("backup manager", "backup/backup.go"), ("restore manager", "backup/restore.go")],
 ["transactions present on the restored simulated instance"])

prop("C19", "Backup status tells the truth and earlier restore points are preserved",
 "A backup is recorded in status.backup only after its dump is completely stored in the bucket under its time, and, if there was a backup before, the binary logs with all transactions between the two are completely stored too unless status.backup.warnings says otherwise; the recorded time, source instance, UUIDs, binary log position, GTID set and sizes are those of that backup, and dumps contain none of MOCO's own users. "
 "A backup Job succeeds if and only if its backup was recorded; a failed one never alters objects of recorded backups and never changes the source instances. Once faults have ceased backups succeed, and the second one has no warning.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every failure or crash at any step of a backup: tool failure, short output, upload error, full disk, API error",
 "Tests run one backup with mocks that always succeed or fail at one fixed place.", ["backup/backup.go", "pkg/bkop", "pkg/bucket"],
 [("status update as last step", "backup/backup.go")],
 ["status.backup against bucket contents at the moment it is written"])

prop("C20", "A restore writes only into the new cluster and is declared done only once",
 "A restore Job writes only into instance 0 of the cluster being restored, and only while status.restoredTime is unset; it sets restoredTime once, after the dump and the binary logs were loaded completely and the instance was made super_read_only again with local_infile off. A restored cluster is never restored again, also when its Job is created again. "
 "Until restoredTime is set the controller neither makes an instance of the cluster writable nor labels a Pod as primary. A failing restore ends with a failed Job, restoredTime unset and, as far as it can reach the instance, the instance read-only.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every failure or crash at any step of a restore and every retry",
 "Tests run one restore on mocks.", ["backup/restore.go", "cmd/moco-backup/cmd/restore.go", "clustering/process.go", "clustering/operations.go", "controllers/mysqlcluster_controller.go"],
 [("restore manager", "backup/restore.go")],
 ["statements on the simulated instance and status.restoredTime"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties;", [p["id"] for p in P if len(p["title"]) > 80])
