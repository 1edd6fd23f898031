H = '''package clustering

import (
	"testing"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
)

var (
	_ *mocov1beta2.MySQLCluster
	_ *corev1.Pod
	_ = constants.AnnDemote
	_ dbop.AccessInfo
)

func TestDemo(t *testing.T) {
'''
OPS, ST, PR = "clustering/operations.go", "clustering/status.go", "clustering/process.go"
BUGS = [
 dict(id="failover-stale-status", prop="C01",
  edits=[(OPS, '''		candidates[i] = newStatus
''', '''		if newStatus.ReplicaStatus == nil {
			return fmt.Errorf("instance %d is not a replica any more", i)
		}
		candidates[i] = ist
''')],
  needs="the old primary is cut off from the controller only and goes on acknowledging writes with one replica between the status check and the stop of the IO threads, while another replica receives late",
  breaks="the new primary is chosen by what the replicas had before their IO threads were stopped; a less advanced replica wins and acknowledged writes are lost",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.dbs[0].down = true
	d.dbs[2].onIO = func() { // received between the check and the stop
		d.dbs[2].st.ReplicaStatus.RetrievedGtidSet = "u0:1,u0:2,u0:3"
	}
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if i := d.cluster().Status.CurrentPrimaryIndex; i != 2 {
		t.Fatalf("instance %d was made primary, but instance 2 is the most advanced", i)
	}
}
'''),
 dict(id="failover-skip-connecting", prop="C01",
  edits=[(OPS, '''		if err := ss.DBOps[i].StopReplicaIOThread(ctx); err != nil {
			return fmt.Errorf("failed to stop replica IO thread for instance %d: %w", i, err)
		}
	}

	// recheck''', '''		if ist.ReplicaStatus != nil && ist.ReplicaStatus.ReplicaIORunning != "Yes" {
			// not connected to the old primary
			continue
		}
		if err := ss.DBOps[i].StopReplicaIOThread(ctx); err != nil {
			return fmt.Errorf("failed to stop replica IO thread for instance %d: %w", i, err)
		}
	}

	// recheck''')],
  needs="the old primary is cut off from the controller and, for a moment, from its replicas (IO thread 'Connecting'), then the replicas reconnect to it during the fail-over",
  breaks="a replica that reconnects goes on acknowledging writes of the old primary, which then accepts writes behind the new primary's back",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.dbs[0].down = true
	d.dbs[2].st.ReplicaStatus.ReplicaIORunning = "Connecting"
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if d.cluster().Status.CurrentPrimaryIndex == 0 {
		t.Fatal("no fail-over")
	}
	if !d.did("db1 stopio") || !d.did("db2 stopio") {
		t.Fatalf("failed over while a replica may still acknowledge writes of the old primary: %q", d.log)
	}
}
'''),
 dict(id="errant-forgotten-when-empty", prop="C03",
  edits=[(ST, '''	} else {
		// restore errant replica status''', '''	} else if ss.MySQLStatus[ss.Primary] == nil {
		// restore errant replica status''')],
  needs="a replica is errant and the primary comes back with an empty volume while the majority of the others is fine",
  breaks="the list of errant replicas is forgotten when the primary is reachable but has lost its data; the errant replica can be elected",
  demo=H+'''	d := newDemo(t, 5, func(c *mocov1beta2.MySQLCluster) {
		c.Status.ErrantReplicas = 1
		c.Status.ErrantReplicaList = []int{1}
	})
	d.dbs[1].st.GlobalVariables.ExecutedGTID = "u0:1,u0:2,u1:1"
	d.dbs[1].st.ReplicaStatus.ExecutedGtidSet = "u0:1,u0:2,u1:1"
	d.dbs[1].st.ReplicaStatus.ReplicaIORunning = "No"
	db := d.dbs[0]
	db.st.GlobalVariables.ExecutedGTID = ""
	db.st.GlobalVariables.ReadOnly, db.st.GlobalVariables.SuperReadOnly = true, true
	db.st.ReplicaHosts = nil
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	cl := d.cluster()
	if cl.Status.CurrentPrimaryIndex == 1 {
		t.Fatal("the errant replica was made primary")
	}
	if len(cl.Status.ErrantReplicaList) != 1 {
		t.Fatal("the errant replica is not reported any more")
	}
}
'''),
 dict(id="switchover-stale-gtid", prop="C04",
  edits=[(OPS, '''	pst, err := pdb.GetStatus(ctx)
	if err != nil {
		return fmt.Errorf("failed to get the primary status: %w", err)
	}

	err = ss.DBOps[ss.Candidate].WaitForGTID(ctx, pst.GlobalVariables.ExecutedGTID, timeoutSeconds)
''', '''	err = ss.DBOps[ss.Candidate].WaitForGTID(ctx, ss.ExecutedGTID, timeoutSeconds)
''')],
  needs="a client writes between the status check and the moment the old primary becomes read-only, and the candidate applies late",
  breaks="the handover is recorded before the candidate has executed everything the old primary executed",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.setPod(0, func(p *corev1.Pod) { p.Annotations = map[string]string{constants.AnnDemote: "true"} })
	d.dbs[0].onRO = func(ro bool) {
		if ro { // a write that was running
			d.dbs[0].st.GlobalVariables.ExecutedGTID = "u0:1,u0:2,u0:3"
		}
	}
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if d.cluster().Status.CurrentPrimaryIndex != 1 {
		t.Fatal("no switchover")
	}
	for _, l := range d.log {
		if len(l) > 8 && l[:8] == "db1 wait" && gset(l[9:])["u0:3"] {
			return
		}
	}
	t.Fatalf("the candidate was not waited for: %q", d.log)
}
'''),
 dict(id="degraded-ignores-readiness", prop="C05",
  edits=[(ST, '''		if !isPodReady(ss.Pods[i]) {
			continue
		}
		if !ist.GlobalVariables.SuperReadOnly {
			continue
		}
''', '''		if !ist.GlobalVariables.SuperReadOnly {
			continue
		}
''')],
  needs="both Pods of the replicas of a three-instance cluster are not ready while their mysqld answers",
  breaks="the cluster is reported Available although fewer than half of the replicas are ready; not-ready replicas become switchover candidates",
  demo=H+'''	d := newDemo(t, 5, nil)
	for i := 1; i < 4; i++ {
		d.setReady(i, false)
	}
	d.dbs[4].down = false
	d.dbs[3].down = true
	d.dbs[0].st.ReplicaHosts = d.dbs[0].st.ReplicaHosts[:3]
	_, _ = d.do()
	if d.cond(mocov1beta2.ConditionAvailable) == "True" {
		t.Fatal("reported Available with one ready replica of four")
	}
}
'''),
 dict(id="replica-connecting-ok", prop="C06",
  edits=[(OPS, '''	if st.ReplicaStatus == nil || st.ReplicaStatus.ReplicaIORunning != "Yes" || st.ReplicaStatus.SourceHost != ai.Host || st.GlobalVariables.SemiSyncSlaveEnabled != semisync {
''', '''	if st.ReplicaStatus == nil || st.ReplicaStatus.SourceHost != ai.Host || st.GlobalVariables.SemiSyncSlaveEnabled != semisync {
''')],
  needs="the IO thread of a replica stops while its source and semi-sync settings stay right, e.g. after a fail-over that stopped the IO threads and could not be completed because the primary came back",
  breaks="replication of that replica is never started again; the cluster never gets healthy",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.dbs[2].st.ReplicaStatus.ReplicaIORunning = "No"
	d.dbs[0].st.ReplicaHosts = d.dbs[0].st.ReplicaHosts[:1]
	for i := 0; i < 3; i++ {
		if _, err := d.do(); err != nil {
			t.Fatal(err)
		}
	}
	for _, l := range d.log {
		if len(l) > 11 && l[:11] == "db2 replica" {
			return
		}
	}
	t.Fatalf("replication was not restarted: %q", d.log)
}
'''),
 dict(id="purged-check-reversed", prop="C07",
  edits=[(OPS, '''op.SubtractGTID(ctx, ss.MySQLStatus[ss.Primary].GlobalVariables.PurgedGTID, ss.MySQLStatus[index].GlobalVariables.ExecutedGTID); err != nil {''',
   '''op.SubtractGTID(ctx, ss.MySQLStatus[ss.Primary].GlobalVariables.PurgedGTID, ss.ExecutedGTID); err != nil {''')],
  needs="the new primary has purged binary logs that a replica coming back after a long outage still needs",
  breaks="the replica is told to follow a primary that no longer has the history the replica needs",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.dbs[0].st.GlobalVariables.PurgedGTID = "u0:1,u0:2"
	d.dbs[2].st.GlobalVariables.ExecutedGTID = "u0:1"
	d.dbs[2].st.ReplicaStatus.ReplicaIORunning = "No"
	d.dbs[2].st.ReplicaStatus.SourceHost = "other"
	_, _ = d.do()
	for _, l := range d.log {
		if len(l) > 11 && l[:11] == "db2 replica" {
			t.Fatalf("instance 2 was told to follow a primary without its history: %q", d.log)
		}
	}
}
'''),
 dict(id="kill-only-relabelled", prop="C08",
  edits=[(OPS, '''		v := pod.Labels[constants.LabelMocoRole]
		if v == "" {
			noRoles = append(noRoles, i)
			continue
		}
''', '''		v, ok := pod.Labels[constants.LabelMocoRole]
		if !ok {
			if i == ss.Primary || !isErrantReplica(ss, i) {
				noRoles = append(noRoles, i)
			}
			continue
		}
		if v == constants.RoleReplica && i != ss.Primary {
			continue
		}
''')],
  needs="a replica becomes errant while the cluster stays available, so that configure runs with the replica role label still in place",
  breaks="an errant replica keeps its replica role label and clients go on reading from it",
  demo=H+'''	d := newDemo(t, 3, nil)
	d.dbs[2].st.GlobalVariables.ExecutedGTID = "u0:1,u0:2,u2:1"
	d.dbs[2].st.ReplicaStatus.ReplicaIORunning = "No"
	d.dbs[0].st.ReplicaHosts = d.dbs[0].st.ReplicaHosts[:1]
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if v := d.pod(2).Labels[constants.LabelMocoRole]; v != "" {
		t.Fatalf("the errant replica is still labelled %s", v)
	}
}
'''),
 dict(id="prevent-delete-last-replica", prop="C09",
  edits=[(ST, '''				preventPodDeletion = true
				break
			}
''', '''				preventPodDeletion = true
			} else {
				preventPodDeletion = false
			}
''')],
  needs="only a replica with a lower ordinal is delayed and a later one is up to date",
  breaks="the delay of all but the last replica is ignored, so the primary Pod is not protected",
  demo=H+'''	d := newDemo(t, 3, func(c *mocov1beta2.MySQLCluster) { c.Spec.MaxDelaySecondsForPodDeletion = 10 })
	d.dbs[1].st.ReplicaStatus.SecondsBehindSource.Valid = true
	d.dbs[1].st.ReplicaStatus.SecondsBehindSource.Int64 = 1000
	d.dbs[2].st.ReplicaStatus.SecondsBehindSource.Valid = true
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if _, ok := d.pod(0).Annotations[constants.AnnPreventDelete]; !ok {
		t.Fatal("the primary is not protected although a replica is delayed")
	}
}
'''),
 dict(id="cloned-while-down", prop="C11",
  edits=[(ST, '''	pst := ss.MySQLStatus[ss.Primary]
	if pst == nil {
		return true
	}

	if pst.CloneStatus''', '''	pst := ss.MySQLStatus[ss.Primary]
	if pst == nil {
		// nothing can be said about an unreachable instance
		return false
	}

	if pst.CloneStatus''')],
  needs="the primary is out of reach at a check before the initial clone from the external server was made",
  breaks="the cluster is recorded as cloned and is never seeded from the external server; its empty primary just starts to replicate",
  demo=H+'''	name := "src"
	d := newDemo(t, 3, func(c *mocov1beta2.MySQLCluster) { c.Spec.ReplicationSourceSecretName = &name })
	for _, db := range d.dbs {
		db.st.GlobalVariables.ExecutedGTID = ""
		db.st.GlobalVariables.ReadOnly, db.st.GlobalVariables.SuperReadOnly = true, true
		db.st.GlobalVariables.SemiSyncMasterEnabled = false
		db.st.ReplicaStatus = nil
		db.st.ReplicaHosts = nil
	}
	d.dbs[0].down = true
	_, _ = d.do()
	if d.cluster().Status.Cloned {
		t.Fatal("recorded as cloned before anything was cloned")
	}
}
'''),
 dict(id="failover-recheck-tolerated", prop="C01",
  edits=[(OPS, '''			return fmt.Errorf("failed to recheck the status of instance %d: %w", i, err)
		}
		candidates[i]''', '''			log.Error(err, "failed to recheck the status", "instance", i)
			continue
		}
		candidates[i]''')],
  needs="during a fail-over, the status of the most advanced replica cannot be read again after its IO thread was stopped, while another replica has received less",
  breaks="the replica that holds acknowledged writes is left out of the election and a less advanced one becomes the primary",
  demo=H+'''	d := newDemo(t, 5, nil)
	d.dbs[0].down = true
	d.dbs[2].st.ReplicaStatus.RetrievedGtidSet = "u0:1,u0:2,u0:3"
	d.dbs[2].onIO = func() { d.dbs[2].down = true } // goes away after its IO thread was stopped
	_, _ = d.do()
	if i := d.cluster().Status.CurrentPrimaryIndex; i != 0 {
		t.Fatalf("instance %d was made primary without knowing what instance 2 has", i)
	}
	d.dbs[2].down = false
	d.dbs[2].onIO = nil
	if _, err := d.do(); err != nil {
		t.Fatal(err)
	}
	if i := d.cluster().Status.CurrentPrimaryIndex; i != 2 {
		t.Fatalf("instance %d was made primary, but instance 2 is the most advanced", i)
	}
}
'''),
 dict(id="prevent-kept-degraded", prop="C09",
  edits=[(PR, '''	} else {
		err := p.removeAnnPreventDelete(ctx, ss)''', '''	} else if ss.State != StateDegraded {
		err := p.removeAnnPreventDelete(ctx, ss)''')],
  needs="replication was delayed, has caught up, and the cluster stays degraded because another replica is down",
  breaks="the primary Pod stays protected from deletion although no replica is delayed any more",
  demo=H+'''	d := newDemo(t, 5, func(c *mocov1beta2.MySQLCluster) { c.Spec.MaxDelaySecondsForPodDeletion = 10 })
	for i := 1; i < 5; i++ {
		d.dbs[i].st.ReplicaStatus.SecondsBehindSource.Valid = true
	}
	d.setPod(0, func(p *corev1.Pod) { p.Annotations = map[string]string{constants.AnnPreventDelete: "true"} })
	d.dbs[3].down = true
	d.dbs[0].st.ReplicaHosts = d.dbs[0].st.ReplicaHosts[:3]
	for i := 0; i < 3; i++ {
		if _, err := d.do(); err != nil {
			t.Fatal(err)
		}
	}
	if _, ok := d.pod(0).Annotations[constants.AnnPreventDelete]; ok {
		t.Fatal("the primary is still protected although no replica is delayed")
	}
}
'''),
]
