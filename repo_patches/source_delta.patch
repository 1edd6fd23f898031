From 072d45bdb38aad512d303b46a19c447b14b3bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 01/27] fix: add missing role labels also when the cluster is
 healthy

If adding a role label to a Pod failed, the cluster could become Healthy
without the label, and nothing would ever add it.
---
 clustering/operations.go | 17 +++++++++++++++++
 clustering/process.go    |  3 ++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..60ec973 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -351,6 +351,23 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 	return nil
 }
 
+// lacksRoleLabel returns true if there is an instance that should have a role label but does not have the right one.
+func (p *managerProcess) lacksRoleLabel(ss *StatusSet) bool {
+	for i, pod := range ss.Pods {
+		if ss.MySQLStatus[i] == nil || isErrantReplica(ss, i) {
+			continue
+		}
+		role := constants.RoleReplica
+		if i == ss.Primary {
+			role = constants.RolePrimary
+		}
+		if pod.Labels[constants.LabelMocoRole] != role {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..d31b14b 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -227,7 +227,8 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 			// do not configure the cluster after a switchover.
 			return true, nil
 		}
-		if ss.State == StateDegraded {
+		// a healthy cluster may still lack role labels if adding them failed halfway.
+		if ss.State == StateDegraded || p.lacksRoleLabel(ss) {
 			return p.configure(ctx, ss)
 		}
 		return false, nil
-- 
2.43.0


From f2051b703f97fb04a31239e5911f9b658289cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 02/27] fix: remove the demote annotation left on a former
 primary

When the primary index was updated but the removal of the annotation
failed, the Pod kept the annotation and would be demoted immediately
the next time it became primary.
---
 clustering/operations.go | 19 +++++++++++++++++++
 clustering/process.go    |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 60ec973..0eb2ca9 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -227,6 +227,25 @@ func (p *managerProcess) switchover(ctx context.Context, ss *StatusSet) error {
 	return nil
 }
 
+// removeStaleAnnDemote removes the demote annotation from non-primary Pods.
+// It is left there if a switchover changed the primary but failed to remove the annotation.
+func (p *managerProcess) removeStaleAnnDemote(ctx context.Context, ss *StatusSet) error {
+	for i, pod := range ss.Pods {
+		if i == ss.Primary {
+			continue
+		}
+		if _, ok := pod.Annotations[constants.AnnDemote]; !ok {
+			continue
+		}
+		newPod := pod.DeepCopy()
+		delete(newPod.Annotations, constants.AnnDemote)
+		if err := p.client.Patch(ctx, newPod, client.MergeFrom(pod)); err != nil {
+			return fmt.Errorf("failed to remove moco.cybozu.com/demote annotation: %w", err)
+		}
+	}
+	return nil
+}
+
 func (p *managerProcess) failover(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	log.Info("begin failover the primary", "current", ss.Primary)
diff --git a/clustering/process.go b/clustering/process.go
index d31b14b..ea4f7d9 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -218,6 +218,9 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 		return false, nil
 
 	case StateHealthy, StateDegraded:
+		if err := p.removeStaleAnnDemote(ctx, ss); err != nil {
+			return false, err
+		}
 		if ss.NeedSwitch && !ss.PreventPodDeletion {
 			if err := p.switchover(ctx, ss); err != nil {
 				event.SwitchOverFailed.Emit(ss.Cluster, p.recorder, err)
-- 
2.43.0


From 3c52b51dc7eeff214c689352a6e6208c4a8aa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:39 +0000
Subject: [PATCH 03/27] fix: reconfigure replicas left with a wrong semi-sync
 setting in a healthy cluster

A replica that was not reachable when the cluster was promoted from a
replication source keeps semi-sync replication disabled, and nothing
would enable it while the cluster is healthy.
---
 clustering/operations.go | 14 ++++++++++++++
 clustering/process.go    |  5 +++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 0eb2ca9..c1e30f4 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -387,6 +387,20 @@ func (p *managerProcess) lacksRoleLabel(ss *StatusSet) bool {
 	return false
 }
 
+// hasWrongSemiSync returns true if there is a replica whose semi-sync setting does not match the cluster's specification.
+func (p *managerProcess) hasWrongSemiSync(ss *StatusSet) bool {
+	semisync := ss.Cluster.Spec.ReplicationSourceSecretName == nil
+	for i, ist := range ss.MySQLStatus {
+		if i == ss.Primary || ist == nil || ist.IsErrant {
+			continue
+		}
+		if ist.GlobalVariables.SemiSyncSlaveEnabled != semisync {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
diff --git a/clustering/process.go b/clustering/process.go
index ea4f7d9..5b05ee4 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -230,8 +230,9 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 			// do not configure the cluster after a switchover.
 			return true, nil
 		}
-		// a healthy cluster may still lack role labels if adding them failed halfway.
-		if ss.State == StateDegraded || p.lacksRoleLabel(ss) {
+		// a healthy cluster may still lack role labels if adding them failed halfway,
+		// or have replicas that were not reachable when semi-sync replication was turned on or off.
+		if ss.State == StateDegraded || p.lacksRoleLabel(ss) || p.hasWrongSemiSync(ss) {
 			return p.configure(ctx, ss)
 		}
 		return false, nil
-- 
2.43.0


From 414039144feea4ef1aee6a555d1623d078a6b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:45 +0000
Subject: [PATCH 04/27] fix: execute everything received before promoting an
 intermediate primary

Transactions received between gathering the status and stopping the IO
thread were not waited for, and then discarded by RESET REPLICA.
---
 clustering/operations.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index c1e30f4..a35e641 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -560,18 +560,26 @@ func (p *managerProcess) configurePrimary(ctx context.Context, ss *StatusSet) (r
 	op := ss.DBOps[ss.Primary]
 
 	// wait for all retrieved transactions to be executed if this used to be an intermediate replica
-	if pst.ReplicaStatus != nil && pst.ReplicaStatus.ReplicaIORunning == "Yes" {
+	replicaStatus := pst.ReplicaStatus
+	if replicaStatus != nil && replicaStatus.ReplicaIORunning == "Yes" {
 		redo = true
 		log.Info("stop replica IO thread", "instance", ss.Primary)
 		if err := op.StopReplicaIOThread(ctx); err != nil {
 			return false, err
 		}
 		time.Sleep(100 * time.Millisecond)
+
+		// some transactions may have been retrieved after the status was gathered
+		newStatus, err := op.GetStatus(ctx)
+		if err != nil {
+			return false, fmt.Errorf("failed to recheck the status of instance %d: %w", ss.Primary, err)
+		}
+		replicaStatus = newStatus.ReplicaStatus
 	}
-	if pst.ReplicaStatus != nil && pst.ReplicaStatus.RetrievedGtidSet != "" {
+	if replicaStatus != nil && replicaStatus.RetrievedGtidSet != "" {
 		redo = true
-		log.Info("waiting for all retrieved transactions to be executed", "instance", ss.Primary, "gtid", pst.ReplicaStatus.RetrievedGtidSet)
-		if err := op.WaitForGTID(ctx, pst.ReplicaStatus.RetrievedGtidSet, 0); err != nil {
+		log.Info("waiting for all retrieved transactions to be executed", "instance", ss.Primary, "gtid", replicaStatus.RetrievedGtidSet)
+		if err := op.WaitForGTID(ctx, replicaStatus.RetrievedGtidSet, 0); err != nil {
 			return false, err
 		}
 	}
-- 
2.43.0


From dd8858f970cce53be1cc96822c781630d7bc0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:45 +0000
Subject: [PATCH 05/27] fix: do not open a primary that lost its semi-sync
 settings

mysqld of the new primary may restart between ConfigurePrimary and
SetReadOnly(false).  Semi-sync settings are not persisted, so the primary was
made writable without semi-synchronous replication and acknowledged writes
could be lost if it died before the next check.
---
 clustering/operations.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index a35e641..fe815e3 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -2,6 +2,7 @@ package clustering
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"os"
 	"strconv"
@@ -506,6 +507,16 @@ func (p *managerProcess) configure(ctx context.Context, ss *StatusSet) (bool, er
 		op := ss.DBOps[ss.Primary]
 		if pst.GlobalVariables.ReadOnly {
 			redo = true
+			if ss.Cluster.Spec.Replicas > 1 {
+				// mysqld forgets the semi-sync settings if it has restarted after it was configured
+				st, err := op.GetStatus(ctx)
+				if err != nil {
+					return false, fmt.Errorf("failed to recheck the status of the primary: %w", err)
+				}
+				if !st.GlobalVariables.SemiSyncMasterEnabled {
+					return false, errors.New("semi-sync of the primary has been disabled, it may have restarted")
+				}
+			}
 			logFromContext(ctx).Info("set read_only=0", "instance", ss.Primary)
 			if err := op.SetReadOnly(ctx, false); err != nil {
 				return false, fmt.Errorf("failed to make the primary writable: %w", err)
-- 
2.43.0


From 51bd4c9838fe8e5a6f543efee4cf6db8a549803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 06/27] fix: do not crash when an offline cluster has no Pods

removeAnnPreventDelete dereferenced the nil entries for missing Pods and took
the whole controller process down.
---
 clustering/operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index fe815e3..3a99f51 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -405,6 +405,9 @@ func (p *managerProcess) hasWrongSemiSync(ss *StatusSet) bool {
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
-- 
2.43.0


From 454424a076053c876d8fda7f3e6a7a7a9be096f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:18 +0000
Subject: [PATCH 07/27] fix: keep ConfigMaps that are still used by a
 StatefulSet or Pods

Clean-up of generated ConfigMaps deleted the slow log ConfigMaps of other
clusters whose name begins with the same string and ConfigMaps that the
StatefulSet or its Pods still referred to, and was skipped forever when it
failed once.
---
 controllers/mysqlcluster_controller.go | 94 ++++++++++++++++----------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..16e6172 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -482,16 +482,13 @@ func (r *MySQLClusterReconciler) reconcileV1MyCnf(ctx context.Context, cluster *
 	}
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cmName}
-	if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return cm, nil
-		}
+	if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err == nil {
+		log.Info("reconciled my.cnf ConfigMap", "configMapName", cmName)
+	} else if !errors.Is(err, ErrApplyConfigurationNotChanged) {
 		return nil, fmt.Errorf("failed to reconcile my.cnf configmap %s/%s: %w", cluster.Namespace, cmName, err)
 	}
 
-	log.Info("reconciled my.cnf ConfigMap", "configMapName", cmName)
-
-	if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName); err != nil {
+	if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName, r.MySQLConfigMapHistoryLimit-1); err != nil {
 		return nil, err
 	}
 
@@ -522,7 +519,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		configTmpl = defaultConfigTmpl
 	}
 
-	prefix := cluster.SlowQueryLogAgentConfigMapName()
+	prefix := cluster.SlowQueryLogAgentConfigMapName() + "."
 	if !cluster.Spec.DisableSlowQueryLogContainer {
 		t, err := template.New("").Parse(configTmpl)
 		if err != nil {
@@ -541,7 +538,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		fnv32a.Write([]byte(configTmpl))
 		suffix := hex.EncodeToString(fnv32a.Sum(nil))
 
-		cmName := fmt.Sprintf("%s.%s", prefix, suffix)
+		cmName := prefix + suffix
 
 		cm := corev1ac.ConfigMap(cmName, cluster.Namespace).
 			WithLabels(labelSet(cluster, false)).
@@ -552,39 +549,61 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		}
 
 		key := client.ObjectKey{Namespace: cluster.Namespace, Name: cmName}
-		if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err != nil {
-			if errors.Is(err, ErrApplyConfigurationNotChanged) {
-				return cm, nil
-			}
+		if _, err := apply(ctx, r.Client, key, cm, corev1ac.ExtractConfigMap); err == nil {
+			log.Info("reconciled ConfigMap for slow logs", "configMapName", cmName)
+		} else if !errors.Is(err, ErrApplyConfigurationNotChanged) {
 			return nil, fmt.Errorf("failed to reconcile configmap %s/%s for slow logs: %w", cluster.Namespace, cmName, err)
 		}
 
-		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName); err != nil {
+		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName, r.MySQLConfigMapHistoryLimit-1); err != nil {
 			return nil, err
 		}
 
-		log.Info("reconciled ConfigMap for slow logs", "configMapName", cmName)
 		return cm, nil
-	} else {
-		cms := &corev1.ConfigMapList{}
-		if err := r.List(ctx, cms, client.InNamespace(cluster.Namespace)); err != nil {
-			return nil, err
-		}
-		for _, old := range cms.Items {
-			if strings.HasPrefix(old.Name, prefix) {
-				if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
-					return nil, fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
-				}
-				log.Info("deleted old configmap", "configMapName", old.Name)
-			}
-		}
-		return nil, nil
 	}
+
+	if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, "", 0); err != nil {
+		return nil, err
+	}
+	return nil, nil
 }
 
-func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, cluster *mocov1beta2.MySQLCluster, namePrefix, currentName string) error {
+// cleanupOldConfigMaps deletes the ConfigMaps of the cluster whose name begins with namePrefix
+// except for the one named currentName and the newest `keep` others.
+// ConfigMaps that are still used by the StatefulSet or its Pods are not deleted.
+func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, cluster *mocov1beta2.MySQLCluster, namePrefix, currentName string, keep int) error {
 	log := crlog.FromContext(ctx)
 
+	inUse := make(map[string]struct{})
+	addVolumes := func(volumes []corev1.Volume) {
+		for _, v := range volumes {
+			if v.ConfigMap != nil {
+				inUse[v.ConfigMap.Name] = struct{}{}
+			}
+		}
+	}
+
+	sts := &appsv1.StatefulSet{}
+	err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.PrefixedName()}, sts)
+	switch {
+	case err == nil:
+		if sts.Status.CurrentRevision != sts.Status.UpdateRevision {
+			// Pods can still be created from the old revision.
+			return nil
+		}
+		addVolumes(sts.Spec.Template.Spec.Volumes)
+	case !apierrors.IsNotFound(err):
+		return fmt.Errorf("failed to get StatefulSet %s/%s: %w", cluster.Namespace, cluster.PrefixedName(), err)
+	}
+
+	pods := &corev1.PodList{}
+	if err := r.List(ctx, pods, client.InNamespace(cluster.Namespace), client.MatchingLabels(labelSet(cluster, false))); err != nil {
+		return fmt.Errorf("failed to list Pods: %w", err)
+	}
+	for _, pod := range pods.Items {
+		addVolumes(pod.Spec.Volumes)
+	}
+
 	cms := &corev1.ConfigMapList{}
 	if err := r.List(ctx, cms, client.InNamespace(cluster.Namespace)); err != nil {
 		return err
@@ -601,13 +620,16 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 			continue
 		}
 		oldConfigCount++
-		log.Info("found old configmap", "configMapName", old.Name, "count", oldConfigCount, "created", old.CreationTimestamp.Time)
-		if oldConfigCount > r.MySQLConfigMapHistoryLimit-1 {
-			if err := r.Delete(ctx, &old); err != nil {
-				return fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
-			}
-			log.Info("deleted old configmap", "configMapName", old.Name)
+		if oldConfigCount <= keep {
+			continue
+		}
+		if _, ok := inUse[old.Name]; ok {
+			continue
+		}
+		if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
+			return fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 		}
+		log.Info("deleted old configmap", "configMapName", old.Name)
 	}
 	return nil
 }
-- 
2.43.0


From 74c0c38ec5f833058500898b3da5328387139b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:49 +0000
Subject: [PATCH 08/27] fix: resize PVCs also after the StatefulSet has been
 recreated

PVC sizes were compared only with the StatefulSet's template, so PVCs kept the
old size forever when the StatefulSet was recreated while resizing was skipped
or had failed, and a PVC larger than wanted stopped the reconciliation.
---
 controllers/pvc.go | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a826ca4..61f7909 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -2,7 +2,6 @@ package controllers
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	"strings"
 
@@ -19,10 +18,6 @@ import (
 	crlog "sigs.k8s.io/controller-runtime/pkg/log"
 )
 
-var (
-	ErrReduceVolumeSize = errors.New("cannot reduce volume size")
-)
-
 // reconcilePVC syncs the PVC and volumeClaimTemplate labels and annotations and resizes the PVC as needed.
 // The synchronization of labels and annotations always happens, regardless of the StatefulSet's state.
 // Subsequently, the PVC is resized, if necessary.
@@ -55,14 +50,13 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 		return nil
 	}
 
-	resizeTarget, ok := r.needResizePVC(cluster, &sts)
-	if !ok {
-		return nil
+	if _, ok := r.needResizePVC(cluster, &sts); ok {
+		log.Info("Starting PVC resize")
 	}
 
-	log.Info("Starting PVC resize")
-
-	resized, err := r.resizePVCs(ctx, cluster, &sts, resizeTarget)
+	// PVCs need to be checked even if the StatefulSet has the wanted sizes
+	// because it might have been recreated before PVCs were resized.
+	resized, err := r.resizePVCs(ctx, cluster, &sts)
 	if err != nil {
 		metrics.VolumeResizedErrorTotal.WithLabelValues(cluster.Name, cluster.Namespace).Inc()
 		return err
@@ -77,7 +71,7 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 	return nil
 }
 
-func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1beta2.MySQLCluster, sts *appsv1.StatefulSet, resizeTarget map[string]corev1.PersistentVolumeClaim) (map[string]corev1.PersistentVolumeClaim, error) {
+func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1beta2.MySQLCluster, sts *appsv1.StatefulSet) (map[string]corev1.PersistentVolumeClaim, error) {
 	log := crlog.FromContext(ctx)
 
 	newSizes := make(map[string]*resource.Quantity)
@@ -95,11 +89,10 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 	} else {
 		replicas = *sts.Spec.Replicas
 	}
-	pvcsToKeep := make(map[string]*resource.Quantity, replicas*int32(len(resizeTarget)))
-	for _, pvc := range resizeTarget {
+	pvcsToKeep := make(map[string]*resource.Quantity, replicas*int32(len(newSizes)))
+	for pvcName, newSize := range newSizes {
 		for i := int32(0); i < replicas; i++ {
-			name := fmt.Sprintf("%s-%s-%d", pvc.Name, sts.Name, i)
-			newSize := newSizes[pvc.Name]
+			name := fmt.Sprintf("%s-%s-%d", pvcName, sts.Name, i)
 			pvcsToKeep[name] = newSize
 		}
 	}
@@ -126,24 +119,23 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 			continue
 		}
 
-		supported, err := r.isVolumeExpansionSupported(ctx, &pvc)
-		if err != nil {
-			return resizedPVC, fmt.Errorf("failed to check if volume expansion is supported: %w", err)
-		}
-		if !supported {
-			log.Info("StorageClass used by PVC does not support volume expansion, skipped", "storageClassName", *pvc.Spec.StorageClassName, "pvcName", pvc.Name)
-			continue
-		}
-
 		switch i := pvc.Spec.Resources.Requests.Storage().Cmp(*newSize); i {
 		case 0: // volume size is equal
 			continue
 		case 1: // current volume size is greater than new size
 			// The size of the Persistent Volume Claims (PVC) cannot be reduced.
 			// Although MOCO permits the reduction of PVC, an automatic resize is not performed.
-			// An error arises if a PVC involving reduction is passed, as it's unexpected.
-			return resizedPVC, fmt.Errorf("failed to resize pvc %q, want size: %s, deployed size: %s: %w", pvc.Name, newSize.String(), pvc.Spec.Resources.Requests.Storage().String(), ErrReduceVolumeSize)
+			continue
 		case -1: // current volume size is smaller than new size
+			supported, err := r.isVolumeExpansionSupported(ctx, &pvc)
+			if err != nil {
+				return resizedPVC, fmt.Errorf("failed to check if volume expansion is supported: %w", err)
+			}
+			if !supported {
+				log.Info("StorageClass used by PVC does not support volume expansion, skipped", "pvcName", pvc.Name)
+				continue
+			}
+
 			pvc.Spec.Resources.Requests[corev1.ResourceStorage] = *newSize
 
 			if err := r.Update(ctx, &pvc); err != nil {
-- 
2.43.0


From bf731736580bccd40761584abeb579f7f4d278da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:09 +0000
Subject: [PATCH 09/27] fix: do not lower the partition of a StatefulSet that
 has been changed meanwhile

The partition was calculated from a possibly stale cache and patched without
a precondition, which skipped steps of the rolling update.
---
 controllers/partition_controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..c95a232 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -302,7 +302,8 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	// The partition may have been changed since sts was read.
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From 0305584541d1de92ddfe3c01cf9ac9cbb5a727f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:09 +0000
Subject: [PATCH 10/27] fix: reconcile Role and RoleBinding for backup even if
 CronJob is unchanged

---
 controllers/mysqlcluster_controller.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 16e6172..b0931fa 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1346,14 +1346,12 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	changed := !errors.Is(err, ErrApplyConfigurationNotChanged)
+	if err != nil && changed {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
+	if debugController && changed {
 		var updated batchv1.CronJob
 
 		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
@@ -1365,7 +1363,9 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 		}
 	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	if changed {
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
-- 
2.43.0


From b33163b4d81bb5ede27ccb144aeb84cd88213a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:10 +0000
Subject: [PATCH 11/27] fix: delete metrics for PVC resizing and StatefulSet
 recreation along with the cluster

---
 controllers/mysqlcluster_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index b0931fa..7961c2b 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1766,6 +1766,10 @@ func (r *MySQLClusterReconciler) finalizeV1(ctx context.Context, cluster *mocov1
 	metrics.CurrentReplicasVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
 	metrics.UpdatedReplicasVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
 	metrics.LastPartitionUpdatedVec.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.VolumeResizedTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.VolumeResizedErrorTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.StatefulSetRecreateTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
+	metrics.StatefulSetRecreateErrorTotal.DeleteLabelValues(cluster.Name, cluster.Namespace)
 
 	return nil
 }
-- 
2.43.0


From 069e4256f1db306f233d444c29d46f8ef2b9361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:32 +0000
Subject: [PATCH 12/27] fix: do not panic when annotations are to be
 synchronized to a PVC without annotations

---
 controllers/pvc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 61f7909..979836f 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -300,6 +300,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncAnnotationKeys {
 			if value, ok := template.Annotations[key]; ok {
 				if pvc.Annotations[key] != value {
+					if pvc.Annotations == nil {
+						pvc.Annotations = make(map[string]string)
+					}
 					pvc.Annotations[key] = value
 					isUpdate = true
 				}
-- 
2.43.0


From d58bf5b13ea8d80272e861039dd59cc09b50f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:44 +0000
Subject: [PATCH 13/27] fix: export metrics of stopped clusters also after a
 restart of the controller

---
 controllers/mysqlcluster_controller.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 7961c2b..18e2808 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1852,12 +1852,13 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
+	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
 		return nil
 	}
 
-	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
-
 	for _, cond := range cluster.Status.Conditions {
 		if cond.Type == mocov1beta2.ConditionAvailable || cond.Type == mocov1beta2.ConditionHealthy {
 			cond.Status = metav1.ConditionUnknown
@@ -1881,8 +1882,6 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 		log.Info("update status successfully")
 	}
 
-	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
@@ -1890,6 +1889,8 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionReconciliationActive) {
 		return nil
 	}
@@ -1910,8 +1911,6 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 		log.Info("update status successfully")
 	}
 
-	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
-- 
2.43.0


From 57673636008ebbeb6e39ceb2336ddf7feecf9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:44 +0000
Subject: [PATCH 14/27] fix: do not export replica metrics for clusters being
 deleted

---
 controllers/partition_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index c95a232..f51bade 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -67,6 +67,10 @@ func (r *StatefulSetPartitionReconciler) Reconcile(ctx context.Context, req reco
 		return reconcile.Result{}, fmt.Errorf("failed to get MySQLCluster: %w", err)
 	}
 
+	if cluster.DeletionTimestamp != nil {
+		return reconcile.Result{}, nil
+	}
+
 	metrics.CurrentReplicasVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(float64(sts.Status.CurrentReplicas))
 	metrics.UpdatedReplicasVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(float64(sts.Status.UpdatedReplicas))
 
-- 
2.43.0


From d73b15ad0e37f8f7f6402100f0a1cc919d4d527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 15/27] fix: delete metrics of a cluster that is deleted while
 its clustering is stopped

---
 clustering/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustering/manager.go b/clustering/manager.go
index 9ea069f..dc437fd 100644
--- a/clustering/manager.go
+++ b/clustering/manager.go
@@ -106,7 +106,11 @@ func (m *clusterManager) Stop(name types.NamespacedName) {
 	if ok {
 		p.Cancel()
 		delete(m.processes, key)
+		return
 	}
+
+	// A paused process has left its metrics.
+	newManagerProcess(m.client, m.reader, m.recorder, m.dbf, m.agentf, name, nil).deleteMetrics()
 }
 
 func (m *clusterManager) StopAll() {
-- 
2.43.0


From a91adb9ba3f750b00835facc2ec07af362b223c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 16/27] fix: do not clean up ConfigMaps before the StatefulSet
 is visible

---
 controllers/mysqlcluster_controller.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 18e2808..59df28f 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -592,7 +592,10 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 			return nil
 		}
 		addVolumes(sts.Spec.Template.Spec.Volumes)
-	case !apierrors.IsNotFound(err):
+	case apierrors.IsNotFound(err):
+		// It is not created yet or the cache does not have it yet.
+		return nil
+	default:
 		return fmt.Errorf("failed to get StatefulSet %s/%s: %w", cluster.Namespace, cluster.PrefixedName(), err)
 	}
 
-- 
2.43.0


From 16bafa4033ad4035707b4d4bdd0a89f155d4e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:30 +0000
Subject: [PATCH 17/27] fix: copy a renewed gRPC certificate even if its Secret
 is seen later than the Certificate

---
 controllers/mysqlcluster_controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 59df28f..5264d3b 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -2052,6 +2052,8 @@ func (r *MySQLClusterReconciler) SetupWithManager(ctx context.Context, mgr ctrl.
 		Owns(&rbacv1.RoleBinding{}).
 		Owns(&batchv1.Job{}).
 		Watches(certificateObj, certHandler).
+		// cert-manager stores the issued certificate in a Secret of the same name as the Certificate
+		Watches(&corev1.Secret{}, certHandler).
 		Watches(&corev1.ConfigMap{}, configMapHandler).
 		Watches(&mocov1beta2.BackupPolicy{}, backupPolicyHandler).
 		WithOptions(
-- 
2.43.0


From 41d1156d79d2dde2f0f31fc84daa34e77d907545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:32 +0000
Subject: [PATCH 18/27] fix: report a failure when the restoration was given up
 for bad connections

---
 cmd/moco-backup/cmd/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..2823463 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -37,7 +37,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return fmt.Errorf("gave up after %d tries: %w", maxRetry, backup.ErrBadConnection)
 	},
 }
 
-- 
2.43.0


From d7c9ebc1d26c8ba86a1966deeace01adeb69ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:32 +0000
Subject: [PATCH 19/27] fix: leave the instance read-only when its restoration
 failed

---
 backup/restore.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..b7e761e 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -150,6 +150,19 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 
 	rm.log.Info("restoring from a backup", "dump", dumpKey, "binlog", binlogKey)
 
+	// If the restoration fails, the instance must be left read-only.
+	finished := false
+	defer func() {
+		if finished {
+			return
+		}
+		ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), 30*time.Second)
+		defer cancel()
+		if err := op.FinishRestore(ctx); err != nil {
+			rm.log.Error(err, "failed to make the instance read-only")
+		}
+	}()
+
 	if err := op.PrepareRestore(ctx); err != nil {
 		return fmt.Errorf("failed to prepare instance for restoration: %w", err)
 	}
@@ -170,6 +183,7 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 	if err := op.FinishRestore(ctx); err != nil {
 		return fmt.Errorf("failed to finalize the restoration: %w", err)
 	}
+	finished = true
 
 	err = retry.RetryOnConflict(retry.DefaultRetry, func() error {
 		cluster = &mocov1beta2.MySQLCluster{}
-- 
2.43.0


From 035c052911d707b3f204befe4e4c8d7570507268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:32 +0000
Subject: [PATCH 20/27] fix: do not take binary logs from which required
 transactions were purged

---
 pkg/bkop/backup.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/bkop/backup.go b/pkg/bkop/backup.go
index f35553c..8d3db12 100644
--- a/pkg/bkop/backup.go
+++ b/pkg/bkop/backup.go
@@ -2,6 +2,7 @@ package bkop
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"os"
@@ -45,6 +46,16 @@ func (o operator) GetBinlogs(ctx context.Context) ([]string, error) {
 }
 
 func (o operator) DumpBinlog(ctx context.Context, dir, binlogName, filterGTID string) error {
+	// If binlogName is given, mysqld does not check that it still has
+	// the binary logs for all transactions that are not in filterGTID.
+	var complete bool
+	if err := o.db.GetContext(ctx, &complete, `SELECT GTID_SUBSET(@@gtid_purged, ?)`, filterGTID); err != nil {
+		return fmt.Errorf("failed to check purged transactions: %w", err)
+	}
+	if !complete {
+		return errors.New("some of the required binary logs have been purged")
+	}
+
 	args := []string{
 		"-h", o.host,
 		"--port", fmt.Sprint(o.port),
-- 
2.43.0


From b546a9315cc86981e2463dd821c34fcbf0568f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:40 +0000
Subject: [PATCH 21/27] fix: do not restore a cluster that has been restored
 already

---
 backup/restore.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index b7e761e..47043ac 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -87,6 +87,15 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 	cluster.Name = rm.name
 	podName := cluster.PodName(0)
 
+	// The Job may be created again just after the restoration was finished.
+	if err := rm.client.Get(ctx, client.ObjectKeyFromObject(cluster), cluster); err != nil {
+		return fmt.Errorf("failed to get MySQLCluster: %w", err)
+	}
+	if cluster.Status.RestoredTime != nil {
+		rm.log.Info("already restored", "time", cluster.Status.RestoredTime)
+		return nil
+	}
+
 	rm.log.Info("waiting for a pod to become ready", "name", podName)
 	var pod *corev1.Pod
 	for range 600 {
-- 
2.43.0


From ede9cd2e8150305956bc2f5c02514749ecdbe846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:40 +0000
Subject: [PATCH 22/27] fix: do not restore into an instance that is not
 read-only

---
 backup/restore.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 47043ac..b571171 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -123,6 +123,7 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 
 	// ping the database until it becomes ready
 	rm.log.Info("waiting for the mysqld to become ready", "name", podName)
+	ready := false
 	for range 600 {
 		select {
 		case <-time.After(1 * time.Second):
@@ -144,8 +145,12 @@ func (rm *RestoreManager) Restore(ctx context.Context) error {
 		if !st.SuperReadOnly {
 			continue
 		}
+		ready = true
 		break
 	}
+	if !ready {
+		return fmt.Errorf("%s did not become ready for restoration", podName)
+	}
 
 	keys, err := rm.bucket.List(ctx, rm.keyPrefix)
 	if err != nil {
-- 
2.43.0


From f8c7e783f44e1ae7ec9e8b8e76e1e929dc20df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 23/27] fix: do not store incomplete data when tar or zstd
 failed

---
 backup/backup.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/backup/backup.go b/backup/backup.go
index dc764e1..58cca54 100644
--- a/backup/backup.go
+++ b/backup/backup.go
@@ -346,12 +346,10 @@ func (bm *BackupManager) backupFull(ctx context.Context, op bkop.Operator) error
 
 	bw := &ByteCountWriter{}
 	key := calcKey(bm.cluster.Namespace, bm.cluster.Name, constants.DumpFilename, bm.startTime)
-	if err := bm.bucket.Put(ctx, key, io.TeeReader(pr, bw), usage); err != nil {
+	out := &commandOutput{Reader: pr, cmds: []*exec.Cmd{tarCmd}}
+	if err := bm.bucket.Put(ctx, key, io.TeeReader(out, bw), usage); err != nil {
 		return fmt.Errorf("failed to put dump.tar: %w", err)
 	}
-	if err := tarCmd.Wait(); err != nil {
-		return fmt.Errorf("tar command failed: %w", err)
-	}
 
 	bm.dumpSize = bw.Written()
 	bm.log.Info("uploaded dump file", "key", key, "bytes", bm.dumpSize)
@@ -439,21 +437,38 @@ func (bm *BackupManager) backupBinlog(ctx context.Context, op bkop.Operator) err
 
 	bw := &ByteCountWriter{}
 	key := calcKey(bm.cluster.Namespace, bm.cluster.Name, constants.BinlogFilename, lastBackup.Time.Time)
-	if err := bm.bucket.Put(ctx, key, io.TeeReader(pr2, bw), usage); err != nil {
+	out := &commandOutput{Reader: pr2, cmds: []*exec.Cmd{zstdCmd, tarCmd}}
+	if err := bm.bucket.Put(ctx, key, io.TeeReader(out, bw), usage); err != nil {
 		return fmt.Errorf("failed to put binlog.tar.zst: %w", err)
 	}
-	if err := tarCmd.Wait(); err != nil {
-		return fmt.Errorf("tar command failed: %w", err)
-	}
-	if err := zstdCmd.Wait(); err != nil {
-		return fmt.Errorf("zstd command failed: %w", err)
-	}
 
 	bm.binlogSize = bw.Written()
 	bm.log.Info("uploaded binlog files", "key", key, "bytes", bm.binlogSize)
 	return nil
 }
 
+// commandOutput is the output of commands.  Instead of the end of the data,
+// Read returns an error if any of the commands failed so that incomplete data
+// will not be stored as an object.
+type commandOutput struct {
+	io.Reader
+	cmds []*exec.Cmd
+}
+
+func (o *commandOutput) Read(p []byte) (int, error) {
+	n, err := o.Reader.Read(p)
+	if err != io.EOF {
+		return n, err
+	}
+	for _, cmd := range o.cmds {
+		if err := cmd.Wait(); err != nil {
+			return n, fmt.Errorf("%s command failed: %w", cmd.Args[0], err)
+		}
+	}
+	o.cmds = nil
+	return n, io.EOF
+}
+
 func podIsReady(pod *corev1.Pod) bool {
 	for _, cond := range pod.Status.Conditions {
 		if cond.Type != corev1.PodReady {
-- 
2.43.0


From d539ac246e99f6b28f04a62f4858edfa734a6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 24/27] fix: keep the relay log when restarting replication
 from the same source

ConfigureReplica ran CHANGE REPLICATION SOURCE TO for a replica whose receiver
thread was not running, e.g. because it could not reach the primary. That discards
the relay log together with the acknowledged transactions in it that are yet to be
applied. If the primary failed before the replica got them again, they were lost.
---
 pkg/dbop/replication.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/pkg/dbop/replication.go b/pkg/dbop/replication.go
index 9ee98cd..f5ed1d0 100644
--- a/pkg/dbop/replication.go
+++ b/pkg/dbop/replication.go
@@ -8,9 +8,41 @@ import (
 const semiSyncMasterTimeout = 24 * 60 * 60 * 1000
 
 func (o *operator) ConfigureReplica(ctx context.Context, primary AccessInfo, semisync bool) error {
+	// Changing the source discards the relay log. With semi-synchronous replication, the relay log may hold
+	// transactions that have been acknowledged to clients and have not been applied yet. So do not change
+	// the source if the replica already replicates from it and is able to apply them.
+	changeSource := true
+	if semisync {
+		st, err := o.getReplicaStatus(ctx)
+		if err != nil {
+			return err
+		}
+		if st != nil && st.SourceHost == primary.Host && st.SourcePort == primary.Port && st.ReplicaSQLRunning == "Yes" {
+			changeSource = false
+		}
+	}
+
 	if _, err := o.db.ExecContext(ctx, `STOP REPLICA`); err != nil {
 		return fmt.Errorf("failed to stop replica: %w", err)
 	}
+	if changeSource {
+		if err := o.changeSource(ctx, primary); err != nil {
+			return err
+		}
+	}
+	if _, err := o.db.ExecContext(ctx, "SET GLOBAL rpl_semi_sync_slave_enabled=?", semisync); err != nil {
+		return fmt.Errorf("failed to set rpl_semi_sync_slave_enabled: %w", err)
+	}
+	if _, err := o.db.ExecContext(ctx, "SET GLOBAL rpl_semi_sync_master_enabled=OFF"); err != nil {
+		return fmt.Errorf("failed to disable rpl_semi_sync_master_enabled: %w", err)
+	}
+	if _, err := o.db.ExecContext(ctx, `START REPLICA`); err != nil {
+		return fmt.Errorf("failed to start replica: %w", err)
+	}
+	return nil
+}
+
+func (o *operator) changeSource(ctx context.Context, primary AccessInfo) error {
 	var version string
 	if err := o.db.GetContext(ctx, &version, `SELECT SUBSTRING_INDEX(VERSION(), '.', 2)`); err != nil {
 		return fmt.Errorf("failed to get version: %w", err)
@@ -27,15 +59,6 @@ func (o *operator) ConfigureReplica(ctx context.Context, primary AccessInfo, sem
 	if _, err := o.db.NamedExecContext(ctx, cmd, primary); err != nil {
 		return fmt.Errorf("failed to change primary: %w", err)
 	}
-	if _, err := o.db.ExecContext(ctx, "SET GLOBAL rpl_semi_sync_slave_enabled=?", semisync); err != nil {
-		return fmt.Errorf("failed to set rpl_semi_sync_slave_enabled: %w", err)
-	}
-	if _, err := o.db.ExecContext(ctx, "SET GLOBAL rpl_semi_sync_master_enabled=OFF"); err != nil {
-		return fmt.Errorf("failed to disable rpl_semi_sync_master_enabled: %w", err)
-	}
-	if _, err := o.db.ExecContext(ctx, `START REPLICA`); err != nil {
-		return fmt.Errorf("failed to start replica: %w", err)
-	}
 	return nil
 }
 
-- 
2.43.0


From 2e55331b3fb550f283f2b0c25e190734d4d02762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:08 +0000
Subject: [PATCH 25/27] fix: stop clustering even if the reconciliation fails

The clustering stop annotation took effect only after every step of the
reconciliation had succeeded. With, say, a missing ConfigMap for my.cnf,
MOCO went on with switchover, failover and so on.
---
 controllers/mysqlcluster_controller.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 5264d3b..a764dbf 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -248,6 +248,13 @@ func (r *MySQLClusterReconciler) reconcileV1(ctx context.Context, req ctrl.Reque
 		}
 	}()
 
+	// Stop clustering first so that it does not depend on the success of the reconciliation.
+	if isClusteringStopped(cluster) {
+		if err = r.clusteringStopV1(ctx, cluster); err != nil {
+			return ctrl.Result{}, err
+		}
+	}
+
 	if err = r.reconcileV1Secret(ctx, cluster); err != nil {
 		log.Error(err, "failed to reconcile secret")
 		return ctrl.Result{}, err
@@ -304,9 +311,6 @@ func (r *MySQLClusterReconciler) reconcileV1(ctx context.Context, req ctrl.Reque
 	}
 
 	if isClusteringStopped(cluster) {
-		if err := r.clusteringStopV1(ctx, cluster); err != nil {
-			return ctrl.Result{}, err
-		}
 		return ctrl.Result{}, nil
 	}
 
-- 
2.43.0


From 9e9590fc783acddc25100b23ff362c3d0e54af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:28 +0000
Subject: [PATCH 26/27] fix: do not record the initial clone as done while the
 cluster is offline

---
 clustering/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 5b05ee4..042872b 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -343,7 +343,8 @@ func (p *managerProcess) updateStatus(ctx context.Context, ss *StatusSet) error
 		// the completion of initial cloning is recorded in the status
 		// to make it possible to determine the cloning status even while
 		// the primary instance is down.
-		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning {
+		// While the cluster is offline, it is not known whether the cloning has completed.
+		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning && ss.State != StateOffline {
 			cluster.Status.Cloned = true
 		}
 
-- 
2.43.0


From 6362f8906ce190605a42a62ac7471eebb6f56566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:21 +0000
Subject: [PATCH 27/27] fix: execute the relay log of a restarted instance
 before promoting it

---
 pkg/dbop/replication.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/dbop/replication.go b/pkg/dbop/replication.go
index f5ed1d0..2e8f4cb 100644
--- a/pkg/dbop/replication.go
+++ b/pkg/dbop/replication.go
@@ -83,7 +83,17 @@ func (o *operator) StopReplicaIOThread(ctx context.Context) error {
 }
 
 func (o *operator) WaitForGTID(ctx context.Context, gtid string, timeoutSeconds int) error {
-	var err error
+	// The SQL thread is not started when mysqld restarts. Transactions left in the relay log would never be executed.
+	st, err := o.getReplicaStatus(ctx)
+	if err != nil {
+		return err
+	}
+	if st != nil && st.ReplicaSQLRunning != "Yes" {
+		if _, err := o.db.ExecContext(ctx, `START REPLICA SQL_THREAD`); err != nil {
+			return fmt.Errorf("failed to start replica SQL thread: %w", err)
+		}
+	}
+
 	var timeout bool
 	err = o.db.GetContext(ctx, &timeout, `SELECT WAIT_FOR_EXECUTED_GTID_SET(?, ?)`, gtid, timeoutSeconds)
 	if err != nil {
-- 
2.43.0

