C, P = "controllers/mysqlcluster_controller.go", "controllers/partition_controller.go"
def H(*imports):
    return 'package controllers\n\nimport (\n' + ''.join('\t%s\n' % i for i in ('"context"', '"testing"') + imports) + ')\n\n'
META = 'metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"'
CORE = 'corev1 "k8s.io/api/core/v1"'
APPS = 'appsv1 "k8s.io/api/apps/v1"'
RBAC = 'rbacv1 "k8s.io/api/rbac/v1"'
CL = '"sigs.k8s.io/controller-runtime/pkg/client"'
INT = '"sigs.k8s.io/controller-runtime/pkg/client/interceptor"'
ERR = 'apierrors "k8s.io/apimachinery/pkg/api/errors"'
SCH = '"k8s.io/apimachinery/pkg/runtime/schema"'
MOCO = 'mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"'
BUGS = [
 dict(id="podwatcher-starts", prop="C10", pkg="controllers", helper="ctl_test.go",
  edits=[("controllers/pod_watcher.go", "r.ClusterManager.UpdateNoStart(", "r.ClusterManager.Update(")],
  needs="a cluster whose clustering has been stopped by the user, and a Pod of it being deleted or marked for demotion",
  breaks="the Pod event starts clustering operations (relabelling, switchover, configuration) of a cluster that the user has stopped",
  demo=H(APPS, CORE, META, '"time"', '"github.com/cybozu-go/moco/pkg/constants"', '"k8s.io/apimachinery/pkg/types"', 'ctrl "sigs.k8s.io/controller-runtime"', INT) + '''func TestDemo(t *testing.T) {
	yes := true
	sts := &appsv1.StatefulSet{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "moco-test", UID: "s",
		OwnerReferences: []metav1.OwnerReference{{APIVersion: "moco.cybozu.com/v1beta2", Kind: "MySQLCluster", Name: "test", UID: "c", Controller: &yes}}}}
	pod := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "moco-test-0", UID: "p", Annotations: map[string]string{constants.AnnDemote: "true"},
		OwnerReferences: []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: "StatefulSet", Name: "moco-test", UID: "s", Controller: &yes}}}}
	cl := demoCluster()
	cl.Annotations = map[string]string{constants.AnnClusteringStopped: "true"}
	m := &mockManager{clusters: map[string]struct{}{}}
	w := &PodWatcher{Client: demoClient(t, interceptor.Funcs{}, cl, sts, pod), ClusterManager: m}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	if _, err := w.Reconcile(ctx, ctrl.Request{NamespacedName: types.NamespacedName{Namespace: "ns", Name: "moco-test-0"}}); err != nil {
		t.Fatal(err)
	}
	if len(m.getKeys()) != 0 {
		t.Fatalf("operations of a stopped cluster are started: %v", m.getKeys())
	}
}
'''),
 dict(id="cronjob-gone-early-return", prop="C12", pkg="controllers", helper="ctl_test.go",
  edits=[(C, '''				log.Error(err, "failed to delete CronJob")
				return err
			}
		} else if !apierrors.IsNotFound(err) {
			return err
		}
''', '''				log.Error(err, "failed to delete CronJob")
				return err
			}
		} else {
			// nothing to do if no backup is configured
			return client.IgnoreNotFound(err)
		}
''')],
  needs="spec.backupPolicyName is removed and the controller crashes, or a call fails, after the CronJob was deleted and before the Role and RoleBinding were",
  breaks="the Role and RoleBinding for backup stay forever",
  demo=H(RBAC, ERR, CL, INT) + '''func TestDemo(t *testing.T) {
	cl := demoCluster()
	role := &rbacv1.Role{}
	role.Namespace, role.Name = "ns", cl.BackupRoleName()
	rb := &rbacv1.RoleBinding{}
	rb.Namespace, rb.Name = "ns", cl.BackupRoleName()
	c := demoClient(t, interceptor.Funcs{}, role, rb)
	if err := demoReconciler(t, c).reconcileV1BackupJob(context.Background(), cl); err != nil {
		t.Fatal(err)
	}
	for _, o := range []client.Object{&rbacv1.Role{}, &rbacv1.RoleBinding{}} {
		if err := c.Get(context.Background(), client.ObjectKeyFromObject(role), o); !apierrors.IsNotFound(err) {
			t.Fatalf("%T is left: %v", o, err)
		}
	}
}
'''),
 dict(id="secret-exists-ignored", prop="C13", pkg="controllers", helper="ctl_test.go",
  edits=[(C, '''		if err := r.Create(ctx, secret); err != nil {
			return err
		}

		log.Info("created controller Secret"''', '''		if err := r.Create(ctx, secret); err != nil && !apierrors.IsAlreadyExists(err) {
			return err
		}

		log.Info("created controller Secret"''')],
  needs="the controller's cache does not have the controller Secret yet (second reconciliation right after the creation, or after a lost reply or a restart)",
  breaks="the Secrets for the Pods are made from newly generated passwords that differ from the controller's",
  demo=H(CORE, ERR, SCH, CL, INT, '"github.com/cybozu-go/moco/pkg/password"') + '''func TestDemo(t *testing.T) {
	cl := demoCluster()
	pw, err := password.NewMySQLPassword()
	if err != nil {
		t.Fatal(err)
	}
	s := pw.ToSecret()
	s.Namespace, s.Name = "system", cl.ControllerSecretName()
	stale := true
	c := demoClient(t, interceptor.Funcs{Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
		if stale && key.Namespace == "system" {
			return apierrors.NewNotFound(schema.GroupResource{Resource: "secrets"}, key.Name)
		}
		return c.Get(ctx, key, obj, opts...)
	}}, s)
	_ = demoReconciler(t, c).reconcileV1Secret(context.Background(), cl)
	stale = false
	u := &corev1.Secret{}
	err = c.Get(context.Background(), client.ObjectKey{Namespace: "ns", Name: cl.UserSecretName()}, u)
	if apierrors.IsNotFound(err) {
		return
	}
	if err != nil {
		t.Fatal(err)
	}
	for k, v := range s.Data {
		if string(u.Data[k]) != string(v) {
			t.Fatalf("%s differs from the controller's", k)
		}
	}
}
'''),
 dict(id="rollout-off-by-one", prop="C14", pkg="controllers", helper="ctl_test.go",
  edits=[(P, "		if i >= int(ptr.Deref(sts.Spec.UpdateStrategy.RollingUpdate.Partition, 0)) {", "		if i > int(ptr.Deref(sts.Spec.UpdateStrategy.RollingUpdate.Partition, 0)) {")],
  needs="the stateful set controller is late: the Pod released last has not been touched yet when the next one is considered",
  breaks="the next Pod is released although the one before it still runs the old revision",
  demo=H(APPS, CORE, META, MOCO, INT, '"fmt"', '"time"') + '''func TestDemo(t *testing.T) {
	n, part := int32(3), int32(2)
	sts := &appsv1.StatefulSet{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "moco-test"}}
	sts.Spec.Replicas = &n
	sts.Spec.Selector = &metav1.LabelSelector{MatchLabels: map[string]string{"a": "b"}}
	sts.Spec.UpdateStrategy.RollingUpdate = &appsv1.RollingUpdateStatefulSetStrategy{Partition: &part}
	sts.Status.CurrentRevision, sts.Status.UpdateRevision = "old", "new"
	cl := demoCluster()
	cl.Status.Conditions = []metav1.Condition{{Type: mocov1beta2.ConditionHealthy, Status: metav1.ConditionTrue}}
	c := demoClient(t, interceptor.Funcs{})
	for i := range 3 {
		pod := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: fmt.Sprintf("moco-test-%d", i),
			Labels: map[string]string{"a": "b", appsv1.ControllerRevisionHashLabelKey: "old"}}}
		pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue, LastTransitionTime: metav1.NewTime(time.Now().Add(-time.Hour))}}
		if err := c.Create(context.Background(), pod); err != nil {
			t.Fatal(err)
		}
	}
	r := &StatefulSetPartitionReconciler{Client: c}
	ready, err := r.isRolloutReady(context.Background(), cl, sts)
	if err != nil {
		t.Fatal(err)
	}
	if ready {
		t.Fatal("released the next Pod while moco-test-2 is not updated")
	}
}
'''),
 dict(id="finalize-stops-without-secret", prop="C16", pkg="controllers", helper="ctl_test.go",
  edits=[(C, '''	if err := r.Delete(ctx, secret); err != nil && !apierrors.IsNotFound(err) {
		return fmt.Errorf("failed to delete controller secret %s: %w", secretName, err)
	}
''', '''	if err := r.Delete(ctx, secret); err != nil {
		if apierrors.IsNotFound(err) {
			// already finalized
			return nil
		}
		return fmt.Errorf("failed to delete controller secret %s: %w", secretName, err)
	}
''')],
  needs="the finalization fails, or the controller crashes, between the deletion of the Secret and that of the Certificate",
  breaks="the retry takes the finalization for done: the Certificate (and the metrics) are left behind forever",
  demo=H(ERR, CL, INT) + '''func TestDemo(t *testing.T) {
	cl := demoCluster()
	cert := certificateObj.DeepCopy()
	cert.SetNamespace("system")
	cert.SetName(cl.CertificateName())
	c := demoClient(t, interceptor.Funcs{}, cert)
	if err := demoReconciler(t, c).finalizeV1(context.Background(), cl); err != nil {
		t.Fatal(err)
	}
	if err := c.Get(context.Background(), client.ObjectKeyFromObject(cert), certificateObj.DeepCopy()); !apierrors.IsNotFound(err) {
		t.Fatalf("the certificate is left: %v", err)
	}
}
'''),
 dict(id="configmap-prefix", prop="C17", pkg="controllers", helper="ctl_test.go",
  edits=[(C, '''	prefix := cluster.PrefixedName() + "."

	cmName := prefix + suffix
	cmData''', '''	prefix := cluster.PrefixedName()

	cmName := prefix + "." + suffix
	cmData''')],
  needs="another cluster in the same namespace whose name begins with this cluster's name, and a short history limit",
  breaks="my.cnf ConfigMaps in use by the other cluster are deleted as old ones of this cluster",
  demo=H(CORE, APPS, META, INT, CL, 'corev1ac "k8s.io/client-go/applyconfigurations/core/v1"', '"github.com/cybozu-go/moco/pkg/constants"', '"fmt"', '"time"') + '''func TestDemo(t *testing.T) {
	cl := demoCluster()
	cl.Spec.PodTemplate.Spec.Containers = []corev1ac.ContainerApplyConfiguration{*corev1ac.Container().WithName(constants.MysqldContainerName)}
	sts := &appsv1.StatefulSet{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "moco-test"}}
	c := demoClient(t, interceptor.Funcs{}, sts)
	for i := range 4 {
		cm := &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: fmt.Sprintf("moco-test2.%08x", i), CreationTimestamp: metav1.NewTime(time.Unix(int64(1000+i), 0))}}
		if err := c.Create(context.Background(), cm); err != nil {
			t.Fatal(err)
		}
	}
	r := demoReconciler(t, c)
	r.MySQLConfigMapHistoryLimit = 2
	if _, err := r.reconcileV1MyCnf(context.Background(), cl); err != nil {
		t.Fatal(err)
	}
	for i := range 4 {
		if err := c.Get(context.Background(), client.ObjectKey{Namespace: "ns", Name: fmt.Sprintf("moco-test2.%08x", i)}, &corev1.ConfigMap{}); err != nil {
			t.Fatalf("a ConfigMap of another cluster is gone: %v", err)
		}
	}
}
'''),
]
