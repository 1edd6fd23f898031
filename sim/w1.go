package sim

import (
	"fmt"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/password"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

func ptr[T any](v T) *T { return &v }

func (w *World) mustCreate(o client.Object) {
	if err := w.Store.Create("setup", o); err != nil {
		w.S.Harness("setup: create %v: %v", keyOf(o), err)
	}
}

// setupW1 creates one cluster whose resources are static; the cluster manager is real.
func (w *World) setupW1() {
	cfg := w.Cfg
	c := &ClusterRef{types.NamespacedName{Namespace: "ns", Name: "test"}, cfg.Replicas}
	w.clusters = append(w.clusters, c)
	newKubeSim(w)
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name = c.Namespace, c.Name
	cl.Finalizers = []string{constants.MySQLClusterFinalizer}
	cl.Spec.Replicas = int32(cfg.Replicas)
	cl.Spec.ServerIDBase = 100
	cl.Spec.MaxDelaySecondsForPodDeletion = cfg.MaxDelayPodDel
	cl.Spec.StartupWaitSeconds = 60
	cl.Spec.PodTemplate.Spec.Containers = nil
	if cfg.External {
		cl.Spec.ReplicationSourceSecretName = ptr("ext-source")
	}
	w.mustCreate(cl)
	pw, err := password.NewMySQLPassword()
	if err != nil {
		w.S.Harness("password: %v", err)
		return
	}
	sec := pw.ToSecret()
	sec.Namespace, sec.Name = c.Namespace, cl.UserSecretName()
	w.mustCreate(sec)
	if cfg.External {
		w.setupExt(c)
	}
	labels := map[string]string{
		constants.LabelAppName:      constants.AppNameMySQL,
		constants.LabelAppInstance:  c.Name,
		constants.LabelAppCreatedBy: constants.AppCreator,
	}
	sts := &appsv1.StatefulSet{}
	sts.Namespace, sts.Name = c.Namespace, cl.PrefixedName()
	sts.Spec.Replicas = ptr(int32(cfg.Replicas))
	sts.Spec.Selector = &metav1.LabelSelector{MatchLabels: labels}
	sts.Spec.PodManagementPolicy = appsv1.ParallelPodManagement
	sts.Spec.Template.Labels = labels
	sts.Spec.Template.Spec.Containers = []corev1.Container{{Name: "mysqld"}}
	pvc := corev1.PersistentVolumeClaim{}
	pvc.Name = constants.MySQLDataVolumeName
	pvc.Spec.Resources.Requests = corev1.ResourceList{corev1.ResourceStorage: resource.MustParse("1Gi")}
	sts.Spec.VolumeClaimTemplates = []corev1.PersistentVolumeClaim{pvc}
	w.mustCreate(sts)
	w.kl.kick(keyOf(sts))

	w.setupApps(c)
	w.ctl = &Controller{w: w, setup: w1Setup}
	w.S.After(w.S.Dur("ctlstart", 0, 10*time.Second), w.ctl.Start)
}

func (w *World) setupApps(c *ClusterRef) {
	users := []string{"app", constants.WritableUser, "app"}
	for i := 0; i < w.Cfg.Writers; i++ {
		w.newApp(c, "primary", users[i%len(users)], fmt.Sprintf("10.1.0.%d:5000%d", i+1, i%10))
	}
	for i := 0; i < w.Cfg.Readers; i++ {
		w.newApp(c, "replica", constants.ReadOnlyUser, fmt.Sprintf("10.1.1.%d:5000%d", i+1, i%10))
	}
}

// setupExt creates the external source server.
func (w *World) setupExt(c *ClusterRef) {
	host := "ext.example"
	m := &Mysqld{W: w, Name: host, Node: host, Kind: "ext", Index: -1, Version: w.Cfg.Version, Host: host,
		dumps: map[string]*replConn{}, sessions: map[uint64]*Session{}, IO: "No", SQL: "No"}
	m.Disk = newDisk("ext", "99999999-0000-0000-0000-000000000099")
	m.Disk.Inited = true
	m.Disk.Users = map[string]string{"repl": "replpw", "init": "initpw", "app": "app"}
	w.insts[host] = m
	w.ext = m
	m.Start()
	m.ReadOnly, m.SuperRO = false, false
	sec := &corev1.Secret{}
	sec.Namespace, sec.Name = c.Namespace, "ext-source"
	sec.Data = map[string][]byte{
		constants.CloneSourceHostKey:         []byte(host),
		constants.CloneSourcePortKey:         []byte("3306"),
		constants.CloneSourceUserKey:         []byte("repl"),
		constants.CloneSourcePasswordKey:     []byte("replpw"),
		constants.CloneSourceInitUserKey:     []byte("init"),
		constants.CloneSourceInitPasswordKey: []byte("initpw"),
	}
	w.mustCreate(sec)
	write := func() {
		t := &Txn{UUID: m.Disk.UUID, No: m.nextGNO(), TS: w.S.Now(), Origin: m.Name, Kind: "ext"}
		m.Disk.Binlog = append(m.Disk.Binlog, t)
		m.Disk.Executed.Add(t.UUID, t.No)
		for _, k := range sortedKeys(m.dumps) {
			m.dumps[k].pump()
		}
	}
	for i := 0; i < 5; i++ {
		write()
	}
	var next func()
	next = func() {
		if w.ended {
			return
		}
		write()
		w.S.After(w.S.Dur("extgap", w.Cfg.WriteGap/8, w.Cfg.WriteGap), next)
	}
	w.S.After(time.Second, next)
	if w.Cfg.PromoteAt > 0 {
		w.S.After(w.Cfg.PromoteAt, func() { w.promote(c) })
	}
}

// promote removes the external source from the specification.
func (w *World) promote(c *ClusterRef) {
	cl := w.cluster(c)
	if cl == nil || cl.Spec.ReplicationSourceSecretName == nil {
		return
	}
	if !cl.Status.Cloned {
		w.S.After(20*time.Second, func() { w.promote(c) })
		return
	}
	w.promoteAt = w.S.Now()
	w.promoteDone = true
	w.count("promote")
	_ = w.Store.Mutate("human", c.key(), false, func(o client.Object) bool {
		o.(*mocov1beta2.MySQLCluster).Spec.ReplicationSourceSecretName = nil
		return true
	})
}
