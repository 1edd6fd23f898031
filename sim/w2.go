package sim

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	storagev1 "k8s.io/api/storage/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/intstr"
	corev1ac "k8s.io/client-go/applyconfigurations/core/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// World 2: the whole moco-controller process (the three reconcilers, the
// cluster manager and the admission webhooks) in a simulated Kubernetes.

var (
	pdbGVK     = policyv1.SchemeGroupVersion.WithKind("PodDisruptionBudget")
	cronGVK    = batchv1.SchemeGroupVersion.WithKind("CronJob")
	jobGVK     = batchv1.SchemeGroupVersion.WithKind("Job")
	roleGVK    = rbacv1.SchemeGroupVersion.WithKind("Role")
	bindGVK    = rbacv1.SchemeGroupVersion.WithKind("RoleBinding")
	scGVK      = storagev1.SchemeGroupVersion.WithKind("StorageClass")
	childKinds = []schema.GroupVersionKind{stsGVK, svcGVK, secretGVK, saGVK, cmGVK, pdbGVK, cronGVK, roleGVK, bindGVK, jobGVK}
)

func isChild(g schema.GroupVersionKind) bool {
	for _, x := range childKinds {
		if x == g {
			return true
		}
	}
	return false
}

type w2World struct {
	found        [][3]string // differences noted by the last judgement
	w            *World
	workers      int
	historyLimit int
	goneAt       map[objKey]time.Duration
	partInterval time.Duration
	syncAnn      []string
	syncLab      []string
	admitMore    func(op string, old, obj client.Object) error
	undo         map[string]func() // toggles to be undone, by name
	touchedAt    time.Duration     // last human change
	deleted      map[string]bool   // clusters deleted by the user
	sizes        map[string]int
	certSeq      int
	deletes      map[objKey]string // who deleted an object last
	spoiled      map[objKey]bool   // objects last written by a human

	o w2Oracles
}

func w2Config(s *Sim, prop string) Config {
	k := "cfg"
	cfg := w1Config(s, prop)
	cfg.World = "w2"
	cfg.External, cfg.PromoteAt = false, 0
	cfg.Budget = true
	cfg.Writers, cfg.Readers = 1, 0
	cfg.WriteGap = s.Dur(k, 2*time.Second, 5*time.Second)
	cfg.Interval = []time.Duration{5 * time.Second, 10 * time.Second, 30 * time.Second}[s.Intn(k, 3)]
	cfg.Replicas = []int{1, 3, 3, 3}[s.Intn(k, 4)]
	cfg.FaultStart = 120 * time.Second
	if s.Chance(k, 0.25) {
		cfg.FaultStart = time.Second
	}
	cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 200*time.Second, 900*time.Second)
	cfg.Settle = 1500 * time.Second
	ex := map[string]string{}
	ex["workers"] = strconv.Itoa([]int{1, 4, 8}[s.Intn(k, 3)])
	ex["history"] = strconv.Itoa([]int{2, 2, 3, 10}[s.Intn(k, 4)])
	ex["part"] = []string{"1s", "5s", "10s"}[s.Intn(k, 3)]
	if s.Chance(k, 0.4) {
		ex["sync"] = "1"
	}
	if s.Chance(k, 0.6) {
		ex["other"] = []string{"1", "1", "2"}[s.Intn(k, 3)] // 2: the same name in another namespace
	}
	if s.Chance(k, 0.35) {
		ex["vols"] = "2"
	}
	if s.Chance(k, 0.4) {
		ex["backup"] = "1"
	}
	rp := 0.1
	if prop == "C10" {
		rp = 0.3
	}
	if s.Chance(k, rp) {
		ex["restore"] = s.Dur(k, 30*time.Second, 600*time.Second).Truncate(time.Second).String()
	}
	cfg.Extra = ex
	return cfg
}

func (w *World) setupW2() {
	cfg := w.Cfg
	x := &w2World{w: w, undo: map[string]func(){}, deleted: map[string]bool{}, sizes: map[string]int{}, deletes: map[objKey]string{}, spoiled: map[objKey]bool{}, goneAt: map[objKey]time.Duration{}}
	w.w2 = x
	x.workers, _ = strconv.Atoi(cfg.Extra["workers"])
	x.historyLimit, _ = strconv.Atoi(cfg.Extra["history"])
	x.partInterval, _ = time.ParseDuration(cfg.Extra["part"])
	if cfg.Extra["sync"] == "1" {
		x.syncAnn, x.syncLab = []string{"sync/ann"}, []string{"sync-lab"}
	}
	newKubeSim(w)
	w.kl.gcSweep()
	w.setupAdmission()
	x.o.init(x)
	w.Store.hooks = append(w.Store.hooks, x.changed, x.o.changed)
	w.fireExtra = x.fire
	w.onRefMissing = x.o.refMissing
	w.onPodPw = x.o.podPw

	sc := &storagev1.StorageClass{Provisioner: "sim", AllowVolumeExpansion: ptr(true)}
	sc.Name = "sc"
	w.mustCreate(sc)
	x.userObjects("nsmain")
	n := cfg.Replicas
	main := &ClusterRef{types.NamespacedName{Namespace: "nsmain", Name: "test"}, n}
	w.clusters = append(w.clusters, main)
	w.mustCreate(x.newCluster(main.Namespace, main.Name, n))
	if on := map[string]types.NamespacedName{"1": {Namespace: "nsmain", Name: "test-b"}, "2": {Namespace: "nstwin", Name: "test"}}[cfg.Extra["other"]]; on.Name != "" {
		if on.Namespace != "nsmain" {
			x.userObjects(on.Namespace)
		}
		o := &ClusterRef{on, 1}
		w.clusters = append(w.clusters, o)
		w.mustCreate(x.newCluster(o.Namespace, o.Name, 1))
	}
	w.setupApps(main)
	w.ctl = &Controller{w: w, setup: w2Setup}
	w.S.After(w.S.Dur("ctlstart", 0, 10*time.Second), w.ctl.Start)
}

// userObjects creates what users refer to.
func (x *w2World) userObjects(ns string) {
	for i, n := range []string{"conf-a", "conf-b"} {
		cm := &corev1.ConfigMap{Data: map[string]string{"max_connections": strconv.Itoa(100 + i), "long_query_time": "1"}}
		cm.Namespace, cm.Name = ns, n
		x.w.mustCreate(cm)
	}
	for i, n := range []string{"bp-a", "bp-b"} {
		bp := &mocov1beta2.BackupPolicy{}
		bp.Namespace, bp.Name = ns, n
		bp.Spec.Schedule = fmt.Sprintf("%d 3 * * *", i)
		bp.Spec.ConcurrencyPolicy = batchv1.AllowConcurrent
		bp.Spec.JobConfig = jobConfig("sa-" + n)
		x.w.mustCreate(bp)
	}
}

func jobConfig(sa string) mocov1beta2.JobConfig {
	return mocov1beta2.JobConfig{ServiceAccountName: sa, BucketConfig: mocov1beta2.BucketConfig{BucketName: "bkt"},
		WorkVolume: mocov1beta2.VolumeSourceApplyConfiguration(*corev1ac.VolumeSource().WithEmptyDir(corev1ac.EmptyDirVolumeSource())),
		Threads:    4, CPU: ptr(resource.MustParse("1")), Memory: ptr(resource.MustParse("1Gi"))}
}

func (x *w2World) newCluster(ns, name string, n int) *mocov1beta2.MySQLCluster {
	cfg := x.w.Cfg
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name = ns, name
	cl.Spec.Replicas = int32(n)
	cl.Spec.MaxDelaySecondsForPodDeletion = 0
	cl.Spec.StartupWaitSeconds = 60
	cl.Spec.LogRotationSchedule = "*/5 * * * *"
	cl.Spec.PodTemplate.Spec = mocov1beta2.PodSpecApplyConfiguration(*corev1ac.PodSpec().WithContainers(
		corev1ac.Container().WithName("mysqld").WithImage("mysql:1")))
	pvc := mocov1beta2.PersistentVolumeClaim{ObjectMeta: mocov1beta2.ObjectMeta{Name: constants.MySQLDataVolumeName}}
	pvc.Spec = mocov1beta2.PersistentVolumeClaimSpecApplyConfiguration(*corev1ac.PersistentVolumeClaimSpec().
		WithStorageClassName("sc").WithAccessModes(corev1.ReadWriteOnce).
		WithResources(corev1ac.VolumeResourceRequirements().WithRequests(corev1.ResourceList{corev1.ResourceStorage: resource.MustParse("1Gi")})))
	cl.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{pvc}
	if cfg.Extra["vols"] == "2" {
		p2 := pvc.DeepCopy()
		p2.Name = "extra"
		if ns == "nsmain" && name == "test" { // either order
			cl.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{*p2, pvc}
		} else {
			cl.Spec.VolumeClaimTemplates = []mocov1beta2.PersistentVolumeClaim{pvc, *p2}
		}
	}
	if cfg.Extra["backup"] == "1" {
		cl.Spec.BackupPolicyName = ptr("bp-a")
	}
	if d := cfg.Extra["restore"]; d != "" && name == "test" && ns == "nsmain" {
		cl.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: "src", SourceNamespace: "nssrc", RestorePoint: metav1.NewTime(time.Now().Truncate(time.Second)), JobConfig: jobConfig("sa-restore")}
	}
	return cl
}

// changed reacts to stored objects: cert-manager, the job controller and bookkeeping.
func (x *w2World) changed(k objKey, old, cur client.Object, who string) {
	w, s := x.w, x.w.S
	if cur == nil {
		x.deletes[k] = who
		x.goneAt[k] = s.Now()
	} else {
		delete(x.deletes, k)
	}
	delete(x.spoiled, k)
	if who == "human" {
		x.spoiled[k] = true
	}
	switch k.GVK {
	case certGVK:
		if old == nil && cur != nil {
			uid := cur.GetUID()
			s.After(s.logDur("certmgr", 500*time.Millisecond, 10*time.Second), func() { x.issue(k, uid) })
		}
	case clusterGVK:
		for _, c := range w.clusters {
			if cur != nil && c.NamespacedName == k.NamespacedName {
				c.N = int(cur.(*mocov1beta2.MySQLCluster).Spec.Replicas)
			}
		}
	case jobGVK:
		if w.w3 != nil {
			w.w3.jobChanged(k, old, cur)
			return
		}
		if old == nil && cur != nil && strings.HasPrefix(k.Name, "moco-restore-") && k.Namespace == "nsmain" {
			d, _ := time.ParseDuration(w.Cfg.Extra["restore"])
			uid := cur.GetUID()
			s.After(d*3/10, func() { x.restoring(k, uid) })
			s.After(d, func() { x.restoreDone(k, uid) })
		}
	}
}

// issue is cert-manager creating the certificate's secret.
func (x *w2World) issue(k objKey, uid types.UID) {
	w := x.w
	o := w.Store.Peek(k)
	if o == nil || o.GetUID() != uid {
		return
	}
	u := o.(*unstructured.Unstructured)
	name, _, _ := unstructured.NestedString(u.Object, "spec", "secretName")
	if name == "" {
		w.S.Harness("certificate %s has no secretName", k)
		return
	}
	sk := objKey{secretGVK, types.NamespacedName{Namespace: k.Namespace, Name: name}}
	x.certSeq++
	data := map[string][]byte{"tls.crt": []byte(fmt.Sprintf("crt-%d", x.certSeq)), "tls.key": []byte(fmt.Sprintf("key-%d", x.certSeq)), "ca.crt": []byte("ca")}
	if w.Store.Peek(sk) == nil {
		sec := &corev1.Secret{Data: data}
		sec.Namespace, sec.Name = sk.Namespace, sk.Name
		_ = w.Store.Create("certmgr", sec)
	}
	x.certTouch(k, x.certSeq)
	seq := x.certSeq
	w.S.After(60*time.Second, func() { x.certTouch(k, seq) })
}

func (x *w2World) certTouch(k objKey, n int) {
	if x.w.Store.Peek(k) == nil {
		return
	}
	_ = x.w.Store.Mutate("certmgr", k, false, func(o client.Object) bool {
		u := o.(*unstructured.Unstructured)
		r, _, _ := unstructured.NestedInt64(u.Object, "status", "revision")
		return unstructured.SetNestedField(u.Object, r+1, "status", "revision") == nil
	})
}

// restoring is the restore job loading a part of the data.
func (x *w2World) restoring(k objKey, uid types.UID) {
	w := x.w
	c := x.ref(strings.TrimPrefix(k.Name, "moco-restore-"))
	if o := w.Store.Peek(k); o == nil || o.GetUID() != uid || c == nil {
		return
	}
	if cl, m := w.cluster(c), w.inst(c, 0); cl != nil && cl.Spec.Restore != nil && cl.Status.RestoredTime == nil && m != nil && m.Up {
		w.count("restoring")
		m.HumanWrite()
	}
}

// restoreDone is the restore job finishing.
func (x *w2World) restoreDone(k objKey, uid types.UID) {
	w := x.w
	o := w.Store.Peek(k)
	if o == nil || o.GetUID() != uid {
		return
	}
	name := strings.TrimPrefix(k.Name, "moco-restore-")
	c := x.ref(name)
	if c == nil {
		return
	}
	m := w.inst(c, 0)
	cl := w.cluster(c)
	if cl == nil || cl.Spec.Restore == nil || cl.Status.RestoredTime != nil {
		return
	}
	perm := true // the job works with the permissions moco gives it
	for _, g := range []schema.GroupVersionKind{roleGVK, bindGVK} {
		perm = perm && w.Store.Peek(objKey{g, k.NamespacedName}) != nil
	}
	if m == nil || !m.Up || !perm {
		w.S.After(5*time.Second, func() { x.restoreDone(k, uid) })
		return
	}
	for i := 0; i < 3; i++ {
		m.HumanWrite()
	}
	w.count("restored")
	_ = w.Store.Mutate("restorejob", c.key(), true, func(o client.Object) bool {
		o.(*mocov1beta2.MySQLCluster).Status.RestoredTime = ptr(metav1.NewTime(time.Now().Truncate(time.Second)))
		return true
	})
}

func (x *w2World) ref(name string) *ClusterRef {
	for _, c := range x.w.clusters {
		if c.Name == name && c.Namespace == "nsmain" {
			return c
		}
	}
	return nil
}

// ---- faults --------------------------------------------------------------------

func (x *w2World) edit(c *ClusterRef, f func(cl *mocov1beta2.MySQLCluster) bool) bool {
	w := x.w
	cl := w.cluster(c)
	if cl == nil || cl.DeletionTimestamp != nil {
		return false
	}
	did := false
	err := w.Store.Mutate("human", c.key(), false, func(o client.Object) bool {
		did = f(o.(*mocov1beta2.MySQLCluster))
		return did
	})
	if err != nil {
		w.count("user_edit_denied")
		w.S.Logf("edit denied: %v", err)
		return false
	}
	if did {
		x.touchedAt = w.S.Now()
		w.orc.updateNoTouch(c)
	}
	return did
}

func annotate(o client.Object, k, v string) bool {
	a := o.GetAnnotations()
	if a == nil {
		a = map[string]string{}
	}
	if v == "" {
		if _, ok := a[k]; !ok {
			return false
		}
		delete(a, k)
	} else {
		if a[k] == v {
			return false
		}
		a[k] = v
	}
	o.SetAnnotations(a)
	return true
}

// toggle does something now and undoes it after d.
func (x *w2World) toggle(name string, d time.Duration, undo func()) {
	x.undo[name] = undo
	x.w.S.After(d, func() {
		if u := x.undo[name]; u != nil && !x.w.faultsOff {
			delete(x.undo, name)
			u()
		}
	})
}

func (x *w2World) fire(f *Fault, done func()) bool {
	w := x.w
	c := w.clusters[0]
	if len(w.clusters) > 1 && f.Arg%10 >= 8 {
		c = w.clusters[1]
	}
	cn := c.Name
	arg := f.Arg / 10
	now := w.S.Now()
	ed := func(g func(cl *mocov1beta2.MySQLCluster) bool) {
		if x.edit(c, g) {
			done()
		}
	}
	mysqldOf := func(cl *mocov1beta2.MySQLCluster) *corev1ac.ContainerApplyConfiguration {
		for i := range cl.Spec.PodTemplate.Spec.Containers {
			if k := &cl.Spec.PodTemplate.Spec.Containers[i]; k.Name != nil && *k.Name == "mysqld" {
				return k
			}
		}
		return nil
	}
	switch f.Kind {
	case "u_image":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			mysqldOf(cl).WithImage(fmt.Sprintf("mysql:%d", 1+arg%4))
			return true
		})
	case "u_tmpl":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			cl.Spec.PodTemplate.Annotations = map[string]string{"user/rev": strconv.Itoa(arg % 5)}
			if arg%3 == 0 {
				cl.Spec.PodTemplate.Labels = map[string]string{"user-label": strconv.Itoa(arg % 2)}
			} else {
				cl.Spec.PodTemplate.Labels = nil
			}
			return true
		})
	case "u_scale":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			if cl.Spec.Replicas >= 5 || cl.Spec.Replicas >= 3 && arg%3 != 0 {
				return false
			}
			cl.Spec.Replicas += 2
			return true
		})
	case "u_conf":
		k := objKey{cmGVK, types.NamespacedName{Namespace: c.Namespace, Name: []string{"conf-a", "conf-b"}[arg%2]}}
		if w.Store.Peek(k) != nil {
			done()
			x.touchedAt = now
			_ = w.Store.Mutate("human", k, false, func(o client.Object) bool {
				o.(*corev1.ConfigMap).Data["max_connections"] = strconv.Itoa(100 + arg/2%5)
				return true
			})
		}
	case "u_confname":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			v := []*string{ptr("conf-a"), ptr("conf-b"), nil}[arg%3]
			cl.Spec.MySQLConfigMapName = v
			return true
		})
	case "u_confrm":
		k := objKey{cmGVK, types.NamespacedName{Namespace: c.Namespace, Name: []string{"conf-a", "conf-b"}[arg%2]}}
		if o := w.Store.Peek(k); o != nil && x.undo["confrm/"+k.Name] == nil {
			done()
			cm := o.DeepCopyObject().(*corev1.ConfigMap)
			x.touchedAt = now
			_ = w.Store.Delete("human", k)
			x.toggle("confrm/"+k.Name, f.Dur, func() {
				n := &corev1.ConfigMap{Data: cm.Data}
				n.Namespace, n.Name = k.Namespace, k.Name
				_ = w.Store.Create("human", n)
				x.touchedAt = w.S.Now()
			})
		}
	case "u_backup":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			cl.Spec.BackupPolicyName = []*string{ptr("bp-a"), ptr("bp-b"), nil}[arg%3]
			return true
		})
	case "u_policy":
		k := objKey{policyGVK, types.NamespacedName{Namespace: c.Namespace, Name: []string{"bp-a", "bp-b"}[arg%2]}}
		done()
		x.touchedAt = now
		_ = w.Store.Mutate("human", k, false, func(o client.Object) bool {
			bp := o.(*mocov1beta2.BackupPolicy)
			bp.Spec.Schedule = fmt.Sprintf("%d 4 * * *", arg/2%7)
			if arg%5 == 0 {
				bp.Spec.JobConfig.ServiceAccountName = fmt.Sprintf("sa-%d", arg/5%3)
			}
			if arg%7 == 0 {
				bp.Spec.BackoffLimit = ptr(int32(arg % 4))
			}
			return true
		})
	case "u_size":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			p := &cl.Spec.VolumeClaimTemplates[arg/16%len(cl.Spec.VolumeClaimTemplates)]
			q := (*p.Spec.Resources.Requests)[corev1.ResourceStorage]
			gi := q.Value() >> 30
			if arg%8 == 0 && gi > 1 && w.Cfg.Extra["shrink"] == "1" {
				gi--
			} else {
				gi += int64(1 + arg%2)
			}
			p.Spec.Resources.Requests = &corev1.ResourceList{corev1.ResourceStorage: resource.MustParse(fmt.Sprintf("%dGi", gi))}
			return true
		})
	case "u_pvcmeta":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			p := &cl.Spec.VolumeClaimTemplates[arg/8%len(cl.Spec.VolumeClaimTemplates)]
			p.Labels = map[string]string{"sync-lab": fmt.Sprint("v", arg%3)}
			if arg%2 == 0 {
				p.Annotations = map[string]string{"sync/ann": fmt.Sprint("v", arg%3)}
			}
			return true
		})
	case "u_offline":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			if cl.Spec.Offline {
				return false
			}
			cl.Spec.Offline = true
			x.toggle("offline/"+c.String(), f.Dur, func() { x.edit(c, func(cl *mocov1beta2.MySQLCluster) bool { cl.Spec.Offline = false; return true }) })
			return true
		})
	case "u_stopc", "u_stopr", "u_force":
		a := map[string]string{"u_stopc": constants.AnnClusteringStopped, "u_stopr": constants.AnnReconciliationStopped, "u_force": constants.AnnForceRollingUpdate}[f.Kind]
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			if !annotate(cl, a, "true") {
				return false
			}
			x.toggle(f.Kind+"/"+c.String(), f.Dur, func() { x.edit(c, func(cl *mocov1beta2.MySQLCluster) bool { return annotate(cl, a, "") }) })
			return true
		})
	case "u_slow":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			cl.Spec.DisableSlowQueryLogContainer = !cl.Spec.DisableSlowQueryLogContainer
			return true
		})
	case "u_slowtmpl":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			cl.Spec.SlowQueryLogConfigTmpl = []*string{ptr("a {{ .Path }}"), ptr("b {{ .Path }}"), nil, ptr("c {{ .Path }}")}[arg%4]
			return true
		})
	case "u_coll":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			cl.Spec.Collectors = [][]string{{"engine_innodb_status"}, {"info_schema.innodb_metrics", "binlog_size"}, nil}[arg%3]
			return true
		})
	case "u_svc":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			t := &mocov1beta2.ServiceTemplate{}
			switch arg % 4 {
			case 0:
				t = nil
			case 1:
				t.Annotations = map[string]string{"user/svc": strconv.Itoa(arg % 5)}
			case 2:
				t.Labels = map[string]string{"user-svc": strconv.Itoa(arg % 5)}
				t.Spec = (*mocov1beta2.ServiceSpecApplyConfiguration)(corev1ac.ServiceSpec().WithType(corev1.ServiceTypeLoadBalancer))
			case 3:
				t.Spec = (*mocov1beta2.ServiceSpecApplyConfiguration)(corev1ac.ServiceSpec().WithExternalTrafficPolicy(corev1.ServiceExternalTrafficPolicyTypeLocal).WithType(corev1.ServiceTypeNodePort))
			}
			if arg/4%2 == 0 {
				cl.Spec.PrimaryServiceTemplate = t
			} else {
				cl.Spec.ReplicaServiceTemplate = t
			}
			return true
		})
	case "u_misc":
		ed(func(cl *mocov1beta2.MySQLCluster) bool {
			switch arg % 5 {
			case 0:
				cl.Spec.MaxDelaySeconds = ptr(20 + arg%40)
			case 1:
				cl.Spec.LogRotationSchedule = fmt.Sprintf("*/%d * * * *", 1+arg%9)
			case 2:
				cl.Spec.AgentUseLocalhost = !cl.Spec.AgentUseLocalhost
			case 3:
				cl.Spec.StartupWaitSeconds = int32(60 + arg%100)
			case 4:
				cl.Spec.LogRotationSize = arg % 3 * 1000
			}
			return true
		})
	case "h_delchild", "h_modchild":
		ks := x.children(c)
		if len(ks) == 0 {
			return true
		}
		k := ks[arg%len(ks)]
		if k.Namespace == systemNS {
			return true
		}
		if f.Kind == "h_delchild" {
			if k.GVK == stsGVK { // deleting it without orphaning would take the Pods down
				w.kl.onDelete(k, &client.DeleteOptions{PropagationPolicy: ptr(metav1.DeletePropagationOrphan)})
			}
			if k.GVK == jobGVK && w.cluster(c).Status.RestoredTime == nil {
				return true
			}
			done()
			_ = w.Store.Delete("human", k)
			return true
		}
		if x.modify(k, arg) {
			done()
		}
	case "h_restart": // kubectl rollout restart
		k := objKey{stsGVK, types.NamespacedName{Namespace: c.Namespace, Name: "moco-" + cn}}
		if o := w.Store.Peek(k); o != nil && o.GetDeletionTimestamp() == nil {
			done()
			x.touchedAt = now
			_ = w.Store.Mutate("human", k, false, func(o client.Object) bool {
				sts := o.(*appsv1.StatefulSet)
				if sts.Spec.Template.Annotations == nil {
					sts.Spec.Template.Annotations = map[string]string{}
				}
				sts.Spec.Template.Annotations["kubectl.kubernetes.io/restartedAt"] = fmt.Sprint(now)
				return true
			})
		}
	case "cron_active":
		k := objKey{cronGVK, types.NamespacedName{Namespace: c.Namespace, Name: "moco-backup-" + cn}}
		if w.Store.Peek(k) != nil {
			done()
			set := func(n int) {
				if w.Store.Peek(k) == nil {
					return
				}
				_ = w.Store.Mutate("cron", k, true, func(o client.Object) bool {
					cj := o.(*batchv1.CronJob)
					cj.Status.Active = nil
					if n > 0 {
						cj.Status.Active = []corev1.ObjectReference{{Kind: "Job", Name: "x"}}
					}
					return true
				})
			}
			set(1)
			x.toggle("cron/"+c.String(), f.Dur, func() { set(0) })
		}
	case "cert_rot":
		k := objKey{certGVK, types.NamespacedName{Namespace: systemNS, Name: "moco-agent-" + c.Namespace + "." + cn}}
		if w.Store.Peek(k) != nil {
			done()
			x.rotate(k)
		}
	case "sts_freeze":
		done()
		if w.kl.frozen < now+f.Dur {
			w.kl.frozen = now + f.Dur
		}
	case "c_delete":
		cl := w.cluster(c)
		if cl == nil || cl.DeletionTimestamp != nil {
			return true
		}
		done()
		x.touchedAt = now
		x.deleted[c.String()] = true
		spec := cl.Spec.DeepCopy()
		_ = w.Store.Delete("human", c.key())
		if arg%3 != 0 {
			w.S.After(f.Dur, func() { x.recreate(c, spec) })
		}
	default:
		return false
	}
	return true
}

func (x *w2World) rotate(k objKey) {
	w := x.w
	x.certSeq++
	sk := objKey{secretGVK, types.NamespacedName{Namespace: k.Namespace, Name: k.Name}}
	seq := x.certSeq
	_ = w.Store.Mutate("certmgr", sk, false, func(o client.Object) bool {
		s := o.(*corev1.Secret)
		s.Data["tls.crt"] = []byte(fmt.Sprintf("crt-%d", seq))
		s.Data["tls.key"] = []byte(fmt.Sprintf("key-%d", seq))
		return true
	})
	x.certTouch(k, seq)
	w.S.After(60*time.Second, func() { x.certTouch(k, seq) })
}

// recreate creates a deleted cluster again once the old object is gone.
func (x *w2World) recreate(c *ClusterRef, spec *mocov1beta2.MySQLClusterSpec) {
	w := x.w
	if w.ended || w.healed && !x.deleted[c.String()] {
		return
	}
	busy := w.cluster(c) != nil
	if w.S.Now() < w.cacheStallAt+5*time.Second { // and the controller has seen that
		w.S.After(5*time.Second, func() { x.recreate(c, spec) })
		return
	}
	for _, k := range w.Store.AllKeys() { // the remains of the old one must be gone
		if o := w.Store.Peek(k); k.Namespace == c.Namespace && o.GetLabels()[constants.LabelAppInstance] == c.Name && o.GetLabels()[constants.LabelAppCreatedBy] == constants.AppCreator {
			busy = true
		}
	}
	if busy {
		w.S.After(2*time.Second, func() { x.recreate(c, spec) })
		return
	}
	cl := x.newCluster(c.Namespace, c.Name, int(spec.Replicas))
	cl.Spec = *spec.DeepCopy()
	cl.Spec.ServerIDBase = 0
	cl.Spec.Restore = nil
	delete(x.deleted, c.String())
	x.touchedAt = w.S.Now()
	if err := w.Store.Create("human", cl); err != nil {
		w.S.Harness("recreate: %v", err)
	}
	w.count("recreated")
}

// children lists the objects generated for a cluster in its namespace.
func (x *w2World) children(c *ClusterRef) []objKey {
	cl := x.w.cluster(c)
	if cl == nil {
		return nil
	}
	var ks []objKey
	for _, g := range childKinds {
		for _, k := range x.w.Store.Keys(g) {
			if o := x.w.Store.Peek(k); ownedBy(o, cl.GetUID()) {
				ks = append(ks, k)
			}
		}
	}
	return ks
}

// modify changes a field that moco sets.
func (x *w2World) modify(k objKey, arg int) bool {
	err := x.w.Store.Mutate("human", k, false, func(o client.Object) bool {
		if o.GetDeletionTimestamp() != nil {
			return false
		}
		switch t := o.(type) {
		case *corev1.Service:
			if arg%2 == 0 {
				t.Spec.Selector = map[string]string{"app": "other"}
			} else if len(t.Spec.Ports) > 0 {
				t.Spec.Ports[0].TargetPort = intstr.FromInt32(1234)
			}
		case *corev1.Secret:
			for kk := range t.Data {
				if strings.HasSuffix(kk, "PASSWORD") || kk == "tls.crt" || strings.HasSuffix(kk, ".cnf") {
					t.Data[kk] = []byte("broken")
				}
			}
		case *corev1.ConfigMap:
			for kk := range t.Data {
				t.Data[kk] = "broken"
			}
		case *appsv1.StatefulSet:
			if arg%2 == 0 {
				t.Spec.Template.Spec.Containers[0].Image = "other:1"
			} else {
				t.Labels[constants.LabelAppName] = "other"
			}
		case *policyv1.PodDisruptionBudget:
			t.Spec.MaxUnavailable = nil
		case *batchv1.CronJob:
			t.Spec.Schedule = "1 1 1 1 1"
		case *rbacv1.Role:
			t.Rules = nil
		case *rbacv1.RoleBinding:
			t.Subjects = nil
		default:
			return false
		}
		return true
	})
	return err == nil
}

// w2Heal undoes every user toggle so that the specification is plain again.
func (x *w2World) w2Heal() {
	w := x.w
	for _, n := range sortedKeys(x.undo) {
		u := x.undo[n]
		delete(x.undo, n)
		u()
	}
	w.kl.frozen = 0
	for _, k := range w.Store.Keys(stsGVK) {
		w.kl.pending[k] = false
		w.kl.kick(k)
	}
}
