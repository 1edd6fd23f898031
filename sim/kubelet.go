package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/password"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const kubeletFinalizer = "sim/kubelet"
const pvcProtection = "kubernetes.io/pvc-protection"

// kPod is the kubelet's view of one Pod.
type kPod struct {
	key     objKey
	uid     types.UID
	inst    *Mysqld
	started bool // has an address
	term    bool
	gone    bool
	probing bool
	booting bool
}

// kubeSim is the stateful set controller, the kubelets, the endpoints
// controller and the garbage collector.
type kubeSim struct {
	w        *World
	pods     map[types.UID]*kPod
	byInst   map[string]*kPod
	revs     map[objKey]map[string]*corev1.PodTemplateSpec
	pending  map[objKey]bool
	hold     map[string]time.Duration // instance -> its node is down until
	wipe     map[string]bool
	eps      map[string][]string // "ns/cluster/role" -> instances
	epSched  map[string]bool
	frozen   time.Duration // stateful set controller does nothing until
	pvcGrow  bool
	delLog   []string
	orphaned map[objKey]bool
	frozenNS map[string]bool
}

func newKubeSim(w *World) *kubeSim {
	k := &kubeSim{w: w, pods: map[types.UID]*kPod{}, byInst: map[string]*kPod{}, revs: map[objKey]map[string]*corev1.PodTemplateSpec{},
		pending: map[objKey]bool{}, hold: map[string]time.Duration{}, wipe: map[string]bool{}, eps: map[string][]string{}, epSched: map[string]bool{},
		orphaned: map[objKey]bool{}, frozenNS: map[string]bool{}}
	w.kl = k
	w.Store.hooks = append(w.Store.hooks, k.changed)
	return k
}

func (kl *kubeSim) changed(k objKey, old, cur client.Object, who string) {
	switch k.GVK {
	case stsGVK:
		if cur == nil {
			if !kl.orphaned[k] {
				delete(kl.revs, k)
			}
			delete(kl.orphaned, k)
		}
		kl.kick(k)
	case podGVK:
		kl.podChanged(k, old, cur)
		o := cur
		if o == nil {
			o = old
		}
		kl.kickEndpoints(k.Namespace, o.GetLabels()[constants.LabelAppInstance])
		if name := o.GetLabels()["sim-sts"]; name != "" {
			kl.kick(objKey{stsGVK, types.NamespacedName{Namespace: k.Namespace, Name: name}})
		}
	case pvcGVK:
		if cur != nil {
			kl.pvcChanged(k, cur.(*corev1.PersistentVolumeClaim))
			if cur.GetDeletionTimestamp() != nil && len(cur.GetFinalizers()) > 0 {
				kl.releasePVC(k)
			}
		}
	}
	if cur == nil && old != nil {
		kl.gc(k, old)
	}
}

// onDelete implements orphaning.
func (kl *kubeSim) onDelete(k objKey, o *client.DeleteOptions) {
	if k.GVK != stsGVK || o.PropagationPolicy == nil || *o.PropagationPolicy != metav1.DeletePropagationOrphan {
		return
	}
	sts := kl.w.Store.Peek(k)
	if sts == nil {
		return
	}
	kl.orphaned[k] = true
	kl.w.probe("sts_orphan_delete")
	if kl.w.Cfg.World != "w1" {
		kl.orphanLater(k, sts.GetUID())
		return
	}
	for _, pk := range kl.w.Store.Keys(podGVK) {
		p := kl.w.Store.Peek(pk)
		if !ownedBy(p, sts.GetUID()) {
			continue
		}
		_ = kl.w.Store.Mutate("gc", pk, false, func(o client.Object) bool { o.SetOwnerReferences(nil); return true })
	}
}

// orphanLater is the garbage collector: the object stays, marked as deleted,
// until its dependents have been released.
func (kl *kubeSim) orphanLater(k objKey, uid types.UID) {
	st, s := kl.w.Store, kl.w.S
	o := st.read(k)
	if o == nil || o.GetDeletionTimestamp() != nil {
		return
	}
	o.SetFinalizers(append(o.GetFinalizers(), "orphan"))
	if err := st.C.Update(ctx2(), o); err != nil {
		s.Harness("orphan finalizer: %v", err)
		return
	}
	kl.w.count("sts_orphan_delete")
	s.After(s.logDur("orphan", 50*time.Millisecond, 8*time.Second), func() {
		for _, pk := range st.Keys(podGVK) {
			if p := st.Peek(pk); p != nil && ownedBy(p, uid) {
				_ = st.Mutate("gc", pk, false, func(o client.Object) bool { o.SetOwnerReferences(nil); return true })
			}
		}
		s.After(s.logDur("orphan", 5*time.Millisecond, 2*time.Second), func() {
			if c := st.Peek(k); c == nil || c.GetUID() != uid {
				return
			}
			_ = st.Mutate("gc", k, false, func(o client.Object) bool { o.SetFinalizers(nil); return true })
		})
	})
}

// gcSweep deletes dependents whose owner no longer exists.
func (kl *kubeSim) gcSweep() {
	st := kl.w.Store
	kl.w.S.Every(30*time.Second, func() bool {
		if kl.w.ended {
			return false
		}
		uids := map[types.UID]bool{}
		for _, o := range st.objs {
			uids[o.GetUID()] = true
		}
		for _, k := range st.AllKeys() {
			o := st.Peek(k)
			if o == nil || o.GetDeletionTimestamp() != nil {
				continue
			}
			refs := o.GetOwnerReferences()
			live := len(refs) == 0
			for _, r := range refs {
				live = live || uids[r.UID]
			}
			if !live {
				_ = st.Delete("gc", k)
			}
		}
		return true
	})
}

func ownedBy(o client.Object, uid types.UID) bool {
	for _, r := range o.GetOwnerReferences() {
		if r.UID == uid {
			return true
		}
	}
	return false
}

// gc deletes the dependents of a deleted object.
func (kl *kubeSim) gc(k objKey, old client.Object) {
	uid := old.GetUID()
	s := kl.w.S
	s.After(s.Dur("gc", 50*time.Millisecond, 2*time.Second), func() {
		for _, dk := range kl.w.Store.AllKeys() {
			o := kl.w.Store.Peek(dk)
			if o == nil || !ownedBy(o, uid) || o.GetDeletionTimestamp() != nil {
				continue
			}
			var rest []metav1.OwnerReference // owners that still exist keep it
			for _, r := range o.GetOwnerReferences() {
				for _, x := range kl.w.Store.objs {
					if x.GetUID() == r.UID {
						rest = append(rest, r)
						break
					}
				}
			}
			if len(rest) > 0 {
				_ = kl.w.Store.Mutate("gc", dk, false, func(o client.Object) bool { o.SetOwnerReferences(rest); return true })
				continue
			}
			_ = kl.w.Store.Delete("gc", dk)
		}
	})
}

func (kl *kubeSim) kick(k objKey) {
	if kl.pending[k] {
		return
	}
	kl.pending[k] = true
	s := kl.w.S
	d := s.Dur("sts", 10*time.Millisecond, 300*time.Millisecond)
	if kl.frozen > s.Now()+d {
		d = kl.frozen - s.Now()
	}
	s.After(d, func() {
		kl.pending[k] = false
		kl.syncSTS(k)
	})
}

func revHash(t *corev1.PodTemplateSpec) string {
	b, _ := json.Marshal(t)
	h := fnv.New32a()
	h.Write(b)
	return fmt.Sprintf("%08x", h.Sum32())
}

func ordinal(name string) int {
	i := strings.LastIndexByte(name, '-')
	n, err := strconv.Atoi(name[i+1:])
	if err != nil {
		return -1
	}
	return n
}

func podReady(p *corev1.Pod) bool {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			return c.Status == corev1.ConditionTrue
		}
	}
	return false
}

// syncSTS is the stateful set controller.
func (kl *kubeSim) syncSTS(k objKey) {
	st := kl.w.Store
	o := st.Peek(k)
	if o == nil || o.GetDeletionTimestamp() != nil || kl.frozenNS[k.Namespace] {
		return
	}
	sts := o.(*appsv1.StatefulSet)
	if kl.revs[k] == nil {
		kl.revs[k] = map[string]*corev1.PodTemplateSpec{}
	}
	upd := k.Name + "-" + revHash(&sts.Spec.Template)
	kl.revs[k][upd] = sts.Spec.Template.DeepCopy()
	cur := sts.Status.CurrentRevision
	if cur == "" && kl.w.Cfg.World != "w1" {
		cur = upd
	}
	if cur == "" {
		// adopt the revision of existing pods, if any
		for _, pk := range st.Keys(podGVK) {
			p := st.Peek(pk)
			if p.GetLabels()["sim-sts"] == k.Name && pk.Namespace == k.Namespace {
				if r := p.GetLabels()["controller-revision-hash"]; r != "" && kl.revs[k][r] != nil {
					cur = r
					break
				}
			}
		}
		if cur == "" {
			cur = upd
		}
	}
	n := 1
	if sts.Spec.Replicas != nil {
		n = int(*sts.Spec.Replicas)
	}
	part := 0
	if ru := sts.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
		part = int(*ru.Partition)
	}
	pods := map[int]*corev1.Pod{}
	for _, pk := range st.Keys(podGVK) {
		if pk.Namespace != k.Namespace || !strings.HasPrefix(pk.Name, k.Name+"-") {
			continue
		}
		p := st.Peek(pk).(*corev1.Pod)
		if p.Labels["sim-sts"] != k.Name {
			continue
		}
		ref := metav1.GetControllerOf(p)
		if ref == nil {
			// adoption
			_ = st.Mutate("sts", pk, false, func(o client.Object) bool {
				o.SetOwnerReferences([]metav1.OwnerReference{*metav1.NewControllerRef(sts, stsGVK)})
				return true
			})
			p = st.Peek(pk).(*corev1.Pod)
			kl.w.probe("pod_adopted")
		} else if ref.UID != sts.UID {
			continue
		}
		pods[ordinal(pk.Name)] = p
	}
	// create
	for i := 0; i < n; i++ {
		if pods[i] != nil {
			continue
		}
		rev := upd
		if i < part {
			rev = cur
		}
		if kl.revs[k][rev] == nil {
			rev = upd
		}
		kl.createPod(sts, k, i, rev)
	}
	// status
	var ready, updated, current, total int32
	for i, p := range pods {
		if i >= n {
			continue
		}
		total++
		if podReady(p) && p.DeletionTimestamp == nil {
			ready++
		}
		switch p.Labels["controller-revision-hash"] {
		case upd:
			updated++
		}
		if p.Labels["controller-revision-hash"] == cur {
			current++
		}
	}
	if updated == int32(n) && ready == int32(n) && total == int32(n) {
		cur = upd
		current = updated
	}
	_ = st.Mutate("sts", k, true, func(o client.Object) bool {
		s := o.(*appsv1.StatefulSet)
		ns := s.Status.DeepCopy()
		ns.Replicas, ns.ReadyReplicas, ns.AvailableReplicas, ns.UpdatedReplicas, ns.CurrentReplicas = total, ready, ready, updated, current
		ns.CurrentRevision, ns.UpdateRevision = cur, upd
		ns.ObservedGeneration = s.Generation
		a, _ := json.Marshal(ns)
		b, _ := json.Marshal(s.Status)
		if string(a) == string(b) {
			return false
		}
		s.Status = *ns
		return true
	})
	// scale down
	var ords []int
	for i := range pods {
		ords = append(ords, i)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ords)))
	for _, i := range ords {
		if i >= n && pods[i].DeletionTimestamp == nil {
			kl.deletePod(pods[i], "sts-scale")
		}
	}
	// rolling update
	if sts.Spec.UpdateStrategy.Type == appsv1.OnDeleteStatefulSetStrategyType {
		return
	}
	for i := n - 1; i >= part && i >= 0; i-- {
		p := pods[i]
		if p == nil {
			return
		}
		if p.Labels["controller-revision-hash"] != upd && p.DeletionTimestamp == nil {
			kl.w.probe("sts_rolling_delete")
			kl.deletePod(p, "sts-update")
			return
		}
		if p.DeletionTimestamp != nil || !podReady(p) {
			return
		}
	}
}

func (kl *kubeSim) deletePod(p *corev1.Pod, who string) bool {
	if p.Annotations[constants.AnnPreventDelete] == "true" {
		kl.w.probe("pod_delete_denied")
		return false
	}
	_ = kl.w.Store.Delete(who, objKey{podGVK, client.ObjectKeyFromObject(p)})
	return true
}

func (kl *kubeSim) createPod(sts *appsv1.StatefulSet, k objKey, i int, rev string) {
	st := kl.w.Store
	name := fmt.Sprintf("%s-%d", k.Name, i)
	for _, vct := range sts.Spec.VolumeClaimTemplates {
		pk := objKey{pvcGVK, types.NamespacedName{Namespace: k.Namespace, Name: vct.Name + "-" + name}}
		if old := st.Peek(pk); old != nil {
			if old.GetDeletionTimestamp() != nil {
				kl.w.S.After(time.Second, func() { kl.kick(k) })
				return
			}
			continue
		}
		pvc := &corev1.PersistentVolumeClaim{ObjectMeta: metav1.ObjectMeta{Namespace: k.Namespace, Name: pk.Name}}
		pvc.Labels = map[string]string{}
		for a, b := range vct.Labels {
			pvc.Labels[a] = b
		}
		if sts.Spec.Selector != nil {
			for a, b := range sts.Spec.Selector.MatchLabels {
				pvc.Labels[a] = b
			}
		}
		pvc.Annotations = vct.Annotations
		if kl.w.Cfg.World != "w1" {
			pvc.OwnerReferences = vct.DeepCopy().OwnerReferences
			pvc.Finalizers = []string{pvcProtection}
		}
		pvc.Spec = *vct.Spec.DeepCopy()
		if err := st.Create("sts", pvc); err != nil {
			kl.w.S.Harness("create PVC: %v", err)
			return
		}
	}
	t := kl.revs[k][rev].DeepCopy()
	p := &corev1.Pod{ObjectMeta: *t.ObjectMeta.DeepCopy(), Spec: t.Spec}
	p.Namespace, p.Name = k.Namespace, name
	if p.Labels == nil {
		p.Labels = map[string]string{}
	}
	p.Labels["controller-revision-hash"] = rev
	p.Labels["statefulset.kubernetes.io/pod-name"] = name
	p.Labels["sim-sts"] = k.Name
	p.Finalizers = []string{kubeletFinalizer}
	p.OwnerReferences = []metav1.OwnerReference{*metav1.NewControllerRef(sts, stsGVK)}
	if err := st.Create("sts", p); err != nil {
		kl.w.S.Harness("create pod: %v", err)
	}
}

// releasePVC lets a deleted claim go when no Pod uses it.
func (kl *kubeSim) releasePVC(k objKey) {
	s := kl.w.S
	s.After(s.Dur("pvcrel", 100*time.Millisecond, 2*time.Second), func() {
		o := kl.w.Store.Peek(k)
		if o == nil || o.GetDeletionTimestamp() == nil {
			return
		}
		for _, pk := range kl.w.Store.Keys(podGVK) {
			if pk.Namespace == k.Namespace && strings.HasSuffix(k.Name, "-"+pk.Name) {
				kl.releasePVC(k)
				return
			}
		}
		_ = kl.w.Store.Mutate("gc", k, false, func(o client.Object) bool { o.SetFinalizers(nil); return true })
	})
}

func (kl *kubeSim) pvcChanged(k objKey, pvc *corev1.PersistentVolumeClaim) {
	req := pvc.Spec.Resources.Requests[corev1.ResourceStorage]
	cap := pvc.Status.Capacity[corev1.ResourceStorage]
	if req.Cmp(cap) == 0 {
		return
	}
	s := kl.w.S
	s.After(s.Dur("pvc", 100*time.Millisecond, 5*time.Second), func() {
		_ = kl.w.Store.Mutate("csi", k, true, func(o client.Object) bool {
			p := o.(*corev1.PersistentVolumeClaim)
			r := p.Spec.Resources.Requests[corev1.ResourceStorage]
			c := p.Status.Capacity[corev1.ResourceStorage]
			if r.Cmp(c) == 0 {
				return false
			}
			p.Status.Capacity = corev1.ResourceList{corev1.ResourceStorage: r}
			p.Status.Phase = corev1.ClaimBound
			return true
		})
	})
}

// ---- kubelet ---------------------------------------------------------------

func (kl *kubeSim) podChanged(k objKey, old, cur client.Object) {
	s := kl.w.S
	if cur == nil {
		if kp := kl.pods[old.GetUID()]; kp != nil {
			kp.gone = true
			delete(kl.pods, kp.uid)
			if kl.byInst[kp.inst.Name] == kp {
				delete(kl.byInst, kp.inst.Name)
			}
		}
		return
	}
	uid := cur.GetUID()
	kp := kl.pods[uid]
	if kp == nil {
		cn := cur.GetLabels()[constants.LabelAppInstance]
		if cn == "" {
			return
		}
		kp = &kPod{key: k, uid: uid, inst: kl.instFor(k, cn)}
		kl.pods[uid] = kp
		kl.byInst[kp.inst.Name] = kp
		s.After(s.Dur("sched", 200*time.Millisecond, 2*time.Second), func() { kl.startPod(kp) })
	}
	if cur.GetDeletionTimestamp() != nil && !kp.term {
		kp.term = true
		d := 20 * time.Second
		if !kp.started || !kp.inst.Up {
			d = s.Dur("termfast", 100*time.Millisecond, 2*time.Second)
		} else {
			kl.w.orc.terminating(kp.inst)
		}
		s.After(d, func() { kl.stopPod(kp) })
	}
}

func (kl *kubeSim) instFor(k objKey, cn string) *Mysqld {
	w := kl.w
	name := k.Namespace + "/" + k.Name
	m := w.insts[name]
	if m == nil {
		var c *ClusterRef
		for _, x := range w.clusters {
			if x.Namespace == k.Namespace && x.Name == cn {
				c = x
			}
		}
		m = &Mysqld{W: w, Name: name, Node: name, Index: ordinal(k.Name), Cluster: c, Version: w.Cfg.Version,
			dumps: map[string]*replConn{}, sessions: map[uint64]*Session{}, KillReleases: w.Cfg.KillReleases, IO: "No", SQL: "No",
			ReadOnly: true, SuperRO: true}
		m.Host = fmt.Sprintf("%s.moco-%s.%s.svc", k.Name, cn, k.Namespace)
		w.insts[name] = m
		w.order = append(w.order, name)
	}
	if m.Cluster != nil {
		if cl := w.cluster(m.Cluster); cl != nil {
			m.SrvID = cl.Spec.ServerIDBase + int32(m.Index)
		}
	}
	return m
}

func (kl *kubeSim) refsExist(p *corev1.Pod) string {
	st := kl.w.Store
	for _, v := range p.Spec.Volumes {
		if v.ConfigMap != nil && (v.ConfigMap.Optional == nil || !*v.ConfigMap.Optional) {
			if st.Peek(objKey{cmGVK, types.NamespacedName{Namespace: p.Namespace, Name: v.ConfigMap.Name}}) == nil {
				return "configmap " + v.ConfigMap.Name
			}
		}
		if v.Secret != nil && (v.Secret.Optional == nil || !*v.Secret.Optional) {
			if st.Peek(objKey{secretGVK, types.NamespacedName{Namespace: p.Namespace, Name: v.Secret.SecretName}}) == nil {
				return "secret " + v.Secret.SecretName
			}
		}
	}
	return ""
}

func (kl *kubeSim) startPod(kp *kPod) {
	w := kl.w
	s := w.S
	o := w.Store.Peek(kp.key)
	if o == nil || o.GetUID() != kp.uid || kp.term || kp.gone {
		return
	}
	pod := o.(*corev1.Pod)
	retry := func(why string) {
		w.count("pod_wait")
		w.probe("pod_blocked_" + strings.Fields(why)[0])
		s.After(2*time.Second, func() { kl.startPod(kp) })
	}
	if u := kl.hold[kp.inst.Name]; u > s.Now() {
		retry("node down")
		return
	}
	if miss := kl.refsExist(pod); miss != "" {
		w.orc.missingRef(kp, pod, miss)
		retry(miss)
		return
	}
	m := kp.inst
	if m.Up || m.IP != "" && m.Gen >= 0 && kl.byInst[m.Name] != kp {
		retry("old instance")
		return
	}
	// volume
	var pvc client.Object
	for _, n := range []string{constants.MySQLDataVolumeName + "-" + kp.key.Name} {
		pvc = w.Store.Peek(objKey{pvcGVK, types.NamespacedName{Namespace: kp.key.Namespace, Name: n}})
	}
	if pvc == nil {
		retry("pvc")
		return
	}
	d := w.disks[string(pvc.GetUID())]
	if d == nil {
		w.diskSeq++
		d = newDisk(string(pvc.GetUID()), fmt.Sprintf("%08d-0000-0000-0000-%012d", w.diskSeq, m.Index+1))
		d.Owner = m.Name
		w.disks[string(pvc.GetUID())] = d
	}
	if m.Disk != d {
		if m.Disk != nil {
			w.orc.diskLost(m, m.Disk)
		}
		m.Disk = d
	}
	kp.started = true
	m.IP = w.newIP()
	s.Logf("kubelet start %s ip=%s disk=%s", m.Name, m.IP, d.ID)
	_ = w.Store.Mutate("kubelet", kp.key, true, func(o client.Object) bool {
		p := o.(*corev1.Pod)
		p.Status.Phase = corev1.PodRunning
		p.Status.PodIP = m.IP
		p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionFalse, LastTransitionTime: metav1.NewTime(time.Now().Truncate(time.Second))}}
		return true
	})
	kl.boot(kp)
	kl.probe(kp)
}

// boot starts mysqld in a running pod after initialising the volume if needed.
func (kl *kubeSim) boot(kp *kPod) {
	w, s, m := kl.w, kl.w.S, kp.inst
	if kp.booting || m.Up {
		return
	}
	kp.booting = true
	d := s.Dur("boot", 3*time.Second, 8*time.Second)
	if !m.Disk.Inited {
		d += s.Dur("init", 1*time.Second, 5*time.Second)
	}
	s.After(d, func() {
		kp.booting = false
		if kp.gone || m.Up || kl.byInst[m.Name] != kp {
			return
		}
		if u := kl.hold[m.Name]; u > s.Now() {
			s.After(u-s.Now(), func() { kl.boot(kp) })
			return
		}
		if !m.Disk.Inited {
			if !kl.initDisk(m) {
				s.After(2*time.Second, func() { kl.boot(kp) })
				return
			}
		}
		m.Start()
		w.orc.started(m)
	})
}

func (kl *kubeSim) initDisk(m *Mysqld) bool {
	w := kl.w
	o := w.Store.Peek(objKey{secretGVK, types.NamespacedName{Namespace: m.Cluster.Namespace, Name: "moco-" + m.Cluster.Name}})
	if o == nil {
		w.probe("init_without_secret")
		return false
	}
	sec := o.(*corev1.Secret)
	if w.w2 != nil && w.w2.spoiled[keyOf(sec)] {
		return false // somebody damaged the secret a moment ago: that Pod's initialisation would be judged against it
	}
	pw, err := password.NewMySQLPasswordFromSecret(sec)
	if err != nil {
		w.probe("init_bad_secret")
		return false
	}
	w.orc.podPasswords(m, sec)
	m.Disk.Users = mocoUsers(pw, sec)
	if w.w3 != nil {
		w.w3.diskInited(m)
	}
	m.Disk.Inited = true
	w.S.Logf("kubelet init %s uuid=%s", m.Name, m.Disk.UUID)
	return true
}

func mocoUsers(pw *password.MySQLPassword, sec *corev1.Secret) map[string]string {
	return map[string]string{
		constants.AdminUser:       pw.Admin(),
		constants.AgentUser:       pw.Agent(),
		constants.ReplicationUser: pw.Replicator(),
		constants.CloneDonorUser:  pw.Donor(),
		constants.ExporterUser:    string(sec.Data["EXPORTER_PASSWORD"]),
		constants.BackupUser:      string(sec.Data["BACKUP_PASSWORD"]),
		constants.ReadOnlyUser:    string(sec.Data["READONLY_PASSWORD"]),
		constants.WritableUser:    string(sec.Data["WRITABLE_PASSWORD"]),
		"app":                     "app",
	}
}

// crash kills mysqld; the kubelet restarts the container.
func (kl *kubeSim) crash(m *Mysqld, why string) {
	m.Down(why)
	if kp := kl.byInst[m.Name]; kp != nil && kp.started && !kp.gone {
		kl.w.S.After(kl.w.S.Dur("backoff", 200*time.Millisecond, 8*time.Second), func() {
			if kl.byInst[m.Name] == kp {
				kl.boot(kp)
			}
		})
	}
}

func (kl *kubeSim) stopPod(kp *kPod) {
	w, s, m := kl.w, kl.w.S, kp.inst
	if kp.gone {
		return
	}
	if u := kl.hold[m.Name]; u > s.Now() {
		s.After(u-s.Now(), func() { kl.stopPod(kp) })
		return
	}
	if kl.byInst[m.Name] == kp && kp.started {
		m.Down("pod terminated")
		m.IP = ""
	}
	s.After(s.Dur("term", 50*time.Millisecond, 1*time.Second), func() {
		if kp.gone {
			return
		}
		if kl.byInst[m.Name] == kp && m.Up {
			m.Down("pod terminated")
		}
		if kl.wipe[m.Name] {
			delete(kl.wipe, m.Name)
			pk := objKey{pvcGVK, types.NamespacedName{Namespace: kp.key.Namespace, Name: constants.MySQLDataVolumeName + "-" + kp.key.Name}}
			if w.Store.Peek(pk) != nil {
				_ = w.Store.Delete("human", pk)
			}
		}
		_ = w.Store.Mutate("kubelet", kp.key, false, func(o client.Object) bool { o.SetFinalizers(nil); return true })
	})
}

// probe is the readiness probe answered by moco-agent.
func (kl *kubeSim) probe(kp *kPod) {
	w, s := kl.w, kl.w.S
	phase := time.Duration(s.Hash("probe", kp.inst.Name)%5000) * time.Millisecond
	_ = phase
	s.Every(5*time.Second, func() bool {
		if kp.gone {
			return false
		}
		r := kl.agentReady(kp.inst)
		if kl.byInst[kp.inst.Name] != kp {
			r = false
		}
		o := w.Store.Peek(kp.key)
		if o == nil || o.GetUID() != kp.uid {
			return false
		}
		if podReady(o.(*corev1.Pod)) != r {
			kl.setReady(kp, r)
		}
		return true
	})
}

func (kl *kubeSim) setReady(kp *kPod, r bool) {
	_ = kl.w.Store.Mutate("kubelet", kp.key, true, func(o client.Object) bool {
		p := o.(*corev1.Pod)
		st := corev1.ConditionFalse
		if r {
			st = corev1.ConditionTrue
		}
		p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: st, LastTransitionTime: metav1.NewTime(time.Now().Truncate(time.Second))}}
		return true
	})
}

// agentReady is moco-agent's readiness rule.
func (kl *kubeSim) agentReady(m *Mysqld) bool {
	if !m.Up || m.Stalled || m.Disk == nil {
		return false
	}
	if m.Disk.Clone != "" && m.Disk.Clone != "Completed" {
		return false
	}
	if !m.ReadOnly {
		return true
	}
	if m.Disk.Source == nil || m.IO != "Yes" || m.SQL != "Yes" || m.IOErrno != 0 || m.SQLErrno != 0 {
		return false
	}
	if max := kl.w.Cfg.MaxDelay; max > 0 {
		if n, ok := m.secondsBehind(); !ok || n >= int64(max) {
			return false
		}
	}
	return true
}

// ---- endpoints ---------------------------------------------------------------

func (kl *kubeSim) kickEndpoints(ns, cn string) {
	if cn == "" {
		return
	}
	k := ns + "/" + cn
	if kl.epSched[k] {
		return
	}
	kl.epSched[k] = true
	s := kl.w.S
	s.After(s.Dur("eps", 5*time.Millisecond, kl.w.Cfg.EndpointsLag), func() {
		kl.epSched[k] = false
		var pri, rep []string
		for _, pk := range kl.w.Store.Keys(podGVK) {
			p := kl.w.Store.Peek(pk).(*corev1.Pod)
			if pk.Namespace != ns || p.Labels[constants.LabelAppInstance] != cn || p.DeletionTimestamp != nil || !podReady(p) {
				continue
			}
			switch p.Labels[constants.LabelMocoRole] {
			case constants.RolePrimary:
				pri = append(pri, ns+"/"+pk.Name)
			case constants.RoleReplica:
				rep = append(rep, ns+"/"+pk.Name)
			}
		}
		kl.eps[k+"/primary"] = pri
		kl.eps[k+"/replica"] = rep
	})
}

func (w *World) pod(m *Mysqld) *corev1.Pod {
	ns, name, _ := strings.Cut(m.Name, "/")
	o := w.Store.Peek(objKey{podGVK, types.NamespacedName{Namespace: ns, Name: name}})
	if o == nil {
		return nil
	}
	return o.(*corev1.Pod)
}

func podKey(m *Mysqld) objKey {
	ns, name, _ := strings.Cut(m.Name, "/")
	return objKey{podGVK, types.NamespacedName{Namespace: ns, Name: name}}
}

var _ = meta.FindStatusCondition
