package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"slices"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/metrics"
	appsv1 "k8s.io/api/apps/v1"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	policyv1 "k8s.io/api/policy/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// life is what the oracles remember of one MySQLCluster object (by uid).
type life struct {
	uid         types.UID
	ns, name    string
	pw          map[string][]byte // contents of the controller secret
	delAt       time.Duration     // deletion requested
	goneAt      time.Duration
	badShape    time.Duration
	confMissing time.Duration // a ConfigMap it refers to was missing last
	stopRAt     time.Duration // reconciliation stopped since (never: no)
	stopCAt     time.Duration
	runRAt      time.Duration // not stopped since
	runCAt      time.Duration
	healthyAt   time.Duration // last time the Healthy condition was True
	healthy     bool
	metricBad   time.Duration
}

type podTrue struct {
	uid     types.UID
	ready   bool
	readyAt time.Duration // last time it was ready and not terminating
	upd     time.Duration
}

type w2Oracles struct {
	x        *w2World
	lives    map[types.UID]*life
	order    []*life
	pods     map[string]*podTrue
	noisy    time.Duration // start of the last period in which the controller was impaired
	quiet    time.Duration // end of it
	wasQuiet bool
	lastCtl  time.Duration // last write of the controller to a generated object
	lastCtlK string
	refs     bool
	missing  []missRef
}

// missRef is a reference to a ConfigMap that does not exist.
type missRef struct {
	user, cm objKey
	at       time.Duration
}

func (o *w2Oracles) init(x *w2World) {
	o.x = x
	o.lives = map[types.UID]*life{}
	o.pods = map[string]*podTrue{}
	o.lastCtl = never
}

func (o *w2Oracles) w() *World { return o.x.w }

// current is the life of the stored cluster of that name.
func (o *w2Oracles) current(ns, name string) *life {
	c := o.w().Store.Peek(objKey{clusterGVK, types.NamespacedName{Namespace: ns, Name: name}})
	if c == nil {
		return nil
	}
	return o.lives[c.GetUID()]
}

func ctlSecretName(ns, name string) objKey {
	return objKey{secretGVK, types.NamespacedName{Namespace: systemNS, Name: "mysql-" + ns + "." + name}}
}
func certName(ns, name string) objKey {
	return objKey{certGVK, types.NamespacedName{Namespace: systemNS, Name: "moco-agent-" + ns + "." + name}}
}

func systemOwner(k objKey) (ns, name string, ok bool) {
	if k.Namespace != systemNS {
		return "", "", false
	}
	s := ""
	switch {
	case k.GVK == secretGVK && strings.HasPrefix(k.Name, "mysql-"):
		s = k.Name[len("mysql-"):]
	case k.GVK == certGVK && strings.HasPrefix(k.Name, "moco-agent-"):
		s = k.Name[len("moco-agent-"):]
	default:
		return "", "", false
	}
	return strings.Cut(s, ".")
}

func ownerUID(o client.Object) types.UID {
	for _, r := range o.GetOwnerReferences() {
		if r.Kind == "MySQLCluster" {
			return r.UID
		}
	}
	return ""
}

// slack is how old the controller's view of the API may be at the moment.
func (o *w2Oracles) slack() time.Duration {
	w := o.w()
	d := 3*time.Second + 2*w.Cfg.WatchLag
	if w.apiSlow > 0 && w.S.Now()-w.apiSlow < 30*time.Second || w.apiSlow > w.S.Now() {
		d += 20 * time.Second
	}
	if w.cacheStallAt > 0 && w.S.Now()-w.cacheStallAt < 30*time.Second {
		d += w.S.Now() - w.cacheStallFrom
	}
	return d
}

func (o *w2Oracles) changed(k objKey, old, cur client.Object, who string) {
	w := o.w()
	now := w.S.Now()
	if w.ended {
		return
	}
	switch k.GVK {
	case clusterGVK:
		o.clusterChanged(k, old, cur, who)
	case podGVK:
		o.podChanged(k, old, cur, who)
	case pvcGVK:
		if old != nil && old.GetDeletionTimestamp() == nil && (cur == nil || cur.GetDeletionTimestamp() != nil) && (who == "gc" || who == "ctl") {
			if l := o.lives[ownerUID(old)]; l != nil && l.delAt == never && l.goneAt == never {
				w.violate("C15", "pvc-deleted", "%s was deleted by %s although its cluster exists", k, who)
			}
		}
	case stsGVK:
		if cur != nil {
			o.stsChanged(k, old, cur, who)
		}
	}
	if ns, name, ok := systemOwner(k); ok {
		o.systemChanged(k, ns, name, old, cur, who)
	}
	if who == "ctl" && (isChild(k.GVK) || k.GVK == pvcGVK) {
		o.ctlWrote(k, old, cur)
	}
	if k.GVK == secretGVK && who == "ctl" && cur != nil {
		o.copyWritten(k, cur.(*corev1.Secret))
	}
	if k.GVK == cmGVK && who == "ctl" && cur == nil {
		o.cmDeleted(k)
	}
	_ = now
}

func (o *w2Oracles) clusterChanged(k objKey, old, cur client.Object, who string) {
	w := o.w()
	now := w.S.Now()
	if cur == nil {
		l := o.lives[old.GetUID()]
		if l == nil {
			return
		}
		l.goneAt = now
		w.count("cluster_gone")
		for _, sk := range []objKey{ctlSecretName(l.ns, l.name), certName(l.ns, l.name)} {
			if w.Store.Peek(sk) != nil {
				w.violate("C16", "leaked-"+strings.ToLower(sk.GVK.Kind), "the MySQLCluster %s disappeared while %s still exists", k.Name, sk)
			}
		}
		return
	}
	l := o.lives[cur.GetUID()]
	if l == nil {
		l = &life{uid: cur.GetUID(), ns: k.Namespace, name: k.Name, delAt: never, goneAt: never, stopRAt: never, stopCAt: never, healthyAt: never, runRAt: now, runCAt: now, metricBad: never, badShape: never}
		o.lives[l.uid] = l
		o.order = append(o.order, l)
	}
	if cur.GetDeletionTimestamp() != nil && l.delAt == never {
		l.delAt = now
	}
	c := cur.(*mocov1beta2.MySQLCluster)
	set := func(on bool, at, off *time.Duration) {
		if on && *at == never {
			*at, *off = now, never
		} else if !on && *at != never {
			*at, *off = never, now
		}
	}
	set(c.Annotations[constants.AnnReconciliationStopped] == "true", &l.stopRAt, &l.runRAt)
	set(c.Annotations[constants.AnnClusteringStopped] == "true", &l.stopCAt, &l.runCAt)
	st, _ := condOf(c, mocov1beta2.ConditionHealthy)
	if l.healthy {
		l.healthyAt = now
	}
	l.healthy = st == "True"
	if old != nil && who == "ctl" {
		a := old.(*mocov1beta2.MySQLCluster)
		if !equality.Semantic.DeepEqual(a.Spec, c.Spec) {
			w.violate("C12", "spec-changed", "the controller changed the specification of %s", k)
		}
		was, _ := condOf(a, mocov1beta2.ConditionClusteringActive)
		is, _ := condOf(c, mocov1beta2.ConditionClusteringActive)
		if was == "False" && is == "True" && c.Annotations[constants.AnnClusteringStopped] == "true" && l.stopCAt != never && now-l.stopCAt > w.orc.graceNoTouch() {
			w.violate("C10", "resumed", "clustering of %s is active again although it has been stopped for %v", k, now-l.stopCAt)
		}
		for _, n := range []string{constants.AnnClusteringStopped, constants.AnnReconciliationStopped} {
			if a.Annotations[n] != c.Annotations[n] {
				w.violate("C10", "annotation", "the controller changed the annotation %s of %s", n, k)
			}
		}
	}
}

func (o *w2Oracles) podChanged(k objKey, old, cur client.Object, who string) {
	w := o.w()
	now := w.S.Now()
	if old != nil && (cur == nil || cur.GetDeletionTimestamp() != nil && old.GetDeletionTimestamp() == nil) && (who == "gc" || who == "ctl") {
		if l := o.current(k.Namespace, old.GetLabels()[constants.LabelAppInstance]); l != nil && l.delAt == never {
			// is it a leftover of an earlier cluster of that name?
			if p := old.(*corev1.Pod); !p.CreationTimestamp.Time.Before(w.Store.Peek(objKey{clusterGVK, types.NamespacedName{Namespace: l.ns, Name: l.name}}).GetCreationTimestamp().Time) {
				w.violate("C15", "pod-deleted", "%s was deleted by %s although its cluster exists", k, who)
			}
		}
	}
	if cur == nil {
		delete(o.pods, k.String())
		return
	}
	t := o.pods[k.String()]
	if t == nil || t.uid != cur.GetUID() {
		t = &podTrue{uid: cur.GetUID(), readyAt: never}
		o.pods[k.String()] = t
	}
	if t.ready {
		t.readyAt = now
	}
	t.ready = podReady(cur.(*corev1.Pod)) && cur.GetDeletionTimestamp() == nil
}

// systemChanged watches the objects in the controller's own namespace.
func (o *w2Oracles) systemChanged(k objKey, ns, name string, old, cur client.Object, who string) {
	w := o.w()
	l := o.current(ns, name)
	if cur == nil {
		if who == "ctl" && l != nil && l.delAt == never {
			w.violate("C16", "deleted-live", "the controller deleted %s although the cluster exists and is not being deleted", k)
			if k.GVK == secretGVK {
				w.violate("C13", "deleted", "the controller deleted %s although the cluster exists", k)
			}
		}
		return
	}
	if k.GVK != secretGVK || l == nil {
		return
	}
	d := cur.(*corev1.Secret).Data
	if l.pw == nil {
		l.pw = map[string][]byte{}
		for a, b := range d {
			l.pw[a] = append([]byte(nil), b...)
		}
		return
	}
	if !sameData(l.pw, d) {
		w.violate("C13", "changed", "the passwords of %s/%s in %s were changed by %s after they had been generated", ns, name, k, who)
	}
}

func sameData(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !bytes.Equal(v, b[k]) {
			return false
		}
	}
	return true
}

// myCnfWrong tells which file of a my.cnf secret does not hold the right user and password.
func myCnfWrong(s *corev1.Secret, pw map[string][]byte) string {
	for _, f := range [][2]string{{"moco-admin", "ADMIN_PASSWORD"}, {"moco-exporter", "EXPORTER_PASSWORD"}, {"moco-backup", "BACKUP_PASSWORD"}, {"moco-readonly", "READONLY_PASSWORD"}, {"moco-writable", "WRITABLE_PASSWORD"}} {
		b := s.Data[f[0]+"-my.cnf"]
		if !bytes.Contains(b, pw[f[1]]) || !bytes.Contains(b, []byte(f[0])) {
			return f[0] + "-my.cnf"
		}
	}
	return ""
}

// copyWritten checks the copies of the passwords that the controller writes.
func (o *w2Oracles) copyWritten(k objKey, s *corev1.Secret) {
	w := o.w()
	uid := ownerUID(s)
	l := o.lives[uid]
	if l == nil {
		return
	}
	switch k.Name {
	case "moco-" + l.name:
		if l.pw == nil {
			w.violate("C13", "copy-first", "%s was written before the passwords were stored", k)
		} else if !sameData(l.pw, s.Data) {
			w.violate("C13", "copy-differs", "the controller wrote %s with other passwords than those it stored for the cluster", k)
		}
	case "moco-my-cnf-" + l.name:
		if l.pw == nil {
			w.violate("C13", "copy-first", "%s was written before the passwords were stored", k)
			return
		}
		if f := myCnfWrong(s, l.pw); f != "" {
			w.violate("C13", "copy-differs", "the controller wrote %s with another password in %s than that it stored for the cluster", k, f)
		}
	}
}

func (o *w2Oracles) podPw(m *Mysqld, sec *corev1.Secret) {
	l := o.lives[ownerUID(sec)]
	if l == nil || l.pw == nil {
		return
	}
	for a, b := range l.pw {
		if !bytes.Equal(b, sec.Data[a]) {
			o.w().violate("C13", "init-differs", "%s is initialised with another %s than the one stored for the cluster", m.Name, a)
		}
	}
}

// ctlWrote is called for each controller write to a generated object.
func (o *w2Oracles) ctlWrote(k objKey, old, cur client.Object) {
	w := o.w()
	now := w.S.Now()
	any := cur
	if any == nil {
		any = old
	}
	if !isRef(k.Namespace) && !isRef(k.Name) {
		o.lastCtl, o.lastCtlK = now, k.String()
	}
	if k.GVK == stsGVK && old != nil && cur != nil && onlyPartition(old.(*appsv1.StatefulSet), cur.(*appsv1.StatefulSet)) {
		return
	}
	var l *life
	if ns, name, ok := systemOwner(k); ok {
		l = o.current(ns, name)
	} else {
		l = o.lives[ownerUID(any)]
	}
	if l == nil {
		return
	}
	if l.stopRAt != never && l.delAt == never && now-l.stopRAt > 60*time.Second+o.slack()+o.noise(l.stopRAt) {
		w.violate("C10", "reconciled", "the controller changed %s although reconciliation has been stopped for %v", k, now-l.stopRAt)
	}
}

// noise is for how long the controller was impaired when a change was made at t.
func (o *w2Oracles) noise(t time.Duration) time.Duration {
	if o.quiet == never || t > o.quiet {
		return 0
	}
	d := o.quiet - o.noisy
	return o.quiet - t + d
}

func onlyPartition(a, b *appsv1.StatefulSet) bool {
	x, y := a.DeepCopy(), b.DeepCopy()
	for _, s := range []*appsv1.StatefulSet{x, y} {
		s.Spec.UpdateStrategy = appsv1.StatefulSetUpdateStrategy{}
		s.ResourceVersion, s.Generation, s.ManagedFields = "", 0, nil
	}
	return equality.Semantic.DeepEqual(x, y)
}

// ---- rolling updates --------------------------------------------------------------

func partitionOf(s *appsv1.StatefulSet) (int, bool) {
	if ru := s.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
		return int(*ru.Partition), true
	}
	return 0, false
}

func (o *w2Oracles) stsChanged(k objKey, old, cur client.Object, who string) {
	w := o.w()
	b := cur.(*appsv1.StatefulSet)
	l := o.lives[ownerUID(b)]
	if l == nil {
		return
	}
	if who == "ctl" {
		for _, n := range cmRefs(&b.Spec.Template.Spec) {
			ck := objKey{cmGVK, types.NamespacedName{Namespace: k.Namespace, Name: n}}
			if w.Store.Peek(ck) != nil {
				continue
			}
			if by := o.x.deletes[ck]; by == "human" || by == "gc" {
				continue
			}
			if old != nil && equality.Semantic.DeepEqual(old.(*appsv1.StatefulSet).Spec.Template, b.Spec.Template) {
				continue
			}
			if w.ctl.cache != nil && w.ctl.cache.objs[ck] != nil {
				// its view of the API is behind: it must notice later
				o.later(k, ck)
				continue
			}
			w.violate("C17", "ref-missing", "the controller made %s refer to the ConfigMap %s which does not exist", k, n)
		}
	}
	n := int(*b.Spec.Replicas)
	p1, has := partitionOf(b)
	force := b.Annotations[constants.AnnForceRollingUpdate] == "true"
	if old == nil {
		if who == "ctl" && !force && (!has || p1 < n) && o.anyPod(l) {
			w.violate("C14", "recreated-open", "%s was recreated with partition %d of %d: all Pods may be replaced at once", k, p1, n)
		}
		return
	}
	a := old.(*appsv1.StatefulSet)
	p0, _ := partitionOf(a)
	if !equality.Semantic.DeepEqual(a.Spec.Template, b.Spec.Template) {
		w.count("sts_template_change")
		if !force && (!has || p1 < n) {
			w.violate("C14", "template-open", "the Pod template of %s was changed by %s with partition %d of %d", k, who, p1, n)
		}
		return
	}
	if who != "ctl" || !has || p1 >= p0 {
		if who == "ctl" && !has && !force && p0 > 0 {
			w.violate("C14", "partition-lost", "the controller removed the partition of %s", k)
		}
		return
	}
	if !onlyPartition(a, b) {
		return // scaling
	}
	w.count("partition_step")
	if p1 != p0-1 {
		w.violate("C14", "jump", "the partition of %s went from %d to %d", k, p0, p1)
		return
	}
	if a.Status.ObservedGeneration != a.Generation {
		w.violate("C14", "unobserved", "the partition of %s was lowered before the stateful set controller had seen its latest change", k)
	}
	upd := a.Status.UpdateRevision
	if int(a.Status.UpdatedReplicas) == n {
		return
	}
	var target *corev1.Pod
	now := w.S.Now()
	W := o.slack() + 2*time.Second
	for i := 0; i < n; i++ {
		pk := objKey{podGVK, types.NamespacedName{Namespace: k.Namespace, Name: fmt.Sprintf("%s-%d", k.Name, i)}}
		po := w.Store.Peek(pk)
		if po == nil {
			if t := o.pods[pk.String()]; t == nil {
				// it may have vanished a moment ago
				continue
			}
		}
		if i == p1 && po != nil {
			target = po.(*corev1.Pod)
		}
	}
	if target == nil || target.Labels[appsv1.ControllerRevisionHashLabelKey] == upd {
		return
	}
	for i := 0; i < n; i++ {
		if i == p1 {
			continue
		}
		pk := objKey{podGVK, types.NamespacedName{Namespace: k.Namespace, Name: fmt.Sprintf("%s-%d", k.Name, i)}}
		po := w.Store.Peek(pk)
		if po == nil {
			if now-o.goneSince(pk) > W {
				w.violate("C14", "pod-missing", "the partition of %s was lowered to %d although Pod %d does not exist", k, p1, i)
			}
			continue
		}
		t := o.pods[pk.String()]
		if !t.ready && now-t.readyAt > W {
			w.violate("C14", "pod-not-ready", "the partition of %s was lowered to %d, so that Pod %d will be replaced, although Pod %d is not ready", k, p1, p1, i)
		}
		if i >= p0 && po.GetLabels()[appsv1.ControllerRevisionHashLabelKey] != upd {
			w.violate("C14", "pod-not-updated", "the partition of %s was lowered to %d although Pod %d has not been updated yet", k, p1, i)
		}
	}
	tt := o.pods[keyOf(target).String()]
	ready := tt != nil && tt.ready
	if ready && now-w.podReadySince(target) > W && !l.healthy && (l.healthyAt == never || now-l.healthyAt > W) {
		w.violate("C14", "unhealthy", "the partition of %s was lowered to %d, so that the ready Pod %d will be replaced, although the cluster is not healthy", k, p1, p1)
	}
	w.count("partition_release")
}

func (w *World) podReadySince(p *corev1.Pod) time.Duration {
	for _, c := range p.Status.Conditions {
		if c.Type == corev1.PodReady {
			return c.LastTransitionTime.Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC))
		}
	}
	return never
}

func (o *w2Oracles) goneSince(k objKey) time.Duration {
	if t, ok := o.x.goneAt[k]; ok {
		return t
	}
	return never
}

func (o *w2Oracles) anyPod(l *life) bool {
	for _, k := range o.w().Store.Keys(podGVK) {
		if k.Namespace == l.ns && o.w().Store.Peek(k).GetLabels()[constants.LabelAppInstance] == l.name {
			return true
		}
	}
	return false
}

// ---- config maps ---------------------------------------------------------------------

func cmRefs(s *corev1.PodSpec) []string {
	var r []string
	for _, v := range s.Volumes {
		if v.ConfigMap != nil && (v.ConfigMap.Optional == nil || !*v.ConfigMap.Optional) {
			r = append(r, v.ConfigMap.Name)
		}
		if v.Projected != nil {
			for _, p := range v.Projected.Sources {
				if p.ConfigMap != nil {
					r = append(r, p.ConfigMap.Name)
				}
			}
		}
	}
	return r
}

// users lists who refers to a ConfigMap.
func (o *w2Oracles) users(k objKey) []objKey {
	w := o.w()
	var r []objKey
	for _, sk := range w.Store.Keys(stsGVK) {
		if sk.Namespace != k.Namespace {
			continue
		}
		s := w.Store.Peek(sk).(*appsv1.StatefulSet)
		if l := o.lives[ownerUID(s)]; l == nil || l.delAt != never || s.DeletionTimestamp != nil {
			continue
		}
		if o.stsUses(sk, s, k.Name) {
			r = append(r, sk)
		}
	}
	for _, pk := range w.Store.Keys(podGVK) {
		if pk.Namespace != k.Namespace {
			continue
		}
		p := w.Store.Peek(pk).(*corev1.Pod)
		l := o.current(k.Namespace, p.Labels[constants.LabelAppInstance])
		if l == nil || l.delAt != never || p.DeletionTimestamp != nil {
			continue
		}
		if slices.Contains(cmRefs(&p.Spec), k.Name) {
			r = append(r, pk)
		}
	}
	return r
}

func (o *w2Oracles) stsUses(sk objKey, s *appsv1.StatefulSet, name string) bool {
	if slices.Contains(cmRefs(&s.Spec.Template.Spec), name) {
		return true
	}
	if r := s.Status.CurrentRevision; r != "" && r != s.Status.UpdateRevision && s.Status.CurrentReplicas > 0 {
		if t := o.w().kl.revs[sk][r]; t != nil && slices.Contains(cmRefs(&t.Spec), name) {
			return true
		}
	}
	return false
}

func (o *w2Oracles) cmDeleted(k objKey) {
	w := o.w()
	w.count("cm_deleted")
	for _, u := range o.users(k) {
		// did the controller know?
		var seen bool
		if w.ctl.cache != nil {
			switch c := w.ctl.cache.objs[u].(type) {
			case *appsv1.StatefulSet:
				seen = o.stsUses(u, c, k.Name)
			case *corev1.Pod:
				seen = slices.Contains(cmRefs(&c.Spec), k.Name)
			}
		}
		if !seen {
			w.count("cm_deleted_unseen")
			o.later(u, k)
			continue
		}
		w.violate("C17", "in-use-deleted", "the controller deleted %s which is used by %s", k, u)
	}
}

func (o *w2Oracles) refMissing(kp *kPod, pod *corev1.Pod, miss string) {
	f := strings.Fields(miss)
	g := cmGVK
	if f[0] == "secret" {
		g = secretGVK
	}
	k := objKey{g, types.NamespacedName{Namespace: pod.Namespace, Name: f[1]}}
	if o.x.deletes[k] == "ctl" {
		if l := o.current(pod.Namespace, pod.Labels[constants.LabelAppInstance]); l != nil && l.delAt == never {
			o.later(kp.key, k)
		}
	}
}

// later looks whether user still refers to the missing ConfigMap when the
// controller had the time to notice.
func (o *w2Oracles) later(user, cm objKey) {
	for _, m := range o.missing {
		if m.user == user && m.cm == cm {
			return
		}
	}
	o.missing = append(o.missing, missRef{user, cm, o.w().S.Now()})
}

func (o *w2Oracles) tickMissing(now time.Duration) {
	w := o.w()
	var keep []missRef
	for _, m := range o.missing {
		u := w.Store.Peek(m.user)
		if u == nil || u.GetDeletionTimestamp() != nil || w.Store.Peek(m.cm) != nil {
			continue
		}
		var s *corev1.PodSpec
		switch u := u.(type) {
		case *appsv1.StatefulSet:
			s = &u.Spec.Template.Spec
			if l := o.lives[ownerUID(u)]; l == nil || l.delAt != never || l.stopRAt != never {
				continue
			}
		case *corev1.Pod:
			s = &u.Spec
			if l := o.current(m.user.Namespace, u.Labels[constants.LabelAppInstance]); l == nil || l.delAt != never || l.stopRAt != never {
				continue
			}
		}
		if !slices.Contains(cmRefs(s), m.cm.Name) {
			continue
		}
		if now-max(m.at, o.quiet, o.x.touchedAt) < 300*time.Second+o.noise(m.at) || len(o.x.undo) > 0 {
			keep = append(keep, m)
			continue
		}
		w.violate("C17", "ref-missing", "%s refers to %s, which the controller deleted, for %s", m.user, m.cm, now-m.at)
	}
	o.missing = keep
}

// ---- volumes ---------------------------------------------------------------------------

func (x *w2World) shrinkAttempt(o client.Object, from, to string) {
	if x.w.apiCaller == nil {
		return
	}
	x.w.violate("C15", "shrink", "the controller tried to shrink %s from %s to %s", keyOf(o), from, to)
}

// onDelete is called before the controller deletes something.
func (o *w2Oracles) onDelete(k objKey, do *client.DeleteOptions) {
	w := o.w()
	if k.GVK != stsGVK || w.apiCaller == nil {
		return
	}
	s := w.Store.Peek(k)
	if s == nil {
		return
	}
	l := o.lives[ownerUID(s)]
	if l == nil || l.delAt != never {
		return
	}
	if do.PropagationPolicy == nil || *do.PropagationPolicy != metav1.DeletePropagationOrphan {
		w.violate("C15", "sts-cascade", "the controller deleted %s together with its Pods although the cluster exists", k)
	}
}

// ---- once per second -------------------------------------------------------------------

func (o *w2Oracles) tick() {
	w := o.w()
	now := w.S.Now()
	q := w.ctlQuiet()
	if !q {
		if o.wasQuiet {
			o.noisy = now
		}
		o.quiet = now
	}
	o.wasQuiet = q
	o.tickMissing(now)
	var ab []string
	for _, l := range o.order {
		if l.goneAt != never {
			o.tickGone(l, now)
			continue
		}
		cl := w.Store.Peek(objKey{clusterGVK, types.NamespacedName{Namespace: l.ns, Name: l.name}}).(*mocov1beta2.MySQLCluster)
		o.tickStop(l, cl, now)
		o.tickShape(l, cl, now)
		ab = append(ab, o.abstract(l, cl))
	}
	h := fnv.New64a()
	h.Write([]byte(strings.Join(ab, ";")))
	w.States[h.Sum64()] = struct{}{}
}

func (o *w2Oracles) abstract(l *life, cl *mocov1beta2.MySQLCluster) string {
	w := o.w()
	_, r := condOf(cl, mocov1beta2.ConditionHealthy)
	ca, _ := condOf(cl, mocov1beta2.ConditionClusteringActive)
	s := fmt.Sprint(cl.DeletionTimestamp != nil, cl.Spec.Replicas, cl.Spec.Offline, l.stopRAt != never, l.stopCAt != never, r, ca, cl.Status.ReconcileInfo.Generation == cl.Generation)
	if so := w.Store.Peek(objKey{stsGVK, types.NamespacedName{Namespace: l.ns, Name: "moco-" + l.name}}); so != nil {
		st := so.(*appsv1.StatefulSet)
		p, ok := partitionOf(st)
		s += fmt.Sprint(" sts", p, ok, st.Status.UpdatedReplicas, st.Status.ReadyReplicas, st.Status.CurrentReplicas, st.Generation == st.Status.ObservedGeneration, st.DeletionTimestamp != nil)
	}
	return s
}

// tickStop compares what is reported about stopping with what was asked for.
func (o *w2Oracles) tickStop(l *life, cl *mocov1beta2.MySQLCluster, now time.Duration) {
	w := o.w()
	if l.delAt != never || w.ctl.inc == nil || w.S.Now()-w.ctl.upSince < 90*time.Second {
		return
	}
	c := &ClusterRef{types.NamespacedName{Namespace: l.ns, Name: l.name}, 0}
	const b = 90 * time.Second
	// while a reconciliation cannot succeed, clustering is not resumed
	if n := cl.Spec.MySQLConfigMapName; n != nil && w.Store.Peek(objKey{cmGVK, types.NamespacedName{Namespace: l.ns, Name: *n}}) == nil {
		l.confMissing = now
	}
	chk := func(what, cond string, v float64, have bool, since time.Duration, stopped bool) {
		if since == never || now-since < b+o.noise(since) || now-o.quiet < b+(o.quiet-o.noisy) {
			return
		}
		st, _ := condOf(cl, cond)
		if stopped {
			w.count("judged_stopped_" + what)
		} else {
			w.count("judged_running_" + what)
		}
		switch {
		case stopped && st != "False":
			w.violate("C10", what+"-condition", "%s of %s has been stopped for %v but the condition %s is %q", what, l.name, now-since, cond, st)
		case stopped && v != 1:
			w.violate("C10", what+"-metric", "%s of %s has been stopped for %v but the metric says %v", what, l.name, now-since, v)
		case !stopped && cond == mocov1beta2.ConditionClusteringActive && l.confMissing > 0 && now-l.confMissing < 2*b+o.noise(l.confMissing):
		case !stopped && v != 0 && have:
			w.violate("C10", what+"-metric", "%s of %s has not been stopped for %v but the metric says %v", what, l.name, now-since, v)
		}
	}
	v, ok := gauge(metrics.ReconciliationStoppedVec, c)
	chk("reconciliation", mocov1beta2.ConditionReconciliationActive, v, ok, l.stopRAt, true)
	chk("reconciliation", mocov1beta2.ConditionReconciliationActive, v, ok, l.runRAt, false)
	v, ok = gauge(metrics.ClusteringStoppedVec, c)
	chk("clustering", mocov1beta2.ConditionClusteringActive, v, ok, l.stopCAt, true)
	if l.stopRAt == never {
		chk("clustering", mocov1beta2.ConditionClusteringActive, v, ok, l.runCAt, false)
	}
}

// tickShape looks at what depends on states that faults put an end to.
func (o *w2Oracles) tickShape(l *life, cl *mocov1beta2.MySQLCluster, now time.Duration) {
	w := o.w()
	const b = 120 * time.Second
	if l.delAt != never || l.stopRAt != never || w.ctl.inc == nil || now-w.ctl.upSince < b {
		l.badShape = never
		return
	}
	if st, _ := condOf(cl, mocov1beta2.ConditionReconcileSuccess); st != "True" {
		l.badShape = never
		return
	}
	at := func(g schema.GroupVersionKind, n string) client.Object {
		return w.Store.Peek(objKey{g, types.NamespacedName{Namespace: l.ns, Name: n}})
	}
	var key, msg string
	pdb := at(pdbGVK, "moco-"+l.name)
	sts := at(stsGVK, "moco-"+l.name)
	cj := at(cronGVK, "moco-backup-"+l.name)
	active := cj != nil && cl.Spec.BackupPolicyName != nil && len(cj.(*batchv1.CronJob).Status.Active) > 0
	switch {
	case cl.Spec.Offline && pdb != nil:
		key, msg = "pdb-offline", "the offline cluster has a disruption budget"
	case cl.Spec.Offline && sts != nil && sts.GetDeletionTimestamp() == nil && *sts.(*appsv1.StatefulSet).Spec.Replicas != 0:
		key, msg = "offline-pods", "the stateful set of the offline cluster asks for Pods"
	case active && cl.Spec.Replicas >= 3 && !cl.Spec.Offline && pdb != nil:
		if mu := pdb.(*policyv1.PodDisruptionBudget).Spec.MaxUnavailable; mu == nil || mu.IntValue() != 0 {
			key, msg = "pdb-backup", fmt.Sprintf("the disruption budget allows %v Pods to be evicted although a backup is running", mu)
		}
	}
	if cl.Spec.Offline {
		w.count("judged_offline")
	}
	if active {
		w.count("judged_backup_running")
	}
	if key == "" {
		l.badShape = never
		return
	}
	if l.badShape == never {
		l.badShape = now
	}
	if now-l.badShape >= b+o.noise(l.badShape) && now-o.quiet >= b+(o.quiet-o.noisy) {
		w.violate("C12", key, "%s: %s, for %v", l.name, msg, now-l.badShape)
	}
}

// tickGone: nothing may be left of a deleted cluster in the metrics.
func (o *w2Oracles) tickGone(l *life, now time.Duration) {
	w := o.w()
	if now-l.goneAt < 60*time.Second || l.metricBad != never && now-l.metricBad < 10*time.Second || w.ctl.inc == nil {
		return
	}
	l.metricBad = now
	if o.current(l.ns, l.name) != nil || now-o.quiet < 60*time.Second {
		return
	}
	for _, l2 := range o.lives {
		if l2.ns == l.ns && l2.name == l.name && l2.goneAt != never && l2.goneAt > l.goneAt {
			return // judged by the last life of that name
		}
	}
	mfs, err := curRegistry.Gather()
	if err != nil {
		w.S.Harness("gather: %v", err)
		return
	}
	for _, mf := range mfs {
		for _, m := range mf.Metric {
			n := 0
			for _, lb := range m.Label {
				if lb.GetName() == "name" && lb.GetValue() == l.name || lb.GetName() == "namespace" && lb.GetValue() == l.ns {
					n++
				}
			}
			if n == 2 {
				w.violate("C16", "metric-"+mf.GetName(), "%v after %s was removed the metric %s is still exported for it", now-l.goneAt, l.name, mf.GetName())
			}
		}
	}
	w.count("judged_gone_metrics")
}

// sql is called for each statement the controller sends.
func (o *w2Oracles) sql(m *Mysqld) {
	w := o.w()
	if m.Cluster == nil {
		return
	}
	l := o.current(m.Cluster.Namespace, m.Cluster.Name)
	if l != nil && l.delAt == never {
		return
	}
	var last *life
	for _, x := range o.order {
		if x.ns == m.Cluster.Namespace && x.name == m.Cluster.Name {
			last = x
		}
	}
	if last != nil && last.delAt != never && w.S.Now()-last.delAt > 100*time.Second+o.noise(last.delAt) {
		w.violate("C16", "still-managed", "the controller still works on %s %v after the deletion of its cluster", m.Name, w.S.Now()-last.delAt)
	}
}

// ---- the end state ------------------------------------------------------------------------

// unfinished tells what is not yet as the specifications ask for; the second
// value is the property that asks for it.
func (x *w2World) unfinished() (string, string) {
	w := x.w
	for _, l := range x.o.order {
		if l.delAt != never && l.goneAt == never {
			return "cluster " + l.name + " is still being deleted", "C16"
		}
		if l.goneAt != never {
			for _, k := range w.Store.AllKeys() {
				// (a claim that is being deleted waits for its Pod, which Kubernetes may have orphaned)
				if o := w.Store.Peek(k); o != nil && ownerUID(o) == l.uid && !(k.GVK == pvcGVK && o.GetDeletionTimestamp() != nil) {
					return k.String() + " of the deleted cluster still exists", "C16"
				}
			}
		}
	}
	for _, c := range w.clusters {
		cl := w.cluster(c)
		if cl == nil {
			continue
		}
		if cl.Status.ReconcileInfo.Generation != cl.Generation {
			return fmt.Sprintf("%s: generation %d was not reconciled", c.Name, cl.Generation), "C12"
		}
		if st, _ := condOf(cl, mocov1beta2.ConditionReconcileSuccess); st != "True" {
			return c.Name + ": reconciliation fails", "C12"
		}
		if cl.Spec.Restore != nil && cl.Status.RestoredTime == nil {
			for _, g := range []schema.GroupVersionKind{jobGVK, roleGVK, bindGVK} {
				if k := (objKey{g, types.NamespacedName{Namespace: c.Namespace, Name: "moco-restore-" + c.Name}}); w.Store.Peek(k) == nil {
					return fmt.Sprintf("%s: %s, which the restoration needs, does not exist", c.Name, k), "C12"
				}
			}
		}
		for _, n := range []string{mocov1beta2.ConditionReconciliationActive, mocov1beta2.ConditionClusteringActive} {
			if st, _ := condOf(cl, n); st != "True" {
				return fmt.Sprintf("%s: condition %s is %q", c.Name, n, st), "C10"
			}
		}
		sk := objKey{stsGVK, types.NamespacedName{Namespace: c.Namespace, Name: "moco-" + c.Name}}
		so := w.Store.Peek(sk)
		if so == nil || so.GetDeletionTimestamp() != nil {
			return c.Name + ": no stateful set", "C12"
		}
		sts := so.(*appsv1.StatefulSet)
		if *sts.Spec.Replicas != cl.Spec.Replicas {
			return c.Name + ": stateful set has other replicas", "C12"
		}
		if sts.Status.ObservedGeneration != sts.Generation {
			return c.Name + ": stateful set is not observed", ""
		}
		for i := 0; i < int(cl.Spec.Replicas)*len(cl.Spec.VolumeClaimTemplates); i++ {
			vt := cl.Spec.VolumeClaimTemplates[i%len(cl.Spec.VolumeClaimTemplates)]
			want := vt.Spec.Resources.Requests
			pk := objKey{pvcGVK, types.NamespacedName{Namespace: c.Namespace, Name: fmt.Sprintf("%s-moco-%s-%d", vt.Name, c.Name, i/len(cl.Spec.VolumeClaimTemplates))}}
			po := w.Store.Peek(pk)
			if po == nil {
				return "no " + pk.String(), ""
			}
			have := po.(*corev1.PersistentVolumeClaim).Spec.Resources.Requests[corev1.ResourceStorage]
			if q := (*want)[corev1.ResourceStorage]; have.Cmp(q) < 0 {
				return fmt.Sprintf("%s has %s instead of %s", pk, have.String(), q.String()), "C15"
			}
		}
		if sts.Status.UpdatedReplicas != cl.Spec.Replicas {
			p, _ := partitionOf(sts)
			return fmt.Sprintf("%s: %d of %d Pods are updated, partition %d", c.Name, sts.Status.UpdatedReplicas, cl.Spec.Replicas, p), "C14"
		}
		if p, ok := partitionOf(sts); ok && p != 0 {
			return fmt.Sprintf("%s: all Pods are updated, but the partition is %d", c.Name, p), "C14"
		}
		if r := w.orc.convergedNow(c); r != "" {
			return c.Name + ": " + r, "C10"
		}
	}
	return "", ""
}

// history counts the generated my.cnf and slow log ConfigMaps.
func (x *w2World) history(c *ClusterRef, cl *mocov1beta2.MySQLCluster) {
	w := x.w
	n := map[string][]string{}
	for _, k := range w.Store.Keys(cmGVK) {
		if k.Namespace != c.Namespace || ownerUID(w.Store.Peek(k)) != cl.UID {
			continue
		}
		i := strings.LastIndexByte(k.Name, '.')
		if i < 0 {
			continue
		}
		n[k.Name[:i]] = append(n[k.Name[:i]], k.Name)
	}
	for _, p := range sortedKeys(n) {
		if len(n[p]) > x.historyLimit {
			sort.Strings(n[p])
			x.bad("C17", "kept", "%d ConfigMaps %s.* are kept although the limit is %d", len(n[p]), p, x.historyLimit)
		}
	}
}

// namespaces of the reference clusters, as long as nsmain
var refNSs = []string{"nsrefr", "nsrefs"}

func isRef(s string) bool { return strings.Contains(s, refNSs[0]) || strings.Contains(s, refNSs[1]) }

// compare builds the same clusters from scratch and compares the generated objects.
// patient: a difference counts only if it stays for as long as a repetition after failures can take.
func (x *w2World) compare(refNS string, patient bool) {
	w, s := x.w, x.w.S
	w.kl.frozenNS[refNS] = true
	for _, g := range w.Store.AllKeys() {
		o := w.Store.Peek(g)
		if g.Namespace != "nsmain" || ownerUID(o) != "" {
			continue
		}
		switch t := o.(type) {
		case *corev1.ConfigMap:
			n := &corev1.ConfigMap{Data: t.Data}
			n.Namespace, n.Name = refNS, g.Name
			w.mustCreate(n)
		case *mocov1beta2.BackupPolicy:
			n := &mocov1beta2.BackupPolicy{Spec: *t.Spec.DeepCopy()}
			n.Namespace, n.Name = refNS, g.Name
			w.mustCreate(n)
		}
	}
	type pair struct {
		c   *ClusterRef
		ref types.NamespacedName
	}
	var ps []pair
	for _, c := range w.clusters {
		cl := w.cluster(c)
		if cl == nil || c.Namespace != "nsmain" {
			continue
		}
		n := &mocov1beta2.MySQLCluster{Spec: *cl.Spec.DeepCopy()}
		n.Namespace, n.Name = refNS, c.Name
		n.Spec.Restore = nil
		n.Annotations = map[string]string{}
		for k, v := range cl.Annotations {
			n.Annotations[k] = v
		}
		w.mustCreate(n)
		ps = append(ps, pair{c, types.NamespacedName{Namespace: refNS, Name: c.Name}})
	}
	s.Run(s.Now() + 90*time.Second)
	if s.Stopped {
		return
	}
	x.judge(patient, func() {
		for _, p := range ps {
			a := w.cluster(p.c)
			ro := w.Store.Peek(objKey{clusterGVK, p.ref})
			if a == nil || ro == nil {
				continue
			}
			r := ro.(*mocov1beta2.MySQLCluster)
			if st, _ := condOf(r, mocov1beta2.ConditionReconcileSuccess); st != "True" {
				w.count("reference_failed")
				w.S.Logf("reference cluster %s is not reconciled", p.ref)
				continue
			}
			got, want := x.normal(a, p.c.Namespace), x.normal(r, refNS)
			for _, k := range sortedKeys(want) {
				if got[k] == "" {
					x.bad("C12", "missing", "%s is missing although the specification of %s asks for it", k, p.c.Name)
				} else if got[k] != want[k] {
					x.bad("C12", "differs", "%s is not what the specification of %s asks for: %s", k, p.c.Name, diffOf(want[k], got[k]))
				}
			}
			for _, k := range sortedKeys(got) {
				if want[k] == "" && !strings.HasPrefix(k, "ConfigMap/") && !strings.Contains(k, "/moco-restore-") {
					x.bad("C12", "superfluous", "%s exists although the specification of %s does not ask for it", k, p.c.Name)
				}
			}
			w.count("compared")
		}
	})
}

// bad notes a difference, judge reports what was noted last.
func (x *w2World) bad(prop, key, f string, a ...any) {
	x.found = append(x.found, [3]string{prop, key, fmt.Sprintf(f, a...)})
}

func (x *w2World) judge(patient bool, f func()) {
	from := x.w.S.Now()
	for {
		x.found = nil
		f()
		mine := 0
		for _, b := range x.found {
			if b[0] == x.w.Prop {
				mine++
			}
		}
		if mine == 0 || !patient || x.w.S.Now()-from > 1100*time.Second {
			break
		}
		x.w.S.Run(x.w.S.Now() + 50*time.Second)
		if x.w.S.Stopped {
			return
		}
	}
	for _, b := range x.found {
		x.w.violate(b[0], b[1], "%s", b[2])
	}
}

func diffOf(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		h := i + 80
		if h > len(s) {
			h = len(s)
		}
		if lo > h {
			return ""
		}
		return s[lo:h]
	}
	return fmt.Sprintf("want …%s… got …%s…", cut(a), cut(b))
}

// normal renders the generated objects of a cluster without what is specific to one object's life.
func (x *w2World) normal(cl *mocov1beta2.MySQLCluster, ns string) map[string]string {
	w := x.w
	r := map[string]string{}
	for _, g := range childKinds {
		for _, k := range w.Store.Keys(g) {
			o := w.Store.Peek(k)
			if k.Namespace != ns || ownerUID(o) != cl.UID || o.GetDeletionTimestamp() != nil {
				continue
			}
			if g == jobGVK {
				continue
			}
			b, _ := json.Marshal(o)
			var m map[string]any
			_ = json.Unmarshal(b, &m)
			delete(m, "status")
			md := m["metadata"].(map[string]any)
			for _, f := range []string{"uid", "resourceVersion", "creationTimestamp", "generation", "managedFields", "ownerReferences"} {
				delete(md, f)
			}
			if g == secretGVK {
				d, _ := m["data"].(map[string]any)
				for f := range d {
					d[f] = "x"
				}
			}
			if g == stsGVK {
				sp := m["spec"].(map[string]any)
				delete(sp, "updateStrategy")
				// kubectl's own annotation: not MOCO's field
				tm := sp["template"].(map[string]any)["metadata"].(map[string]any)
				if an, ok := tm["annotations"].(map[string]any); ok {
					delete(an, "kubectl.kubernetes.io/restartedAt")
					if len(an) == 0 {
						delete(tm, "annotations")
					}
				}
			}
			b, _ = json.Marshal(m)
			t := strings.ReplaceAll(string(b), ns, "NS")
			t = strings.ReplaceAll(t, string(cl.UID), "UID")
			r[k.GVK.Kind+"/"+k.Name] = t
		}
	}
	return r
}

// absolute checks what can be said without a reference.
func (x *w2World) absolute(c *ClusterRef, cl *mocov1beta2.MySQLCluster) {
	w := x.w
	at := func(g objKey) client.Object { return w.Store.Peek(g) }
	name := func(n string) types.NamespacedName { return types.NamespacedName{Namespace: c.Namespace, Name: n} }
	l := x.o.lives[cl.UID]
	// credentials
	for _, n := range []string{"moco-" + c.Name} {
		o := at(objKey{secretGVK, name(n)})
		if o == nil {
			x.bad("C13", "copy-missing", "secret %s does not exist at the end", n)
			continue
		}
		if l.pw != nil && !sameData(l.pw, o.(*corev1.Secret).Data) {
			x.bad("C13", "copy-stale", "secret %s does not hold the passwords of the cluster at the end", n)
		}
	}
	if o := at(objKey{secretGVK, name("moco-my-cnf-" + c.Name)}); o == nil {
		x.bad("C13", "copy-missing", "the my.cnf secret of %s does not exist at the end", c.Name)
	} else if l.pw != nil && myCnfWrong(o.(*corev1.Secret), l.pw) != "" {
		x.bad("C13", "copy-stale", "the my.cnf secret of %s does not hold the password of the cluster at the end", c.Name)
	}
	cs := at(objKey{secretGVK, certName(c.Namespace, c.Name).NamespacedName})
	gs := at(objKey{secretGVK, name("moco-" + c.Name + "-grpc")})
	if cs == nil || gs == nil {
		x.bad("C12", "grpc-missing", "the gRPC secret of %s does not exist at the end", c.Name)
	} else if !sameData(cs.(*corev1.Secret).Data, gs.(*corev1.Secret).Data) {
		x.bad("C12", "grpc-stale", "the gRPC secret of %s is not a copy of the current certificate at the end", c.Name)
	}
	// disruption budget
	po := at(objKey{pdbGVK, name("moco-" + c.Name)})
	if cl.Spec.Replicas >= 3 && !cl.Spec.Offline {
		if po == nil {
			x.bad("C12", "pdb-missing", "%s has %d replicas but no disruption budget", c.Name, cl.Spec.Replicas)
		} else if mu := po.(*policyv1.PodDisruptionBudget).Spec.MaxUnavailable; mu == nil || mu.IntValue() != int(cl.Spec.Replicas)/2 {
			x.bad("C12", "pdb-wrong", "the disruption budget of %s allows %v of %d Pods to be evicted", c.Name, mu, cl.Spec.Replicas)
		}
	}
	x.history(c, cl)
}
