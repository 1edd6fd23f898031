package sim

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	mocoevent "github.com/cybozu-go/moco/pkg/event"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

const never = time.Duration(-1 << 60)

// seen is what the controller saw of an instance at its last status query.
type seenStatus struct {
	at       time.Duration
	executed GTIDSet
	purged   GTIDSet
	source   *SourceConf
	wait     int
	disk     *Disk
}

// instO is the oracles' memory of one instance.
type instO struct {
	seen        *seenStatus
	unreachAt   time.Duration // last time the controller could not reach it (or a call to it was lost)
	reachAt     time.Duration // last time it could be reached
	reachSince  time.Duration
	downSince   time.Duration // unreachable since (never: reachable)
	emptyAt     time.Duration // last time it had no data
	diskSince   time.Duration
	lastDisk    *Disk
	labelGone   time.Duration // when its role label was last removed
	notSuspect  bool
	delaySince  time.Duration // delayed beyond the limit since
	okDelay     time.Duration // not delayed since
	demoteSince time.Duration // demotion mark on its pod since
	demoteAt    time.Duration
	readyAt     time.Duration // when its Pod was ready last
	extGot      GTIDSet       // everything received from the external server on this disk
	prevention  time.Duration
	readLost    time.Duration // last time a status query to it was lost
	closeAt     time.Duration // a switchover from it was started
	ip          string
	ipAt        time.Duration // when its address last changed
	toldAt      time.Duration // last SHOW REPLICA STATUS
	toldDelayed bool          // what it answered about the delay
}

// clO is the oracles' memory of one cluster.
type clO struct {
	ref            *ClusterRef
	acked          GTIDSet
	nAcked         int
	lastOpen       *Mysqld
	openAt         time.Duration
	index          int
	indexAt        time.Duration
	fp             string
	fpSince        time.Duration
	judged         string
	quietFrom      time.Duration // controller and API unimpaired since
	primDead       time.Duration
	oldN           int               // instances before the cluster was scaled up
	scaledAt       time.Duration     // when that was
	raisedAt       time.Duration     // since when the primary waits for as many replicas as it has to now
	relayDrop      map[string]string // gtid -> instance that dropped it from its relay log unapplied
	human          []*humanTxn
	wiped          []wipedDisk
	converged      time.Duration
	extOpen        bool
	annSince       map[string]time.Duration
	reqSince       time.Duration
	offSince       time.Duration
	noAnnSince     time.Duration
	delayedSince   time.Duration
	undelayedSince time.Duration
	noTouchSince   time.Duration
	noTouch        bool
	promoted       bool
	extCloneReqs   int
	cloneAt        time.Duration // last clone request
	cloneEnd       time.Duration // last clone reported as done
	cloneOf        *Mysqld
	errKnown       map[int]*Disk // replicas reported errant, with the data they had
	slowClone      time.Duration // last time the controller may have been waiting for a lost instance after a clone
}

type wipedDisk struct {
	at   time.Duration
	disk *Disk
}

type humanTxn struct {
	t        *Txn
	m        *Mysqld
	disk     *Disk
	onPrim   bool
	promoted bool
}

type oracles struct {
	w  *World
	im map[string]*instO
	cm map[string]*clO
}

func (o *oracles) init(w *World) {
	o.w = w
	o.im = map[string]*instO{}
	o.cm = map[string]*clO{}
	w.Store.hooks = append(w.Store.hooks, o.stored)
}

func (o *oracles) inst(m *Mysqld) *instO {
	i := o.im[m.Name]
	if i == nil {
		i = &instO{unreachAt: o.w.S.Now(), reachAt: never, emptyAt: o.w.S.Now(), labelGone: never, downSince: o.w.S.Now(),
			delaySince: never, demoteSince: never, demoteAt: never, readLost: never, toldAt: never, closeAt: never, okDelay: o.w.S.Now(), extGot: GTIDSet{}}
		o.im[m.Name] = i
	}
	return i
}

func (o *oracles) cl(c *ClusterRef) *clO {
	k := c.NamespacedName.String()
	x := o.cm[k]
	if x == nil {
		x = &clO{ref: c, acked: GTIDSet{}, relayDrop: map[string]string{}, fpSince: o.w.S.Now(), primDead: never,
			annSince: map[string]time.Duration{}, reqSince: never, converged: never, delayedSince: never, undelayedSince: 0, indexAt: never,
			noTouchSince: never, openAt: never, cloneAt: never, cloneEnd: never, slowClone: never}
		o.cm[k] = x
	}
	return x
}

func (w *World) peers(m *Mysqld) []*Mysqld {
	if m.Cluster == nil {
		return nil
	}
	return w.instsOf(m.Cluster)
}

// ctlReach tells whether the controller can talk to the instance.
func (w *World) ctlReach(m *Mysqld) bool {
	return m.Up && !m.Stalled && m.IP != "" && w.both("ctl", m.Node)
}

// ---- hooks from the simulated servers ---------------------------------------

func (o *oracles) sql(m *Mysqld, c *wireConn, q, class string) {
	w := o.w
	now := w.S.Now()
	o.inst(m).reachAt = now
	if strings.Contains(q, "gtid_executed") && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "SELECT @@") {
		o.inst(m).seen = &seenStatus{at: now, executed: m.Disk.Executed.Clone(), purged: m.Disk.Purged.Clone(), source: m.Disk.Source, wait: m.waitSessions(), disk: m.Disk}
	}
	if m.Cluster == nil {
		return
	}
	if class != "read" && class != "wait" {
		o.touched(m, class+": "+sqlDigest(q))
	}
	cl := w.cluster(m.Cluster)
	if cl == nil {
		return
	}
	if strings.HasPrefix(q, "SHOW REPLICA STATUS") {
		i := o.inst(m)
		i.toldAt, i.toldDelayed = now, false
		if s, ok := m.secondsBehind(); m.Disk.Source != nil && ok && s > cl.Spec.MaxDelaySecondsForPodDeletion && m.Index != cl.Status.CurrentPrimaryIndex {
			i.okDelay = now // delayed at this moment, however briefly
			i.toldDelayed = true
		}
	}
	if class == "close" && cl.Status.CurrentPrimaryIndex == m.Index && cl.Spec.ReplicationSourceSecretName == nil && !m.ReadOnly {
		o.switchoverStarts(m, cl)
	}
}

// sqlLost is called when a statement or its answer was lost.
func (o *oracles) sqlLost(m *Mysqld, q string) {
	if sqlClass(q) == "read" {
		o.inst(m).readLost = o.w.S.Now()
	}
}

func (o *oracles) updateNoTouch(c *ClusterRef) {
	cl := o.w.cluster(c)
	if cl == nil {
		return
	}
	x := o.cl(c)
	nt := cl.Spec.Offline || cl.Spec.Restore != nil && cl.Status.RestoredTime == nil || cl.Annotations[constants.AnnClusteringStopped] == "true"
	if nt != x.noTouch {
		x.noTouch = nt
		x.noTouchSince = o.w.S.Now()
	}
}

// touched is called when the controller changes something on an instance or its Pod.
func (o *oracles) touched(m *Mysqld, what string) {
	o.updateNoTouch(m.Cluster)
	c := o.cl(m.Cluster)
	if c.noTouch && c.noTouchSince != never && o.w.S.Now()-c.noTouchSince > o.graceNoTouch() {
		o.w.violate("C10", "touch", "%s: controller did %q although the cluster has been offline, restoring or paused for %v", m.Name, what, o.w.S.Now()-c.noTouchSince)
	}
}

func (o *oracles) graceNoTouch() time.Duration {
	d := 100 * time.Second
	if o.w.w2 != nil { // failed attempts are repeated with a back-off of the same order
		if n := o.w.w2.o.quiet - o.w.w2.o.noisy; n > 0 {
			d += n
		}
	}
	return d
}

func (o *oracles) event(name, typ, reason, msg string) {
	if reason == mocoevent.CloneSucceeded.Reason {
		for _, c := range o.w.clusters {
			if c.Namespace+"/"+c.Name == name {
				o.cl(c).cloneEnd = o.w.S.Now()
			}
		}
	}
}

func (o *oracles) committed(m *Mysqld, t *Txn) {
	if m.Cluster == nil {
		return
	}
	if t.Kind == "ext" {
		o.inst(m).extGot.Add(t.UUID, t.No)
	}
	if t.Kind != "human" || t.Origin == m.Name {
		return
	}
	c := o.cl(m.Cluster)
	for _, h := range c.human {
		if h.t != t || h.onPrim || h.promoted || h.m.Disk != h.disk {
			continue
		}
		cl := o.w.cluster(m.Cluster)
		if cl == nil {
			continue
		}
		for _, i := range cl.Status.ErrantReplicaList {
			if i == h.m.Index {
				o.w.violate("C03", "spread", "errant transaction %s of %s (listed as errant) was executed on %s", t.GTID(), h.m.Name, m.Name)
			}
		}
	}
}

func (o *oracles) humanWrote(m *Mysqld, t *Txn) {
	c := o.cl(m.Cluster)
	cl := o.w.cluster(m.Cluster)
	c.human = append(c.human, &humanTxn{t: t, m: m, disk: m.Disk, onPrim: cl == nil || cl.Status.CurrentPrimaryIndex == m.Index || !m.ReadOnly})
}

func (o *oracles) received(m *Mysqld, t *Txn) {
	if t.Kind == "ext" {
		o.inst(m).extGot.Add(t.UUID, t.No)
	}
}

func (o *oracles) opened(m *Mysqld) {
	w := o.w
	now := w.S.Now()
	w.S.Logf("mysqld opened %s", m.Name)
	w.count("open")
	if m.Cluster == nil {
		return
	}
	c := o.cl(m.Cluster)
	cl := w.cluster(m.Cluster)
	if cl == nil {
		return
	}
	c.lastOpen = m
	c.openAt = now
	if cl.Status.CurrentPrimaryIndex != m.Index {
		w.violate("C02", "open-other", "%s was opened for writes but the recorded primary is instance %d", m.Name, cl.Status.CurrentPrimaryIndex)
	}
	if cl.Spec.ReplicationSourceSecretName != nil {
		w.violate("C11", "open-ext", "%s was opened for writes while the cluster replicates from an external server", m.Name)
	}
	// C01: everything acknowledged must be here
	if cl.Spec.ReplicationSourceSecretName == nil && w.Cfg.Budget && m.Cluster.N >= 3 {
		o.checkAcked(m, c, "when it was opened")
	}
	// C11
	if i := o.inst(m); !i.extGot.Empty() && !c.promoted {
		if d := i.extGot.Minus(m.Disk.Executed); !d.Empty() {
			w.violate("C11", "promote-loss", "%s was opened without having executed %s received from the external server", m.Name, short(d.String()))
		}
		if cl.Spec.ReplicationSourceSecretName == nil {
			c.promoted = true
		}
	}
	// C07: an empty primary must not be used while a replica has data
	s := o.inst(m).seen
	if s != nil && s.executed.Empty() && s.disk == m.Disk {
		for _, x := range w.instsOf(m.Cluster) {
			xs := o.inst(x).seen
			if x == m || xs == nil || xs.disk != x.Disk || xs.executed.Empty() || xs.wait > 0 || xs.at < s.at-30*time.Second || x.BootAt > xs.at || !w.ctlReach(x) {
				continue
			}
			w.violate("C07", "empty-primary", "%s was opened without data although %s has data", m.Name, x.Name)
		}
	}
	// C08: nobody else may still be labelled primary
	if w.ctl != nil && w.ctl.cache != nil && !w.podCacheStale() {
		for _, x := range w.instsOf(m.Cluster) {
			if p := w.pod(x); x != m && p != nil && p.Labels[constants.LabelMocoRole] == constants.RolePrimary {
				w.violate("C08", "two-primary-labels", "%s was opened while the Pod of %s is still labelled primary", m.Name, x.Name)
			}
		}
	}
}

// podCacheStale tells whether the controller's view of Pods may be outdated beyond normal latency.
func (w *World) podCacheStale() bool {
	c := w.ctl.cache
	if c == nil {
		return true
	}
	return w.S.Now()-w.cacheStallAt < 150*time.Second && w.cacheStallAt > 0 || len(c.queue[podGVK]) > 0
}

func (o *oracles) checkAcked(m *Mysqld, c *clO, when string) {
	d := c.acked.Minus(m.Disk.Executed)
	if d.Empty() {
		return
	}
	key := "lost"
	all := true
	for u, iv := range d {
		for _, x := range iv {
			for n := x.lo; n <= x.hi; n++ {
				if c.relayDrop[fmt.Sprintf("%s:%d", u, n)] == "" {
					all = false
				}
			}
		}
	}
	if all {
		key = "lost-after-relay-reset"
	}
	o.w.violate("C01", key, "%s lacks acknowledged writes %s %s", m.Name, short(d.String()), when)
}

func isClient(ss *Session) bool {
	return !constants.MocoSystemUsers[ss.User] && ss.Host != "localhost" && ss.User != "system user" && ss.User != "event_scheduler"
}

func (o *oracles) killed(m *Mysqld, ss *Session) {
	o.w.count("kill")
	if !isClient(ss) && ss.User != "event_scheduler" {
		o.w.violate("C08", "kill-system", "the controller killed the connection of %s@%s on %s", ss.User, ss.Host, m.Name)
	}
}

func (o *oracles) reset(m *Mysqld, what string) {
	o.relayDropped(m)
	if what == "MASTER" && m.Cluster != nil && m.Disk.Executed.Count() > 0 {
		o.w.violate("C07", "reset", "the controller erased the GTID history of %s", m.Name)
	}
}

func (o *oracles) relayDropped(m *Mysqld) {
	if m.Cluster == nil {
		return
	}
	c := o.cl(m.Cluster)
	for _, t := range m.Disk.Relay {
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			c.relayDrop[t.GTID()] = m.Name
		}
	}
}

func (o *oracles) changeSource(m *Mysqld, sc *SourceConf) {
	w := o.w
	o.relayDropped(m)
	// what is dropped here is fetched again from the same source
	drop := GTIDSet{}
	for _, t := range m.Disk.Relay {
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			drop.Add(t.UUID, t.No)
		}
	}
	i := o.inst(m)
	i.extGot = i.extGot.Minus(drop)
	if m.Cluster == nil {
		return
	}
	cl := w.cluster(m.Cluster)
	if cl == nil {
		return
	}
	if !sc.AutoPos {
		w.violate("C06", "no-auto-position", "%s was configured to replicate without GTID auto-positioning", m.Name)
	}
	src := w.resolveHost(sc.Host, sc.Port)
	for _, x := range w.instsOf(m.Cluster) {
		if src == nil && x.Host == sc.Host {
			src = x // its Pod has no address at the moment
		}
	}
	if src == nil || src.Cluster != m.Cluster {
		if cl.Spec.ReplicationSourceSecretName == nil {
			if src != nil && src.Kind == "ext" && w.S.Now()-w.promoteAt < 100*time.Second {
				return
			}
			w.violate("C07", "source-foreign", "%s was told to follow %s", m.Name, sc.Host)
			return
		}
		if src != nil && m.Index != cl.Status.CurrentPrimaryIndex {
			w.violate("C11", "replica-of-ext", "replica %s was told to follow the external server directly", m.Name)
		}
		return
	}
	if src == m {
		w.violate("C07", "source-self", "%s was told to follow itself", m.Name)
	}
	if src.Index != cl.Status.CurrentPrimaryIndex {
		w.violate("C07", "source-other", "%s was told to follow %s but the recorded primary is %d", m.Name, src.Name, cl.Status.CurrentPrimaryIndex)
		return
	}
	ss := o.inst(src).seen
	if ss == nil {
		return
	}
	d := GTIDSet{}
	for u, iv := range ss.purged.Minus(m.Disk.Executed) {
		for _, x := range iv {
			for n := x.lo; n <= x.hi; n++ {
				// what was purged during the current iteration cannot be known
				if at, ok := src.Disk.PurgedAt[fmt.Sprintf("%s:%d", u, n)]; !ok || w.S.Now()-at > 120*time.Second {
					d.Add(u, n)
				}
			}
		}
	}
	if !d.Empty() && !(m.Disk.Clone == "Completed" && m.BootAt > ss.at) {
		w.violate("C07", "history-gone", "%s was told to follow %s which has already purged %s", m.Name, src.Name, short(d.String()))
	}
	if ss.executed.Empty() && ss.disk == src.Disk && !m.Disk.Executed.Empty() && src.Disk.Executed.Empty() {
		ms := o.inst(m).seen
		if ms != nil && ms.disk == m.Disk && !ms.executed.Empty() && ms.wait == 0 {
			w.violate("C07", "follow-empty", "%s, which has data, was told to follow the empty primary %s", m.Name, src.Name)
		}
	}
}

func (o *oracles) setVar(m *Mysqld, n, v string) {
	w := o.w
	if m.Cluster == nil {
		return
	}
	_ = w
}

func (o *oracles) terminating(m *Mysqld)                             {}
func (o *oracles) missingRef(kp *kPod, pod *corev1.Pod, miss string) { o.w.refMissing(kp, pod, miss) }
func (o *oracles) started(m *Mysqld)                                 {}
func (o *oracles) podPasswords(m *Mysqld, sec *corev1.Secret)        { o.w.podPw(m, sec) }

func (o *oracles) diskLost(m *Mysqld, d *Disk) {
	if m.Cluster != nil {
		c := o.cl(m.Cluster)
		c.wiped = append(c.wiped, wipedDisk{o.w.S.Now(), d})
	}
	i := o.inst(m)
	i.extGot = GTIDSet{}
}

func (o *oracles) cloneRequest(m *Mysqld, in *agent.CloneRequest) {
	w := o.w
	if m.Cluster == nil {
		return
	}
	o.touched(m, "clone")
	oc := o.cl(m.Cluster)
	oc.cloneAt, oc.cloneOf = w.S.Now(), m
	cl := w.cluster(m.Cluster)
	if cl == nil {
		return
	}
	s := o.inst(m).seen
	if s != nil && s.disk == m.Disk && !s.executed.Empty() {
		w.violate("C07", "clone-over-data", "%s, which has data, was told to clone from %s", m.Name, in.Host)
	}
	donor := w.insts[in.Host]
	if donor == nil {
		donor = w.instByIP(in.Host)
	}
	if donor == nil {
		donor = w.resolveHost(in.Host, 3306)
	}
	if donor == nil {
		return // an address that is no longer in use
	}
	if donor.Kind == "ext" {
		c := o.cl(m.Cluster)
		c.extCloneReqs++
		if cl.Spec.ReplicationSourceSecretName == nil && w.S.Now()-w.promoteAt > 100*time.Second || cl.Status.Cloned {
			w.violate("C11", "reseed", "%s was told to clone from the external server again", m.Name)
		}
		if m.Index != cl.Status.CurrentPrimaryIndex {
			w.violate("C11", "seed-replica", "replica %s was told to clone from the external server", m.Name)
		}
		return
	}
	if donor.Cluster != m.Cluster {
		// the address was reused
		return
	}
	if donor == m {
		w.violate("C07", "clone-self", "%s was told to clone from itself", m.Name)
		return
	}
	if donor.Index != cl.Status.CurrentPrimaryIndex {
		w.violate("C07", "clone-donor", "%s was told to clone from %s but the recorded primary is %d", m.Name, donor.Name, cl.Status.CurrentPrimaryIndex)
	}
	ds := o.inst(donor).seen
	if ds != nil && ds.disk == donor.Disk && ds.executed.Empty() {
		w.violate("C07", "clone-empty-donor", "%s was told to clone from %s, which has no data", m.Name, donor.Name)
	}
}

func (o *oracles) failClone(m *Mysqld) bool {
	if o.w.cloneFail > 0 {
		o.w.cloneFail--
		o.w.Faults["clone_failed"]++
		return true
	}
	return false
}

func (o *oracles) cloned(m, donor *Mysqld) {
	i := o.inst(m)
	i.extGot = GTIDSet{}
	if donor.Kind == "ext" {
		i.extGot = donor.Disk.Executed.Clone()
	}
}

func (o *oracles) acked(m *Mysqld, wr *AppWrite) {
	w := o.w
	now := w.S.Now()
	if m.Cluster == nil {
		return
	}
	c := o.cl(m.Cluster)
	t := wr.Txn
	c.acked.Add(t.UUID, t.No)
	c.nAcked++
	n := m.Cluster.N
	if c.oldN > 0 && (c.raisedAt == never || now-c.raisedAt < 5*time.Second) && now-max(c.scaledAt, c.quietFrom) < 2*w.Cfg.Interval+180*time.Second {
		n = c.oldN // the controller may not have got to it
	}
	if n >= 3 {
		have := 0
		for _, x := range w.instsOf(m.Cluster) {
			if x == m || x.Disk == nil {
				continue
			}
			ok := x.Disk.Holds(t) || c.relayDrop[t.GTID()] == x.Name
			for _, wd := range c.wiped {
				if now-wd.at < 5*time.Second && wd.disk.Owner == x.Name && wd.disk.Holds(t) {
					ok = true
				}
			}
			if ok {
				have++
			}
		}
		if have < n/2 {
			w.violate("C01", "ack-copies", "write %s was acknowledged by %s while only %d other instances hold it (need %d)", t.GTID(), m.Name, have, n/2)
		}
	}
	if c.lastOpen != nil && c.lastOpen != m && wr.Start > c.openAt {
		w.violate("C02", "split-brain", "%s acknowledged write %s started %v after %s was opened", m.Name, t.GTID(), wr.Start-c.openAt, c.lastOpen.Name)
	}
	cl := w.cluster(m.Cluster)
	if cl != nil && cl.Spec.ReplicationSourceSecretName != nil && w.Cfg.External && !w.promoteDone {
		w.violate("C11", "write-ext", "%s acknowledged a write while fed from an external server", m.Name)
	}
}

// ---- API store ----------------------------------------------------------------

func (o *oracles) stored(k objKey, old, cur client.Object, who string) {
	switch k.GVK {
	case clusterGVK:
		if old == nil || cur == nil {
			return
		}
		a, b := old.(*mocov1beta2.MySQLCluster), cur.(*mocov1beta2.MySQLCluster)
		for _, c := range o.w.clusters {
			if c.NamespacedName == k.NamespacedName {
				o.clusterChanged(c, a, b, who)
			}
		}
	case podGVK:
		if cur == nil {
			return
		}
		m := o.w.insts[k.Namespace+"/"+k.Name]
		if m == nil || m.Cluster == nil {
			return
		}
		o.podChanged(m, old, cur, who)
	}
}

// noteReach records instances that went away since the last tick.
func (o *oracles) noteReach() {
	w := o.w
	now := w.S.Now()
	for _, n := range w.order {
		m := w.insts[n]
		if !w.ctlReach(m) {
			o.inst(m).unreachAt = now
		}
		if m.Disk == nil || m.Disk.Executed.Empty() {
			o.inst(m).emptyAt = now
		}
	}
}

func podIsReady(obj client.Object) bool {
	p, ok := obj.(*corev1.Pod)
	return ok && p != nil && podReady(p)
}

func (o *oracles) podChanged(m *Mysqld, old, cur client.Object, who string) {
	w := o.w
	now := w.S.Now()
	i := o.inst(m)
	var oldRole, oldPrev string
	same := old != nil && old.GetUID() == cur.GetUID()
	if same {
		oldRole = old.GetLabels()[constants.LabelMocoRole]
		oldPrev = old.GetAnnotations()[constants.AnnPreventDelete]
	} else {
		i.labelGone = never
	}
	role := cur.GetLabels()[constants.LabelMocoRole]
	if cur.GetAnnotations()[constants.AnnDemote] == "true" || cur.GetDeletionTimestamp() != nil {
		i.demoteAt = now
	} else if same && (old.GetAnnotations()[constants.AnnDemote] == "true" || old.GetDeletionTimestamp() != nil) {
		i.demoteAt = now
	}
	if podIsReady(old) || podIsReady(cur) {
		i.readyAt = now
	}
	if who != "ctl" {
		return
	}
	if same && oldRole != role {
		o.touched(m, fmt.Sprintf("role label %q -> %q", oldRole, role))
		if oldRole != "" {
			i.labelGone = now
		}
		if role != "" {
			gone := i.labelGone
			if gone != never && !w.podCacheStale() {
				for _, id := range m.sessionIDs() {
					ss := m.sessions[id]
					if isClient(ss) && ss.OpenedAt < gone && !ss.dead {
						w.violate("C08", "stale-connection", "connection of %s to %s, opened %v before its role was taken away, is still alive when it becomes %s", ss.User, m.Name, gone-ss.OpenedAt, role)
						break
					}
				}
			}
			i.labelGone = never
		}
	}
	prev := cur.GetAnnotations()[constants.AnnPreventDelete]
	if prev != "" && oldPrev == "" {
		cl := w.cluster(m.Cluster)
		if cl != nil {
			if cl.Status.CurrentPrimaryIndex != m.Index && now-o.cl(m.Cluster).indexAt > 2*time.Second {
				w.violate("C09", "protect-other", "the Pod of %s was protected from deletion although the primary is %d", m.Name, cl.Status.CurrentPrimaryIndex)
			}
			if cl.Spec.MaxDelaySecondsForPodDeletion <= 0 {
				w.violate("C09", "protect-unconfigured", "the Pod of %s was protected from deletion although no limit is configured", m.Name)
			} else {
				// somebody must have been delayed recently
				ok := false
				for _, x := range w.instsOf(m.Cluster) {
					xi := o.inst(x)
					if x != m && (xi.delaySince != never || now-xi.okDelay < 100*time.Second) {
						ok = true
					}
				}
				if !ok {
					w.violate("C09", "protect-undelayed", "the Pod of %s was protected from deletion although no replica was delayed by more than %d s", m.Name, cl.Spec.MaxDelaySecondsForPodDeletion)
				}
			}
		}
	}
}

func (o *oracles) clusterChanged(c *ClusterRef, a, b *mocov1beta2.MySQLCluster, who string) {
	w := o.w
	now := w.S.Now()
	x := o.cl(c)
	o.errantChanged(c, x, a, b)
	if !a.Status.Cloned && b.Status.Cloned && b.Spec.ReplicationSourceSecretName != nil {
		w.count("cloned_recorded")
		if p := w.inst(c, a.Status.CurrentPrimaryIndex); p != nil {
			if s := o.inst(p).seen; s == nil || s.executed.Empty() {
				w.violate("C11", "not-seeded", "the initial clone was recorded as done although %s has never been seen with data", p.Name)
			}
		}
	}
	if a.Status.CurrentPrimaryIndex == b.Status.CurrentPrimaryIndex {
		return
	}
	om, nm := w.inst(c, a.Status.CurrentPrimaryIndex), w.inst(c, b.Status.CurrentPrimaryIndex)
	w.S.Logf("primary %d -> %d", a.Status.CurrentPrimaryIndex, b.Status.CurrentPrimaryIndex)
	w.count("primary_change")
	x.indexAt = now
	if om == nil || nm == nil {
		w.violate("C02", "bad-index", "primary index changed from %d to %d", a.Status.CurrentPrimaryIndex, b.Status.CurrentPrimaryIndex)
		return
	}
	if nm.Up && !nm.ReadOnly { // it was writable all along: now it may be used again
		x.lastOpen, x.openAt = nm, now
		w.count("reused_writable")
	}
	for _, h := range x.human {
		if h.m == nm {
			h.promoted = true
		}
	}
	o.updateNoTouch(c)
	if x.noTouch && now-x.noTouchSince > o.graceNoTouch() {
		w.violate("C10", "elect", "primary index changed to %d while the cluster was offline, restoring or paused", b.Status.CurrentPrimaryIndex)
	}
	if d := x.errKnown[nm.Index]; d != nil && d == nm.Disk {
		w.violate("C03", "elected-errant", "instance %d was reported errant, still has the same data, and was made primary", nm.Index)
	}
	for _, e := range a.Status.ErrantReplicaList {
		if e == nm.Index {
			w.violate("C03", "elected-errant", "instance %d is listed as errant but was made primary", e)
		}
	}
	const win = 150 * time.Second
	o.noteReach()
	oi := o.inst(om)
	down := now-oi.unreachAt < win || now-oi.emptyAt < win || now-oi.readLost < 90*time.Second
	if down {
		ok := 0
		for _, m := range w.instsOf(c) {
			mi := o.inst(m)
			if m == om || now-mi.reachAt > win || m.Disk == nil || m.Disk.Executed.Empty() || m.Disk.Source == nil {
				continue
			}
			listed := false
			for _, e := range a.Status.ErrantReplicaList {
				listed = listed || e == m.Index
			}
			if !listed {
				ok++
			}
		}
		if ok > c.N/2 {
			w.count("failover")
			return
		}
		// not enough for a fail-over: only a requested switchover explains it
		if (now-oi.closeAt < 100*time.Second || w.Cfg.External) && now-oi.demoteAt < 180*time.Second {
			if d := om.Disk; d != nil && oi.seen != nil && oi.seen.disk == d && !w.Cfg.External && now-oi.emptyAt > win && !om.ReadOnly && om.Up {
				w.violate("C04", "old-writable", "primary moved from %s to %s while %s was still writable", om.Name, nm.Name, om.Name)
			}
			w.count("switchover_impaired")
			return
		}
		w.count("failover")
		w.violate("C02", "failover-minority", "failed over from %s to %s with only %d usable replicas of %d instances", om.Name, nm.Name, ok, c.N)
		return
	}
	// the old primary was reachable all the time: this must be a switchover
	w.count("switchover")
	if now-oi.demoteAt > 180*time.Second {
		w.violate("C02", "unjustified", "primary moved from %s to %s although it was reachable, had data and nobody asked for it", om.Name, nm.Name)
	}
	if !om.SuperRO {
		w.violate("C04", "old-writable", "primary moved from %s to %s while %s was still writable", om.Name, nm.Name, om.Name)
	}
	ref := om.Disk.Executed
	if s := oi.seen; w.Cfg.External && s != nil && s.disk == om.Disk {
		ref = s.executed // it keeps receiving from the external server
	}
	if d := ref.Minus(nm.Disk.Executed); !d.Empty() {
		w.violate("C04", "not-caught-up", "primary moved from %s to %s which has not executed %s", om.Name, nm.Name, short(d.String()))
	}
	for _, id := range om.sessionIDs() {
		ss := om.sessions[id]
		if isClient(ss) && ss.OpenedAt < om.lastRO && !ss.dead {
			w.violate("C04", "old-connection", "primary moved from %s to %s while the connection of %s opened before it became read-only is alive", om.Name, nm.Name, ss.User)
			break
		}
	}
	ni := o.inst(nm)
	if !nm.Up && now-ni.reachAt > 100*time.Second {
		w.violate("C04", "candidate-down", "primary moved from %s to %s which is down", om.Name, nm.Name)
	}
	if ni.readyAt < oi.closeAt-60*time.Second && oi.closeAt > 60*time.Second && w.cacheStallAt < oi.closeAt-60*time.Second {
		w.violate("C04", "candidate-not-ready", "primary moved from %s to %s whose Pod has not been ready for %v", om.Name, nm.Name, now-ni.readyAt)
	}
	if s := ni.seen; s != nil && s.disk == nm.Disk && (s.source == nil || s.source.Host != om.Host) && nm.Cluster.N > 1 {
		w.violate("C04", "candidate-not-replica", "primary moved from %s to %s which was not replicating from it", om.Name, nm.Name)
	}
}

// errantChanged follows the reported list of errant replicas.
func (o *oracles) errantChanged(c *ClusterRef, x *clO, a, b *mocov1beta2.MySQLCluster) {
	w := o.w
	now := w.S.Now()
	if x.errKnown == nil {
		x.errKnown = map[int]*Disk{}
	}
	in := func(l []int, e int) bool {
		for _, i := range l {
			if i == e {
				return true
			}
		}
		return false
	}
	for _, e := range b.Status.ErrantReplicaList {
		if m := w.inst(c, e); m != nil && !in(a.Status.ErrantReplicaList, e) {
			x.errKnown[e] = m.Disk
		}
	}
	p := w.inst(c, a.Status.CurrentPrimaryIndex)
	for _, e := range a.Status.ErrantReplicaList {
		m := w.inst(c, e)
		if m == nil || in(b.Status.ErrantReplicaList, e) {
			continue
		}
		if p != nil && m.Disk != nil && x.errKnown[e] == m.Disk {
			pi := o.inst(p)
			if s := pi.seen; s != nil && s.executed.Empty() {
				w.violate("C03", "forgotten", "%s is no longer reported errant although its data is the same and the primary %s, which is empty, cannot be compared with", m.Name, p.Name)
			}
			if pi.downSince != never && now-pi.downSince > 60*time.Second {
				w.violate("C03", "forgotten", "%s is no longer reported errant although its data is the same and the primary %s is out of reach", m.Name, p.Name)
			}
		}
		delete(x.errKnown, e)
	}
}

// switchoverStarts is called when the controller makes the recorded, open primary read-only.
func (o *oracles) switchoverStarts(m *Mysqld, cl *mocov1beta2.MySQLCluster) {
	w := o.w
	now := w.S.Now()
	w.count("switchover_start")
	o.inst(m).closeAt = now
	lim := cl.Spec.MaxDelaySecondsForPodDeletion
	c := o.cl(m.Cluster)
	if lim > 0 && w.S.Now()-c.indexAt > 60*time.Second {
		for _, x := range w.instsOf(m.Cluster) {
			i := o.inst(x)
			if x != m && i.toldDelayed && now-i.toldAt < 60*time.Second && i.delaySince != never && now-i.delaySince > 60*time.Second && now-i.unreachAt > 60*time.Second && now-i.readLost > 60*time.Second {
				w.violate("C04", "switch-while-delayed", "a switchover from %s was started although %s has been delayed beyond %d s for %v", m.Name, x.Name, lim, now-i.delaySince)
			}
		}
	}
	if now-o.inst(m).demoteAt > 180*time.Second {
		w.violate("C04", "unrequested", "%s, the open primary, was made read-only although nobody asked for a switchover", m.Name)
	}
}

// ---- periodic sampling ------------------------------------------------------------

func (w *World) truthErrant(p, m *Mysqld) bool {
	if p == nil || p.Disk == nil || m.Disk == nil || p == m || p.Disk.Executed.Empty() {
		return false
	}
	d := m.Disk.Executed.Minus(p.Disk.Executed)
	for u, iv := range d {
		if len(iv) > 0 && u != p.Disk.UUID {
			return true
		}
	}
	return false
}

func (w *World) ctlQuiet() bool {
	const tick = 3 * time.Second // what was over before the last sample counts
	now := w.S.Now()
	return w.ctl != nil && w.ctl.inc != nil && now-w.ctl.upSince > tick && w.apiDown+tick <= now && w.apiSlow+tick <= now && now-w.cacheStallAt > tick && !w.rulesActive()
}

func (w *World) rulesActive() bool {
	now := w.S.Now()
	if w.ruleUsed > 0 && now-w.ruleUsed <= 3*time.Second {
		return true
	}
	for _, r := range w.nextSQL {
		if r.n > 0 && r.until >= now {
			return true
		}
	}
	for _, r := range w.nextAPI {
		if r.n > 0 && r.until >= now {
			return true
		}
	}
	return false
}

// tick samples ground truth once per second.
func (o *oracles) tick() {
	w := o.w
	now := w.S.Now()
	for _, n := range w.order {
		m := w.insts[n]
		i := o.inst(m)
		if m.IP != i.ip {
			i.ip, i.ipAt = m.IP, now
		}
		r := w.ctlReach(m)
		if r {
			if i.downSince != never {
				i.reachSince = now
			}
			i.reachAt = now
			i.downSince = never
		} else {
			i.unreachAt = now
			if i.downSince == never {
				i.downSince = now
			}
		}
		if m.Disk == nil || m.Disk.Executed.Empty() {
			i.emptyAt = now
		}
		if m.Cluster == nil {
			continue
		}
		cl := w.cluster(m.Cluster)
		if cl == nil {
			continue
		}
		lim := cl.Spec.MaxDelaySecondsForPodDeletion
		delayed := false
		if lim > 0 && m.Up && m.Disk.Source != nil && cl.Status.CurrentPrimaryIndex != m.Index {
			if s, ok := m.secondsBehind(); ok && s > lim {
				delayed = true
			}
		}
		if delayed {
			if i.delaySince == never {
				i.delaySince = now
			}
		} else {
			if i.delaySince != never {
				i.okDelay = now
			}
			i.delaySince = never
		}
		if p := w.pod(m); p != nil {
			if p.Annotations[constants.AnnDemote] == "true" || p.DeletionTimestamp != nil {
				i.demoteAt = now
			}
			if podReady(p) {
				i.readyAt = now
			}
			if p.Annotations[constants.AnnDemote] == "true" {
				if i.demoteSince == never {
					i.demoteSince = now
				}
			} else {
				i.demoteSince = never
			}
		} else {
			i.demoteSince = never
		}
	}
	for _, c := range w.clusters {
		o.tickCluster(c)
	}
}

func (o *oracles) tickCluster(c *ClusterRef) {
	w := o.w
	now := w.S.Now()
	x := o.cl(c)
	cl := w.cluster(c)
	if cl == nil {
		return
	}
	if !w.ctlQuiet() {
		x.quietFrom = now
	}
	if x.cloneAt != never && (now-x.cloneAt < 400*time.Second || x.cloneEnd > x.cloneAt && now-x.cloneEnd < 400*time.Second) {
		// after a clone the controller waits for the instance for up to 60 attempts of 6 s
		if i := o.inst(x.cloneOf); i.ipAt > x.cloneAt-200*time.Second || !w.ctlReach(x.cloneOf) || i.downSince != never {
			x.quietFrom, x.slowClone = now, now
		}
	}
	if p := w.primary(c); x.oldN > 0 && x.raisedAt == never && p != nil && p.Up && p.SSMaster && p.SSWait == c.N/2 {
		x.raisedAt = now
	}
	o.updateNoTouch(c)
	if w.w2 != nil && (!w.ctlQuiet() || x.slowClone == now) {
		x.noTouchSince = now
	}
	fp, info := o.fingerprint(c, cl)
	h := fnv.New64a()
	h.Write([]byte(info.abstract))
	w.States[h.Sum64()] = struct{}{}
	if fp != x.fp {
		x.fp = fp
		x.fpSince = now
		x.judged = ""
	}
	o.checkPrimaryDead(c, cl, x)
	o.checkDelay(c, cl, x)
	o.checkDemote(c, cl, x)
	q := 2*w.Cfg.Interval + 180*time.Second
	if now-x.fpSince >= q && now-x.quietFrom >= q && x.judged != fp {
		x.judged = fp
		w.count("quiescent_judgement")
		w.count("quiet_" + info.state)
		o.judgeQuiet(c, cl, x, info)
	}
	// C11 invariant
	if cl.Spec.ReplicationSourceSecretName != nil {
		for _, m := range w.instsOf(c) {
			if m.Up && !m.ReadOnly && now-x.openAt > 0 && m.OpenedAt > w.extSince {
				w.violate("C11", "writable", "%s is writable although the cluster is fed from an external server", m.Name)
			}
		}
	}
}

type truth struct {
	state    string
	errants  []int
	ready    int
	abstract string
	cloneRun bool
	reach    []bool
	hung     []bool
}

// fingerprint is the independent reading of the state of the cluster.
func (o *oracles) fingerprint(c *ClusterRef, cl *mocov1beta2.MySQLCluster) (string, *truth) {
	w := o.w
	t := &truth{}
	var b strings.Builder
	ms := w.instsOf(c)
	p := w.primary(c)
	n := c.N
	fmt.Fprintf(&b, "g%d i%d off%v cloned%v rest%v ", cl.Generation, cl.Status.CurrentPrimaryIndex, cl.Spec.Offline, cl.Status.Cloned, cl.Status.RestoredTime != nil)
	pods := 0
	ready := make([]bool, len(ms))
	t.reach = make([]bool, len(ms))
	t.hung = make([]bool, len(ms))
	isErr := make([]bool, len(ms))
	for i, m := range ms {
		pod := w.pod(m)
		role, dem := "-", "-"
		if pod != nil {
			pods++
			ready[i] = podReady(pod)
			if ready[i] && i < n {
				t.ready++
			}
			role = pod.Labels[constants.LabelMocoRole]
			if pod.DeletionTimestamp != nil {
				dem = "T"
			}
		}
		t.reach[i] = w.ctlReach(m) && pod != nil && pod.Status.PodIP == m.IP
		t.hung[i] = m != p && m.Up && m.waitSessions() > 0
		if m.cloneRun {
			t.cloneRun = true
		}
		if t.reach[i] && p != nil && w.ctlReach(p) {
			isErr[i] = w.truthErrant(p, m)
		}
		src := ""
		if m.Disk != nil && m.Disk.Source != nil {
			src = m.Disk.Source.Host
			if p != nil && src == p.Host {
				src = "P"
			}
		}
		empty := m.Disk == nil || m.Disk.Executed.Empty()
		st := fmt.Sprintf("[%v %v ro%v s%v %s %s%s e%v x%v h%v c%v %s%s] ", t.reach[i], ready[i], m.ReadOnly, m.SuperRO, src, m.IO, m.SQL, isErr[i], empty, t.hung[i], m.cloneRun, role, dem)
		b.WriteString(st)
		a := st
		if m == p {
			a = "P" + st
		}
		t.abstract += a
	}
	// SHOW REPLICAS on the primary
	conn := 0
	if p != nil {
		for _, k := range sortedKeys(p.dumps) {
			if d := p.dumps[k]; d.dst.Cluster == c {
				conn++
			}
		}
	}
	fmt.Fprintf(&b, "conn%d pods%d", conn, pods)
	t.abstract = fmt.Sprintf("n%d conn%d ", n, conn) + t.abstract

	ext := cl.Spec.ReplicationSourceSecretName != nil
	pi := cl.Status.CurrentPrimaryIndex
	preach := p != nil && t.reach[pi]
	pdata := preach && !p.Disk.Executed.Empty()
	// errants
	if preach && pdata {
		for i := range ms {
			if isErr[i] {
				t.errants = append(t.errants, i)
			}
		}
	} else {
		t.errants = append(t.errants, cl.Status.ErrantReplicaList...)
		for _, e := range t.errants {
			if e < len(isErr) {
				isErr[e] = true
			}
		}
	}
	usable := func(i int) bool { return t.reach[i] && !t.hung[i] }
	replOK := func(i int) bool { // read-only, connected to the primary, no errant transactions
		m := ms[i]
		return usable(i) && !isErr[i] && m.SuperRO && m.Disk.Source != nil && p != nil && m.Disk.Source.Host == p.Host
	}
	good, runData := 0, 0
	otherData := false
	for i, m := range ms {
		if i == pi {
			continue
		}
		if replOK(i) && ready[i] {
			good++
		}
		if usable(i) && !m.Disk.Executed.Empty() {
			otherData = true
			if !isErr[i] && m.Disk.Source != nil {
				runData++
			}
		}
	}
	lost := !pdata && otherData
	popen := preach && (ext && p.SuperRO || !ext && !p.ReadOnly)
	switch {
	case cl.Spec.Offline:
		t.state = "Offline"
	case ext && !cl.Status.Cloned && (!preach || p.Disk.Clone != "" && p.Disk.Clone != "Completed" || p.Disk.Clone == "" && !pdata):
		t.state = "Cloning"
	case cl.Spec.Restore != nil && cl.Status.RestoredTime == nil:
		t.state = "Restoring"
	case t.ready == n && len(ms) == n && popen && good == n-1 && conn == n-1:
		t.state = "Healthy"
	case popen && ready[pi] && !lost && good >= n/2 && good < n-1 && conn >= n/2:
		t.state = "Degraded"
	case (!preach || lost) && runData > n/2:
		t.state = "Failed"
	case !preach || lost:
		t.state = "Lost"
	default:
		t.state = "Incomplete"
	}
	if pods < n && !cl.Spec.Offline {
		t.state = "missing-pods"
	}
	fmt.Fprintf(&b, " %s", t.state)
	return b.String(), t
}

func gauge(v *prometheus.GaugeVec, c *ClusterRef) (float64, bool) {
	ch := make(chan prometheus.Metric, 256)
	v.Collect(ch)
	close(ch)
	for m := range ch {
		var d dto.Metric
		if m.Write(&d) != nil {
			continue
		}
		ok := 0
		for _, l := range d.Label {
			if l.GetName() == "name" && l.GetValue() == c.Name || l.GetName() == "namespace" && l.GetValue() == c.Namespace {
				ok++
			}
		}
		if ok == 2 {
			return d.Gauge.GetValue(), true
		}
	}
	return math.NaN(), false
}

func condOf(cl *mocov1beta2.MySQLCluster, t string) (string, string) {
	c := meta.FindStatusCondition(cl.Status.Conditions, t)
	if c == nil {
		return "", ""
	}
	return string(c.Status), c.Reason
}

func tf(b bool) string {
	if b {
		return string(metav1.ConditionTrue)
	}
	return string(metav1.ConditionFalse)
}

// judgeQuiet is called when nothing has changed for long enough.
func (o *oracles) judgeQuiet(c *ClusterRef, cl *mocov1beta2.MySQLCluster, x *clO, t *truth) {
	w := o.w
	if cl.Annotations[constants.AnnClusteringStopped] == "true" || t.cloneRun || t.state == "missing-pods" {
		return
	}
	w.S.Logf("judge %s %s", c.Name, t.state)
	sort.Ints(t.errants)
	av, reason := condOf(cl, mocov1beta2.ConditionAvailable)
	he, r2 := condOf(cl, mocov1beta2.ConditionHealthy)
	in, r3 := condOf(cl, mocov1beta2.ConditionInitialized)
	bad := func(f string, a ...any) {
		w.violate("C05", "status", "state is %s but %s", t.state, fmt.Sprintf(f, a...))
	}
	if av != tf(t.state == "Healthy" || t.state == "Degraded") {
		bad("Available=%s (%s)", av, reason)
	}
	if he != tf(t.state == "Healthy") {
		bad("Healthy=%s (%s)", he, r2)
	}
	if in != tf(t.state != "Cloning" && t.state != "Restoring") {
		bad("Initialized=%s (%s)", in, r3)
	}
	if reason != t.state || r2 != t.state || r3 != t.state {
		bad("reasons are %s/%s/%s", reason, r2, r3)
	}
	if cl.Status.SyncedReplicas != t.ready {
		bad("syncedReplicas=%d, want %d", cl.Status.SyncedReplicas, t.ready)
	}
	el := append([]int(nil), cl.Status.ErrantReplicaList...)
	sort.Ints(el)
	if fmt.Sprint(el) != fmt.Sprint(t.errants) {
		bad("errantReplicaList=%v, want %v", el, t.errants)
		w.violate("C03", "list", "errantReplicaList is %v but the replicas with errant transactions are %v", el, t.errants)
	}
	if cl.Status.ErrantReplicas != len(t.errants) {
		bad("errantReplicas=%d, want %d", cl.Status.ErrantReplicas, len(t.errants))
	}
	ga := func(name string, v *prometheus.GaugeVec, want float64) {
		g, ok := gauge(v, c)
		if !ok || g != want {
			bad("metric %s=%v, want %v", name, g, want)
		}
	}
	b2f := func(s string) float64 {
		if s == "True" {
			return 1
		}
		return 0
	}
	ga("available", metrics.AvailableVec, b2f(tf(t.state == "Healthy" || t.state == "Degraded")))
	ga("healthy", metrics.HealthyVec, b2f(tf(t.state == "Healthy")))
	ga("ready_replicas", metrics.ReadyReplicasVec, float64(t.ready))
	ga("errant_replicas", metrics.ErrantReplicasVec, float64(len(t.errants)))
	ga("replicas", metrics.TotalReplicasVec, float64(c.N))

	if t.state == "Offline" || t.state == "Restoring" || t.state == "Cloning" {
		return
	}
	ms := w.instsOf(c)
	pi := cl.Status.CurrentPrimaryIndex
	// labels: judged where the maintenance loop is able to act
	act := t.state == "Healthy" || t.state == "Degraded" || t.state == "Incomplete"
	everything := true
	for i, m := range ms {
		if !t.reach[i] || t.hung[i] {
			everything = false
		}
		if p := w.primary(c); p != nil && t.reach[i] && !p.Disk.Purged.SubsetOf(m.Disk.Executed) {
			everything = false // it has to be re-initialised by the operator
		}
	}
	if act {
		for i, m := range ms {
			pod := w.pod(m)
			if pod == nil {
				continue
			}
			role := pod.Labels[constants.LabelMocoRole]
			errant := false
			for _, e := range t.errants {
				errant = errant || e == i
			}
			want := constants.RoleReplica
			if i == pi {
				want = constants.RolePrimary
			}
			if errant {
				if role != "" {
					w.violate("C03", "label", "errant replica %s still carries role %q", m.Name, role)
					w.violate("C08", "errant-role", "errant replica %s still carries role %q", m.Name, role)
				}
				if m.IO == "Yes" && everything {
					w.violate("C03", "replicating", "errant replica %s is still replicating", m.Name)
				}
				continue
			}
			if role != "" && role != want {
				w.violate("C08", "wrong-role", "%s carries role %q, should be %q", m.Name, role, want)
			}
			if role == "" && t.reach[i] && !t.hung[i] && everything && (t.state == "Healthy" || t.state == "Degraded") {
				w.violate("C08", "no-role", "live instance %s carries no role", m.Name)
			}
		}
	}
}

// ---- liveness ---------------------------------------------------------------------

// checkPrimaryDead: a dead primary with a usable majority is replaced in bounded time.
func (o *oracles) checkPrimaryDead(c *ClusterRef, cl *mocov1beta2.MySQLCluster, x *clO) {
	w := o.w
	now := w.S.Now()
	p := w.primary(c)
	if p == nil || c.N < 3 || cl.Spec.Offline || x.noTouch || cl.Spec.ReplicationSourceSecretName != nil && !cl.Status.Cloned {
		x.primDead = now
		return
	}
	dead := !w.ctlReach(p)
	if !dead || !w.ctlQuiet() {
		x.primDead = now
		return
	}
	ok := 0
	comparable := true
	var usable []*Mysqld
	for _, m := range w.instsOf(c) {
		if m == p {
			continue
		}
		listed := false
		for _, e := range cl.Status.ErrantReplicaList {
			listed = listed || e == m.Index
		}
		if !w.ctlReach(m) || m.waitSessions() > 0 {
			continue
		}
		if listed {
			continue
		}
		if m.Disk.Executed.Empty() || m.Disk.Source == nil {
			if m.Disk.Source != nil {
				comparable = false
			}
			continue
		}
		ok++
		usable = append(usable, m)
	}
	for _, m := range w.instsOf(c) {
		if pod := w.pod(m); pod == nil || pod.Status.PodIP == "" && m != p {
			comparable = false
		}
		if m.ApplyHold > now-10*time.Second {
			comparable = false // cannot execute what it has received
		}
	}
	for _, a := range usable {
		for _, b := range usable {
			ra, rb := a.Disk.Received(), b.Disk.Received()
			if !ra.SubsetOf(rb) && !rb.SubsetOf(ra) {
				comparable = false
			}
		}
	}
	if ok <= c.N/2 || !comparable {
		x.primDead = now
		return
	}
	if now-x.primDead > 2*w.Cfg.Interval+240*time.Second {
		key := "failover-late"
		for _, m := range usable {
			if m.SQL != "Yes" && len(m.Disk.Relay) > 0 {
				key = "failover-stuck-relay" // restarted, and nobody starts its SQL thread
			}
		}
		w.violate("C06", key, "the primary %s has been dead for %v with %d usable replicas but was not replaced", p.Name, now-x.primDead, ok)
		x.primDead = now
	}
}

func (o *oracles) checkDelay(c *ClusterRef, cl *mocov1beta2.MySQLCluster, x *clO) {
	w := o.w
	now := w.S.Now()
	lim := cl.Spec.MaxDelaySecondsForPodDeletion
	if lim <= 0 || x.noTouch {
		return
	}
	p := w.primary(c)
	if p == nil {
		return
	}
	bound := 2*w.Cfg.Interval + 200*time.Second
	quiet := now - x.quietFrom
	allPods, allReach := true, true
	for _, m := range w.instsOf(c) {
		if w.pod(m) == nil {
			allPods = false
		}
		i := o.inst(m)
		if m.cloneRun || now-i.unreachAt < bound && (m == p || now-i.reachAt < bound) {
			allReach = false // neither reachable nor unreachable throughout
		}
	}
	if !allPods {
		x.delayedSince, x.undelayedSince = never, never
		return
	}
	delayed, clear := false, true
	for _, m := range w.instsOf(c) {
		i := o.inst(m)
		if now-i.okDelay < bound {
			clear = false
		}
		if m == p {
			continue
		}
		if i.delaySince != never {
			clear = false
			if w.ctlReach(m) && m.waitSessions() == 0 {
				delayed = true
			}
		}
	}
	upd := func(t *time.Duration, b bool) {
		if !b {
			*t = never
		} else if *t == never {
			*t = now
		}
	}
	upd(&x.delayedSince, delayed && w.ctlReach(p))
	upd(&x.undelayedSince, clear)
	ppod := w.pod(p)
	if x.delayedSince != never && now-x.delayedSince > bound && quiet > bound && allReach && now-x.indexAt > bound {
		w.count("delay_judged")
		if ppod.Annotations[constants.AnnPreventDelete] != "true" {
			w.violate("C09", "unprotected", "replication has been delayed beyond %d s for %v but the primary Pod %s is not protected from deletion", lim, now-x.delayedSince, ppod.Name)
		}
	}
	if x.undelayedSince != never && now-x.undelayedSince > bound && quiet > bound && allReach {
		w.count("nodelay_judged")
		for _, m := range w.instsOf(c) {
			if w.pod(m).Annotations[constants.AnnPreventDelete] != "" {
				w.violate("C09", "still-protected", "no replica has been delayed for %v but the Pod of %s is still protected from deletion", now-x.undelayedSince, m.Name)
			}
		}
	}
}

// checkDemote: a demotion request is honoured in bounded time.
func (o *oracles) checkDemote(c *ClusterRef, cl *mocov1beta2.MySQLCluster, x *clO) {
	w := o.w
	now := w.S.Now()
	if x.noTouch || c.N < 3 {
		return
	}
	bound := 2*w.Cfg.Interval + 240*time.Second
	if now-x.quietFrom < bound {
		return
	}
	_, t := o.fingerprint(c, cl)
	if t.state != "Healthy" && t.state != "Degraded" {
		x.reqSince = now
		return
	}
	for _, m := range w.instsOf(c) {
		i := o.inst(m)
		if now-i.unreachAt < bound || i.delaySince != never || now-i.okDelay < bound || m.ApplyHold > now-bound || m.cloneRun || t.hung[m.Index] || m.longRunning(now, 30*time.Second) {
			x.reqSince = now
			return
		}
	}
	if now-x.reqSince < bound {
		return
	}
	for _, m := range w.instsOf(c) {
		if i := o.inst(m); i.demoteSince != never && now-i.demoteSince > bound {
			if m.Index == cl.Status.CurrentPrimaryIndex {
				w.violate("C04", "not-demoted", "the primary %s has been marked for demotion for %v but is still primary", m.Name, now-i.demoteSince)
			} else {
				w.violate("C04", "mark-left", "the Pod of %s, which is not primary, has been carrying the demotion mark for %v", m.Name, now-i.demoteSince)
			}
		}
	}
}

func (m *Mysqld) longRunning(now, d time.Duration) bool {
	for _, st := range m.stmts {
		if st.state == "waiting" || st.state == "running" && st.write != nil && now-st.write.Start > d {
			return true
		}
	}
	return false
}

// convergedNow tells what still prevents the cluster from being fully repaired.
func (o *oracles) convergedNow(c *ClusterRef) string {
	w := o.w
	cl := w.cluster(c)
	if cl == nil {
		return "no cluster"
	}
	p := w.primary(c)
	if p == nil {
		return "no primary instance"
	}
	if !p.Up {
		return "primary is down"
	}
	ext := cl.Spec.ReplicationSourceSecretName != nil
	if ext {
		if !p.SuperRO {
			return "intermediate primary is writable"
		}
		if p.IO != "Yes" || p.SQL != "Yes" {
			return "intermediate primary does not replicate"
		}
	} else {
		if p.ReadOnly {
			return "primary is read-only"
		}
		if c.N > 1 {
			if !p.SSMaster || p.SSWait != c.N/2 {
				return fmt.Sprintf("semi-sync is not configured on the primary (%v, %d)", p.SSMaster, p.SSWait)
			}
			if p.SSTimeout < 3600*1000 {
				return "semi-sync timeout is too short"
			}
		}
	}
	for _, m := range w.instsOf(c) {
		pod := w.pod(m)
		if pod == nil {
			return "pod missing: " + m.Name
		}
		if m == p {
			if pod.Labels[constants.LabelMocoRole] != constants.RolePrimary {
				return "primary is not labelled"
			}
			if !podReady(pod) {
				return "primary pod is not ready"
			}
			continue
		}
		if w.truthErrant(p, m) {
			return "errant replica " + m.Name
		}
		switch {
		case !m.Up:
			return m.Name + " is down"
		case !m.SuperRO:
			return m.Name + " is writable"
		case m.Disk.Source == nil || m.Disk.Source.Host != p.Host:
			return m.Name + " does not follow the primary"
		case m.IO != "Yes" || m.SQL != "Yes" || m.IOErrno != 0 || m.SQLErrno != 0:
			return fmt.Sprintf("%s does not replicate (IO=%s %s SQL=%s)", m.Name, m.IO, m.IOError, m.SQL)
		case m.SSSlave == ext:
			return fmt.Sprintf("%s: semi-sync replica setting is %v", m.Name, m.SSSlave)
		case pod.Labels[constants.LabelMocoRole] != constants.RoleReplica:
			return m.Name + " is not labelled replica"
		case !podReady(pod):
			return m.Name + " pod is not ready"
		case m.waitSessions() > 0:
			return m.Name + " is hung"
		}
	}
	if _, r := condOf(cl, mocov1beta2.ConditionHealthy); r != "Healthy" {
		return "status is " + r
	}
	return ""
}
