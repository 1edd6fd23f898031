package sim

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// Config is everything a run depends on besides the seed and the fault list.
type Config struct {
	World    string        `json:"world"`
	Prop     string        `json:"prop"`
	Replicas int           `json:"replicas"`
	Interval time.Duration `json:"interval"`
	WatchLag time.Duration `json:"watch_lag"`
	NetLo    time.Duration `json:"net_lo"`
	NetHi    time.Duration `json:"net_hi"`
	Version  string        `json:"version"`

	Writers  int           `json:"writers"`
	Readers  int           `json:"readers"`
	WriteGap time.Duration `json:"write_gap"`

	MaxDelay       int               `json:"max_delay"`         // readiness limit, 0 = none
	MaxDelayPodDel int64             `json:"max_delay_pod_del"` // spec.maxDelaySecondsForPodDeletion
	External       bool              `json:"external"`          // replicate from an external source
	PromoteAt      time.Duration     `json:"promote_at"`
	Restore        bool              `json:"restore"`
	KillReleases   bool              `json:"kill_releases"`
	Budget         bool              `json:"budget"` // keep faults within a minority of instances
	EndpointsLag   time.Duration     `json:"endpoints_lag"`
	CloneLo        time.Duration     `json:"clone_lo"`
	CloneHi        time.Duration     `json:"clone_hi"`
	FaultStart     time.Duration     `json:"fault_start"`
	FaultEnd       time.Duration     `json:"fault_end"`
	Settle         time.Duration     `json:"settle"`
	Extra          map[string]string `json:"extra,omitempty"`
}

// Fault is one injected fault. It is armed at At; if Steps > 0 it fires at the
// Steps-th controller action (statement or API write) after that.
type Fault struct {
	At     time.Duration `json:"at"`
	Steps  int           `json:"steps,omitempty"`
	Kind   string        `json:"kind"`
	Target int           `json:"target"`
	Dur    time.Duration `json:"dur,omitempty"`
	Arg    int           `json:"arg,omitempty"`
	S      string        `json:"s,omitempty"`
}

// Violation is a property violation.
type Violation struct {
	Prop string        `json:"property"`
	What string        `json:"what"`
	At   time.Duration `json:"at"`
	Key  string        `json:"key"` // stable class of the violation
}

// ClusterRef identifies one MySQLCluster.
type ClusterRef struct {
	types.NamespacedName
	N int
}

func (c *ClusterRef) key() objKey { return objKey{clusterGVK, c.NamespacedName} }

type armed struct {
	f    *Fault
	left int
	wait string // only count actions of this class
}

// World is one simulated deployment.
type World struct {
	S     *Sim
	Cfg   Config
	Store *Store

	insts    map[string]*Mysqld
	order    []string // instance names in creation order
	clusters []*ClusterRef
	conns    map[uint64]*wireConn
	connSeq  uint64
	ipSeq    int
	diskSeq  int
	disks    map[string]*Disk // by PVC uid

	blocked  map[string]time.Duration // "a|b" -> until
	blockOwn map[string]string
	slow     map[string]slowLink

	apiDown   time.Duration
	apiSlow   time.Duration
	apiCaller *SimClient
	sqlCtx    *wireConn

	bootVars func(*Mysqld)
	onDDL    func(m *Mysqld, ss *Session, q string, done func(*Result))
	onFlush  func(m *Mysqld, q string, done func(*Result))
	onTable  func(m *Mysqld, name string) ([]string, []map[string]val)
	onShow   func(m *Mysqld, q string, done func(*Result)) bool

	Probes map[string]int // rare branches and situations that were reached
	Faults map[string]int // faults that actually happened
	Counts map[string]int
	Viol   []Violation
	seen   map[string]bool

	faults    []Fault
	armed     []*armed
	ruleUsed  time.Duration
	lastFault time.Duration
	nextSQL   []sqlFateRule
	nextAPI   []apiFateRule

	kl     *kubeSim
	apps   []*App
	ctl    *Controller
	incSeq int

	orc oracles
	w2  *w2World
	w3  *w3World

	Prop           string // property whose oracle failure stops the run
	StopOnAny      bool
	States         map[uint64]struct{} // distinct abstract cluster states
	healed         bool
	ended          bool
	opAt           time.Duration
	ext            *Mysqld
	promoteAt      time.Duration
	promoteDone    bool
	extSince       time.Duration
	cacheStallAt   time.Duration
	cacheStallFrom time.Duration
	cloneFail      int
	fireExtra      func(f *Fault, done func()) bool
	onRefMissing   func(kp *kPod, pod *corev1.Pod, miss string)
	onPodPw        func(m *Mysqld, sec *corev1.Secret)
	faultsOff      bool
}

type sqlFateRule struct {
	text  string // part of the statement
	kind  string
	until time.Duration
	n     int
	class string
	inst  string
	job   bool // only statements of moco-backup
}

type apiFateRule struct {
	kind  string
	err   error
	n     int
	until time.Duration
	class string
	job   bool // only requests of moco-backup
}

func NewWorld(s *Sim, cfg Config, faults []Fault) *World {
	w := &World{S: s, Cfg: cfg, insts: map[string]*Mysqld{}, conns: map[uint64]*wireConn{}, disks: map[string]*Disk{},
		blocked: map[string]time.Duration{}, blockOwn: map[string]string{}, slow: map[string]slowLink{}, Probes: map[string]int{}, Faults: map[string]int{},
		Counts: map[string]int{}, seen: map[string]bool{}, faults: faults, States: map[uint64]struct{}{}, Prop: cfg.Prop}
	w.Store = newStore(w)
	w.orc.init(w)
	curWorld = w
	return w
}

func (w *World) probe(n string) { w.Probes[n]++ }
func (w *World) count(n string) { w.Counts[n]++ }

// violate records a violation once per (property, key).
func (w *World) violate(prop, key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	w.S.Logf("VIOLATION %s %s %s", prop, key, msg)
	id := prop + "/" + key
	if w.seen[id] {
		return
	}
	w.seen[id] = true
	w.Viol = append(w.Viol, Violation{Prop: prop, What: msg, At: w.S.Now(), Key: key})
	if prop == w.Prop || w.StopOnAny {
		w.S.Stop("violation")
	}
}

// ---- network -------------------------------------------------------------

func linkKey(a, b string) string { return a + "|" + b }

// Link tells whether messages from a reach b.
func (w *World) Link(a, b string) bool {
	if a == b {
		return true
	}
	now := w.S.Now()
	for _, k := range []string{linkKey(a, b), linkKey(a, "*"), linkKey("*", b)} {
		if u, ok := w.blocked[k]; ok {
			if now < u {
				return false
			}
			delete(w.blocked, k)
		}
	}
	return true
}

func (w *World) both(a, b string) bool { return w.Link(a, b) && w.Link(b, a) }

func (w *World) block(a, b string, d time.Duration) { w.blockFor("", a, b, d) }

// blockFor cuts a link because of a fault of node own, which is then the impaired one.
func (w *World) blockFor(own, a, b string, d time.Duration) {
	k := linkKey(a, b)
	now := w.S.Now()
	if w.blocked[k] <= now {
		delete(w.blockOwn, k)
		if own != "" {
			w.blockOwn[k] = own
		}
	}
	if w.blocked[k] < now+d {
		w.blocked[k] = now + d
	}
}

type slowLink struct {
	until, lat time.Duration
}

func (w *World) netLat(a, b string) time.Duration {
	d := w.S.Dur("net/"+a+">"+b, w.Cfg.NetLo, w.Cfg.NetHi)
	if l, ok := w.slow[linkKey(a, b)]; ok && w.S.Now() < l.until {
		d += l.lat
	}
	return d
}

func (w *World) ctlNode(inc *Incarnation) string {
	if w.isJob(inc) {
		return "job"
	}
	return "ctl"
}

// isJob tells whether a process is a backup or restore job.
func (w *World) isJob(inc *Incarnation) bool {
	return w.w3 != nil && inc != nil && w.w3.byInc[inc.ID] != nil
}

func (w *World) newIP() string {
	w.ipSeq++
	return fmt.Sprintf("10.0.%d.%d", w.ipSeq/200, 10+w.ipSeq%200)
}

// instByIP finds the instance that owns an address now; the second octet
// carries the controller incarnation.
func (w *World) instByIP(ip string) *Mysqld {
	f := strings.Split(ip, ".")
	if len(f) == 4 {
		f[1] = "0"
		ip = strings.Join(f, ".")
	}
	for _, n := range w.order {
		if m := w.insts[n]; m.IP == ip && m.IP != "" {
			return m
		}
	}
	return nil
}

func (w *World) incOfAddr(addr string) *Incarnation {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return nil
	}
	f := strings.Split(h, ".")
	n, err := 0, error(nil)
	if len(f) == 4 {
		n, err = strconv.Atoi(f[1])
	}
	if len(f) != 4 || err != nil {
		if w.w3 != nil && w.w3.cur != nil { // only the jobs use host names
			return w.w3.cur.inc
		}
		return nil
	}
	return w.incByID(n)
}

// resolveHost is the cluster DNS.
func (w *World) resolveHost(host string, port int) *Mysqld {
	if m := w.insts[host]; m != nil { // external servers
		return m
	}
	if port != 3306 {
		return nil
	}
	for _, n := range w.order {
		if m := w.insts[n]; m.Host == host && m.IP != "" {
			return m
		}
	}
	return nil
}

func (w *World) inst(c *ClusterRef, i int) *Mysqld {
	return w.insts[fmt.Sprintf("%s/moco-%s-%d", c.Namespace, c.Name, i)]
}

// cluster returns the stored MySQLCluster.
func (w *World) cluster(c *ClusterRef) *mocov1beta2.MySQLCluster {
	o := w.Store.Peek(c.key())
	if o == nil {
		return nil
	}
	return o.(*mocov1beta2.MySQLCluster)
}

func (w *World) instsOf(c *ClusterRef) []*Mysqld {
	var ms []*Mysqld
	for i := 0; ; i++ {
		m := w.inst(c, i)
		if m == nil {
			return ms
		}
		ms = append(ms, m)
	}
}

func (w *World) primary(c *ClusterRef) *Mysqld {
	cl := w.cluster(c)
	if cl == nil {
		return nil
	}
	return w.inst(c, cl.Status.CurrentPrimaryIndex)
}

// ---- fates ---------------------------------------------------------------

func sqlClass(q string) string {
	q = strings.ToUpper(strings.TrimSpace(q))
	switch {
	case strings.HasPrefix(q, "SELECT WAIT_FOR"):
		return "wait"
	case strings.HasPrefix(q, "SELECT"), strings.HasPrefix(q, "SHOW"):
		return "read"
	case strings.HasPrefix(q, "SET GLOBAL READ_ONLY"):
		return "open"
	case strings.HasPrefix(q, "SET GLOBAL SUPER"):
		return "close"
	case strings.HasPrefix(q, "SET"):
		return "setvar"
	case strings.HasPrefix(q, "STOP"):
		return "stop"
	case strings.HasPrefix(q, "START"):
		return "start"
	case strings.HasPrefix(q, "CHANGE"):
		return "change"
	case strings.HasPrefix(q, "RESET"):
		return "reset"
	case strings.HasPrefix(q, "KILL"):
		return "kill"
	}
	return "other"
}

func (w *World) sqlFate(c *wireConn, q string) string {
	cl := sqlClass(q)
	for i := range w.nextSQL {
		r := &w.nextSQL[i]
		if r.n <= 0 || r.until < w.S.Now() {
			continue
		}
		if r.class != "" && r.class != cl || r.class == "" && cl == "read" && r.kind != "lost_read" {
			continue
		}
		if r.text != "" && !strings.Contains(q, r.text) {
			continue
		}
		if r.inst != "" && r.inst != c.m.Name || r.job != w.isJob(c.inc) {
			continue
		}
		r.n--
		w.ruleUsed = w.S.Now()
		w.Faults["sql_"+r.kind+"_"+cl]++
		w.lastFault = w.S.Now()
		if r.kind == "lost_read" {
			return "lost_request"
		}
		return r.kind
	}
	return ""
}

var errAPITimeout = errors.New("sim: etcdserver: request timed out")

func (w *World) apiFate(c *SimClient, verb string, k objKey) (string, error) {
	wr := verb != "get" && verb != "list"
	for i := range w.nextAPI {
		r := &w.nextAPI[i]
		if r.n <= 0 || r.until < w.S.Now() {
			continue
		}
		if r.class == "write" && !wr || r.class == "read" && wr || r.job != (c.who == "job") {
			continue
		}
		if r.class != "" && r.class != "write" && r.class != "read" && !strings.Contains(verb+"/"+k.GVK.Kind+"/"+k.Namespace+"/"+k.Name, r.class) {
			continue
		}
		r.n--
		w.ruleUsed = w.S.Now()
		w.lastFault = w.S.Now()
		err := r.err
		kind := r.kind
		if kind == "conflict" {
			if verb == "update" || verb == "updatestatus" || strings.HasPrefix(verb, "patch") {
				err = apierrors.NewConflict(grOf(k.GVK), k.Name, errors.New("the object has been modified"))
				w.Faults["api_conflict_"+verb]++
				return "before", err
			}
			continue
		}
		if err == nil {
			err = apierrors.NewTimeoutError("request timed out", 1)
			if !wr || kind == "before" {
				err = apierrors.NewInternalError(errAPITimeout)
			}
		}
		w.Faults["api_"+kind+"_"+verb]++
		return kind, err
	}
	return "", nil
}

func (w *World) apiLat() time.Duration {
	d := w.S.Dur("apilat", 500*time.Microsecond, 8*time.Millisecond)
	if w.apiSlow > w.S.Now() {
		d += w.S.Dur("apislow", 100*time.Millisecond, 3*time.Second)
		w.count("api_slow_call")
	}
	return d
}

// step is called at every controller action; it fires step-triggered faults.
func (w *World) step(class string) {
	w.count("ctl_step")
	for _, a := range append([]*armed(nil), w.armed...) {
		if a.wait != "" && a.wait != class && !(a.wait == "api_*" && strings.HasPrefix(class, "api_")) {
			continue
		}
		a.left--
		if a.left <= 0 {
			w.removeArmed(a)
			f := a.f
			w.S.Logf("fault fires at %s: %s", class, f.Kind)
			w.fire(f)
		}
	}
}

func (w *World) removeArmed(a *armed) {
	for i, x := range w.armed {
		if x == a {
			w.armed = append(w.armed[:i:i], w.armed[i+1:]...)
			return
		}
	}
}

func (w *World) onSQL(m *Mysqld, c *wireConn, q string) {
	cl := sqlClass(q)
	if w.w3 != nil {
		w.w3.sql(m, c, q, cl)
	}
	if w.isJob(c.inc) {
		w.S.After(0, func() { w.step("job_sql_" + cl) })
		return
	}
	w.count("sql_" + cl)
	w.orc.sql(m, c, q, cl)
	if w.w2 != nil {
		w.w2.o.sql(m)
	}
	if cl != "read" {
		w.S.After(0, func() { w.step("sql_" + cl) })
	}
}

func (w *World) onAPIWrite(c *SimClient, verb string, k objKey, err error) {
	if err == nil {
		p := ""
		if c.who == "job" {
			p = "job_"
		}
		w.S.After(0, func() { w.step(p + "api_" + verb + "_" + k.GVK.Kind) })
	}
}

func (w *World) onDelete(k objKey, o *client.DeleteOptions) {
	if w.w2 != nil {
		w.w2.o.onDelete(k, o)
	}
	if w.kl != nil {
		w.kl.onDelete(k, o)
	}
}

func (w *World) onEvent(name, typ, reason, msg string) {
	w.count("event_" + reason)
	w.orc.event(name, typ, reason, msg)
}

func (w *World) onBinlogged(m *Mysqld, t *Txn) {
	if w.w3 != nil {
		w.w3.noteTxn(t)
	}
}
func (w *World) onCommitted(m *Mysqld, t *Txn)                 { w.orc.committed(m, t) }
func (w *World) onOpened(m *Mysqld)                            { w.orc.opened(m) }
func (w *World) onClosed(m *Mysqld)                            { w.S.Logf("mysqld closed %s", m.Name) }
func (w *World) onKill(m *Mysqld, ss *Session)                 { w.orc.killed(m, ss) }
func (w *World) onReplCmd(m *Mysqld, cmd string, io, sql bool) {}
func (w *World) onReset(m *Mysqld, what string)                { w.orc.reset(m, what) }
func (w *World) onChangeSource(m *Mysqld, sc *SourceConf)      { w.orc.changeSource(m, sc) }
func (w *World) onSetVar(m *Mysqld, n, v string)               { w.orc.setVar(m, n, v) }
func (w *World) onWaitGTID(m *Mysqld, set GTIDSet)             {}
func (w *World) onAuthDenied(m *Mysqld, user string)           { w.count("auth_denied") }

func sortedInts(m map[int]bool) []int {
	var r []int
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

func (w *World) refMissing(kp *kPod, pod *corev1.Pod, miss string) {
	if w.onRefMissing != nil {
		w.onRefMissing(kp, pod, miss)
	}
}

func (w *World) podPw(m *Mysqld, sec *corev1.Secret) {
	if w.onPodPw != nil {
		w.onPodPw(m, sec)
	}
}
