package sim

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	appsv1 "k8s.io/api/apps/v1"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// ---- generation -------------------------------------------------------------

type weight struct {
	kind string
	w    int
}

// stepClasses are the controller actions right after which a fault may strike.
var stepClasses = []string{"", "", "", "", "sql_open", "sql_close", "sql_stop", "sql_change", "sql_start", "sql_reset", "sql_setvar", "sql_kill", "sql_wait",
	"api_updatestatus_MySQLCluster", "api_patch_Pod", "clone"}

// profile is how a property's runs are generated.
type profile struct {
	weights  []weight
	min, max int
	stepP    float64 // share of step-triggered faults
	burstP   float64
	longP    float64 // share of long-lasting faults
	primP    float64 // share of faults aimed at the primary
	combos   []string
	comboN   int // tries, 2 if zero
}

// combo is a pattern of faults that only together do harm.
func combo(s *Sim, cfg Config, name string, at time.Duration) []Fault {
	key := "combo"
	d := func(lo, hi float64) time.Duration {
		return s.Dur(key, time.Duration(lo*float64(time.Second)), time.Duration(hi*float64(time.Second))).Truncate(time.Millisecond)
	}
	a := func() int { return s.Intn(key, 1000) }
	var fs []Fault
	switch name {
	case "lag_crash": // the primary dies while the replicas have not applied what they received
		l := d(40, 150)
		fs = append(fs, Fault{At: at, Kind: "lag_all", Target: -1, Dur: l, Arg: a()})
		k := []string{"inst_down", "inst_down", "isolate", "part_ctl"}[s.Intn(key, 4)]
		fs = append(fs, Fault{At: at + d(1, 20), Kind: k, Target: -1, Dur: d(30, 300), Arg: a()})
		if s.Chance(key, 0.3) {
			fs = append(fs, Fault{At: at + d(5, 60), Kind: "ctl_crash", Target: -1, Dur: d(1, 10), Arg: a()})
		}
	case "flap": // the primary is cut off from the controller, its replicas come and go
		fs = append(fs, Fault{At: at, Kind: "part_ctl", Target: -1, Dur: d(60, 300), Arg: 0})
		t := at - d(0, 3)
		for i := 0; i < 3+s.Intn(key, 5); i++ {
			l := d(1, 8)
			fs = append(fs, Fault{At: t, Kind: "part_repl", Target: -3, Dur: l, Arg: a()})
			t += l + d(0.3, 6)
		}
	case "flap_one": // the same with a single replica
		fs = append(fs, Fault{At: at, Kind: "part_ctl", Target: -1, Dur: d(60, 300), Arg: 0})
		t := at - d(0, 3)
		x := a()
		for i := 0; i < 3+s.Intn(key, 5); i++ {
			l := d(1, 8)
			fs = append(fs, Fault{At: t, Kind: "part_link", Target: -3, Dur: l, Arg: x})
			t += l + d(0.3, 6)
		}
	case "race": // a primary cut off from the controller goes on, one replica receives late
		fs = append(fs, Fault{At: at, Kind: "part_ctl", Target: -1, Dur: d(60, 300), Arg: 0})
		fs = append(fs, Fault{At: at + d(-20, 20), Kind: "slow_link", Target: -3, Dur: d(10, 60), Arg: a()})
		if s.Chance(key, 0.5) {
			fs = append(fs, Fault{At: at + d(-5, 20), Kind: "slow_link", Target: -3, Dur: d(10, 60), Arg: a()})
		}
	case "reconn": // a replica gets its source back while a fail-over is going on
		fs = append(fs, Fault{At: at, Kind: "link_reset", Target: -3, Dur: d(0.5, 50), Arg: a()})
		p := d(0, 59)
		fs = append(fs, Fault{At: at + p, Kind: "part_ctl", Target: -3, Dur: d(100, 300), Arg: 0})
		fs = append(fs, Fault{At: at + p - d(-1, 10), Kind: "lag_all", Target: -1, Dur: d(5, 60), Arg: a()})
	case "fo_err": // calls fail during a fail-over from a primary that goes on
		fs = append(fs, Fault{At: at, Kind: []string{"part_ctl", "part_ctl", "inst_down"}[s.Intn(key, 3)], Target: -1, Dur: d(60, 300), Arg: 0})
		for i := 0; i < 1+s.Intn(key, 3); i++ {
			fs = append(fs, Fault{At: at, Kind: "sql_err", Target: -1, Dur: d(1, 40), Arg: foErrArgs[s.Intn(key, len(foErrArgs))], S: "sql_stop", Steps: 1 + s.Intn(key, max(1, cfg.Replicas-1))})
		}
		if s.Chance(key, 0.6) {
			fs = append(fs, Fault{At: at - d(-10, 20), Kind: []string{"lag", "slow_link", "part_link"}[s.Intn(key, 3)], Target: -2, Dur: d(5, 60), Arg: a()})
		}
	case "lag_cut": // a delayed replica loses its primary, too
		r := a()
		fs = append(fs, Fault{At: at, Kind: "lag", Target: -2, Dur: d(500, 900), Arg: r})
		fs = append(fs, Fault{At: at + d(5, 40), Kind: "part_repl", Target: -2, Dur: 2*cfg.Interval + d(250, 330), Arg: r})
	case "lag_down": // a replica is delayed, then another one is down for long
		r := a()
		l := d(30, 300)
		fs = append(fs, Fault{At: at, Kind: "lag", Target: -2, Dur: l, Arg: r})
		fs = append(fs, Fault{At: at + l - d(-20, 20), Kind: []string{"inst_down", "part_ctl"}[s.Intn(key, 2)], Target: -2, Dur: d(500, 900), Arg: r + 1})
	case "gone_purged": // the history a replica needs is purged while it is away, and finding that out fails
		x := d(30, 200)
		fs = append(fs, Fault{At: at, Kind: []string{"inst_down", "isolate", "part_repl"}[s.Intn(key, 3)], Target: -2, Dur: x, Arg: a()})
		fs = append(fs, Fault{At: at + x - d(1, 20), Kind: "purge_binlog", Target: -1, Dur: time.Second, Arg: a(), S: "all"})
		fs = append(fs, Fault{At: at + x - d(-3, 3), Kind: "gtid_err", Target: -1, Dur: d(10, 100), Arg: a()})
	case "errant_ahead": // an errant replica is also ahead of a primary that waits for the others, or has purged its binary logs
		r := a()
		fs = append(fs, Fault{At: at, Kind: "human_errant", Target: -2, Dur: time.Second, Arg: r})
		if s.Chance(key, 0.4) {
			fs = append(fs, Fault{At: at + d(0, 5), Kind: "purge_binlog", Target: -2, Dur: time.Second, Arg: r, S: "all"})
		} else {
			fs = append(fs, Fault{At: at - d(-2, 10), Kind: "ack_cut", Target: -2, Dur: d(100, 300), Arg: r})
		}
	case "errant_wipe": // the primary loses its data while a replica is errant
		fs = append(fs, Fault{At: at, Kind: "human_errant", Target: -2, Dur: time.Second, Arg: a()})
		if s.Chance(key, 0.7) {
			fs = append(fs, Fault{At: at + 2*cfg.Interval + d(5, 60), Kind: "wipe", Target: -1, Dur: time.Second, Arg: a()})
		} else {
			fs = append(fs, Fault{At: at + 2*cfg.Interval + d(5, 60), Kind: "inst_down", Target: -1, Dur: d(60, 400), Arg: a()})
		}
	case "demote_crash": // a switchover is interrupted
		fs = append(fs, Fault{At: at, Kind: "demote", Target: -1, Dur: time.Second, Arg: a()})
		k := []string{"ctl_crash", "inst_crash", "sql_err", "api_err", "isolate"}[s.Intn(key, 5)]
		fs = append(fs, Fault{At: at, Kind: k, Target: -1, Dur: d(1, 40), Arg: a(), S: []string{"sql_close", "sql_kill", "sql_wait", "api_updatestatus_MySQLCluster", "api_patch_Pod", "sql_open", "sql_stop"}[s.Intn(key, 7)], Steps: 1 + s.Intn(key, 2)})
	case "edit": // a change whose execution is interrupted
		var ks []weight
		tot := 0
		for _, w := range profiles[cfg.Prop].weights {
			if strings.HasPrefix(w.kind, "u_") || strings.HasPrefix(w.kind, "h_") || strings.HasPrefix(w.kind, "c_") || w.kind == "cert_rot" {
				ks = append(ks, w)
				tot += w.w
			}
		}
		n := s.Intn(key, tot)
		kind := ""
		for _, w := range ks {
			if kind = w.kind; n < w.w {
				break
			}
			n -= w.w
		}
		dur := d(5, 60)
		if s.Chance(key, 0.3) {
			dur = d(60, 400)
		}
		fs = append(fs, Fault{At: at, Kind: kind, Target: -1, Dur: dur, Arg: a()})
		k := []string{"ctl_crash", "ctl_crash", "ctl_crash", "api_down", "api_err"}[s.Intn(key, 5)]
		fs = append(fs, Fault{At: at, Kind: k, Target: -1, Dur: d(0.5, 20), Arg: a(), S: "api_*", Steps: 1 + s.Intn(key, 6)})
	case "hold": // a state that lasts
		fs = append(fs, Fault{At: at, Kind: []string{"u_offline", "cron_active", "cron_active"}[s.Intn(key, 3)], Target: -1, Dur: d(300, 500), Arg: a()})
	case "pause": // something calls for an operation while the user has stopped clustering
		if s.Chance(key, 0.3) { // reconciliation fails all the while
			n := s.Intn(key, 2)
			fs = append(fs, Fault{At: at - d(5, 40), Kind: "u_confname", Target: -1, Dur: d(1, 2), Arg: 10 * n})
			fs = append(fs, Fault{At: at - d(0, 5), Kind: "u_confrm", Target: -1, Dur: d(450, 600), Arg: 10 * n})
		}
		fs = append(fs, Fault{At: at, Kind: "u_stopc", Target: -1, Dur: d(250, 500), Arg: a()})
		if s.Chance(key, 0.3) {
			fs = append(fs, Fault{At: at + d(20, 120), Kind: "ctl_crash", Target: -1, Dur: d(1, 10), Arg: a()})
		}
		k := []string{"pod_delete", "demote", "pod_delete", "inst_down"}[s.Intn(key, 4)]
		fs = append(fs, Fault{At: at + d(140, 240), Kind: k, Target: -1, Dur: d(5, 60), Arg: a()})
	}
	return fs
}

var profiles = map[string]profile{
	"C01": {weights: []weight{{"inst_crash", 6}, {"inst_down", 4}, {"stall", 2}, {"part_ctl", 3}, {"part_repl", 3}, {"part_app", 1}, {"isolate", 3}, {"lag", 4},
		{"pod_delete", 4}, {"demote", 4}, {"wipe", 3}, {"ctl_crash", 5}, {"api_err", 3}, {"sql_err", 4}, {"cache_stall", 1}, {"long_write", 2}, {"api_down", 1}, {"human_errant", 1}, {"scale", 1}},
		min: 3, max: 14, stepP: 0.4, burstP: 0.5, longP: 0.3, primP: 0.5, combos: []string{"lag_crash", "flap", "flap_one", "flap_one", "race", "race", "demote_crash", "reconn", "reconn", "fo_err"}},
	"C02": {weights: []weight{{"inst_crash", 4}, {"inst_down", 4}, {"stall", 3}, {"part_ctl", 8}, {"part_repl", 4}, {"isolate", 5}, {"lag", 2},
		{"pod_delete", 3}, {"demote", 4}, {"ctl_crash", 5}, {"api_err", 3}, {"sql_err", 4}, {"cache_stall", 2}, {"api_down", 1}, {"wipe", 1}},
		min: 3, max: 12, stepP: 0.4, burstP: 0.5, longP: 0.5, primP: 0.6, combos: []string{"flap", "flap_one", "race", "lag_crash", "demote_crash", "reconn"}},
	"C03": {weights: []weight{{"human_errant", 8}, {"inst_crash", 5}, {"inst_down", 5}, {"part_repl", 3}, {"isolate", 4}, {"part_ctl", 3}, {"lag", 2},
		{"demote", 3}, {"pod_delete", 2}, {"ctl_crash", 4}, {"wipe", 2}, {"sql_err", 2}, {"api_err", 2}, {"offline", 1}, {"gtid_err", 2}},
		min: 2, max: 9, stepP: 0.25, burstP: 0.4, longP: 0.6, primP: 0.5, combos: []string{"errant_wipe", "errant_ahead"}},
	"C04": {weights: []weight{{"demote", 14}, {"pod_delete", 8}, {"lag", 6}, {"long_write", 5}, {"sql_err", 4}, {"ctl_crash", 4}, {"api_err", 4}, {"part_repl", 2},
		{"inst_crash", 2}, {"stall", 1}, {"cache_stall", 1}, {"human_errant", 2}, {"api_down", 1}},
		min: 3, max: 12, stepP: 0.35, burstP: 0.6, longP: 0.3, primP: 0.8, combos: []string{"demote_crash"}},
	"C05": {weights: []weight{{"inst_down", 6}, {"part_ctl", 6}, {"human_errant", 3}, {"isolate", 3}, {"part_repl", 4}, {"wipe", 3}, {"stall", 3}, {"lag", 3}, {"demote", 2},
		{"inst_crash", 2}, {"ctl_crash", 1}},
		min: 1, max: 5, stepP: 0.1, burstP: 0.3, longP: 0.9, primP: 0.4},
	"C06": {weights: []weight{{"inst_crash", 6}, {"inst_down", 4}, {"stall", 2}, {"part_ctl", 3}, {"part_repl", 3}, {"isolate", 3}, {"lag", 2},
		{"pod_delete", 4}, {"demote", 4}, {"wipe", 4}, {"ctl_crash", 6}, {"api_err", 5}, {"sql_err", 6}, {"cache_stall", 2}, {"long_write", 2}, {"api_down", 2}, {"human_errant", 2},
		{"purge_binlog", 2}, {"clone_fail", 2}, {"offline", 1}, {"scale", 2}},
		min: 3, max: 14, stepP: 0.45, burstP: 0.5, longP: 0.3, primP: 0.5, combos: []string{"lag_crash", "flap", "flap_one", "race", "errant_wipe", "demote_crash"}},
	"C07": {weights: []weight{{"wipe", 10}, {"purge_binlog", 6}, {"clone_fail", 3}, {"ctl_crash", 5}, {"inst_crash", 6}, {"inst_down", 3}, {"pod_delete", 2}, {"isolate", 2},
		{"part_ctl", 2}, {"part_repl", 3}, {"demote", 3}, {"sql_err", 3}, {"api_err", 2}, {"offline", 1}, {"scale", 1}, {"gtid_err", 1}},
		min: 3, max: 12, stepP: 0.35, burstP: 0.5, longP: 0.4, primP: 0.5, combos: []string{"errant_wipe", "lag_crash", "gone_purged"}},
	"C08": {weights: []weight{{"demote", 8}, {"inst_crash", 4}, {"inst_down", 4}, {"pod_delete", 6}, {"api_err", 6}, {"part_ctl", 4}, {"isolate", 3}, {"cache_stall", 2}, {"ctl_crash", 5},
		{"sql_err", 4}, {"human_errant", 3}, {"api_down", 1}, {"offline", 1}},
		min: 2, max: 10, stepP: 0.45, burstP: 0.4, longP: 0.5, primP: 0.6, combos: []string{"demote_crash", "flap"}},
	"C09": {weights: []weight{{"lag", 14}, {"demote", 4}, {"api_err", 4}, {"ctl_crash", 3}, {"inst_crash", 2}, {"inst_down", 1}, {"pod_delete", 2}, {"sql_err", 2}, {"part_repl", 1}},
		min: 2, max: 8, stepP: 0.25, burstP: 0.3, longP: 0.8, primP: 0.15, combos: []string{"lag_cut", "lag_down", "lag_down"}},
	"C11": {weights: []weight{{"inst_crash", 4}, {"inst_down", 2}, {"stall", 1}, {"part_ctl", 2}, {"part_repl", 2}, {"isolate", 2}, {"lag", 8}, {"ext_cut", 4}, {"offline", 3},
		{"pod_delete", 2}, {"demote", 2}, {"ctl_crash", 4}, {"api_err", 2}, {"sql_err", 4}, {"clone_fail", 2}, {"wipe", 1}},
		min: 1, max: 8, stepP: 0.35, burstP: 0.4, longP: 0.4, primP: 0.7},
}

func (s *Sim) logDur(key string, lo, hi time.Duration) time.Duration {
	f := s.Float(key)
	return time.Duration(float64(lo) * math.Pow(float64(hi)/float64(lo), f)).Truncate(time.Millisecond)
}

func genFaults(s *Sim, cfg Config, pr profile) []Fault {
	key := "gen"
	n := pr.min + s.Intn(key, pr.max-pr.min+1)
	tot := 0
	for _, w := range pr.weights {
		tot += w.w
	}
	pick := func() string {
		k := s.Intn(key, tot)
		for _, w := range pr.weights {
			if k < w.w {
				return w.kind
			}
			k -= w.w
		}
		panic("unreachable")
	}
	var fs []Fault
	at := cfg.FaultStart
	for i := 0; i < n; i++ {
		if i > 0 && s.Chance(key, pr.burstP) {
			at += s.logDur(key, 50*time.Millisecond, 30*time.Second)
		} else {
			at = cfg.FaultStart + s.Dur(key, 0, cfg.FaultEnd-cfg.FaultStart)
		}
		if at > cfg.FaultEnd {
			at = cfg.FaultEnd
		}
		f := Fault{At: at.Truncate(time.Millisecond), Kind: pick(), Arg: s.Intn(key, 1000)}
		if s.Chance(key, pr.primP) {
			f.Target = -1
		} else if s.Chance(key, 0.5) {
			f.Target = -2
		} else {
			f.Target = s.Intn(key, cfg.Replicas)
		}
		if s.Chance(key, pr.longP) {
			f.Dur = s.logDur(key, 60*time.Second, 500*time.Second)
		} else {
			f.Dur = s.logDur(key, 300*time.Millisecond, 90*time.Second)
		}
		if s.Chance(key, pr.stepP) {
			cs := stepClasses
			switch cfg.World {
			case "w2":
				cs = w2StepClasses
			case "w3":
				cs = w3StepClasses
			}
			f.S = cs[s.Intn(key, len(cs))]
			f.Steps = 1 + s.Intn(key, 3)
			if f.S == "" {
				f.Steps = 1 + s.Intn(key, 25)
			}
		}
		switch f.Kind {
		case "ctl_crash":
			f.Dur = s.logDur(key, 500*time.Millisecond, 40*time.Second)
		case "human_errant":
			if f.Target == -1 {
				f.Target = -2
			}
		case "lag":
			if f.Target == -1 && s.Chance(key, 0.8) && !cfg.External {
				f.Target = -2
			}
		}
		fs = append(fs, f)
	}
	if len(pr.combos) > 0 {
		for i := 0; i < max(2, pr.comboN); i++ {
			if s.Chance(key, 0.45) {
				at := cfg.FaultStart + s.Dur(key, 10*time.Second, cfg.FaultEnd-cfg.FaultStart)
				fs = append(fs, combo(s, cfg, pr.combos[s.Intn(key, len(pr.combos))], at.Truncate(time.Millisecond))...)
			}
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	return fs
}

// ---- injection -----------------------------------------------------------------

func (w *World) armFaults() {
	for i := range w.faults {
		f := &w.faults[i]
		w.S.After(f.At, func() {
			if w.faultsOff {
				return
			}
			if f.Steps > 0 {
				w.armed = append(w.armed, &armed{f: f, left: f.Steps, wait: f.S})
				return
			}
			w.fire(f)
		})
	}
}

func (w *World) target(c *ClusterRef, f *Fault) *Mysqld {
	ms := w.instsOf(c)
	if len(ms) == 0 {
		return nil
	}
	p := w.primary(c)
	switch {
	case f.Target == -1:
		return p
	case f.Target == -3: // whichever instance is open
		for _, m := range ms {
			if m.Up && !m.ReadOnly {
				return m
			}
		}
		return p
	case f.Target == -2:
		var rs []*Mysqld
		for _, m := range ms {
			if m != p {
				rs = append(rs, m)
			}
		}
		if len(rs) == 0 {
			return nil
		}
		return rs[f.Arg%len(rs)]
	case f.Target >= 0 && f.Target < len(ms):
		return ms[f.Target]
	}
	return ms[f.Arg%len(ms)]
}

// impaired tells whether an instance is out of service at the moment.
func (w *World) impaired(m *Mysqld) bool {
	now := w.S.Now()
	if !m.Up || m.Stalled || m.Disk == nil || w.kl.wipe[m.Name] || w.kl.hold[m.Name] > now {
		return true
	}
	if pod := w.pod(m); pod == nil || pod.DeletionTimestamp != nil {
		return true
	}
	for k, u := range w.blocked {
		if own := w.blockOwn[k]; own != "" && own != m.Node {
			continue
		}
		if u > now && (len(k) > len(m.Node) && (k[:len(m.Node)+1] == m.Node+"|" || k[len(k)-len(m.Node)-1:] == "|"+m.Node)) {
			return true
		}
	}
	if m.Cluster == nil {
		return false
	}
	p := w.primary(m.Cluster)
	if m.Disk.Executed.Empty() {
		for _, x := range w.instsOf(m.Cluster) {
			if x.Disk != nil && !x.Disk.Executed.Empty() {
				return true
			}
		}
	}
	if m != p {
		if w.truthErrant(p, m) || m.waitSessions() > 0 {
			return true
		}
		if p != nil && p.Disk != nil && !p.Disk.Purged.SubsetOf(m.Disk.Executed) {
			return true
		}
	}
	return false
}

// onlyCopy tells whether no other instance of the cluster has the data for sure.
func (w *World) onlyCopy(m *Mysqld) bool {
	for _, x := range w.instsOf(m.Cluster) {
		if x != m && x.Disk != nil && !x.cloneRun && !w.kl.wipe[x.Name] && !x.Disk.Executed.Empty() {
			return false
		}
	}
	return true
}

// dataMissing tells whether an instance has lost its data while others have theirs.
func (w *World) dataMissing(c *ClusterRef) bool {
	some := false
	for _, m := range w.instsOf(c) {
		some = some || m.Disk != nil && !m.Disk.Executed.Empty()
	}
	for _, m := range w.instsOf(c) {
		if some && (m.Disk == nil || w.kl.wipe[m.Name] || m.Disk.Executed.Empty()) {
			return true
		}
	}
	return false
}

func (w *World) budgetAllows(c *ClusterRef, t *Mysqld) bool {
	n := 0
	for _, m := range w.instsOf(c) {
		if m == t || w.impaired(m) {
			n++
		}
	}
	N := c.N
	if x := w.orc.cl(c); x.oldN > 0 && (x.raisedAt == never || w.S.Now()-x.raisedAt < 30*time.Second) {
		N = x.oldN // acknowledged writes are still on few instances only
	}
	return n <= (N-1)/2
}

// foErrArgs: requests to stop replication are lost, or reading the status fails (see "sql_err").
var foErrArgs = []int{60, 60, 60, 64, 3, 3, 7, 11, 15, 61}

// noTarget are the faults that need no instance.
var noTarget = map[string]bool{"ctl_crash": true, "api_err": true, "api_down": true, "api_slow": true, "cache_stall": true, "sql_err": true, "gtid_err": true, "offline": true, "scale": true}

var extraKinds = map[string]bool{"cron_active": true, "cert_rot": true, "sts_freeze": true}

func (w *World) fire(f *Fault) {
	if w.faultsOff || len(w.clusters) == 0 {
		return
	}
	s := w.S
	now := s.Now()
	defer w.orc.noteReach()
	c := w.clusters[0]
	if w.w2 != nil && (f.Kind[1] == '_' || extraKinds[f.Kind]) {
		s.Logf("fault %s dur=%v arg=%d", f.Kind, f.Dur, f.Arg)
		w.lastFault = now
		if !w.fireExtra(f, func() { w.Faults[f.Kind]++ }) {
			s.Harness("unknown fault %q", f.Kind)
		}
		return
	}
	m := w.target(c, f)
	if m == nil {
		if !noTarget[f.Kind] {
			return
		}
		m = &Mysqld{Name: "-"}
	}
	d := f.Dur
	switch f.Kind {
	case "inst_crash", "inst_down", "stall", "part_ctl", "part_repl", "part_link", "link_reset", "part_app", "isolate", "pod_delete", "wipe", "human_errant":
		// data loss always stays within the minority budget unless the run says otherwise
		if (w.Cfg.Budget || f.Kind == "wipe" || f.Kind == "human_errant") && !w.budgetAllows(c, m) && !(w.Cfg.Extra["nobudget"] == "1") {
			w.count("fault_skipped_budget")
			return
		}
	}
	s.Logf("fault %s %s dur=%v arg=%d", f.Kind, m.Name, d, f.Arg)
	w.lastFault = now
	done := func() { w.Faults[f.Kind]++ }
	switch f.Kind {
	case "inst_crash":
		if m.Up {
			done()
			w.kl.crash(m, "injected crash")
		}
	case "inst_down":
		if m.Up {
			done()
			w.kl.hold[m.Name] = now + d
			w.kl.crash(m, "injected node failure")
		}
	case "stall":
		if m.Up {
			done()
			w.stall(m, d)
		}
	case "part_ctl":
		done()
		if f.Arg%3 != 1 {
			w.block("ctl", m.Node, d)
		}
		if f.Arg%3 != 2 {
			w.block(m.Node, "ctl", d)
		}
	case "part_repl":
		done()
		for _, x := range w.instsOf(c) {
			if x != m {
				w.blockFor(m.Node, x.Node, m.Node, d)
				w.blockFor(m.Node, m.Node, x.Node, d)
			}
		}
	case "part_link", "link_reset": // one replica loses its source
		if x := w.target(c, &Fault{Target: -2, Arg: f.Arg}); x != nil && x != m {
			done()
			if rc := x.src; f.Kind == "link_reset" && rc != nil && rc.src == m {
				rc.close(false)
				x.ioLost(2013, "Lost connection to MySQL server during query")
			}
			w.blockFor(m.Node, x.Node, m.Node, d)
			w.blockFor(m.Node, m.Node, x.Node, d)
		}
	case "slow_link": // one replica receives late
		if x := w.target(c, &Fault{Target: -2, Arg: f.Arg}); x != nil && x != m {
			done()
			w.slow[linkKey(m.Node, x.Node)] = slowLink{now + d, time.Duration(200+f.Arg*8) * time.Millisecond}
		}
	case "ack_cut": // one replica receives from the primary, but nobody acknowledges
		if p := w.primary(c); p != nil && p != m && !w.Cfg.Budget {
			done()
			w.block(m.Node, p.Node, d)
			for _, x := range w.instsOf(c) {
				if x != m && x != p {
					w.block(x.Node, p.Node, d)
					w.block(p.Node, x.Node, d)
				}
			}
		}
	case "part_app":
		done()
		w.block("app", m.Node, d)
		w.block(m.Node, "app", d)
	case "isolate":
		done()
		w.block("*", m.Node, d)
		w.block(m.Node, "*", d)
	case "lag":
		done()
		if m.ApplyHold < now+d {
			m.ApplyHold = now + d
		}
	case "lag_all":
		done()
		for _, x := range w.instsOf(c) {
			if x.ApplyHold < now+d {
				x.ApplyHold = now + d
			}
		}
	case "pod_delete":
		if p := w.pod(m); p != nil && p.DeletionTimestamp == nil {
			if w.kl.deletePod(p, "human") {
				done()
			}
		}
	case "demote":
		p := w.primary(c)
		if f.Target >= 0 {
			p = m
		}
		if p != w.primary(c) {
			p = w.primary(c)
		}
		if pod := w.pod(p); pod != nil && pod.Annotations[constants.AnnDemote] == "" {
			done()
			_ = w.Store.Mutate("human", podKey(p), false, func(o client.Object) bool {
				a := o.GetAnnotations()
				if a == nil {
					a = map[string]string{}
				}
				a[constants.AnnDemote] = "true"
				o.SetAnnotations(a)
				return true
			})
		}
	case "wipe":
		if m.Disk != nil && !m.cloneRun && !(w.Cfg.External && w.onlyCopy(m)) && w.wipeInst(m) {
			done()
		}
	case "human_errant":
		if m.Up && !m.Stalled && m != w.primary(c) {
			done()
			t := m.HumanWrite()
			w.orc.humanWrote(m, t)
		}
	case "ctl_crash":
		if w.ctl.inc != nil {
			done()
			w.ctl.Crash(d)
		}
	case "api_err":
		done()
		kinds := []string{"before", "after", "after", "conflict"}
		w.nextAPI = append(w.nextAPI, apiFateRule{kind: kinds[f.Arg%4], n: 1 + f.Arg/4%5, until: now + 60*time.Second, class: w.apiClass(f.Arg / 20)})
	case "api_down":
		done()
		if w.apiDown < now+d {
			w.apiDown = now + d
		}
	case "api_slow":
		done()
		if w.apiSlow < now+d {
			w.apiSlow = now + d
		}
	case "sql_err":
		done()
		kinds := []string{"lost_request", "lost_reply", "lost_reply", "lost_read"}
		classes := []string{"", "", "", "open", "close", "stop", "change", "start", "reset", "setvar", "kill", "wait"}
		r := sqlFateRule{kind: kinds[f.Arg%4], n: 1 + f.Arg/4%3, until: now + 60*time.Second, class: classes[f.Arg/12%12]}
		if r.kind == "lost_read" {
			r.class = "read"
			r.n = 1 + f.Arg/4%12
		}
		w.nextSQL = append(w.nextSQL, r)
	case "gtid_err": // calculations with GTID sets fail
		done()
		w.nextSQL = append(w.nextSQL, sqlFateRule{kind: "lost_read", n: 1 + f.Arg%4, until: now + d, class: "read", text: "GTID_SUB"})
	case "cache_stall":
		if w.ctl.inc != nil {
			done()
			k := []string{"*", "Pod", "MySQLCluster", "Secret"}[f.Arg%4]
			if w.w2 != nil {
				k = []string{"*", "Pod", "MySQLCluster", "Secret", "StatefulSet", "ConfigMap", "StatefulSet", "PersistentVolumeClaim"}[f.Arg%8]
			}
			w.ctl.cache.stall[k] = now + d
			if w.cacheStallAt < now {
				w.cacheStallFrom = now
			}
			if w.cacheStallAt < now+d {
				w.cacheStallAt = now + d
			}
		}
	case "long_write":
		for _, a := range w.apps {
			if a.Role == "primary" && a.C == c {
				done()
				a.LongNext = d
				break
			}
		}
	case "purge_binlog":
		if m.Up {
			keep := f.Arg % 20
			if f.S == "all" {
				keep = 0
			}
			if m.PurgeBinlog(keep) > 0 {
				done()
			}
		}
	case "clone_fail":
		done()
		w.cloneFail += 1 + f.Arg%2
	case "offline": // the user takes the cluster offline for a while
		if cl := w.cluster(c); cl != nil && !cl.Spec.Offline && !(w.Cfg.Budget && w.dataMissing(c)) {
			done()
			w.setOffline(c, true)
			s.After(d, func() { w.setOffline(c, false) })
		}
	case "scale": // the user adds two instances
		if x := w.orc.cl(c); x.oldN == 0 && c.N < 5 && !w.cluster(c).Spec.Offline {
			done()
			x.oldN, x.scaledAt, x.raisedAt = c.N, now, never
			c.N += 2
			_ = w.Store.Mutate("human", c.key(), false, func(o client.Object) bool {
				o.(*mocov1beta2.MySQLCluster).Spec.Replicas = int32(c.N)
				return true
			})
			w.setOffline(c, false)
		}
	case "ext_cut":
		if w.ext != nil {
			done()
			w.block(w.ext.Node, m.Node, d)
			w.block(m.Node, w.ext.Node, d)
		}
	default:
		if w.fireExtra == nil || !w.fireExtra(f, done) {
			s.Harness("unknown fault %q", f.Kind)
		}
	}
}

// setOffline is what a user and the reconciler do to take a cluster offline and back.
func (w *World) setOffline(c *ClusterRef, off bool) {
	_ = w.Store.Mutate("human", c.key(), false, func(o client.Object) bool {
		cl := o.(*mocov1beta2.MySQLCluster)
		if cl.Spec.Offline == off {
			return false
		}
		cl.Spec.Offline = off
		return true
	})
	k := objKey{stsGVK, types.NamespacedName{Namespace: c.Namespace, Name: "moco-" + c.Name}}
	_ = w.Store.Mutate("human", k, false, func(o client.Object) bool {
		n := int32(c.N)
		if off {
			n = 0
		}
		o.(*appsv1.StatefulSet).Spec.Replicas = &n
		return true
	})
	w.kl.kick(k)
}

func (w *World) apiClass(n int) string {
	cs := []string{"write", "write", "write", "read", "Pod", "updatestatus"}
	if w.w2 != nil {
		cs = []string{"write", "write", "write", "apply", "StatefulSet", "updatestatus", "delete", "create", "PersistentVolumeClaim", "ConfigMap", "Secret", "patch"}
	}
	return cs[n%len(cs)]
}

func (w *World) stall(m *Mysqld, d time.Duration) {
	m.Stalled = true
	gen := m.Gen
	w.S.After(d, func() {
		if m.Gen == gen && m.Stalled {
			w.unstall(m)
		}
	})
}

func (w *World) unstall(m *Mysqld) {
	m.Stalled = false
	w.S.Logf("mysqld unstall %s", m.Name)
	m.applyNext()
}

// wipeInst deletes the volume and the Pod, as an operator re-initialising an instance would.
func (w *World) wipeInst(m *Mysqld) bool {
	pod := w.pod(m)
	if pod == nil || pod.DeletionTimestamp != nil || w.kl.wipe[m.Name] || pod.Annotations[constants.AnnPreventDelete] == "true" {
		return false
	}
	w.S.Logf("wipe %s", m.Name)
	w.kl.wipe[m.Name] = true
	w.kl.deletePod(pod, "human")
	return true
}

// heal ends all faults.
func (w *World) heal() {
	w.faultsOff = true
	w.armed = nil
	w.blocked = map[string]time.Duration{}
	w.slow = map[string]slowLink{}
	w.nextAPI, w.nextSQL = nil, nil
	w.apiDown, w.apiSlow = 0, 0
	w.cloneFail = 0
	now := w.S.Now()
	if w.cacheStallAt > now {
		w.cacheStallAt = now
	}
	if w.ctl.cache != nil {
		w.ctl.cache.stall = map[string]time.Duration{}
		for _, g := range w.ctl.cache.kinds() {
			w.ctl.cache.sched[g] = false
			w.ctl.cache.schedule(g)
		}
	}
	for _, n := range w.order {
		m := w.insts[n]
		if m.Stalled {
			w.unstall(m)
		}
		m.ApplyHold = 0
		if m.Up && m.applying {
			// re-plan the held apply
			m.sqlGen++
			m.applying = false
			m.applyNext()
		}
		if u := w.kl.hold[n]; u > now {
			delete(w.kl.hold, n)
			if kp := w.kl.byInst[n]; kp != nil && kp.started {
				kp.booting = false
				w.kl.boot(kp)
			}
			if kp := w.kl.byInst[n]; kp != nil && kp.term {
				w.kl.stopPod(kp)
			}
		}
	}
	if w.w2 == nil && w.w3 == nil {
		for _, c := range w.clusters {
			if cl := w.cluster(c); cl != nil && cl.Spec.Offline {
				w.setOffline(c, false)
			}
		}
	}
	if w.w2 != nil {
		w.w2.w2Heal()
	}
	if w.w3 != nil {
		w.w3.heal()
	}
	w.healed = true
	w.S.Logf("healed")
}

// operator is the human who re-initialises broken instances, as the documentation asks for.
func (w *World) operator() {
	type st struct {
		since time.Duration
		why   string
	}
	bad := map[string]*st{}
	w.S.Every(10*time.Second, func() bool {
		if w.ended {
			return false
		}
		now := w.S.Now()
		for _, c := range w.clusters {
			cl := w.cluster(c)
			if cl == nil || cl.Spec.Offline {
				continue
			}
			p := w.primary(c)
			busy := false
			for _, m := range w.instsOf(c) {
				if w.kl.wipe[m.Name] || m.cloneRun || m.Disk == nil {
					busy = true
				}
			}
			for _, m := range w.instsOf(c) {
				why := ""
				if m != p && m.Up && m.Disk != nil && p != nil && p.Disk != nil {
					switch {
					case w.truthErrant(p, m):
						why = "errant"
					case m.waitSessions() > 0:
						why = "hung"
					case !m.Disk.Executed.Empty() && !p.Disk.Purged.SubsetOf(m.Disk.Executed):
						why = "history gone"
					case m.Disk.Executed.Empty() && m.Disk.Source != nil && !p.Disk.Purged.Empty():
						why = "history gone (empty)"
					case p.Disk.Executed.Empty() && w.incomparable(c, p, m):
						why = "diverged"
					}
				}
				b := bad[m.Name]
				if why == "" {
					delete(bad, m.Name)
					continue
				}
				if b == nil || b.why != why {
					bad[m.Name] = &st{now, why}
					continue
				}
				patience := 300 * time.Second
				if w.healed {
					patience = 2*w.Cfg.Interval + 60*time.Second
				}
				if now-b.since > patience && !busy && (w.budgetAllows(c, m) || w.healed && p.Up && !p.Disk.Executed.Empty() && w.orc.cl(c).acked.SubsetOf(p.Disk.Executed)) {
					w.S.Logf("operator reinit %s: %s", m.Name, why)
					w.count("operator_reinit_" + fmt.Sprint(why))
					if w.wipeInst(m) {
						delete(bad, m.Name)
						w.opAt = now
						busy = true
					}
				}
			}
		}
		return true
	})
}

// incomparable: m and another replica each hold transactions the other lacks, and m is the shorter one.
func (w *World) incomparable(c *ClusterRef, p, m *Mysqld) bool {
	a := m.Disk.Received()
	for _, x := range w.instsOf(c) {
		if x == p || x == m || x.Disk == nil {
			continue
		}
		b := x.Disk.Received()
		if !a.SubsetOf(b) && !b.SubsetOf(a) {
			x1 := w.orc.cl(c).acked
			la, lb := x1.Minus(a).Count(), x1.Minus(b).Count()
			if la > lb || la == lb && (a.Count() < b.Count() || a.Count() == b.Count() && m.Index < x.Index) {
				return true
			}
		}
	}
	return false
}
