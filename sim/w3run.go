package sim

import (
	"fmt"
	"time"

	"github.com/cybozu-go/moco/pkg/constants"
)

func w3Config(s *Sim, prop string) Config {
	k := "cfg3"
	cfg := w2Config(s, prop)
	cfg.World = "w3"
	cfg.Replicas = []int{1, 3, 3}[s.Intn(k, 3)]
	cfg.WriteGap = s.Dur(k, 500*time.Millisecond, 4*time.Second)
	cfg.FaultStart = 120 * time.Second
	cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 500*time.Second, 1600*time.Second)
	delete(cfg.Extra, "restore")
	delete(cfg.Extra, "sync")
	delete(cfg.Extra, "other")
	if s.Chance(k, 0.25) {
		cfg.Extra["other"] = "1"
	}
	cfg.Extra["backup"] = "1"
	cfg.Extra["mid"] = fmt.Sprint(s.Intn(k, 3)) // restores while there are faults
	if prop == "C20" {
		cfg.Extra["mid"] = fmt.Sprint(1 + s.Intn(k, 3))
	}
	return cfg
}

var w3Common = []weight{{"inst_crash", 3}, {"inst_down", 2}, {"pod_delete", 2}, {"wipe", 2}, {"demote", 4}, {"lag", 3}, {"ctl_crash", 2}, {"api_err", 1}, {"api_down", 1}, {"u_scale", 1}, {"part_link", 1},
	{"j_kill", 6}, {"j_part", 4}, {"j_sql", 3}, {"j_api", 4}, {"t_fail", 8}, {"b_fail", 6}, {"d_rotate", 5}}

func init() {
	add := func(p string, own ...weight) {
		profiles[p] = profile{weights: append(append([]weight(nil), w3Common...), own...), min: 3, max: 16, stepP: 0.5, burstP: 0.4, longP: 0.2, primP: 0.4}
		scenarios[p] = scenario{config: w3Config, faults: func(s *Sim, cfg Config) []Fault { return genFaults(s, cfg, profiles[cfg.Prop]) }, run: w3Run}
	}
	add("C18", weight{"d_purge", 3}, weight{"d_expire", 2}, weight{"r_crash", 1})
	add("C19", weight{"d_purge", 4}, weight{"d_expire", 3})
	add("C20", weight{"r_crash", 5}, weight{"r_poddel", 4}, weight{"r_stall", 3}, weight{"cache_stall", 4}, weight{"ctl_crash", 4}, weight{"j_kill", 4}, weight{"j_sql", 5}, weight{"t_fail", 6})
}

// point draws a restore point from the history of backups.
func (t *w3World) point(src *ClusterRef) time.Time {
	s := t.w.S
	recs := t.recsOf(src)
	now := s.Wall(s.Now()).Truncate(time.Second)
	if len(recs) == 0 {
		return now
	}
	a := recs[s.Intn("point", len(recs))]
	b := now
	for _, r := range recs {
		if r.t.After(a.t) && r.t.Before(b) {
			b = r.t
		}
	}
	switch s.Intn("point", 8) {
	case 0:
		return a.t
	case 1:
		return a.t.Add(time.Second)
	case 2:
		return b.Add(-time.Second)
	case 3:
		return recs[0].t.Add(-s.Dur("point", time.Second, 60*time.Second)).Truncate(time.Second)
	case 4:
		return now
	}
	d := b.Sub(a.t)
	if d <= 0 {
		return a.t
	}
	return a.t.Add(s.Dur("point", 0, d)).Truncate(time.Second)
}

func (t *w3World) randomRestore(src *ClusterRef, calm bool) *restoreTarget {
	s := t.w.S
	n := 1
	if s.Chance("restore", 0.15) {
		n = 3
	}
	schema, users := "", ""
	if s.Chance("restore", 0.2) {
		schema = []string{"db1", "db2"}[s.Intn("restore", 2)]
	}
	if s.Chance("restore", 0.15) {
		users = []string{"app", "nobody"}[s.Intn("restore", 2)]
	}
	return t.restore(src, n, t.point(src), schema, users, calm)
}

func w3Run(w *World) {
	s, cfg := w.S, w.Cfg
	if !simTools {
		s.Harness("built without simulated programs")
		return
	}
	w.setupW3()
	if s.Stopped {
		return
	}
	t := w.w3
	x := w.w2
	s.Every(time.Second, func() bool {
		if w.ended {
			return false
		}
		w.orc.tick()
		x.o.tick()
		t.tick()
		return true
	})
	w.armFaults()
	w.operator()
	srcs := append([]*ClusterRef(nil), w.clusters...)
	for i, c := range srcs {
		t.cron(c, time.Duration(90+40*i)*time.Second)
	}
	mid := 0
	fmt.Sscan(cfg.Extra["mid"], &mid)
	for i := 0; i < mid; i++ {
		at := cfg.FaultStart + s.Dur("mid", 60*time.Second, cfg.FaultEnd-cfg.FaultStart)
		s.After(at, func() {
			if !w.ended {
				t.randomRestore(srcs[s.Intn("mid", len(srcs))], false)
			}
		})
	}
	s.Run(cfg.FaultEnd)
	if s.Stopped {
		return
	}
	w.heal()
	t.quiet = true
	// back to normal
	if !t.settle() {
		w.count("w3_unsettled")
		return
	}
	w.count("converged")
	// backups must work now
	t.calm = true
	for _, c := range srcs {
		if w.cluster(c) == nil {
			continue
		}
		for i := 0; i < 2; i++ {
			j := &jobRun{kind: "backup", c: c}
			done := false
			j.after = func(*jobRun) { done = true }
			t.enqueue(j)
			begin := s.Now()
			for !done && !s.Stopped && s.Now()-begin < 1800*time.Second {
				s.Run(s.Now() + 5*time.Second)
			}
			if s.Stopped {
				return
			}
			if j.err != nil || !j.over {
				w.violate("C19", "calm-failure", "a backup of %s fails although nothing is wrong: %v", c.Name, j.err)
				return
			}
			recs := t.recsOf(c)
			if i == 1 && len(recs) > 0 && recs[len(recs)-1].warned {
				w.violate("C19", "calm-warning", "a backup of %s has warnings although nothing happened since the previous one: %v", c.Name, recs[len(recs)-1].st.Warnings)
				return
			}
			s.Run(s.Now() + s.Dur("calm", time.Second, 20*time.Second))
		}
	}
	if w.Prop == "C19" {
		for i := 0; i < 4 && !s.Stopped; i++ {
			t.storm(srcs[s.Intn("storm", len(srcs))], "backup")
		}
		return
	}
	for i := 0; i < 2; i++ {
		r := t.randomRestore(srcs[s.Intn("calm", len(srcs))], true)
		for w.S.Now()-r.created < 1500*time.Second && r.done == 0 && !r.gone && !s.Stopped {
			s.Run(s.Now() + 5*time.Second)
		}
		if s.Stopped {
			return
		}
		t.judgeCalm(r)
		if s.Stopped {
			return
		}
		s.Run(s.Now() + s.Dur("calm", time.Second, 60*time.Second))
	}
	for i := 0; i < 3 && !s.Stopped; i++ {
		t.storm(srcs[s.Intn("storm", len(srcs))], "restore")
	}
}

// storm runs one more job with one fault somewhere in it.
func (t *w3World) storm(src *ClusterRef, kind string) {
	w, s := t.w, t.w.S
	if w.cluster(src) == nil {
		return
	}
	t.calm = false
	w.faultsOff = false
	tools, classes := []string{"tar", "tar", "mysqlsh", "zstd", "mysqlbinlog", "mysql"}, []string{"job_start", "job_tool_tar", "job_tool_mysqlsh", "job_tool_zstd", "job_tool_mysqlbinlog", "job_tool_mysql", "job_bucket_get", "job_load", "job_sql_open", "job_sql_close", "job_sql_setvar", "job_sql_read", "job_api_updatestatus_MySQLCluster"}
	ops, late := []string{"get", "get", "list"}, []string{"j_kill", "r_crash", "r_stall", "r_poddel", "j_part", "ctl_crash"}
	if kind == "backup" {
		tools, classes = []string{"tar", "tar", "mysqlsh", "zstd", "mysqlbinlog"}, []string{"job_start", "job_tool_tar", "job_tool_mysqlsh", "job_tool_zstd", "job_tool_mysqlbinlog", "job_bucket_put", "job_snapshot", "job_sql_read", "job_api_updatestatus_MySQLCluster"}
		ops, late = []string{"put"}, []string{"j_kill", "inst_crash", "j_part", "demote", "d_rotate", "d_purge", "d_expire"}
	}
	arg := s.Intn("storm", 1000)
	until := s.Now() + 600*time.Second
	what := ""
	switch s.Intn("storm", 6) {
	case 0, 1, 2:
		n := s.Intn("storm", len(tools))
		f := toolFate{tool: tools[n], kind: []string{"partial", "partial", "kill", "late", "start"}[arg%5], n: 1, until: until, cut: arg / 5, only: kind}
		if n == 1 {
			f.skip = 1
		}
		what = "tool_" + f.tool + "_" + f.kind
		t.mu.Lock()
		t.tf = append(t.tf, f)
		t.mu.Unlock()
	case 3:
		n := s.Intn("storm", len(ops))
		f := toolFate{tool: ops[n], kind: []string{"early", "before", "after", "short"}[arg%4], n: 1, until: until, cut: arg / 4, only: kind}
		if n == 1 {
			f.skip = 1
		}
		what = "bucket_" + f.tool + "_" + f.kind
		t.mu.Lock()
		t.bf = append(t.bf, f)
		t.mu.Unlock()
	case 4:
		f := &Fault{Kind: []string{"j_sql", "j_api"}[s.Intn("storm", 2)], Target: -1, Dur: 10 * time.Second, Arg: arg}
		what = f.Kind
		w.fire(f)
	default:
		f := &Fault{Kind: late[s.Intn("storm", len(late))], Target: s.Intn("storm", 3), Dur: s.logDur("storm", 100*time.Millisecond, 90*time.Second), Arg: arg}
		a := &armed{f: f, left: 1 + s.Intn("storm", 2), wait: classes[s.Intn("storm", len(classes))]}
		what = f.Kind + " at " + a.wait
		w.armed = append(w.armed, a)
	}
	s.Logf("storm %s: %s", kind, what)
	w.count("storm_" + kind)
	begin := s.Now()
	if kind == "backup" {
		j := &jobRun{kind: "backup", c: src}
		done := false
		j.after = func(*jobRun) { done = true }
		t.enqueue(j)
		for !done && !s.Stopped && s.Now()-begin < 1800*time.Second {
			s.Run(s.Now() + 5*time.Second)
		}
	} else {
		r := t.restore(src, 1, t.point(src), []string{"", "", "", "db1"}[s.Intn("storm", 4)], "", false)
		r.storm = true
		for s.Now()-begin < 1500*time.Second && r.done == 0 && !r.failed && !r.gone && !s.Stopped {
			s.Run(s.Now() + 2*time.Second)
		}
		if !s.Stopped {
			s.Run(s.Now() + s.Dur("storm", 0, 20*time.Second))
			t.drop(r)
		}
	}
	if s.Stopped {
		return
	}
	w.heal()
	s.Run(s.Now() + 30*time.Second)
}

// settle waits until everything is as specified and no job is running.
func (t *w3World) settle() bool {
	w, s, x := t.w, t.w.S, t.x
	begin := s.Now()
	okFor := 0
	for {
		s.Run(s.Now() + 5*time.Second)
		if s.Stopped {
			return false
		}
		why, _ := x.unfinished()
		if why == "" && (t.cur != nil || len(t.queue) > 0) {
			why = "a job is running"
		}
		if why == "" {
			for _, k := range w.Store.Keys(podGVK) {
				if o := w.Store.Peek(k); o.GetDeletionTimestamp() != nil {
					why = "a Pod is being deleted"
				}
			}
		}
		if why == "" {
			if okFor++; okFor >= 3 {
				s.Logf("finished after %v", s.Now()-begin)
				return true
			}
			continue
		}
		okFor = 0
		if s.Now()-begin > 4000*time.Second {
			s.Logf("not finished: %s", why)
			return false
		}
	}
}

// judgeCalm looks at a restore that nothing disturbed.
func (t *w3World) judgeCalm(r *restoreTarget) {
	w := t.w
	cl := w.Store.Peek(r.c.key())
	restored := r.done != 0
	_ = cl
	// which source
	src := t.srcOf[r]
	i, _, _ := t.recFor(src, r.point)
	if restored {
		return
	}
	if i == nil {
		w.count("calm_restore_impossible")
		return
	}
	// is the nearest dump one of a failed backup?
	for _, k := range sortedObjs(t.bk.objs) {
		pre, at, file, ok := splitKey(k)
		if ok && pre == src.Namespace+"/"+src.Name && file == constants.DumpFilename && at.After(i.t) && !at.After(r.point) {
			w.violate("C18", "orphan-dump", "the restore of %s to %v fails because %s was left by a failed backup", r.c.Name, r.point.UTC(), k)
			return
		}
	}
	w.violate("C18", "calm-failure", "the restore of %s to %v does not succeed although nothing is wrong and backup %v covers it", r.c.Name, r.point.UTC(), i.t.UTC())
}
