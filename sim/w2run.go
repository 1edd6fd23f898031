package sim

import "time"

var w2StepClasses = []string{"", "", "", "api_apply_StatefulSet", "api_patch_StatefulSet", "api_delete_StatefulSet", "api_apply_ConfigMap", "api_delete_ConfigMap",
	"api_create_Secret", "api_apply_Secret", "api_delete_Secret", "api_delete_Certificate", "api_create_Certificate", "api_patch_PersistentVolumeClaim", "api_update_PersistentVolumeClaim",
	"api_apply_Service", "api_apply_CronJob", "api_apply_PodDisruptionBudget", "api_delete_PodDisruptionBudget", "api_updatestatus_MySQLCluster", "api_update_MySQLCluster", "api_patch_Pod", "sql_open", "sql_change",
	"api_apply_Job", "api_apply_Role", "api_apply_RoleBinding", "api_apply_ServiceAccount"}

var w2Common = []weight{{"api_err", 5}, {"api_down", 2}, {"api_slow", 2}, {"cache_stall", 4}, {"ctl_crash", 6}, {"inst_crash", 2}, {"pod_delete", 2}, {"sts_freeze", 2}}

func w2Profile(own ...weight) profile {
	return profile{weights: append(append([]weight(nil), w2Common...), own...), min: 3, max: 14, stepP: 0.4, burstP: 0.6, longP: 0.3, primP: 0.4, combos: []string{"edit"}, comboN: 4}
}

var w2Users = []weight{{"u_image", 3}, {"u_tmpl", 3}, {"u_scale", 2}, {"u_conf", 4}, {"u_confname", 4}, {"u_confrm", 2}, {"u_backup", 4}, {"u_policy", 4},
	{"u_size", 2}, {"u_pvcmeta", 1}, {"u_offline", 1}, {"u_stopr", 1}, {"u_force", 1}, {"u_slow", 3}, {"u_slowtmpl", 3}, {"u_coll", 2}, {"u_svc", 4}, {"u_misc", 2}}

func init() {
	add := func(p string, pr profile) {
		profiles[p] = pr
		scenarios[p] = scenario{config: w2Config, faults: w2Faults, run: w2Run}
	}
	pause := func(p profile) profile {
		p.combos = []string{"pause", "pause", "edit"}
		return p
	}
	add("C10", pause(w2Profile(weight{"u_offline", 6}, weight{"u_stopc", 10}, weight{"u_stopr", 8}, weight{"u_image", 3}, weight{"u_conf", 2}, weight{"u_confname", 2}, weight{"u_confrm", 2},
		weight{"inst_down", 4}, weight{"demote", 3}, weight{"h_delchild", 2}, weight{"h_modchild", 3}, weight{"lag", 2}, weight{"u_scale", 1})))
	c12 := w2Profile(append(append([]weight(nil), w2Users...), weight{"h_delchild", 8}, weight{"h_modchild", 8}, weight{"cert_rot", 3}, weight{"cron_active", 3}, weight{"h_restart", 1})...)
	c12.combos = []string{"edit", "edit", "hold"}
	add("C12", c12)
	add("C13", w2Profile(weight{"u_image", 3}, weight{"u_scale", 3}, weight{"h_delchild", 12}, weight{"h_modchild", 12}, weight{"cert_rot", 2}, weight{"c_delete", 2}, weight{"wipe", 3}, weight{"u_misc", 1}))
	add("C14", w2Profile(weight{"u_image", 12}, weight{"u_tmpl", 8}, weight{"u_conf", 4}, weight{"u_confname", 4}, weight{"h_restart", 4}, weight{"u_force", 2}, weight{"part_ctl", 5},
		weight{"u_scale", 2}, weight{"lag", 3}, weight{"inst_down", 3}, weight{"u_size", 1}))
	add("C15", w2Profile(weight{"u_size", 16}, weight{"u_pvcmeta", 5}, weight{"u_image", 4}, weight{"u_tmpl", 2}, weight{"u_scale", 4}, weight{"u_offline", 2}, weight{"u_force", 1}, weight{"u_stopr", 1}))
	add("C16", w2Profile(weight{"c_delete", 12}, weight{"u_stopc", 2}, weight{"u_stopr", 2}, weight{"u_offline", 1}, weight{"u_image", 3}, weight{"u_slow", 2}, weight{"inst_down", 2}, weight{"u_size", 3},
		weight{"h_delchild", 2}))
	add("C17", w2Profile(weight{"u_conf", 12}, weight{"u_confname", 12}, weight{"u_slow", 6}, weight{"u_slowtmpl", 6}, weight{"u_image", 3}, weight{"u_confrm", 2}, weight{"u_force", 1}, weight{"h_delchild", 3},
		weight{"u_misc", 1}, weight{"part_ctl", 2}))
}

// w2Faults adds to the common generator a failure during the first reconciliation.
func w2Faults(s *Sim, cfg Config) []Fault {
	fs := genFaults(s, cfg, profiles[cfg.Prop])
	if cfg.FaultStart < 30*time.Second && s.Chance("boot", 0.7) {
		k := []string{"ctl_crash", "ctl_crash", "api_err"}[s.Intn("boot", 3)]
		fs = append([]Fault{{At: cfg.FaultStart, Kind: k, Target: -1, Dur: s.logDur("boot", 500*time.Millisecond, 20*time.Second),
			Arg: s.Intn("boot", 1000), S: "api_*", Steps: 1 + s.Intn("boot", 30)}}, fs...)
	}
	return fs
}

func w2Run(w *World) {
	s, cfg := w.S, w.Cfg
	w.setupW2()
	x := w.w2
	s.Every(time.Second, func() bool {
		if w.ended {
			return false
		}
		w.orc.tick()
		x.o.tick()
		return true
	})
	w.armFaults()
	w.operator()
	s.Run(cfg.FaultEnd)
	if s.Stopped {
		return
	}
	w.heal()
	healed := s.Now()
	if !x.settle(healed) {
		return
	}
	w.count("converged")
	s.Logf("finished after %v", s.Now()-healed)
	// a while in peace
	s.Run(s.Now() + 100*time.Second)
	if s.Stopped {
		return
	}
	final := func() {
		for _, c := range w.clusters {
			if cl := w.cluster(c); cl != nil {
				x.absolute(c, cl)
			}
		}
	}
	x.judge(true, final)
	if s.Stopped {
		return
	}
	if w.Prop == "C12" || w.StopOnAny {
		x.compare(refNSs[0], true)
		if s.Stopped {
			return
		}
	}
	if (w.Prop == "C12" || w.Prop == "C13") && s.Chance("poke", 0.6) {
		// one thing changes while nothing else happens
		k := []string{"h_delchild", "h_delchild", "h_delchild", "h_modchild", "h_modchild", "cert_rot", "u_policy", "u_conf"}[s.Intn("poke", 8)]
		if w.Prop == "C13" {
			k = []string{"h_delchild", "h_modchild"}[s.Intn("poke", 2)]
		}
		f := &Fault{Kind: k, Arg: s.Intn("poke", 1000)}
		s.Logf("poke %s %d", f.Kind, f.Arg)
		x.fire(f, func() { w.count("poke_" + f.Kind) })
		s.Run(s.Now() + 90*time.Second)
		if s.Stopped || !x.settle(s.Now()) {
			return
		}
		x.judge(false, final)
		if s.Stopped {
			return
		}
		if w.Prop == "C12" {
			x.compare(refNSs[1], false)
			if s.Stopped {
				return
			}
		}
	}
	if w.Prop == "C12" || w.StopOnAny {
		// a new controller process finds nothing to do
		x.o.lastCtl = never
		if w.ctl.inc != nil {
			w.ctl.Crash(time.Second)
		}
		s.Run(s.Now() + 120*time.Second)
		if !s.Stopped && x.o.lastCtl != never {
			w.violate("C12", "restless", "a restarted controller changed %s although the specification was met", x.o.lastCtlK)
		}
	}
}

// settle waits until what was asked for has been done.
func (x *w2World) settle(healed time.Duration) bool {
	w, s, cfg := x.w, x.w.S, x.w.Cfg
	why, prop := "", ""
	okFor := 0
	for {
		s.Run(s.Now() + 5*time.Second)
		if s.Stopped {
			return false
		}
		why, prop = x.unfinished()
		if why == "" {
			okFor++
			if okFor >= 3 {
				break
			}
			continue
		}
		okFor = 0
		base := healed
		for _, t := range []time.Duration{w.opAt, x.touchedAt} {
			if t > base {
				base = t
			}
		}
		n := 0
		for _, c := range w.clusters {
			n += c.N
		}
		if s.Now()-base > cfg.Settle+time.Duration(n)*200*time.Second {
			s.Logf("not finished: %s", why)
			if prop == w.Prop || w.StopOnAny {
				w.violate(prop, "unfinished", "%v after the last fault or change: %s", s.Now()-base, why)
			}
			w.count("unfinished_" + prop)
			return false
		}
	}
	return true
}
