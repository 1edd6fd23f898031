package sim

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	_ "unsafe" // for go:linkname

	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
)

// Replay is everything needed to repeat one execution.
type Replay struct {
	Prop      string   `json:"property"`
	Seed      uint64   `json:"seed"`
	Cfg       Config   `json:"config"`
	Faults    []Fault  `json:"faults"`
	Violation string   `json:"violation,omitempty"`
	Key       string   `json:"key,omitempty"`
	Hash      string   `json:"trace_hash,omitempty"`
	Trace     []string `json:"trace_tail,omitempty"`
}

// RunResult is the outcome of one simulated run.
type RunResult struct {
	Seed    uint64
	Cfg     Config
	Faults  []Fault
	Viol    []Violation
	Hash    uint64
	Steps   uint64
	SimTime time.Duration
	Probes  map[string]int
	FaultN  map[string]int
	Counts  map[string]int
	States  map[uint64]struct{}
	Pairs   map[uint64]struct{}
	Harness string
	Trace   []string
	Wall    time.Duration
}

// detRand replaces crypto/rand inside a run. It starts anew at every instant,
// so that what one reader gets does not depend on the readers before it.
type detRand struct {
	mu   sync.Mutex
	seed uint64
	at   int64
	r    *rand.Rand
}

func (d *detRand) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if now := time.Now().UnixNano(); d.r == nil || now != d.at {
		d.at = now
		d.r = rand.New(rand.NewSource(int64(mix(d.seed ^ mix(uint64(now))))))
	}
	return d.r.Read(p)
}

// The jitter of apimachinery's back-offs is a function of the instant: a shared
// stream would make it depend on the order of goroutines at one instant.
//
//go:linkname jitterRand k8s.io/apimachinery/pkg/util/wait.jitterRand
var jitterRand func() float64

// resetMetrics gives a new controller process its own metrics.
func resetMetrics() {
	curRegistry = prometheus.NewRegistry()
	metrics.Register(curRegistry)
}

var curRegistry *prometheus.Registry

// scenario is what one family of runs does after the world exists.
type scenario struct {
	config func(s *Sim, prop string) Config
	faults func(s *Sim, cfg Config) []Fault
	run    func(w *World)
}

var dumpOnly bool

var scenarios = map[string]scenario{}

func scenarioOf(prop string) scenario {
	if sc, ok := scenarios[prop]; ok {
		return sc
	}
	return scenario{config: w1Config, faults: func(s *Sim, cfg Config) []Fault { return genFaults(s, cfg, profiles[cfg.Prop]) }, run: w1Run}
}

// runOne executes one simulated run. If rp is nil, the configuration and the
// faults are drawn from the seed.
func runOne(t *testing.T, prop string, seed uint64, rp *Replay, trace bool) (res *RunResult) {
	res = &RunResult{Seed: seed}
	wall := time.Now()
	var s *Sim
	var w *World
	oldRand := crand.Reader
	defer func() {
		crand.Reader = oldRand
		curWorld = nil
		if w != nil && w.w3 != nil && w.w3.restoreEnv != nil {
			w.w3.restoreEnv()
		}
		r := recover()
		if s != nil {
			res.Hash = s.TraceHash()
			res.Steps = s.Steps
			res.Harness = s.HarnessErr
			res.Pairs = s.Pairs
			res.Trace = s.Trace
		}
		if w != nil {
			res.Viol = w.Viol
			res.Probes = w.Probes
			res.FaultN = w.Faults
			res.Counts = w.Counts
			res.States = w.States
		}
		if r != nil {
			msg := fmt.Sprint(r)
			if w == nil || !w.ended {
				panic(r)
			}
			if w.Counts == nil {
				w.Counts = map[string]int{}
			}
			w.Counts["leftover"]++
			if os.Getenv("SIM_LEFTOVER") != "" {
				fmt.Fprintf(os.Stderr, "seed %d: leftover goroutines: %s\n", seed, msg)
			}
		}
		res.Wall = time.Since(wall)
	}()
	synctest.Test(t, func(t *testing.T) {
		s = NewSim(seed)
		s.TraceOn = trace
		rand.Seed(int64(seed))
		crand.Reader = &detRand{seed: mix(seed + 77)}
		jitterRand = func() float64 {
			return float64(mix(mix(seed+78)^uint64(time.Now().UnixNano()))>>11) / (1 << 53)
		}
		resetMetrics()
		sc := scenarioOf(prop)
		var cfg Config
		var fs []Fault
		if rp != nil {
			cfg = rp.Cfg
			fs = append([]Fault(nil), rp.Faults...)
		} else {
			cfg = sc.config(s, prop)
			fs = sc.faults(s, cfg)
		}
		cfg.Prop = prop
		res.Cfg = cfg
		res.Faults = append([]Fault(nil), fs...)
		if dumpOnly {
			return
		}
		w = NewWorld(s, cfg, fs)
		sc.run(w)
		res.SimTime = s.Now()
		// tear down
		w.ended = true
		s.Stopped = false
		w.faultsOff = true
		if w.ctl != nil && w.ctl.inc != nil {
			s.settle()
			w.ctl.Crash(-1)
		}
		if w.w3 != nil {
			s.settle()
			w.w3.teardown()
		}
		s.MaxSteps = s.Steps + 200000
		hash, steps := s.traceHash, s.Steps
		s.Run(s.Now() + 3*time.Minute)
		s.traceHash, s.Steps = hash, steps
	})
	return res
}

var _ io.Reader = &detRand{}

func w1Config(s *Sim, prop string) Config {
	k := "cfg"
	cfg := Config{World: "w1", Prop: prop, NetLo: 200 * time.Microsecond, NetHi: 5 * time.Millisecond, Version: "8.0.36", Budget: true,
		WatchLag: s.Dur(k, time.Millisecond, 200*time.Millisecond), Writers: 2, Readers: 1,
		WriteGap: s.Dur(k, 200*time.Millisecond, 3*time.Second), EndpointsLag: s.Dur(k, 50*time.Millisecond, 3*time.Second),
		CloneLo: time.Second, CloneHi: 20 * time.Second, FaultStart: 60 * time.Second}
	cfg.Interval = []time.Duration{5 * time.Second, 10 * time.Second, 30 * time.Second, 60 * time.Second}[s.Intn(k, 4)]
	cfg.Replicas = []int{3, 3, 3, 3, 5}[s.Intn(k, 5)]
	if s.Chance(k, 0.15) {
		cfg.NetHi = 200 * time.Millisecond
	}
	if s.Chance(k, 0.3) {
		cfg.Version = "8.4.2"
	}
	cfg.KillReleases = s.Chance(k, 0.2)
	if s.Chance(k, 0.3) {
		cfg.MaxDelay = 10 + s.Intn(k, 50)
	}
	if s.Chance(k, 0.3) {
		cfg.MaxDelayPodDel = int64(10 + s.Intn(k, 50))
	}
	if s.Chance(k, 0.15) {
		cfg.CloneHi = 120 * time.Second
	}
	cfg.Settle = 6*cfg.Interval + 300*time.Second
	if s.Chance(k, 0.15) || prop == "C11" && s.Chance(k, 0.3) {
		cfg.FaultStart = 3 * time.Second // faults hit the bootstrap, too
	}
	cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 200*time.Second, 900*time.Second)
	switch prop {
	case "C05":
		cfg.Replicas = []int{1, 3, 3, 3, 3, 5, 5}[s.Intn(k, 7)]
		cfg.Budget = s.Chance(k, 0.3)
		cfg.External = s.Chance(k, 0.15)
		cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 400*time.Second, 1500*time.Second)
		cfg.Extra = map[string]string{"hold": "1"}
	case "C03":
		cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 400*time.Second, 1200*time.Second)
		cfg.Budget = s.Chance(k, 0.5)
		cfg.Replicas = []int{3, 3, 5}[s.Intn(k, 3)]
		cfg.Extra = map[string]string{"hold": "1"}
	case "C06":
		cfg.Replicas = []int{1, 3, 3, 3, 3, 5}[s.Intn(k, 6)]
		cfg.External = s.Chance(k, 0.1)
		cfg.Budget = s.Chance(k, 0.7)
	case "C07", "C02":
		cfg.Budget = s.Chance(k, 0.6)
	case "C08":
		cfg.Budget = s.Chance(k, 0.5)
		cfg.Readers = 2
		cfg.Extra = map[string]string{"hold": "1"}
	case "C04":
		cfg.MaxDelayPodDel = int64([]int{0, 10, 20, 60}[s.Intn(k, 4)])
	case "C09":
		cfg.MaxDelayPodDel = int64([]int{0, 5, 10, 20, 60, 5, 10, 20}[s.Intn(k, 8)])
		cfg.FaultEnd = cfg.FaultStart + s.Dur(k, 600*time.Second, 1500*time.Second)
		cfg.Extra = map[string]string{"hold": "1"}
	case "C11":
		cfg.External = true
		cfg.Replicas = []int{1, 3, 3, 3, 5}[s.Intn(k, 5)]
		if s.Chance(k, 0.8) {
			cfg.PromoteAt = s.Dur(k, 150*time.Second, cfg.FaultEnd)
		}
	}
	if cfg.External {
		cfg.WriteGap = s.Dur(k, 20*time.Millisecond, 2*time.Second)
		if prop != "C11" && s.Chance(k, 0.5) {
			cfg.PromoteAt = s.Dur(k, 150*time.Second, cfg.FaultEnd)
		}
	}
	if prop == "C09" {
		cfg.WriteGap = s.Dur(k, 700*time.Millisecond, 3*time.Second) // the runs are long
	}
	return cfg
}

func w1Run(w *World) {
	s, cfg := w.S, w.Cfg
	w.setupW1()
	s.Every(time.Second, func() bool {
		if w.ended {
			return false
		}
		w.orc.tick()
		return true
	})
	w.armFaults()
	w.operator()
	s.Run(cfg.FaultEnd)
	if s.Stopped {
		return
	}
	if cfg.Extra["hold"] == "1" {
		// let the last faults persist until the state has been judged
		w.armed = nil
		s.Run(cfg.FaultEnd + 2*cfg.Interval + 240*time.Second)
		if s.Stopped {
			return
		}
	}
	w.heal()
	w.converge()
}

// converge waits for the cluster to be repaired and judges the end state.
func (w *World) converge() {
	s, cfg := w.S, w.Cfg
	healed := s.Now()
	okFor := 0
	why := ""
	for !s.Stopped {
		s.Run(s.Now() + 5*time.Second)
		if s.Stopped {
			return
		}
		why = ""
		for _, c := range w.clusters {
			if r := w.orc.convergedNow(c); r != "" {
				why = c.Name + ": " + r
			}
		}
		if why == "" {
			okFor++
			if okFor >= 3 {
				break
			}
			continue
		}
		okFor = 0
		base := healed
		if w.opAt > base {
			base = w.opAt
		}
		if w.promoteAt > base {
			base = w.promoteAt
		}
		for _, c := range w.clusters {
			if x := w.orc.cl(c); x.slowClone > base {
				base = x.slowClone
			}
		}
		if s.Now()-base > cfg.Settle+cfg.CloneHi {
			if w.deadEnd() {
				w.count("dead_end")
				return
			}
			key := "not-repaired"
			for _, c := range w.clusters {
				p := w.primary(c)
				if w.promoteDone && p != nil && p.Up && p.ReadOnly && p.SQL != "Yes" && len(p.Disk.Relay) > 0 {
					key = "promote-stuck-relay" // restarted, and nobody starts its SQL thread
				}
			}
			w.violate("C06", key, "%v after the last fault: %s", s.Now()-base, why)
			return
		}
	}
	if s.Stopped {
		return
	}
	w.count("converged")
	w.S.Logf("converged after %v", s.Now()-healed)
	for _, c := range w.clusters {
		cl := w.cluster(c)
		p := w.primary(c)
		if cl != nil && p != nil && cl.Spec.ReplicationSourceSecretName == nil && cfg.Budget && c.N >= 3 {
			w.orc.checkAcked(p, w.orc.cl(c), "at the end")
		}
	}
	if cfg.Extra["hold"] == "1" {
		s.Run(s.Now() + 2*cfg.Interval + 240*time.Second)
	}
}

// deadEnd tells whether the faults destroyed the data of the recorded primary
// while no majority of configured replicas has data: the documented "Lost"
// state, from which no recovery is promised.
func (w *World) deadEnd() bool {
	for _, c := range w.clusters {
		cl := w.cluster(c)
		if cl == nil {
			continue
		}
		_, t := w.orc.fingerprint(c, cl)
		p := w.primary(c)
		if t.state == "Lost" && p != nil && p.Disk != nil && p.Disk.Executed.Empty() {
			return true
		}
		// more than a minority was lost, and with it acknowledged writes
		if !w.Cfg.Budget && p != nil && p.Disk != nil && !w.orc.cl(c).acked.Minus(p.Disk.Executed).Empty() {
			return true
		}
	}
	return false
}

func marshalReplay(r *RunResult, prop string, v *Violation, tail int) []byte {
	rp := Replay{Prop: prop, Seed: r.Seed, Cfg: r.Cfg, Faults: r.Faults, Hash: fmt.Sprintf("%016x", r.Hash)}
	if v != nil {
		rp.Violation, rp.Key = v.What, v.Key
	}
	if tail > 0 {
		tr := r.Trace
		if len(tr) > tail {
			tr = tr[len(tr)-tail:]
		}
		rp.Trace = tr
	}
	b, _ := json.MarshalIndent(rp, "", " ")
	return b
}
