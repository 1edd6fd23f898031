package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type vOut struct {
	Replay
	Viol []Violation `json:"violations"`
}

type outcome struct {
	Prop    string
	Runs    int
	Steps   uint64
	SimSec  float64
	WallSec float64
	First   uint64
	Last    uint64
	Probes  map[string]int
	Faults  map[string]int
	Counts  map[string]int
	States  []string
	Pairs   []string
	Viol    []vOut
	Harness []string
	Others  map[string]int
	OtherEx map[string]uint64
	Digest  string
	Hashes  []string // trace hashes of the non-trivial runs
	Trivial int
	Sample  []Replay
}

// nontrivial: at least one fault was injected and moco acted on the world at
// least ten times.
func nontrivial(r *RunResult) bool {
	n := 0
	for _, v := range r.FaultN {
		n += v
	}
	return n > 0 && r.Counts["ctl_step"] >= 10
}

// TestWorker explores seeds, or replays one execution.
func TestWorker(t *testing.T) {
	mode := env("SIM_MODE", "")
	if mode == "" {
		t.Skip("not a worker")
	}
	prop := env("SIM_PROP", "C01")
	out := env("SIM_OUT", "/dev/stdout")
	switch mode {
	case "explore":
		seed, _ := strconv.ParseUint(env("SIM_SEED", "1"), 10, 64)
		stride, _ := strconv.ParseUint(env("SIM_STRIDE", "1"), 10, 64)
		secs, _ := strconv.ParseFloat(env("SIM_SECONDS", "10"), 64)
		maxRuns, _ := strconv.Atoi(env("SIM_RUNS", "1000000000"))
		maxViol, _ := strconv.Atoi(env("SIM_MAXVIOL", "3"))
		o := outcome{Prop: prop, First: seed, Probes: map[string]int{}, Faults: map[string]int{}, Counts: map[string]int{}, Others: map[string]int{}, OtherEx: map[string]uint64{}}
		states := map[uint64]struct{}{}
		pairs := map[uint64]struct{}{}
		known := map[string]bool{}
		_ = json.Unmarshal([]byte(env("SIM_KNOWN", "{}")), &known)
		var digest uint64
		start := time.Now()
		for o.Runs < maxRuns && time.Since(start).Seconds() < secs {
			if out != "/dev/stdout" {
				_ = os.WriteFile(out+".cur", []byte(fmt.Sprint(seed)), 0o644)
			}
			r := runOne(t, prop, seed, nil, false)
			o.Runs++
			o.Last = seed
			o.Steps += r.Steps
			o.SimSec += r.SimTime.Seconds()
			digest = mix(digest ^ r.Hash)
			if os.Getenv("SIM_VERBOSE") != "" {
				fmt.Printf("seed %d hash %016x steps %d sim %v wall %v viol %v harness %s\n", seed, r.Hash, r.Steps, r.SimTime, r.Wall, r.Viol, r.Harness)
			}
			for k, v := range r.Probes {
				o.Probes[k] += v
			}
			for k, v := range r.FaultN {
				o.Faults[k] += v
			}
			for k, v := range r.Counts {
				o.Counts[k] += v
			}
			for k := range r.States {
				states[k] = struct{}{}
			}
			for k := range r.Pairs {
				pairs[k] = struct{}{}
			}
			if nontrivial(r) {
				o.Hashes = append(o.Hashes, strconv.FormatUint(r.Hash, 36))
				if len(o.Sample) < 1 {
					var rp Replay
					_ = json.Unmarshal(marshalReplay(r, prop, nil, 0), &rp)
					o.Sample = append(o.Sample, rp)
				}
			} else {
				o.Trivial++
			}
			if r.Harness != "" {
				o.Harness = append(o.Harness, fmt.Sprintf("seed %d: %s", seed, r.Harness))
			}
			for i := range r.Viol {
				v := &r.Viol[i]
				if v.Prop != prop {
					o.Others[v.Prop+"/"+v.Key]++
					o.OtherEx[v.Prop+"/"+v.Key] = seed
					continue
				}
				x := vOut{Viol: r.Viol}
				_ = json.Unmarshal(marshalReplay(r, prop, v, 0), &x.Replay)
				if known[v.Key] {
					o.Counts["known_"+v.Key]++
					if o.Counts["known_"+v.Key] > 1 {
						continue
					}
				}
				o.Viol = append(o.Viol, x)
			}
			seed += stride
			nv := 0
			for _, v := range o.Viol {
				if !known[v.Key] {
					nv++
				}
			}
			if nv >= maxViol || len(o.Harness) > 3 {
				break
			}
		}
		o.WallSec = time.Since(start).Seconds()
		o.Digest = fmt.Sprintf("%016x", digest)
		for k := range states {
			o.States = append(o.States, strconv.FormatUint(k, 36))
		}
		for k := range pairs {
			o.Pairs = append(o.Pairs, strconv.FormatUint(k, 36))
		}
		sort.Strings(o.States)
		sort.Strings(o.Pairs)
		b, _ := json.Marshal(o)
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	case "replay":
		b, err := os.ReadFile(os.Getenv("SIM_REPLAY"))
		if err != nil {
			t.Fatal(err)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			t.Fatal(err)
		}
		tr := os.Getenv("SIM_TRACE")
		r := runOne(t, rp.Prop, rp.Seed, &rp, tr != "")
		var v *Violation
		for i := range r.Viol {
			if r.Viol[i].Prop == rp.Prop {
				v = &r.Viol[i]
				if v.Key == rp.Key || rp.Key == "" {
					break
				}
			}
		}
		if tr != "" && tr != "tail" {
			f, _ := os.Create(tr)
			for _, l := range r.Trace {
				fmt.Fprintln(f, l)
			}
			f.Close()
		}
		tail := 0
		if tr == "tail" {
			tail = 400
		}
		x := vOut{Viol: r.Viol}
		_ = json.Unmarshal(marshalReplay(r, rp.Prop, v, tail), &x.Replay)
		m := struct {
			vOut
			Harness string
			Steps   uint64
			SimSec  float64
		}{x, r.Harness, r.Steps, r.SimTime.Seconds()}
		b, _ = json.Marshal(m)
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	case "dump": // only the configuration and the faults of a seed
		seed, _ := strconv.ParseUint(env("SIM_SEED", "1"), 10, 64)
		dumpOnly = true
		r := runOne(t, prop, seed, nil, false)
		if err := os.WriteFile(out, marshalReplay(r, prop, nil, 0), 0o644); err != nil {
			t.Fatal(err)
		}
	case "seed": // run one seed with a trace, for debugging
		seed, _ := strconv.ParseUint(env("SIM_SEED", "1"), 10, 64)
		r := runOne(t, prop, seed, nil, true)
		f, _ := os.Create(env("SIM_TRACE", "/tmp/trace.txt"))
		cj, _ := json.Marshal(r.Cfg)
		fmt.Fprintln(f, string(cj))
		for _, x := range r.Faults {
			fj, _ := json.Marshal(x)
			fmt.Fprintln(f, string(fj))
		}
		for _, l := range r.Trace {
			fmt.Fprintln(f, l)
		}
		f.Close()
		fmt.Printf("seed %d hash %016x steps %d sim %v wall %v harness %q\n", seed, r.Hash, r.Steps, r.SimTime, r.Wall, r.Harness)
		for _, v := range r.Viol {
			fmt.Printf("  %v %s/%s %s\n", v.At, v.Prop, v.Key, v.What)
		}
		fmt.Println(r.Counts, r.FaultN, r.Probes)
	}
}
