package sim

import (
	"context"
	"errors"
	"fmt"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/password"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/types"
)

// simAgentFactory connects to the simulated moco-agents.
type simAgentFactory struct {
	w   *World
	inc *Incarnation
	r   *simResolver
}

func (f *simAgentFactory) New(ctx context.Context, cluster *mocov1beta2.MySQLCluster, index int) (clustering.AgentConn, error) {
	ctx, cancel := context.WithTimeout(ctx, 5*time.Second)
	defer cancel()
	ip, err := f.r.Resolve(ctx, cluster, index)
	if err != nil {
		return nil, err
	}
	return &simAgent{f.w, f.inc, ip}, nil
}

type simAgent struct {
	w   *World
	inc *Incarnation
	ip  string
}

func (a *simAgent) Close() error { return nil }

func (a *simAgent) Clone(ctx context.Context, in *agent.CloneRequest, opts ...grpc.CallOption) (*agent.CloneResponse, error) {
	w := a.w
	_, err := w.S.Call(ctx, a.inc, "agent/clone/"+a.ip, func(r *request) {
		m := w.instByIP(a.ip)
		if m == nil {
			w.S.After(3*time.Second, func() { w.S.Reply(r, error(status.Error(codes.Unavailable, "no such host"))) })
			return
		}
		w.S.After(2*w.netLat("ctl", m.Node), func() {
			if !w.both("ctl", m.Node) {
				// the connection attempt fails after a while
				w.S.After(20*time.Second, func() { w.S.Reply(r, error(status.Error(codes.Unavailable, "connection timed out"))) })
				return
			}
			if !m.Up {
				w.S.Reply(r, error(status.Error(codes.Unavailable, "connection refused")))
				return
			}
			w.cloneRequest(m, in, func(err error) {
				var back func()
				back = func() {
					if !w.Link(m.Node, "ctl") {
						w.S.After(time.Second, back)
						return
					}
					if err != nil {
						w.S.Reply(r, err)
					} else {
						w.S.Reply(r, true)
					}
				}
				w.S.After(w.netLat(m.Node, "ctl"), back)
			})
			w.S.After(0, func() { w.step("clone") })
		})
	})
	if err != nil {
		if errors.Is(err, ErrDead) || status.Code(err) != codes.Unknown {
			return nil, err
		}
		return nil, status.Error(codes.Internal, err.Error())
	}
	return &agent.CloneResponse{}, nil
}

// cloneRequest is moco-agent's Clone.
func (w *World) cloneRequest(m *Mysqld, in *agent.CloneRequest, done func(error)) {
	w.S.Logf("agent clone %s from %s:%d user=%s", m.Name, in.Host, in.Port, in.User)
	w.count("clone_request")
	w.orc.cloneRequest(m, in)
	if m.cloneRun {
		done(status.Error(codes.ResourceExhausted, "another request is under processing"))
		return
	}
	if !m.Disk.Executed.Empty() {
		w.probe("clone_refused_nonempty")
		done(status.Error(codes.FailedPrecondition, "recipient is not empty"))
		return
	}
	var donor *Mysqld
	if d := w.insts[in.Host]; d != nil {
		donor = d
	} else {
		donor = w.instByIP(in.Host)
		if donor == nil {
			donor = w.resolveHost(in.Host, 3306)
		}
	}
	m.cloneRun = true
	gen := m.Gen
	disk := m.Disk
	fail := func(why string) {
		w.S.Logf("agent clonefail %s %s", m.Name, why)
		m.cloneRun = false
		if m.Disk == disk {
			disk.Clone = "Failed"
		}
		done(status.Error(codes.Internal, "failed to invoke CLONE: "+why))
	}
	if donor == nil || !donor.Up || donor == m {
		w.S.After(500*time.Millisecond, func() { fail("cannot connect to donor") })
		return
	}
	if !w.both(m.Node, donor.Node) {
		w.S.After(10*time.Second, func() { fail("cannot connect to donor") })
		return
	}
	pw, ok := donor.Disk.Users[in.User]
	if !ok || pw != in.Password {
		w.S.After(100*time.Millisecond, func() { fail("donor access denied") })
		return
	}
	disk.Clone = "In Progress"
	dgen := donor.Gen
	total := w.S.Dur("clone", w.Cfg.CloneLo, w.Cfg.CloneHi)
	end := w.S.Now() + total
	var tick func()
	tick = func() {
		if m.Gen != gen || m.Disk != disk {
			disk.Clone = "Failed"
			done(status.Error(codes.Unavailable, "transport is closing"))
			return
		}
		if donor.Gen != dgen || !donor.Up || !w.both(m.Node, donor.Node) {
			w.probe("clone_interrupted")
			fail("lost connection to donor")
			return
		}
		if w.orc.failClone(m) {
			fail("injected")
			return
		}
		if w.S.Now() < end {
			w.S.After(500*time.Millisecond, tick)
			return
		}
		// data is complete; the server restarts on it
		snap := donor.Disk.Executed.Clone()
		disk.Executed = snap
		disk.Purged = snap.Clone()
		disk.Binlog = nil
		disk.Files, disk.BinBase = nil, 0
		disk.Missing, disk.Partial, disk.Loaded = donor.Disk.Missing.Clone(), donor.Disk.Partial, donor.Disk.Loaded
		disk.Relay = nil
		disk.Retrieved = GTIDSet{}
		disk.Source = nil
		disk.Users = map[string]string{}
		for k, v := range donor.Disk.Users {
			disk.Users[k] = v
		}
		disk.Clone = "Completed"
		disk.DataFrom = donor.Name
		w.count("clone_done")
		w.orc.cloned(m, donor)
		m.Down("clone restart")
		gen2, pod := m.Gen, w.kl.byInst[m.Name]
		w.S.After(w.S.Dur("clonerestart", time.Second, 4*time.Second), func() {
			if m.Gen != gen2 || m.Up || m.Disk != disk || pod == nil || w.kl.byInst[m.Name] != pod {
				done(status.Error(codes.Unavailable, "transport is closing"))
				return
			}
			if u := w.kl.hold[m.Name]; u > w.S.Now() {
				done(status.Error(codes.Unavailable, "transport is closing"))
				w.kl.crash(m, "hold")
				if kp := w.kl.byInst[m.Name]; kp != nil {
					w.kl.boot(kp)
				}
				return
			}
			m.Start()
			w.orc.started(m)
			// initialise users with the init user
			if p, ok := disk.Users[in.InitUser]; !ok || p != in.InitPassword {
				done(status.Error(codes.Internal, "failed to log in as the init user"))
				return
			}
			o := w.Store.Peek(objKey{secretGVK, types.NamespacedName{Namespace: m.Cluster.Namespace, Name: "moco-" + m.Cluster.Name}})
			if o != nil {
				sec := o.(*corev1.Secret)
				if pw, err := password.NewMySQLPasswordFromSecret(sec); err == nil {
					for u, p := range mocoUsers(pw, sec) {
						disk.Users[u] = p
					}
				}
			}
			done(nil)
		})
	}
	w.S.After(500*time.Millisecond, tick)
}

// simResolver is the controller's Pod address lookup (cmd/moco-controller).
type simResolver struct {
	w   *World
	inc *Incarnation
	api *SimClient
}

func (r *simResolver) Resolve(ctx context.Context, cluster *mocov1beta2.MySQLCluster, index int) (string, error) {
	pod := &corev1.Pod{}
	if err := r.api.Get(ctx, types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.PodName(index)}, pod); err != nil {
		return "", err
	}
	if pod.Status.PodIP == "" {
		return "", fmt.Errorf("pod %s/%s has not been assigned an IP address", pod.Namespace, pod.Name)
	}
	var a, b, c, d int
	if _, err := fmt.Sscanf(pod.Status.PodIP, "%d.%d.%d.%d", &a, &b, &c, &d); err != nil {
		return "", err
	}
	return fmt.Sprintf("%d.%d.%d.%d", a, r.inc.ID%250, c, d), nil
}

var _ = constants.AdminUser
