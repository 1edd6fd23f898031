package sim

import (
	"sync/atomic"
	"time"

	"github.com/cybozu-go/moco/clustering"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// Controller is one simulated moco-controller process and its successors.
type Controller struct {
	w       *World
	inc     *Incarnation
	cache   *Cache
	mgr     *simManager
	CM      clustering.ClusterManager
	upSince time.Duration
	incs    map[int]*Incarnation
	stopFns []func()
	setup   func(c *Controller) // world specific
	drain   func() bool         // the stopped controllers have returned
	Crashes int
}

func (w *World) incByID(n int) *Incarnation {
	if w.ctl == nil {
		return nil
	}
	return w.ctl.incs[n]
}

// Start boots a controller process.
func (c *Controller) Start() {
	w := c.w
	resetMetrics()
	w.incSeq++
	inc := w.S.NewIncarnation(w.incSeq)
	c.inc = inc
	if c.incs == nil {
		c.incs = map[int]*Incarnation{}
	}
	c.incs[inc.ID] = inc
	c.cache = newCache(w, inc)
	cl := &SimClient{w: w, inc: inc, cache: c.cache, who: "ctl"}
	api := &SimClient{w: w, inc: inc, who: "ctl"}
	c.mgr = &simManager{w: w, inc: inc, cl: cl, api: api}
	r := &simResolver{w, inc, cl}
	c.CM = clustering.NewClusterManager(w.Cfg.Interval, c.mgr, dbop.NewFactory(r), &simAgentFactory{w, inc, r}, logr.Discard())
	c.upSince = w.S.Now()
	w.S.Logf("ctl start inc=%d", inc.ID)
	c.setup(c)
}

// Crash kills the process; a successor takes over after d.
func (c *Controller) Crash(d time.Duration) {
	if c.inc == nil || c.inc.Dead() {
		return
	}
	w := c.w
	w.S.Logf("ctl crash inc=%d", c.inc.ID)
	c.Crashes++
	w.S.KillIncarnation(c.inc)
	c.cache.close()
	cm := c.CM
	inc := c.inc
	drained := &atomic.Bool{}
	fns := c.stopFns
	c.stopFns = nil
	drain := c.drain
	c.drain = nil
	w.S.Defer(func() {
		for _, f := range fns {
			f()
		}
		go func() {
			cm.StopAll()
			drained.Store(true)
		}()
	})
	// connections of the dead process are reset
	for _, id := range w.connIDs() {
		wc := w.conns[id]
		if wc.inc == inc {
			w.S.Defer(func() { wc.cli.Close() })
		}
	}
	c.inc = nil
	if d < 0 {
		return
	}
	// The metrics are global variables: the remains of the dead process must
	// be gone before its successor starts.
	giveUp := w.S.Now() + d + 2*time.Minute
	var again func()
	again = func() {
		if c.inc != nil || w.ended {
			return
		}
		if (!drained.Load() || drain != nil && !drain()) && w.S.Now() < giveUp {
			w.S.After(100*time.Millisecond, again)
			return
		}
		c.Start()
	}
	w.S.After(d, again)
}

func (w *World) connIDs() []uint64 {
	var ids []uint64
	for id := range w.conns {
		ids = append(ids, id)
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j-1] > ids[j]; j-- {
			ids[j-1], ids[j] = ids[j], ids[j-1]
		}
	}
	return ids
}

// w1Setup wires the real cluster manager: what the reconciler and the pod
// watcher would call.
func w1Setup(c *Controller) {
	w := c.w
	inc := c.inc
	cm := c.CM
	for _, cl := range w.clusters {
		name := cl.NamespacedName
		cm.Update(name, "start")
	}
	c.cache.handlers[podGVK] = append(c.cache.handlers[podGVK], func(old, cur client.Object) {
		if cur == nil || inc.Dead() {
			return
		}
		if cur.GetDeletionTimestamp() == nil && cur.GetAnnotations()[constants.AnnDemote] != "true" {
			return
		}
		cm.UpdateNoStart(types.NamespacedName{Namespace: cur.GetNamespace(), Name: cur.GetLabels()[constants.LabelAppInstance]}, "pod")
	})
	c.cache.handlers[clusterGVK] = append(c.cache.handlers[clusterGVK], func(old, cur client.Object) {
		if cur == nil || inc.Dead() {
			return
		}
		if old == nil || old.GetGeneration() != cur.GetGeneration() {
			cm.Update(client.ObjectKeyFromObject(cur), "spec")
		}
	})
}
