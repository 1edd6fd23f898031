package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/go-logr/logr"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/runtime/serializer"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	clitesting "k8s.io/client-go/testing"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	crlog "sigs.k8s.io/controller-runtime/pkg/log"
	"sigs.k8s.io/controller-runtime/pkg/manager"

	"k8s.io/client-go/tools/record"
)

var simScheme = runtime.NewScheme()

func init() {
	_ = clientgoscheme.AddToScheme(simScheme)
	_ = mocov1beta2.AddToScheme(simScheme)
	simScheme.AddKnownTypeWithName(certGVK, &unstructured.Unstructured{})
	simScheme.AddKnownTypeWithName(certGVK.GroupVersion().WithKind("CertificateList"), &unstructured.UnstructuredList{})
	metav1.AddToGroupVersion(simScheme, certGVK.GroupVersion())
	crlog.SetLogger(logr.Discard())
}

type objKey struct {
	GVK schema.GroupVersionKind
	types.NamespacedName
}

func (k objKey) String() string { return k.GVK.Kind + "/" + k.Namespace + "/" + k.Name }

// Store is the simulated API server's state: the fake client (with server-side
// apply and managed fields) plus UIDs, generations, graceful deletion, watch
// streams and owner garbage collection.
type Store struct {
	W       *World
	C       client.Client
	mem     *memClient
	uidSeq  int
	watches []*Cache
	objs    map[objKey]client.Object
	hooks   []func(k objKey, old, cur client.Object, who string)
	admit   func(op string, old, obj client.Object) error // defaulting/validating webhooks run by the API server
	kinds   map[schema.GroupVersionKind]bool
}

func newStore(w *World) *Store {
	st := &Store{W: w, objs: map[objKey]client.Object{}, kinds: map[schema.GroupVersionKind]bool{}}
	if w.Cfg.World != "w1" {
		st.mem = newMemClient(st)
		st.C = st.mem
		return st
	}
	b := fake.NewClientBuilder().WithScheme(simScheme).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{})
	// no server-side apply: plain objects are enough
	b = b.WithObjectTracker(clitesting.NewObjectTracker(simScheme, serializer.NewCodecFactory(simScheme).UniversalDecoder()))
	st.C = b.Build()
	return st
}

func gvkOf(obj runtime.Object) schema.GroupVersionKind {
	if u, ok := obj.(interface {
		GroupVersionKind() schema.GroupVersionKind
	}); ok {
		if g := u.GroupVersionKind(); g.Kind != "" {
			return g
		}
	}
	gvks, _, err := simScheme.ObjectKinds(obj)
	if err != nil || len(gvks) == 0 {
		return obj.GetObjectKind().GroupVersionKind()
	}
	return gvks[0]
}

func keyOf(obj client.Object) objKey {
	return objKey{gvkOf(obj), client.ObjectKeyFromObject(obj)}
}

func newOf(gvk schema.GroupVersionKind) client.Object {
	o, err := simScheme.New(gvk)
	if err != nil {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(gvk)
		return u
	}
	if _, ok := o.(*unstructured.Unstructured); ok {
		u := &unstructured.Unstructured{}
		u.SetGroupVersionKind(gvk)
		return u
	}
	return o.(client.Object)
}

func (st *Store) read(k objKey) client.Object {
	if st.mem != nil {
		if o := st.mem.objs[k]; o != nil {
			return o.DeepCopyObject().(client.Object)
		}
		return nil
	}
	o := newOf(k.GVK)
	if err := st.C.Get(context.Background(), k.NamespacedName, o); err != nil {
		return nil
	}
	return o
}

// Peek returns the stored object (not to be modified), or nil.
func (st *Store) Peek(k objKey) client.Object {
	o, ok := st.objs[k]
	if !ok {
		return nil
	}
	return o
}

func specHash(o client.Object) uint64 {
	b, _ := json.Marshal(o)
	var m map[string]any
	_ = json.Unmarshal(b, &m)
	delete(m, "metadata")
	delete(m, "status")
	b, _ = json.Marshal(m)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// do executes a write and publishes the change.
func (st *Store) do(k objKey, who string, f func() error) error {
	old := st.objs[k]
	if err := f(); err != nil {
		return err
	}
	var cur client.Object
	if st.mem != nil {
		if cur = st.mem.objs[k]; cur != nil && cur == old {
			return nil
		}
	} else {
		cur = st.read(k)
	}
	if cur != nil && st.mem == nil {
		fix := false
		if cur.GetUID() == "" {
			st.uidSeq++
			cur.SetUID(types.UID(fmt.Sprintf("uid-%06d", st.uidSeq)))
			fix = true
		}
		if ct := cur.GetCreationTimestamp(); ct.IsZero() {
			cur.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
			fix = true
		}
		if cur.GetGeneration() == 0 {
			cur.SetGeneration(1)
			fix = true
		} else if old != nil && old.GetUID() == cur.GetUID() && specHash(old) != specHash(cur) {
			cur.SetGeneration(old.GetGeneration() + 1)
			fix = true
		}
		if fix {
			if err := st.C.Update(context.Background(), cur); err != nil {
				st.W.S.Harness("store fix-up of %v: %v", k, err)
				return err
			}
			cur = st.read(k)
		}
		if cur != nil && old != nil && cur.GetResourceVersion() == old.GetResourceVersion() {
			return nil
		}
	}
	if cur == nil {
		delete(st.objs, k)
		if old == nil {
			return nil
		}
	} else {
		st.objs[k] = cur
	}
	st.publish(k, old, cur, who)
	return nil
}

func (st *Store) publish(k objKey, old, cur client.Object, who string) {
	verb := "mod"
	switch {
	case old == nil:
		verb = "add"
	case cur == nil:
		verb = "del"
	}
	st.W.S.Logf("store %s %s by %s", verb, k, who)
	for _, h := range st.hooks {
		h(k, old, cur, who)
	}
	for _, c := range st.watches {
		c.enqueue(k, cur)
	}
}

// Create, Update etc. are used by the simulated components (who != controller).
func (st *Store) Create(who string, o client.Object) error {
	o.SetResourceVersion("")
	if o.GetUID() == "" {
		st.uidSeq++
		o.SetUID(types.UID(fmt.Sprintf("uid-%06d", st.uidSeq)))
	}
	o.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
	o.SetGeneration(1)
	return st.do(keyOf(o), who, func() error { return st.C.Create(context.Background(), o) })
}

// Mutate reads, changes and writes an object; status tells which part.
func (st *Store) Mutate(who string, k objKey, status bool, f func(o client.Object) bool) error {
	cur := st.read(k)
	if cur == nil {
		return apierrors.NewNotFound(schema.GroupResource{Resource: k.GVK.Kind}, k.Name)
	}
	if !f(cur) {
		return nil
	}
	return st.do(k, who, func() error {
		if status && st.hasStatus(k.GVK) {
			return st.C.Status().Update(context.Background(), cur)
		}
		return st.C.Update(context.Background(), cur, client.FieldOwner(who))
	})
}

func (st *Store) hasStatus(g schema.GroupVersionKind) bool {
	switch g.Kind {
	case "Pod", "StatefulSet", "MySQLCluster", "PersistentVolumeClaim", "CronJob", "Job", "PodDisruptionBudget", "Service", "Deployment", "Node", "Namespace":
		return true
	}
	return false
}

// Delete deletes an object, honouring finalizers.
func (st *Store) Delete(who string, k objKey) error {
	cur := st.read(k)
	if cur == nil {
		return apierrors.NewNotFound(schema.GroupResource{Resource: k.GVK.Kind}, k.Name)
	}
	return st.do(k, who, func() error { return st.C.Delete(context.Background(), cur) })
}

// Keys lists stored objects of a kind in order.
func (st *Store) Keys(gvk schema.GroupVersionKind) []objKey {
	var ks []objKey
	for k := range st.objs {
		if k.GVK == gvk {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

func (st *Store) AllKeys() []objKey {
	var ks []objKey
	for k := range st.objs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

// ---- informer cache --------------------------------------------------------

type watchEvt struct {
	k   objKey
	obj client.Object
}

// Cache is the watch cache of one controller process.
type Cache struct {
	w        *World
	inc      *Incarnation
	objs     map[objKey]client.Object
	queue    map[schema.GroupVersionKind][]watchEvt
	sched    map[schema.GroupVersionKind]bool
	stall    map[string]time.Duration // kind -> until
	handlers map[schema.GroupVersionKind][]func(old, cur client.Object)
	index    map[string]client.IndexerFunc
	closed   bool
}

func newCache(w *World, inc *Incarnation) *Cache {
	c := &Cache{w: w, inc: inc, objs: map[objKey]client.Object{}, queue: map[schema.GroupVersionKind][]watchEvt{},
		sched: map[schema.GroupVersionKind]bool{}, stall: map[string]time.Duration{},
		handlers: map[schema.GroupVersionKind][]func(old, cur client.Object){}, index: map[string]client.IndexerFunc{}}
	for k, o := range w.Store.objs {
		c.objs[k] = o
	}
	w.Store.watches = append(w.Store.watches, c)
	return c
}

func (c *Cache) close() {
	c.closed = true
	ws := c.w.Store.watches[:0]
	for _, x := range c.w.Store.watches {
		if x != c {
			ws = append(ws, x)
		}
	}
	c.w.Store.watches = ws
}

func (c *Cache) kinds() []schema.GroupVersionKind {
	var gs []schema.GroupVersionKind
	for g := range c.queue {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	return gs
}

func (c *Cache) enqueue(k objKey, cur client.Object) {
	c.queue[k.GVK] = append(c.queue[k.GVK], watchEvt{k, cur})
	c.schedule(k.GVK)
}

func (c *Cache) schedule(g schema.GroupVersionKind) {
	if c.sched[g] || len(c.queue[g]) == 0 {
		return
	}
	c.sched[g] = true
	s := c.w.S
	d := s.Dur("watch/"+g.Kind, time.Millisecond, c.w.Cfg.WatchLag)
	if u := c.stall[g.Kind]; u > s.Now()+d {
		d = u - s.Now()
		c.w.count("cache_stalled_delivery")
	}
	if u := c.stall["*"]; u > s.Now()+d {
		d = u - s.Now()
		c.w.count("cache_stalled_delivery")
	}
	s.After(d, func() {
		c.sched[g] = false
		if c.closed {
			return
		}
		if u := c.stall[g.Kind]; u > s.Now() {
			c.schedule(g)
			return
		}
		if u := c.stall["*"]; u > s.Now() {
			c.schedule(g)
			return
		}
		// deliver everything that is due: a watch batches
		q := c.queue[g]
		if len(q) == 0 {
			return
		}
		n := 1 + s.Intn("watchbatch/"+g.Kind, len(q))
		c.queue[g] = q[n:]
		for _, e := range q[:n] {
			old := c.objs[e.k]
			if e.obj == nil {
				delete(c.objs, e.k)
			} else {
				c.objs[e.k] = e.obj
			}
			for _, h := range c.handlers[g] {
				h := h
				cur := e.obj
				if old == nil && cur == nil {
					continue
				}
				s.Defer(func() { h(old, cur) })
			}
		}
		c.schedule(g)
	})
}

func copyInto(dst, src client.Object) error {
	if u, ok := dst.(*unstructured.Unstructured); ok {
		if us, ok := src.(*unstructured.Unstructured); ok {
			u.Object = us.DeepCopy().Object
			return nil
		}
		m, err := runtime.DefaultUnstructuredConverter.ToUnstructured(src.DeepCopyObject())
		if err != nil {
			return err
		}
		g := gvkOf(src)
		u.Object = m
		u.SetGroupVersionKind(g)
		return nil
	}
	if us, ok := src.(*unstructured.Unstructured); ok {
		return runtime.DefaultUnstructuredConverter.FromUnstructured(us.Object, dst)
	}
	d := reflect.ValueOf(dst)
	s := reflect.ValueOf(src.DeepCopyObject())
	if d.Type() != s.Type() {
		return fmt.Errorf("type mismatch %v %v", d.Type(), s.Type())
	}
	d.Elem().Set(s.Elem())
	return nil
}

func grOf(gvk schema.GroupVersionKind) schema.GroupResource {
	return schema.GroupResource{Group: gvk.Group, Resource: strings.ToLower(gvk.Kind) + "s"}
}

func getFrom(objs map[objKey]client.Object, key types.NamespacedName, out client.Object) error {
	gvk := gvkOf(out)
	o, ok := objs[objKey{gvk, key}]
	if !ok {
		return apierrors.NewNotFound(grOf(gvk), key.Name)
	}
	return copyInto(out, o)
}

func listFrom(objs map[objKey]client.Object, index map[string]client.IndexerFunc, list client.ObjectList, opts ...client.ListOption) error {
	lo := client.ListOptions{}
	lo.ApplyOptions(opts)
	gvk := gvkOf(list)
	gvk.Kind = strings.TrimSuffix(gvk.Kind, "List")
	var ks []objKey
	for k := range objs {
		if k.GVK == gvk && (lo.Namespace == "" || lo.Namespace == k.Namespace) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	var items []runtime.Object
	for _, k := range ks {
		o := objs[k]
		if lo.LabelSelector != nil && !lo.LabelSelector.Matches(labelSet(o.GetLabels())) {
			continue
		}
		if lo.FieldSelector != nil {
			ok := true
			for _, r := range lo.FieldSelector.Requirements() {
				f, have := index[gvk.Kind+"/"+r.Field]
				if !have {
					return fmt.Errorf("index with name field:%s does not exist", r.Field)
				}
				hit := false
				for _, v := range f(o) {
					if v == r.Value {
						hit = true
					}
				}
				ok = ok && hit
			}
			if !ok {
				continue
			}
		}
		items = append(items, o.DeepCopyObject())
	}
	if ul, ok := list.(*unstructured.UnstructuredList); ok {
		ul.Items = nil
		for _, it := range items {
			u := &unstructured.Unstructured{}
			if err := copyInto(u, it.(client.Object)); err != nil {
				return err
			}
			ul.Items = append(ul.Items, *u)
		}
		return nil
	}
	return meta.SetList(list, items)
}

type labelSet map[string]string

func (l labelSet) Has(k string) bool   { _, ok := l[k]; return ok }
func (l labelSet) Get(k string) string { return l[k] }
func (l labelSet) Lookup(k string) (string, bool) {
	v, ok := l[k]
	return v, ok
}

// ---- the client moco uses ----------------------------------------------------

// SimClient implements client.Client: cached reads, parked writes.
type SimClient struct {
	w      *World
	inc    *Incarnation
	cache  *Cache // nil: read from the API server
	direct bool
	who    string
}

var _ client.Client = (*SimClient)(nil)

func (c *SimClient) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
	if c.inc.Dead() {
		return ErrDead
	}
	if c.cache != nil {
		if err := ctx.Err(); err != nil {
			return err
		}
		switch obj.(type) {
		case *mocov1beta2.MySQLCluster, *appsv1.StatefulSet:
			// Reconciliations of two objects that start at one instant get
			// their own instants, so that no shared limiter or queue sees a tie.
			time.Sleep(tieBreak(gvkOf(obj).Kind, key))
			if c.inc.Dead() {
				return ErrDead
			}
		}
		return getFrom(c.cache.objs, key, obj)
	}
	gvk := gvkOf(obj)
	v, err := c.call(ctx, "get", objKey{gvk, key}, "", func() (any, error) {
		o, ok := c.w.Store.objs[objKey{gvk, key}]
		if !ok {
			return nil, apierrors.NewNotFound(grOf(gvk), key.Name)
		}
		return o, nil
	})
	if err != nil {
		return err
	}
	return copyInto(obj, v.(client.Object))
}

func tieBreak(kind string, key client.ObjectKey) time.Duration {
	h := fnv.New64a()
	h.Write([]byte(kind + "/" + key.String()))
	return time.Duration(1 + mix(h.Sum64())%499)
}

func (c *SimClient) List(ctx context.Context, list client.ObjectList, opts ...client.ListOption) error {
	if c.inc.Dead() {
		return ErrDead
	}
	if c.cache != nil {
		if err := ctx.Err(); err != nil {
			return err
		}
		return listFrom(c.cache.objs, c.cache.index, list, opts...)
	}
	_, err := c.call(ctx, "list", objKey{GVK: gvkOf(list)}, "", func() (any, error) {
		return true, listFrom(c.w.Store.objs, nil, list, opts...)
	})
	return err
}

// call parks one API request.
func (c *SimClient) call(ctx context.Context, verb string, k objKey, body string, f func() (any, error)) (any, error) {
	w := c.w
	id := 0
	if c.inc != nil {
		id = c.inc.ID
	}
	h := fnv.New32a()
	h.Write([]byte(body))
	key := fmt.Sprintf("api/%d/%s/%s/%08x", id, verb, k, h.Sum32())
	return w.S.Call(ctx, c.inc, key, func(r *request) {
		lat := w.apiLat()
		fate, ferr := w.apiFate(c, verb, k)
		w.S.After(lat, func() {
			if r.Abandoned() && w.S.Chance("apilost", 0.5) {
				return
			}
			if w.apiDown > w.S.Now() {
				w.count("api_down_call")
				w.S.Reply(r, error(errors.New("dial tcp 10.96.0.1:443: connect: connection refused")))
				return
			}
			if fate == "before" {
				w.S.Logf("api fail-before %s %s", verb, k)
				w.S.Reply(r, ferr)
				return
			}
			w.S.Logf("api %s %s", verb, k)
			w.apiCaller = c
			v, err := f()
			w.apiCaller = nil
			if verb != "get" && verb != "list" {
				w.onAPIWrite(c, verb, k, err)
			}
			if fate == "after" && verb != "get" && verb != "list" {
				w.S.Logf("api fail-after %s %s", verb, k)
				if c.who == "job" {
					w.w3.byInc[c.inc.ID].apiLost = true
				}
				w.S.After(lat, func() { w.S.Reply(r, ferr) })
				return
			}
			w.S.After(lat, func() {
				if err != nil {
					w.S.Reply(r, err)
				} else {
					w.S.Reply(r, v)
				}
			})
		})
	})
}

func bodyOf(o any) string {
	b, _ := json.Marshal(o)
	return string(b)
}

func (c *SimClient) write(ctx context.Context, verb string, obj client.Object, f func(o client.Object) error) error {
	k := keyOf(obj)
	cp := obj.DeepCopyObject().(client.Object)
	v, err := c.call(ctx, verb, k, bodyOf(obj), func() (any, error) {
		if err := c.w.Store.do(k, c.who, func() error { return f(cp) }); err != nil {
			return nil, err
		}
		if cur := c.w.Store.objs[k]; cur != nil && verb != "delete" {
			return cur, nil
		}
		return cp, nil
	})
	if err != nil {
		return err
	}
	if verb == "delete" {
		return nil
	}
	return copyInto(obj, v.(client.Object))
}

func (c *SimClient) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
	return c.write(ctx, "create", obj, func(o client.Object) error {
		return c.w.Store.C.Create(ctx2(), o, opts...)
	})
}

func ctx2() context.Context { return context.Background() }

func (c *SimClient) Delete(ctx context.Context, obj client.Object, opts ...client.DeleteOption) error {
	return c.write(ctx, "delete", obj, func(o client.Object) error {
		do := client.DeleteOptions{}
		do.ApplyOptions(opts)
		c.w.onDelete(keyOf(o), &do)
		return c.w.Store.C.Delete(ctx2(), o, opts...)
	})
}

func (c *SimClient) Update(ctx context.Context, obj client.Object, opts ...client.UpdateOption) error {
	return c.write(ctx, "update", obj, func(o client.Object) error {
		return c.w.Store.C.Update(ctx2(), o, opts...)
	})
}

func (c *SimClient) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
	data, err := patch.Data(obj)
	if err != nil {
		return err
	}
	raw := client.RawPatch(patch.Type(), data)
	return c.write(ctx, "patch", obj, func(o client.Object) error {
		return c.w.Store.C.Patch(ctx2(), o, raw, opts...)
	})
}

func (c *SimClient) Apply(ctx context.Context, obj runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
	b, err := json.Marshal(obj)
	if err != nil {
		return err
	}
	u := &unstructured.Unstructured{}
	if err := json.Unmarshal(b, &u.Object); err != nil {
		return err
	}
	k := objKey{u.GroupVersionKind(), client.ObjectKeyFromObject(u)}
	_, err = c.call(ctx, "apply", k, string(b), func() (any, error) {
		return true, c.w.Store.do(k, c.who, func() error { return c.w.Store.C.Apply(ctx2(), obj, opts...) })
	})
	return err
}

func (c *SimClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
	lo := client.DeleteAllOfOptions{}
	lo.ApplyOptions(opts)
	_, err := c.call(ctx, "deleteall", keyOf(obj), "", func() (any, error) {
		for _, k := range c.w.Store.Keys(gvkOf(obj)) {
			o := c.w.Store.objs[k]
			if lo.Namespace != "" && k.Namespace != lo.Namespace {
				continue
			}
			if lo.LabelSelector != nil && !lo.LabelSelector.Matches(labelSet(o.GetLabels())) {
				continue
			}
			if err := c.w.Store.Delete(c.who, k); err != nil {
				return nil, err
			}
		}
		return true, nil
	})
	return err
}

func (c *SimClient) Status() client.SubResourceWriter { return c.SubResource("status") }
func (c *SimClient) SubResource(sub string) client.SubResourceClient {
	return &simSub{c, sub}
}
func (c *SimClient) Scheme() *runtime.Scheme     { return simScheme }
func (c *SimClient) RESTMapper() meta.RESTMapper { return c.w.Store.C.RESTMapper() }
func (c *SimClient) GroupVersionKindFor(obj runtime.Object) (schema.GroupVersionKind, error) {
	return gvkOf(obj), nil
}
func (c *SimClient) IsObjectNamespaced(obj runtime.Object) (bool, error) {
	return c.w.Store.C.IsObjectNamespaced(obj)
}

type simSub struct {
	c   *SimClient
	sub string
}

func (s *simSub) Get(ctx context.Context, obj, sub client.Object, opts ...client.SubResourceGetOption) error {
	return errors.New("sim: subresource get not supported")
}
func (s *simSub) Create(ctx context.Context, obj, sub client.Object, opts ...client.SubResourceCreateOption) error {
	return errors.New("sim: subresource create not supported")
}
func (s *simSub) Update(ctx context.Context, obj client.Object, opts ...client.SubResourceUpdateOption) error {
	return s.c.write(ctx, "updatestatus", obj, func(o client.Object) error {
		return s.c.w.Store.C.SubResource(s.sub).Update(ctx2(), o, opts...)
	})
}
func (s *simSub) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.SubResourcePatchOption) error {
	data, err := patch.Data(obj)
	if err != nil {
		return err
	}
	raw := client.RawPatch(patch.Type(), data)
	return s.c.write(ctx, "patchstatus", obj, func(o client.Object) error {
		return s.c.w.Store.C.SubResource(s.sub).Patch(ctx2(), o, raw, opts...)
	})
}
func (s *simSub) Apply(ctx context.Context, obj runtime.ApplyConfiguration, opts ...client.SubResourceApplyOption) error {
	b, err := json.Marshal(obj)
	if err != nil {
		return err
	}
	u := &unstructured.Unstructured{}
	if err := json.Unmarshal(b, &u.Object); err != nil {
		return err
	}
	k := objKey{u.GroupVersionKind(), client.ObjectKeyFromObject(u)}
	_, err = s.c.call(ctx, "applystatus", k, string(b), func() (any, error) {
		return true, s.c.w.Store.do(k, s.c.who, func() error { return s.c.w.Store.C.SubResource(s.sub).Apply(ctx2(), obj, opts...) })
	})
	return err
}

// ---- recorder and manager -----------------------------------------------------

type simRecorder struct {
	w   *World
	inc *Incarnation
}

var _ record.EventRecorder = (*simRecorder)(nil)

func (r *simRecorder) Event(obj runtime.Object, typ, reason, msg string) {
	r.rec(obj, typ, reason, msg)
}
func (r *simRecorder) Eventf(obj runtime.Object, typ, reason, f string, a ...any) {
	r.rec(obj, typ, reason, fmt.Sprintf(f, a...))
}
func (r *simRecorder) AnnotatedEventf(obj runtime.Object, _ map[string]string, typ, reason, f string, a ...any) {
	r.rec(obj, typ, reason, fmt.Sprintf(f, a...))
}
func (r *simRecorder) rec(obj runtime.Object, typ, reason, msg string) {
	o, ok := obj.(client.Object)
	name := ""
	if ok {
		name = o.GetNamespace() + "/" + o.GetName()
	}
	r.w.S.park(r.inc, "event/"+name+"/"+reason, func(q *request) {
		r.w.S.Logf("event %s %s", name, reason)
		r.w.onEvent(name, typ, reason, msg)
		r.w.S.Reply(q, true)
	})
}

// simManager is the part of manager.Manager that moco uses.
type simManager struct {
	manager.Manager
	w   *World
	inc *Incarnation
	cl  *SimClient
	api *SimClient

	runnables []manager.Runnable
}

func (m *simManager) GetClient() client.Client    { return m.cl }
func (m *simManager) GetAPIReader() client.Reader { return m.api }
func (m *simManager) GetScheme() *runtime.Scheme  { return simScheme }
func (m *simManager) GetEventRecorderFor(name string) record.EventRecorder {
	return &simRecorder{m.w, m.inc}
}

var (
	podGVK     = corev1.SchemeGroupVersion.WithKind("Pod")
	secretGVK  = corev1.SchemeGroupVersion.WithKind("Secret")
	cmGVK      = corev1.SchemeGroupVersion.WithKind("ConfigMap")
	svcGVK     = corev1.SchemeGroupVersion.WithKind("Service")
	pvcGVK     = corev1.SchemeGroupVersion.WithKind("PersistentVolumeClaim")
	saGVK      = corev1.SchemeGroupVersion.WithKind("ServiceAccount")
	clusterGVK = mocov1beta2.GroupVersion.WithKind("MySQLCluster")
	policyGVK  = mocov1beta2.GroupVersion.WithKind("BackupPolicy")
	certGVK    = schema.GroupVersionKind{Group: "cert-manager.io", Version: "v1", Kind: "Certificate"}
	stsGVK     = schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "StatefulSet"}
)
