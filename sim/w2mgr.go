package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/controllers"
	jsonpatch "github.com/evanphx/json-patch/v5"
	"github.com/go-logr/logr"
	"golang.org/x/time/rate"
	admissionv1 "k8s.io/api/admission/v1"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/config"
	"sigs.k8s.io/controller-runtime/pkg/healthz"
	"sigs.k8s.io/controller-runtime/pkg/manager"
	"sigs.k8s.io/controller-runtime/pkg/webhook"
	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
	"sigs.k8s.io/controller-runtime/pkg/webhook/conversion"
)

const systemNS = "moco-system"

// ---- the manager that the real reconcilers are set up with ---------------------

func (m *simManager) GetCache() cache.Cache                { return &simCRCache{c: m.cl.cache, m: m} }
func (m *simManager) GetFieldIndexer() client.FieldIndexer { return &simCRCache{c: m.cl.cache, m: m} }
func (m *simManager) GetRESTMapper() meta.RESTMapper       { return m.w.Store.C.RESTMapper() }
func (m *simManager) GetLogger() logr.Logger               { return logr.Discard() }
func (m *simManager) GetConfig() *rest.Config              { return &rest.Config{} }
func (m *simManager) GetControllerOptions() config.Controller {
	return config.Controller{SkipNameValidation: ptr(true)}
}
func (m *simManager) Add(r manager.Runnable) error {
	m.runnables = append(m.runnables, r)
	return nil
}

// simCRCache is the part of cache.Cache that controllers use.
type simCRCache struct {
	cache.Cache
	c *Cache
	m *simManager
}

func (s *simCRCache) GetInformer(ctx context.Context, obj client.Object, _ ...cache.InformerGetOption) (cache.Informer, error) {
	return &simInformer{s, gvkOf(obj)}, nil
}
func (s *simCRCache) WaitForCacheSync(ctx context.Context) bool { return true }
func (s *simCRCache) IndexField(ctx context.Context, obj client.Object, field string, f client.IndexerFunc) error {
	s.c.index[gvkOf(obj).Kind+"/"+field] = f
	return nil
}

type simInformer struct {
	s   *simCRCache
	gvk schema.GroupVersionKind
}

type simReg struct{}

func (simReg) HasSynced() bool { return true }

func (i *simInformer) AddEventHandler(h toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
	c := i.s.c
	w := c.w
	_, err := w.S.Call(context.Background(), i.s.m.inc, "informer/"+i.gvk.Kind, func(r *request) {
		c.handlers[i.gvk] = append(c.handlers[i.gvk], func(old, cur client.Object) {
			if c.closed {
				return
			}
			switch {
			case old == nil:
				h.OnAdd(cur, false)
			case cur == nil:
				h.OnDelete(old)
			default:
				h.OnUpdate(old, cur)
			}
		})
		var ks []objKey
		for k := range c.objs {
			if k.GVK == i.gvk {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].String() < ks[b].String() })
		for _, k := range ks {
			o := c.objs[k]
			w.S.Defer(func() {
				if !c.closed {
					h.OnAdd(o, true)
				}
			})
		}
		w.S.Reply(r, true)
	})
	return simReg{}, err
}
func (i *simInformer) AddEventHandlerWithResyncPeriod(h toolscache.ResourceEventHandler, _ time.Duration) (toolscache.ResourceEventHandlerRegistration, error) {
	return i.AddEventHandler(h)
}
func (i *simInformer) AddEventHandlerWithOptions(h toolscache.ResourceEventHandler, _ toolscache.HandlerOptions) (toolscache.ResourceEventHandlerRegistration, error) {
	return i.AddEventHandler(h)
}
func (i *simInformer) RemoveEventHandler(toolscache.ResourceEventHandlerRegistration) error {
	return nil
}
func (i *simInformer) AddIndexers(toolscache.Indexers) error { return nil }
func (i *simInformer) HasSynced() bool                       { return true }
func (i *simInformer) IsStopped() bool                       { return i.s.m.inc.Dead() }

// w2Setup wires a whole moco-controller process as cmd/moco-controller does.
func w2Setup(c *Controller) {
	w := c.w
	ctx, cancel := context.WithCancel(context.Background())
	mgr := c.mgr
	x := w.w2
	must := func(err error) {
		if err != nil {
			w.S.Harness("controller setup: %v", err)
		}
	}
	must((&controllers.MySQLClusterReconciler{
		Client: mgr.GetClient(), Scheme: simScheme, Recorder: mgr.GetEventRecorderFor("moco-controller"),
		AgentImage: "agent:1", BackupImage: "backup:1", FluentBitImage: "fluent-bit:1", ExporterImage: "exporter:1",
		SystemNamespace: systemNS, ClusterManager: c.CM, MaxConcurrentReconciles: x.workers,
		PVCSyncAnnotationKeys: x.syncAnn, PVCSyncLabelKeys: x.syncLab,
		MySQLConfigMapHistoryLimit: x.historyLimit,
	}).SetupWithManager(ctx, mgr))
	must((&controllers.StatefulSetPartitionReconciler{
		Client: mgr.GetClient(), Recorder: mgr.GetEventRecorderFor("moco-controller"),
		MaxConcurrentReconciles: x.workers, UpdateInterval: x.partInterval,
		RateLimiter: rate.NewLimiter(rate.Every(x.partInterval), 1),
	}).SetupWithManager(mgr))
	must((&controllers.PodWatcher{Client: mgr.GetClient(), ClusterManager: c.CM, MaxConcurrentReconciles: x.workers}).SetupWithManager(mgr))
	wg := &sync.WaitGroup{}
	done := &atomic.Bool{}
	stopped := false
	for i, r := range mgr.runnables {
		r := r
		w.S.After(time.Duration(i+1)*time.Millisecond, func() {
			if stopped {
				return
			}
			wg.Add(1)
			w.S.Defer(func() {
				go func() {
					defer wg.Done()
					_ = r.Start(ctx)
				}()
			})
		})
	}
	c.drain = done.Load
	c.stopFns = append(c.stopFns, func() {
		stopped = true
		cancel()
		go func() {
			wg.Wait()
			done.Store(true)
		}()
	})
}

// ---- the API server's admission -----------------------------------------------

type storeReader struct{ st *Store }

func (r storeReader) Get(ctx context.Context, key client.ObjectKey, obj client.Object, _ ...client.GetOption) error {
	return getFrom(r.st.objs, key, obj)
}
func (r storeReader) List(ctx context.Context, l client.ObjectList, o ...client.ListOption) error {
	return listFrom(r.st.objs, nil, l, o...)
}

type hookServer struct {
	hooks map[string]http.Handler
}

func (h *hookServer) NeedLeaderElection() bool             { return false }
func (h *hookServer) Register(p string, hook http.Handler) { h.hooks[p] = hook }
func (h *hookServer) Start(ctx context.Context) error      { return nil }
func (h *hookServer) StartedChecker() healthz.Checker      { return nil }
func (h *hookServer) WebhookMux() *http.ServeMux           { return http.NewServeMux() }

type hookManager struct {
	manager.Manager
	st  *Store
	srv *hookServer
	reg conversion.Registry
}

func (m *hookManager) GetScheme() *runtime.Scheme                { return simScheme }
func (m *hookManager) GetConfig() *rest.Config                   { return &rest.Config{} }
func (m *hookManager) GetAPIReader() client.Reader               { return storeReader{m.st} }
func (m *hookManager) GetWebhookServer() webhook.Server          { return m.srv }
func (m *hookManager) GetLogger() logr.Logger                    { return logr.Discard() }
func (m *hookManager) GetConverterRegistry() conversion.Registry { return m.reg }

func (w *World) setupAdmission() {
	srv := &hookServer{map[string]http.Handler{}}
	m := &hookManager{st: w.Store, srv: srv, reg: conversion.NewRegistry()}
	for _, err := range []error{
		(&mocov1beta2.MySQLCluster{}).SetupWebhookWithManager(m),
		(&mocov1beta2.BackupPolicy{}).SetupWebhookWithManager(m),
		mocov1beta2.SetupStatefulSetWebhookWithManager(m),
	} {
		if err != nil {
			w.S.Harness("webhooks: %v", err)
		}
	}
	for _, p := range []string{"/mutate-moco-cybozu-com-v1beta2-mysqlcluster", "/validate-moco-cybozu-com-v1beta2-mysqlcluster",
		"/mutate-apps-v1-statefulset", "/validate-moco-cybozu-com-v1beta2-backuppolicy"} {
		if _, ok := srv.hooks[p].(*admission.Webhook); !ok {
			w.S.Harness("webhook %s is not registered", p)
		}
	}
	w.Store.admit = func(op string, old, obj client.Object) error { return w.admit(srv, op, old, obj) }
}

func rawOf(o client.Object) []byte {
	if o == nil {
		return nil
	}
	c := o.DeepCopyObject().(client.Object)
	c.GetObjectKind().SetGroupVersionKind(gvkOf(o))
	b, _ := json.Marshal(c)
	return b
}

func (w *World) hook(srv *hookServer, path, op string, old, obj client.Object) error {
	wh := srv.hooks[path].(*admission.Webhook)
	o := obj
	if o == nil {
		o = old
	}
	g := gvkOf(o)
	req := admission.Request{AdmissionRequest: admissionv1.AdmissionRequest{
		UID: "1", Kind: metav1.GroupVersionKind{Group: g.Group, Version: g.Version, Kind: g.Kind},
		Name: o.GetName(), Namespace: o.GetNamespace(), Operation: admissionv1.Operation(op),
	}}
	if obj != nil {
		req.Object.Raw = rawOf(obj)
	}
	if old != nil {
		req.OldObject.Raw = rawOf(old)
	}
	resp := wh.Handle(context.Background(), req)
	if !resp.Allowed {
		w.count("webhook_denied")
		msg := "denied"
		if resp.Result != nil {
			msg = resp.Result.Message
		}
		return apierrors.NewForbidden(grOf(g), o.GetName(), errors.New("admission webhook "+path+" denied the request: "+msg))
	}
	if len(resp.Patch) > 0 && obj != nil {
		p, err := jsonpatch.DecodePatch(resp.Patch)
		if err != nil {
			return err
		}
		b, err := p.Apply(req.Object.Raw)
		if err != nil {
			return err
		}
		n := newOf(g)
		if err := json.Unmarshal(b, n); err != nil {
			return err
		}
		n.GetObjectKind().SetGroupVersionKind(obj.GetObjectKind().GroupVersionKind())
		return copyInto(obj, n)
	}
	return nil
}

// admit is what the API server checks before it stores an object: moco's
// webhooks and the immutability rules of the built-in kinds.
func (w *World) admit(srv *hookServer, op string, old, obj client.Object) error {
	o := obj
	if o == nil {
		o = old
	}
	if o == nil {
		return nil
	}
	if obj != nil {
		n := 0
		for _, r := range obj.GetOwnerReferences() {
			if r.Controller != nil && *r.Controller {
				n++
			}
		}
		if n > 1 {
			w.probe("two_controllers")
			return invalidErr(o, "Only one reference can have Controller set to true")
		}
	}
	switch gvkOf(o) {
	case clusterGVK:
		if op == "CREATE" {
			if err := w.hook(srv, "/mutate-moco-cybozu-com-v1beta2-mysqlcluster", op, old, obj); err != nil {
				return err
			}
		}
		if op != "DELETE" {
			return w.hook(srv, "/validate-moco-cybozu-com-v1beta2-mysqlcluster", op, old, obj)
		}
	case policyGVK:
		return w.hook(srv, "/validate-moco-cybozu-com-v1beta2-backuppolicy", op, old, obj)
	case stsGVK:
		if op == "DELETE" {
			return nil
		}
		if err := w.hook(srv, "/mutate-apps-v1-statefulset", op, old, obj); err != nil {
			return err
		}
		if op == "UPDATE" && old != nil {
			a, b := old.(*appsv1.StatefulSet).Spec.DeepCopy(), obj.(*appsv1.StatefulSet).Spec.DeepCopy()
			for _, s := range []*appsv1.StatefulSetSpec{a, b} {
				s.Replicas, s.Template, s.UpdateStrategy, s.MinReadySeconds, s.PersistentVolumeClaimRetentionPolicy, s.Ordinals = nil, corev1.PodTemplateSpec{}, appsv1.StatefulSetUpdateStrategy{}, 0, nil, nil
				s.RevisionHistoryLimit = nil
			}
			if !equality.Semantic.DeepEqual(a, b) {
				w.probe("sts_immutable")
				return invalidErr(o, "updates to statefulset spec for fields other than replicas, template, updateStrategy are forbidden")
			}
		}
	case pvcGVK:
		if op == "UPDATE" && old != nil {
			a := old.(*corev1.PersistentVolumeClaim).Spec.Resources.Requests[corev1.ResourceStorage]
			b := obj.(*corev1.PersistentVolumeClaim).Spec.Resources.Requests[corev1.ResourceStorage]
			if b.Cmp(a) < 0 {
				w.probe("pvc_shrink_denied")
				w.w2.shrinkAttempt(o, a.String(), b.String())
				return invalidErr(o, "field can not be less than previous value")
			}
		}
	}
	if w.w2 != nil && w.w2.admitMore != nil {
		return w.w2.admitMore(op, old, obj)
	}
	return nil
}

func invalidErr(o client.Object, msg string) error {
	return &apierrors.StatusError{ErrStatus: metav1.Status{Status: metav1.StatusFailure, Code: http.StatusUnprocessableEntity,
		Reason: metav1.StatusReasonInvalid, Message: fmt.Sprintf("%s %q is invalid: %s", gvkOf(o).Kind, o.GetName(), msg)}}
}
