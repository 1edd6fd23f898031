package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"time"

	jsonpatch "github.com/evanphx/json-patch/v5"
	"k8s.io/apimachinery/pkg/api/equality"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/util/managedfields"
	"k8s.io/apimachinery/pkg/util/strategicpatch"
	applyconf "k8s.io/client-go/applyconfigurations"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// memClient is the storage of the simulated API server: optimistic locking,
// generations, finalizers, the status subresource, patches, and server-side
// apply with the field ownership rules of apimachinery.
type memClient struct {
	client.Client // only for what is not implemented
	st            *Store
	objs          map[objKey]client.Object
	rv            int64
}

func newMemClient(st *Store) *memClient { return &memClient{st: st, objs: map[objKey]client.Object{}} }

var fieldManagers = map[schema.GroupVersionKind]*managedfields.FieldManager{}

type noDefaults struct{}

func (noDefaults) Default(runtime.Object) {}

func fieldManagerOf(g schema.GroupVersionKind) *managedfields.FieldManager {
	if m := fieldManagers[g]; m != nil {
		return m
	}
	m, err := managedfields.NewDefaultFieldManager(applyconf.NewTypeConverter(clientgoscheme.Scheme), simScheme, noDefaults{}, simScheme, g, g.GroupVersion(), "", nil)
	if err != nil {
		panic(err)
	}
	fieldManagers[g] = m
	return m
}

// tracked tells whether field ownership is kept for a kind: those that moco applies.
func tracked(g schema.GroupVersionKind) bool { return isChild(g) }

func (m *memClient) RESTMapper() meta.RESTMapper { return theMapper }
func (m *memClient) Scheme() *runtime.Scheme     { return simScheme }
func (m *memClient) IsObjectNamespaced(obj runtime.Object) (bool, error) {
	return gvkOf(obj) != scGVK, nil
}

var theMapper = func() meta.RESTMapper {
	r := meta.NewDefaultRESTMapper(nil)
	for _, g := range []schema.GroupVersionKind{podGVK, secretGVK, cmGVK, svcGVK, pvcGVK, saGVK, clusterGVK, policyGVK, certGVK, stsGVK, pdbGVK, cronGVK, jobGVK, roleGVK, bindGVK} {
		r.Add(g, meta.RESTScopeNamespace)
	}
	r.Add(scGVK, meta.RESTScopeRoot)
	return r
}()

func (m *memClient) Get(_ context.Context, k client.ObjectKey, obj client.Object, _ ...client.GetOption) error {
	g := gvkOf(obj)
	o := m.objs[objKey{g, k}]
	if o == nil {
		return apierrors.NewNotFound(grOf(g), k.Name)
	}
	return copyInto(obj, o)
}

func (m *memClient) List(_ context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return listFrom(m.objs, nil, l, opts...)
}

// specOf returns the part of an object whose changes make a new generation.
func specOf(o client.Object) any {
	if u, ok := o.(*unstructured.Unstructured); ok {
		return u.Object["spec"]
	}
	v := reflect.ValueOf(o).Elem().FieldByName("Spec")
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// statusFrom copies the status of src into dst.
func statusFrom(dst, src client.Object) {
	if u, ok := dst.(*unstructured.Unstructured); ok {
		s := src.(*unstructured.Unstructured)
		if x, ok := s.Object["status"]; ok {
			u.Object["status"] = runtime.DeepCopyJSONValue(x)
		} else {
			delete(u.Object, "status")
		}
		return
	}
	d := reflect.ValueOf(dst).Elem().FieldByName("Status")
	if d.IsValid() {
		d.Set(reflect.ValueOf(src.DeepCopyObject()).Elem().FieldByName("Status"))
	}
}

func (m *memClient) hasSub(g schema.GroupVersionKind) bool { return m.st.hasStatus(g) }

// put stores a new version.
func (m *memClient) put(k objKey, old, n client.Object, who string, op metav1.ManagedFieldsOperationType) error {
	if old == nil {
		if n.GetUID() == "" {
			m.st.uidSeq++
			n.SetUID(types.UID(fmt.Sprintf("uid-%06d", m.st.uidSeq)))
		}
		n.SetCreationTimestamp(metav1.NewTime(time.Now().Truncate(time.Second)))
		n.SetGeneration(1)
		n.SetDeletionTimestamp(nil)
		if m.hasSub(k.GVK) {
			statusFrom(n, newOf(k.GVK))
		}
	} else {
		n.SetUID(old.GetUID())
		n.SetCreationTimestamp(old.GetCreationTimestamp())
		n.SetDeletionTimestamp(old.GetDeletionTimestamp())
		n.SetGeneration(old.GetGeneration())
		n.SetResourceVersion(old.GetResourceVersion())
	}
	if m.st.admit != nil && op != "" {
		o := "UPDATE"
		if old == nil {
			o = "CREATE"
		}
		if err := m.st.admit(o, old, n); err != nil {
			return err
		}
	}
	if old != nil && op != "" && !equality.Semantic.DeepEqual(specOf(old), specOf(n)) {
		n.SetGeneration(old.GetGeneration() + 1)
	}
	if op == metav1.ManagedFieldsOperationUpdate && tracked(k.GVK) {
		live := old
		if live == nil {
			live = newOf(k.GVK)
		}
		live = live.DeepCopyObject().(client.Object)
		live.GetObjectKind().SetGroupVersionKind(k.GVK)
		n.GetObjectKind().SetGroupVersionKind(k.GVK)
		r, err := fieldManagerOf(k.GVK).Update(live, n, who)
		if err != nil {
			return err
		}
		n = r.(client.Object)
	}
	if _, ok := n.(*unstructured.Unstructured); !ok {
		n.GetObjectKind().SetGroupVersionKind(schema.GroupVersionKind{})
	}
	if old != nil && n.GetDeletionTimestamp() != nil && len(n.GetFinalizers()) == 0 {
		delete(m.objs, k)
		return nil
	}
	if old != nil && sameObject(old, n) {
		return nil
	}
	m.rv++
	n.SetResourceVersion(strconv.FormatInt(m.rv, 10))
	m.objs[k] = n
	return nil
}

func sameObject(a, b client.Object) bool {
	x, y := a.GetManagedFields(), b.GetManagedFields()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Manager != y[i].Manager || x[i].Operation != y[i].Operation || !equality.Semantic.DeepEqual(x[i].FieldsV1, y[i].FieldsV1) {
			return false
		}
	}
	a, b = a.DeepCopyObject().(client.Object), b.DeepCopyObject().(client.Object)
	a.SetManagedFields(nil)
	b.SetManagedFields(nil)
	return equality.Semantic.DeepEqual(a, b)
}

func (m *memClient) Create(_ context.Context, o client.Object, opts ...client.CreateOption) error {
	co := client.CreateOptions{}
	co.ApplyOptions(opts)
	k := keyOf(o)
	if m.objs[k] != nil {
		return apierrors.NewAlreadyExists(grOf(k.GVK), k.Name)
	}
	if o.GetResourceVersion() != "" {
		return apierrors.NewBadRequest("resourceVersion should not be set on objects to be created")
	}
	n := o.DeepCopyObject().(client.Object)
	if err := m.put(k, nil, n, who(co.FieldManager), metav1.ManagedFieldsOperationUpdate); err != nil {
		return err
	}
	return copyInto(o, m.objs[k])
}

func who(s string) string {
	if s == "" {
		return "update"
	}
	return s
}

func (m *memClient) conflict(k objKey, cur client.Object, rv string, uid types.UID) error {
	if uid != "" && uid != cur.GetUID() {
		return apierrors.NewConflict(grOf(k.GVK), k.Name, errors.New("Precondition failed: UID in precondition does not match"))
	}
	if rv != "" && rv != cur.GetResourceVersion() {
		return apierrors.NewConflict(grOf(k.GVK), k.Name, errors.New("the object has been modified; please apply your changes to the latest version and try again"))
	}
	return nil
}

func (m *memClient) Update(_ context.Context, o client.Object, opts ...client.UpdateOption) error {
	uo := client.UpdateOptions{}
	uo.ApplyOptions(opts)
	return m.update(o, who(uo.FieldManager), false)
}

func (m *memClient) update(o client.Object, by string, status bool) error {
	k := keyOf(o)
	old := m.objs[k]
	if old == nil {
		return apierrors.NewNotFound(grOf(k.GVK), k.Name)
	}
	if err := m.conflict(k, old, o.GetResourceVersion(), o.GetUID()); err != nil {
		return err
	}
	n := o.DeepCopyObject().(client.Object)
	op := metav1.ManagedFieldsOperationUpdate
	if m.hasSub(k.GVK) {
		if status {
			n = old.DeepCopyObject().(client.Object)
			statusFrom(n, o)
			op = ""
		} else {
			statusFrom(n, old)
		}
	} else if status {
		return apierrors.NewNotFound(grOf(k.GVK), k.Name)
	}
	if err := m.put(k, old, n, by, op); err != nil {
		return err
	}
	if c := m.objs[k]; c != nil {
		return copyInto(o, c)
	}
	return nil
}

func (m *memClient) Delete(_ context.Context, o client.Object, opts ...client.DeleteOption) error {
	do := client.DeleteOptions{}
	do.ApplyOptions(opts)
	k := keyOf(o)
	old := m.objs[k]
	if old == nil {
		return apierrors.NewNotFound(grOf(k.GVK), k.Name)
	}
	if p := do.Preconditions; p != nil {
		rv, uid := "", types.UID("")
		if p.ResourceVersion != nil {
			rv = *p.ResourceVersion
		}
		if p.UID != nil {
			uid = *p.UID
		}
		if err := m.conflict(k, old, rv, uid); err != nil {
			return err
		}
	}
	if m.st.admit != nil {
		if err := m.st.admit("DELETE", old, nil); err != nil {
			return err
		}
	}
	if len(old.GetFinalizers()) == 0 {
		delete(m.objs, k)
		return nil
	}
	if old.GetDeletionTimestamp() != nil {
		return nil
	}
	n := old.DeepCopyObject().(client.Object)
	t := metav1.NewTime(time.Now().Truncate(time.Second))
	n.SetDeletionTimestamp(&t)
	n.SetGeneration(n.GetGeneration() + 1)
	m.rv++
	n.SetResourceVersion(strconv.FormatInt(m.rv, 10))
	m.objs[k] = n
	return nil
}

func (m *memClient) patched(o client.Object, p client.Patch) (client.Object, error) {
	k := keyOf(o)
	old := m.objs[k]
	if old == nil {
		return nil, apierrors.NewNotFound(grOf(k.GVK), k.Name)
	}
	data, err := p.Data(o)
	if err != nil {
		return nil, err
	}
	cur := rawOf(old)
	var res []byte
	switch p.Type() {
	case types.MergePatchType:
		res, err = jsonpatch.MergePatch(cur, data)
	case types.StrategicMergePatchType:
		res, err = strategicpatch.StrategicMergePatch(cur, data, newOf(k.GVK))
	case types.JSONPatchType:
		var jp jsonpatch.Patch
		if jp, err = jsonpatch.DecodePatch(data); err == nil {
			res, err = jp.Apply(cur)
		}
	default:
		return nil, fmt.Errorf("sim: patch type %s is not supported", p.Type())
	}
	if err != nil {
		return nil, err
	}
	n := newOf(k.GVK)
	if err := json.Unmarshal(res, n); err != nil {
		return nil, err
	}
	if err := m.conflict(k, old, n.GetResourceVersion(), n.GetUID()); err != nil {
		return nil, err
	}
	return n, nil
}

func (m *memClient) Patch(_ context.Context, o client.Object, p client.Patch, opts ...client.PatchOption) error {
	po := client.PatchOptions{}
	po.ApplyOptions(opts)
	n, err := m.patched(o, p)
	if err != nil {
		return err
	}
	if err := m.update(n, who(po.FieldManager), false); err != nil {
		return err
	}
	return copyInto(o, n)
}

func (m *memClient) Apply(_ context.Context, ac runtime.ApplyConfiguration, opts ...client.ApplyOption) error {
	ao := client.ApplyOptions{}
	ao.ApplyOptions(opts)
	return m.apply(ac, ao.FieldManager, ao.Force != nil && *ao.Force, false)
}

func (m *memClient) apply(ac runtime.ApplyConfiguration, by string, force, status bool) error {
	b, err := json.Marshal(ac)
	if err != nil {
		return err
	}
	u := &unstructured.Unstructured{}
	if err := json.Unmarshal(b, &u.Object); err != nil {
		return err
	}
	k := objKey{u.GroupVersionKind(), client.ObjectKeyFromObject(u)}
	if !tracked(k.GVK) {
		return fmt.Errorf("sim: apply of %s is not supported", k.GVK)
	}
	old := m.objs[k]
	live := newOf(k.GVK)
	if old != nil {
		if err := m.conflict(k, old, u.GetResourceVersion(), u.GetUID()); err != nil {
			return err
		}
		live = old.DeepCopyObject().(client.Object)
	}
	live.GetObjectKind().SetGroupVersionKind(k.GVK)
	r, err := fieldManagerOf(k.GVK).Apply(live, u, by, force)
	if err != nil {
		return err
	}
	n := r.(client.Object)
	if status {
		return errors.New("sim: apply of status is not supported")
	}
	if old != nil && m.hasSub(k.GVK) {
		statusFrom(n, old)
	}
	return m.put(k, old, n, by, metav1.ManagedFieldsOperationApply)
}

func (m *memClient) Status() client.SubResourceWriter { return m.SubResource("status") }
func (m *memClient) SubResource(s string) client.SubResourceClient {
	return &memSub{m: m}
}

type memSub struct {
	client.SubResourceClient
	m *memClient
}

func (s *memSub) Update(_ context.Context, o client.Object, opts ...client.SubResourceUpdateOption) error {
	return s.m.update(o, "status", true)
}
func (s *memSub) Patch(_ context.Context, o client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
	n, err := s.m.patched(o, p)
	if err != nil {
		return err
	}
	if err := s.m.update(n, "status", true); err != nil {
		return err
	}
	return copyInto(o, n)
}
func (s *memSub) Apply(_ context.Context, ac runtime.ApplyConfiguration, opts ...client.SubResourceApplyOption) error {
	return s.m.apply(ac, "", true, true)
}
