package sim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	corev1 "k8s.io/api/core/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// The API server as moco-backup reaches it: an HTTP transport below the real client.

func (t *w3World) restConfig() (*rest.Config, error) {
	j := t.cur
	if j == nil || j.inc.Dead() {
		return nil, ErrDead
	}
	return &rest.Config{Host: "http://kubernetes.default.svc", Transport: &apiTransport{t, j}, ContentConfig: rest.ContentConfig{ContentType: "application/json", AcceptContentTypes: "application/json"}}, nil
}

type apiTransport struct {
	t *w3World
	j *jobRun
}

func jsonResponse(req *http.Request, code int, v any) (*http.Response, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: req}, nil
}

var jobResources = map[string][]metav1.APIResource{
	"v1": {
		{Name: "pods", SingularName: "pod", Namespaced: true, Kind: "Pod", Verbs: metav1.Verbs{"get", "list", "watch", "create", "update", "patch", "delete"}},
		{Name: "events", SingularName: "event", Namespaced: true, Kind: "Event", Verbs: metav1.Verbs{"get", "list", "create"}},
		{Name: "secrets", SingularName: "secret", Namespaced: true, Kind: "Secret", Verbs: metav1.Verbs{"get", "list", "create"}},
	},
	"moco.cybozu.com/v1beta2": {
		{Name: "mysqlclusters", SingularName: "mysqlcluster", Namespaced: true, Kind: "MySQLCluster", Verbs: metav1.Verbs{"get", "list", "watch", "create", "update", "patch", "delete"}},
		{Name: "mysqlclusters/status", Namespaced: true, Kind: "MySQLCluster", Verbs: metav1.Verbs{"get", "update", "patch"}},
	},
}

// allowed applies the Roles bound to the job's service account.
func (t *w3World) allowed(j *jobRun, ns, group, resource, verb, name string) bool {
	st := t.w.Store
	for _, k := range st.Keys(bindGVK) {
		if k.Namespace != ns {
			continue
		}
		rb := st.Peek(k).(*rbacv1.RoleBinding)
		ours := false
		for _, s := range rb.Subjects {
			ours = ours || s.Kind == "ServiceAccount" && s.Name == j.sa && (s.Namespace == j.c.Namespace || s.Namespace == "" && ns == j.c.Namespace)
		}
		if !ours {
			continue
		}
		o := st.Peek(objKey{roleGVK, types.NamespacedName{Namespace: ns, Name: rb.RoleRef.Name}})
		if o == nil {
			continue
		}
		has := func(l []string, x string) bool {
			for _, e := range l {
				if e == x || e == "*" {
					return true
				}
			}
			return false
		}
		for _, r := range o.(*rbacv1.Role).Rules {
			if has(r.APIGroups, group) && has(r.Resources, resource) && has(r.Verbs, verb) && (len(r.ResourceNames) == 0 || has(r.ResourceNames, name)) {
				return true
			}
		}
	}
	return false
}

func (a *apiTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	t, j := a.t, a.j
	if j.inc.Dead() {
		return nil, ErrDead
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	path := strings.Trim(req.URL.Path, "/")
	switch path {
	case "api":
		return jsonResponse(req, 200, &metav1.APIVersions{TypeMeta: metav1.TypeMeta{Kind: "APIVersions"}, Versions: []string{"v1"}})
	case "apis":
		gv := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		return jsonResponse(req, 200, &metav1.APIGroupList{TypeMeta: metav1.TypeMeta{Kind: "APIGroupList", APIVersion: "v1"},
			Groups: []metav1.APIGroup{{Name: "moco.cybozu.com", Versions: []metav1.GroupVersionForDiscovery{gv}, PreferredVersion: gv}}})
	case "apis/moco.cybozu.com":
		gv := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		return jsonResponse(req, 200, &metav1.APIGroup{TypeMeta: metav1.TypeMeta{Kind: "APIGroup", APIVersion: "v1"}, Name: "moco.cybozu.com",
			Versions: []metav1.GroupVersionForDiscovery{gv}, PreferredVersion: gv})
	case "api/v1":
		return jsonResponse(req, 200, &metav1.APIResourceList{TypeMeta: metav1.TypeMeta{Kind: "APIResourceList", APIVersion: "v1"}, GroupVersion: "v1", APIResources: jobResources["v1"]})
	case "apis/moco.cybozu.com/v1beta2":
		return jsonResponse(req, 200, &metav1.APIResourceList{TypeMeta: metav1.TypeMeta{Kind: "APIResourceList", APIVersion: "v1"}, GroupVersion: "moco.cybozu.com/v1beta2",
			APIResources: jobResources["moco.cybozu.com/v1beta2"]})
	}
	f := strings.Split(path, "/")
	gv := schema.GroupVersion{}
	switch {
	case len(f) > 2 && f[0] == "api":
		gv.Version = f[1]
		f = f[2:]
	case len(f) > 3 && f[0] == "apis":
		gv.Group, gv.Version = f[1], f[2]
		f = f[3:]
	default:
		return jsonResponse(req, 404, apierrors.NewNotFound(schema.GroupResource{}, path).Status())
	}
	ns, name, sub := "", "", ""
	if len(f) >= 2 && f[0] == "namespaces" {
		ns = f[1]
		f = f[2:]
	}
	if len(f) == 0 || len(f) > 3 {
		return jsonResponse(req, 404, apierrors.NewNotFound(schema.GroupResource{}, path).Status())
	}
	res := f[0]
	if len(f) > 1 {
		name = f[1]
	}
	if len(f) > 2 {
		sub = f[2]
	}
	kind := ""
	for _, r := range jobResources[gv.String()] {
		if r.Name == res {
			kind = r.Kind
		}
	}
	if kind == "" || sub != "" && sub != "status" {
		return jsonResponse(req, 404, apierrors.NewNotFound(schema.GroupResource{Group: gv.Group, Resource: res}, name).Status())
	}
	verb := map[string]string{"GET": "get", "PUT": "update", "PATCH": "patch", "POST": "create", "DELETE": "delete"}[req.Method]
	if verb == "get" && name == "" {
		verb = "list"
	}
	full := res
	if sub != "" {
		full += "/" + sub
	}
	c := &SimClient{w: t.w, inc: j.inc, who: "job"}
	gvk := gv.WithKind(kind)
	k := objKey{gvk, types.NamespacedName{Namespace: ns, Name: name}}
	fail := func(err error) (*http.Response, error) {
		var st apierrors.APIStatus
		if errors.As(err, &st) {
			s := st.Status()
			s.Kind, s.APIVersion = "Status", "v1"
			return jsonResponse(req, int(s.Code), s)
		}
		return nil, err
	}
	if !t.allowed(j, ns, gv.Group, full, verb, name) {
		_, err := c.call(req.Context(), verb, k, "", func() (any, error) {
			t.w.probe("job_forbidden_" + full)
			return nil, apierrors.NewForbidden(schema.GroupResource{Group: gv.Group, Resource: full}, name, errors.New("not allowed"))
		})
		return fail(err)
	}
	give := func(o client.Object, code int) (*http.Response, error) {
		o = o.DeepCopyObject().(client.Object)
		if p, ok := o.(*corev1.Pod); ok {
			a.rewrite(p)
		}
		o.GetObjectKind().SetGroupVersionKind(gvk)
		return jsonResponse(req, code, o)
	}
	switch {
	case kind == "Event" && verb == "create":
		ev := &corev1.Event{}
		if err := json.Unmarshal(body, ev); err != nil {
			return nil, err
		}
		if _, err := c.call(req.Context(), "create", k, ev.Reason, func() (any, error) {
			t.w.count("event_" + ev.Reason)
			return true, nil
		}); err != nil {
			return fail(err)
		}
		return give(ev, 201)
	case verb == "get":
		o := newOf(gvk)
		if err := c.Get(req.Context(), k.NamespacedName, o); err != nil {
			return fail(err)
		}
		return give(o, 200)
	case verb == "list":
		sel, err := labels.Parse(req.URL.Query().Get("labelSelector"))
		if err != nil {
			return fail(apierrors.NewBadRequest(err.Error()))
		}
		opts := []client.ListOption{client.MatchingLabelsSelector{Selector: sel}}
		if ns != "" {
			opts = append(opts, client.InNamespace(ns))
		}
		switch kind {
		case "Pod":
			l := &corev1.PodList{}
			if err := c.List(req.Context(), l, opts...); err != nil {
				return fail(err)
			}
			for i := range l.Items {
				a.rewrite(&l.Items[i])
			}
			l.Kind, l.APIVersion = "PodList", "v1"
			return jsonResponse(req, 200, l)
		case "MySQLCluster":
			l := &mocov1beta2.MySQLClusterList{}
			if err := c.List(req.Context(), l, opts...); err != nil {
				return fail(err)
			}
			l.Kind, l.APIVersion = "MySQLClusterList", gv.String()
			return jsonResponse(req, 200, l)
		}
	case verb == "update" && kind == "MySQLCluster":
		o := newOf(gvk)
		if err := json.Unmarshal(body, o); err != nil {
			return nil, err
		}
		var err error
		if sub == "status" {
			err = c.Status().Update(req.Context(), o)
		} else {
			err = c.Update(req.Context(), o)
		}
		if err != nil {
			return fail(err)
		}
		return give(o, 200)
	case verb == "patch" && kind == "MySQLCluster":
		o := newOf(gvk)
		o.SetNamespace(ns)
		o.SetName(name)
		p := client.RawPatch(types.PatchType(req.Header.Get("Content-Type")), body)
		var err error
		if sub == "status" {
			err = c.Status().Patch(req.Context(), o, p)
		} else {
			err = c.Patch(req.Context(), o, p)
		}
		if err != nil {
			return fail(err)
		}
		return give(o, 200)
	}
	t.bad("API request of a job: %s %s", req.Method, req.URL.Path)
	return nil, errors.New("not supported")
}

// rewrite marks addresses with the process that learnt them.
func (a *apiTransport) rewrite(p *corev1.Pod) {
	m := func(ip string) string {
		f := strings.Split(ip, ".")
		if len(f) != 4 {
			return ip
		}
		f[1] = fmt.Sprint(a.j.inc.ID)
		return strings.Join(f, ".")
	}
	p.Status.PodIP = m(p.Status.PodIP)
	for i := range p.Status.PodIPs {
		p.Status.PodIPs[i].IP = m(p.Status.PodIPs[i].IP)
	}
}
