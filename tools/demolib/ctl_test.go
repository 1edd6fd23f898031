package controllers

import (
	"context"
	"testing"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/prometheus/client_golang/prometheus"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
)

func demoScheme(t *testing.T) *runtime.Scheme {
	t.Helper()
	s := runtime.NewScheme()
	if err := clientgoscheme.AddToScheme(s); err != nil {
		t.Fatal(err)
	}
	if err := mocov1beta2.AddToScheme(s); err != nil {
		t.Fatal(err)
	}
	return s
}

func demoClient(t *testing.T, f interceptor.Funcs, objs ...client.Object) client.WithWatch {
	t.Helper()
	return fake.NewClientBuilder().WithScheme(demoScheme(t)).WithObjects(objs...).
		WithStatusSubresource(&mocov1beta2.MySQLCluster{}).WithInterceptorFuncs(f).WithReturnManagedFields().Build()
}

func demoReconciler(t *testing.T, c client.Client) *MySQLClusterReconciler {
	t.Helper()
	metrics.Register(prometheus.NewRegistry())
	return &MySQLClusterReconciler{
		Client: c, Scheme: c.Scheme(), Recorder: record.NewFakeRecorder(100), SystemNamespace: "system",
		ClusterManager: &mockManager{clusters: map[string]struct{}{}}, MySQLConfigMapHistoryLimit: 10,
	}
}

func demoCluster() *mocov1beta2.MySQLCluster {
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name, c.UID, c.Generation = "ns", "test", "uid-1", 1
	c.Spec.Replicas = 3
	return c
}

var _ = context.Background
