package clustering

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	agent "github.com/cybozu-go/moco-agent/proto"
	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	"github.com/cybozu-go/moco/pkg/dbop"
	"github.com/cybozu-go/moco/pkg/metrics"
	"github.com/cybozu-go/moco/pkg/password"
	"github.com/prometheus/client_golang/prometheus"
	"google.golang.org/grpc"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/types"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/tools/record"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"
)

var (
	_ = errors.New
	_ = fmt.Sprint
	_ = strings.Join
	_ = time.Second
	_ interceptor.Funcs
)

// demoDB is one instance: a status and hooks, with simple GTID sets ("a:1,a:2").
type demoDB struct {
	name  string
	down  bool
	st    dbop.MySQLInstanceStatus
	log   *[]string
	onRO  func(ro bool)
	onGet func()
	onCfg func(src dbop.AccessInfo, semisync bool)
	onIO  func()
	onPri func(n int)
	wait  func(gtid string) error
	kill  func()
}

type demoOp struct{ *demoDB }

func (o demoOp) add(f string, a ...any) { *o.log = append(*o.log, o.name+" "+fmt.Sprintf(f, a...)) }
func (o demoOp) Name() string           { return o.name }
func (o demoOp) Close() error           { return nil }
func (o demoOp) GetStatus(context.Context) (*dbop.MySQLInstanceStatus, error) {
	if o.down {
		return nil, errors.New("down")
	}
	if o.onGet != nil {
		o.onGet()
	}
	st := o.st
	if st.GlobalStatus == nil {
		st.GlobalStatus = &dbop.GlobalStatus{}
	}
	if st.ReplicaStatus != nil {
		rs := *st.ReplicaStatus
		st.ReplicaStatus = &rs
	}
	return &st, nil
}
func gset(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			m[x] = true
		}
	}
	return m
}
func (o demoOp) SubtractGTID(_ context.Context, a, b string) (string, error) {
	if o.down {
		return "", errors.New("down")
	}
	bm := gset(b)
	var r []string
	for _, x := range strings.Split(a, ",") {
		if x != "" && !bm[x] {
			r = append(r, x)
		}
	}
	return strings.Join(r, ","), nil
}
func (o demoOp) IsSubsetGTID(ctx context.Context, a, b string) (bool, error) {
	s, err := o.SubtractGTID(ctx, a, b)
	return s == "", err
}
func (o demoOp) ConfigureReplica(_ context.Context, src dbop.AccessInfo, semisync bool) error {
	if o.down {
		return errors.New("down")
	}
	o.add("replica %s %v", src.Host, semisync)
	if o.onCfg != nil {
		o.onCfg(src, semisync)
	}
	return nil
}
func (o demoOp) ConfigurePrimary(_ context.Context, n int) error {
	if o.down {
		return errors.New("down")
	}
	o.add("primary %d", n)
	o.st.GlobalVariables.SemiSyncMasterEnabled = true
	o.st.GlobalVariables.WaitForSlaveCount = n
	if o.onPri != nil {
		o.onPri(n)
	}
	return nil
}
func (o demoOp) StopReplicaIOThread(context.Context) error {
	if o.down {
		return errors.New("down")
	}
	o.add("stopio")
	if o.st.ReplicaStatus != nil {
		o.st.ReplicaStatus.ReplicaIORunning = "No"
	}
	if o.onIO != nil {
		o.onIO()
	}
	return nil
}
func (o demoOp) WaitForGTID(_ context.Context, g string, _ int) error {
	if o.down {
		return errors.New("down")
	}
	o.add("wait %s", g)
	if o.wait != nil {
		return o.wait(g)
	}
	return nil
}
func (o demoOp) SetReadOnly(_ context.Context, ro bool) error {
	if o.down {
		return errors.New("down")
	}
	o.add("readonly %v", ro)
	if o.onRO != nil {
		o.onRO(ro)
	}
	o.st.GlobalVariables.ReadOnly = ro
	o.st.GlobalVariables.SuperReadOnly = ro
	return nil
}
func (o demoOp) KillConnections(context.Context) error {
	if o.down {
		return errors.New("down")
	}
	o.add("kill")
	if o.kill != nil {
		o.kill()
	}
	return nil
}

type demoFactory struct{ dbs []*demoDB }

func (f *demoFactory) New(_ context.Context, _ *mocov1beta2.MySQLCluster, _ *password.MySQLPassword, i int) (dbop.Operator, error) {
	return demoOp{f.dbs[i]}, nil
}
func (f *demoFactory) Cleanup() {}

type demoAgents struct {
	log     *[]string
	onClone func(i int)
}

type demoAgent struct {
	a *demoAgents
	i int
}

func (a *demoAgents) New(_ context.Context, _ *mocov1beta2.MySQLCluster, i int) (AgentConn, error) {
	return &demoAgent{a, i}, nil
}
func (a *demoAgent) Close() error { return nil }
func (a *demoAgent) Clone(_ context.Context, in *agent.CloneRequest, _ ...grpc.CallOption) (*agent.CloneResponse, error) {
	*a.a.log = append(*a.a.log, fmt.Sprintf("db%d clone", a.i))
	if a.a.onClone != nil {
		a.a.onClone(a.i)
	}
	return &agent.CloneResponse{}, nil
}

// demo is a cluster of n instances, all healthy, primary 0.
type demo struct {
	t      *testing.T
	n      int
	dbs    []*demoDB
	log    []string
	c      client.Client
	p      *managerProcess
	ctx    context.Context
	agents *demoAgents
	ic     interceptor.Funcs
}

func newDemo(t *testing.T, n int, mod func(c *mocov1beta2.MySQLCluster)) *demo {
	d := &demo{t: t, n: n, ctx: context.Background()}
	statusCheckRetryInterval = time.Millisecond
	waitForCloneRestartDuration = time.Millisecond
	waitForRoleChangeDuration = time.Millisecond
	metrics.Register(prometheus.NewRegistry())
	sch := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(sch)
	_ = mocov1beta2.AddToScheme(sch)
	cl := &mocov1beta2.MySQLCluster{}
	cl.Namespace, cl.Name = "test", "test"
	cl.Spec.Replicas = int32(n)
	cl.Spec.ServerIDBase = 10
	if mod != nil {
		mod(cl)
	}
	pw, err := password.NewMySQLPassword()
	if err != nil {
		t.Fatal(err)
	}
	sec := pw.ToSecret()
	sec.Namespace, sec.Name = "test", cl.UserSecretName()
	objs := []client.Object{cl, sec}
	for i := 0; i < n; i++ {
		pod := &corev1.Pod{}
		pod.Namespace, pod.Name = "test", cl.PodName(i)
		role := constants.RoleReplica
		if i == cl.Status.CurrentPrimaryIndex {
			role = constants.RolePrimary
		}
		pod.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: "test", constants.LabelMocoRole: role}
		pod.Status.PodIP = fmt.Sprintf("10.0.0.%d", i+1)
		pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		objs = append(objs, pod)
		db := &demoDB{name: fmt.Sprintf("db%d", i), log: &d.log}
		db.st.GlobalVariables.UUID = fmt.Sprintf("u%d", i)
		db.st.GlobalVariables.ExecutedGTID = "u0:1,u0:2"
		d.dbs = append(d.dbs, db)
	}
	pi := cl.Status.CurrentPrimaryIndex
	for i, db := range d.dbs {
		if i == pi {
			db.st.GlobalVariables.SemiSyncMasterEnabled = true
			db.st.GlobalVariables.WaitForSlaveCount = n / 2
			for j := range d.dbs {
				if j != pi {
					db.st.ReplicaHosts = append(db.st.ReplicaHosts, dbop.ReplicaHost{ServerID: 10 + int32(j)})
				}
			}
			continue
		}
		db.st.GlobalVariables.ReadOnly = true
		db.st.GlobalVariables.SuperReadOnly = true
		db.st.GlobalVariables.SemiSyncSlaveEnabled = true
		db.st.ReplicaStatus = &dbop.ReplicaStatus{SourceHost: cl.PodHostname(pi), ReplicaIORunning: "Yes", ReplicaSQLRunning: "Yes", RetrievedGtidSet: "u0:1,u0:2", ExecutedGtidSet: "u0:1,u0:2"}
	}
	d.c = fake.NewClientBuilder().WithScheme(sch).WithStatusSubresource(&mocov1beta2.MySQLCluster{}, &corev1.Pod{}).WithObjects(objs...).
		WithInterceptorFuncs(interceptor.Funcs{
			Patch: func(ctx context.Context, c client.WithWatch, o client.Object, p client.Patch, opts ...client.PatchOption) error {
				d.log = append(d.log, "patch "+o.GetName())
				if d.ic.Patch != nil {
					return d.ic.Patch(ctx, c, o, p, opts...)
				}
				return c.Patch(ctx, o, p, opts...)
			},
			SubResourceUpdate: func(ctx context.Context, c client.Client, s string, o client.Object, opts ...client.SubResourceUpdateOption) error {
				if d.ic.SubResourceUpdate != nil {
					return d.ic.SubResourceUpdate(ctx, c, s, o, opts...)
				}
				return c.SubResource(s).Update(ctx, o, opts...)
			},
		}).Build()
	d.agents = &demoAgents{log: &d.log}
	d.p = newManagerProcess(d.c, d.c, record.NewFakeRecorder(1000), &demoFactory{d.dbs}, d.agents, types.NamespacedName{Namespace: "test", Name: "test"}, func() {})
	return d
}

func (d *demo) do() (bool, error) { d.t.Helper(); return d.p.do(d.ctx) }
func (d *demo) cluster() *mocov1beta2.MySQLCluster {
	cl := &mocov1beta2.MySQLCluster{}
	if err := d.c.Get(d.ctx, client.ObjectKey{Namespace: "test", Name: "test"}, cl); err != nil {
		d.t.Fatal(err)
	}
	return cl
}
func (d *demo) pod(i int) *corev1.Pod {
	p := &corev1.Pod{}
	if err := d.c.Get(d.ctx, client.ObjectKey{Namespace: "test", Name: d.cluster().PodName(i)}, p); err != nil {
		d.t.Fatal(err)
	}
	return p
}
func (d *demo) setPod(i int, f func(p *corev1.Pod)) {
	p := d.pod(i)
	f(p)
	if err := d.c.Update(d.ctx, p); err != nil {
		d.t.Fatal(err)
	}
}
func (d *demo) setReady(i int, ready bool) {
	p := d.pod(i)
	s := corev1.ConditionFalse
	if ready {
		s = corev1.ConditionTrue
	}
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: s}}
	if err := d.c.Status().Update(d.ctx, p); err != nil {
		d.t.Fatal(err)
	}
}
func (d *demo) cond(typ string) metav1.ConditionStatus {
	for _, c := range d.cluster().Status.Conditions {
		if c.Type == typ {
			return c.Status
		}
	}
	return "?"
}
func (d *demo) did(s string) bool {
	for _, l := range d.log {
		if l == s {
			return true
		}
	}
	return false
}
