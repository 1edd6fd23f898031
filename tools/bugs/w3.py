B, R, OB, OR = 'backup/backup.go', 'backup/restore.go', 'pkg/bkop/backup.go', 'pkg/bkop/restore.go'
def H(pkg, *imports):
    return 'package %s\n\nimport (\n' % pkg + ''.join('\t%s\n' % i for i in ('"testing"',) + imports) + ')\n\n'
BKIMP = ('"bytes"', '"context"', '"errors"', '"io"', '"os"', '"path/filepath"', '"time"', 'mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"',
 '"github.com/cybozu-go/moco/pkg/bkop"', '"github.com/cybozu-go/moco/pkg/constants"', '"github.com/go-logr/logr"', 'corev1 "k8s.io/api/core/v1"', '"fmt"',
 '"k8s.io/apimachinery/pkg/runtime"', 'clientgoscheme "k8s.io/client-go/kubernetes/scheme"', '"sigs.k8s.io/controller-runtime/pkg/client"', '"sigs.k8s.io/controller-runtime/pkg/client/fake"', '"sync"')
LIB = H('backup', *BKIMP) + '''type demoBucket struct {
	mu sync.Mutex
	m  map[string][]byte
}

func (b *demoBucket) Put(ctx context.Context, key string, r io.Reader, objectSize int64) error {
	d, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.m[key] = d
	return nil
}
func (b *demoBucket) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	d, ok := b.m[key]
	if !ok {
		return nil, errors.New("no " + key)
	}
	return io.NopCloser(bytes.NewReader(d)), nil
}
func (b *demoBucket) List(ctx context.Context, prefix string) ([]string, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	var r []string
	for k := range b.m {
		r = append(r, k)
	}
	return r, nil
}

// demoOp is one instance; every call is recorded.
type demoOp struct {
	uuid, current string
	files         []string
	started       string // the file from which binary logs were taken
	filter        string
	onDump        func()
	applyErr      error
	calls         []string
}

func (o *demoOp) Ping() error { return nil }
func (o *demoOp) Close()      {}
func (o *demoOp) GetServerStatus(_ context.Context, st *bkop.ServerStatus) error {
	st.CurrentBinlog, st.UUID, st.SuperReadOnly = o.current, o.uuid, true
	return nil
}
func (o *demoOp) DumpFull(ctx context.Context, dir string) error {
	if o.onDump != nil {
		o.onDump()
	}
	return os.WriteFile(filepath.Join(dir, "@.json"), []byte(`{"gtidExecuted": "gtid1"}`), 0644)
}
func (o *demoOp) GetBinlogs(context.Context) ([]string, error) { return append([]string{}, o.files...), nil }
func (o *demoOp) DumpBinlog(ctx context.Context, dir, binlogName, filterGTID string) error {
	o.started, o.filter = binlogName, filterGTID
	return os.WriteFile(filepath.Join(dir, binlogName), []byte("x"), 0644)
}
func (o *demoOp) PrepareRestore(context.Context) error { o.calls = append(o.calls, "prepare"); return nil }
func (o *demoOp) LoadDump(ctx context.Context, dir string, schema, users string) error {
	o.calls = append(o.calls, "load")
	return nil
}
func (o *demoOp) LoadBinlog(ctx context.Context, binlogDir, tmpDir string, p time.Time, schema string) error {
	o.calls = append(o.calls, "apply")
	return o.applyErr
}
func (o *demoOp) FinishRestore(context.Context) error { o.calls = append(o.calls, "finish"); return nil }

func demoSetup(t *testing.T, op *demoOp) (*demoBucket, client.Client, *mocov1beta2.MySQLCluster) {
	t.Helper()
	s := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(s)
	_ = mocov1beta2.AddToScheme(s)
	c := &mocov1beta2.MySQLCluster{}
	c.Namespace, c.Name, c.Spec.Replicas = "ns", "test", 3
	objs := []client.Object{c}
	for i := range 3 {
		pod := &corev1.Pod{}
		pod.Namespace, pod.Name = "ns", c.PodName(i)
		pod.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: "test", constants.LabelAppCreatedBy: constants.AppCreator}
		pod.Status.PodIP = fmt.Sprintf("10.0.0.%d", i)
		pod.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodReady, Status: corev1.ConditionTrue}}
		objs = append(objs, pod)
	}
	newOperator = func(host string, port int, user, password string, threads int) (bkop.Operator, error) { return op, nil }
	return &demoBucket{m: map[string][]byte{}}, fake.NewClientBuilder().WithScheme(s).WithObjects(objs...).WithStatusSubresource(c).Build(), c
}

func demoGet(t *testing.T, k client.Client) *mocov1beta2.MySQLCluster {
	t.Helper()
	c := &mocov1beta2.MySQLCluster{}
	if err := k.Get(context.Background(), client.ObjectKey{Namespace: "ns", Name: "test"}, c); err != nil {
		t.Fatal(err)
	}
	return c
}

func demoBackup(t *testing.T, b *demoBucket, k client.Client) {
	t.Helper()
	bm := &BackupManager{log: logr.Discard(), client: k, cluster: demoGet(t, k), clusterRef: &corev1.ObjectReference{Namespace: "ns", Name: "test"}, workDir: t.TempDir(), bucket: b, threads: 1}
	if err := bm.Backup(context.Background()); err != nil {
		t.Fatal(err)
	}
}

func demoRestore(t *testing.T, b *demoBucket, k client.Client, p time.Time) error {
	t.Helper()
	rm := &RestoreManager{log: logr.Discard(), client: k, scheme: k.Scheme(), namespace: "ns", name: "test", threads: 1, bucket: b, keyPrefix: calcPrefix("ns", "test"), restorePoint: p, workDir: t.TempDir()}
	return rm.Restore(context.Background())
}

'''
BUGS = [
 dict(id="backup-position-after-dump", prop="C19", pkg="backup", helper="",
  edits=[(B, '''	// dump and upload binlog for the second or later backups
	if doBackupBinlog {''', '''	// the position may have moved since the source was chosen
	if err := op.GetServerStatus(ctx, &bm.status); err != nil {
		return fmt.Errorf("failed to get server status: %w", err)
	}

	// dump and upload binlog for the second or later backups
	if doBackupBinlog {''')],
  needs="the binary log is rotated on the source while the full dump is being taken, and the next backup uses the same source",
  breaks="the recorded binary log position is later than the dump: the next backup starts from it and lacks the transactions between, without a warning",
  demo=LIB+'''func TestDemo(t *testing.T) {
	op := &demoOp{uuid: "u", current: "binlog.000001"}
	b, k, _ := demoSetup(t, op)
	op.onDump = func() { op.current = "binlog.000002" } // the snapshot is taken, then the log is rotated
	demoBackup(t, b, k)
	if f := demoGet(t, k).Status.Backup.BinlogFilename; f != "binlog.000001" {
		t.Fatalf("the binary log position %s does not cover everything after the dump", f)
	}
}
'''),
 dict(id="backup-oldest-binlog", prop="C19", pkg="backup", helper="",
  edits=[(B, '''		bkop.SortBinlogs(binlogs)
		binlogName = binlogs[0]
''', '''		bkop.SortBinlogs(binlogs)
		binlogName = binlogs[max(0, len(binlogs)-2)]
''')],
  needs="the backup source changes between two backups and the new source has three or more binary log files with transactions after the first backup",
  breaks="binary logs of the new source are taken from a too recent file; the transactions before are missing from the stored binary logs without a warning",
  demo=LIB+'''func TestDemo(t *testing.T) {
	op := &demoOp{uuid: "u", current: "binlog.000004", files: []string{"binlog.000003", "binlog.000001", "binlog.000004", "binlog.000002"}}
	b, k, _ := demoSetup(t, op)
	demoBackup(t, b, k)
	c := demoGet(t, k)
	c.Status.CurrentPrimaryIndex = c.Status.Backup.SourceIndex // the next source is another one
	if err := k.Status().Update(context.Background(), c); err != nil {
		t.Fatal(err)
	}
	time.Sleep(1100 * time.Millisecond)
	demoBackup(t, b, k)
	if op.started != "binlog.000001" {
		t.Fatalf("binary logs are taken from %s", op.started)
	}
}
'''),
 dict(id="restore-skips-short-binlog", prop="C18", pkg="backup", helper="",
  edits=[(R, 'if !backupTime.Equal(rm.restorePoint) && binlogKey', 'if rm.restorePoint.Sub(backupTime) >= 30*time.Second && binlogKey')],
  needs="a restore point within 30 seconds after a backup with writes in between",
  breaks="the transactions between the backup and the restore point are not applied, yet the restore is declared done",
  demo=LIB+'''func TestDemo(t *testing.T) {
	op := &demoOp{uuid: "u", current: "binlog.000001", files: []string{"binlog.000001"}}
	b, k, _ := demoSetup(t, op)
	demoBackup(t, b, k)
	time.Sleep(1100 * time.Millisecond)
	demoBackup(t, b, k)
	first, _ := time.Parse(constants.BackupTimeFormat, "")
	keys, _ := b.List(context.Background(), "")
	for _, s := range keys {
		if filepath.Base(s) == constants.BinlogFilename {
			first, _ = time.Parse(constants.BackupTimeFormat, filepath.Base(filepath.Dir(s)))
		}
	}
	for s := range b.m { // only the first backup and its binary logs
		if filepath.Base(filepath.Dir(s)) != first.Format(constants.BackupTimeFormat) {
			delete(b.m, s)
		}
	}
	if err := demoRestore(t, b, k, first.Add(20*time.Second)); err != nil {
		t.Fatal(err)
	}
	for _, s := range op.calls {
		if s == "apply" {
			return
		}
	}
	t.Fatalf("the binary logs were not applied: %v", op.calls)
}
'''),
 dict(id="restore-apply-error-tolerated", prop="C20", pkg="backup", helper="",
  edits=[(R, '''			return fmt.Errorf("failed to apply transactions: %w", err)
''', '''			if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
				return fmt.Errorf("failed to apply transactions: %w", err)
			}
			// the dump has been loaded, so the data is consistent
			rm.log.Error(err, "failed to apply transactions")
''')],
  needs="mysqlbinlog, mysql, tar, zstd or the connection fails while the binary logs are being applied",
  breaks="a restore whose binary logs were applied only partly is declared done",
  demo=LIB+'''func TestDemo(t *testing.T) {
	op := &demoOp{uuid: "u", current: "binlog.000001", files: []string{"binlog.000001"}, applyErr: errors.New("mysql exited abnormally")}
	b, k, _ := demoSetup(t, op)
	demoBackup(t, b, k)
	time.Sleep(1100 * time.Millisecond)
	demoBackup(t, b, k)
	var first time.Time
	for s := range b.m {
		if filepath.Base(s) == constants.BinlogFilename {
			first, _ = time.Parse(constants.BackupTimeFormat, filepath.Base(filepath.Dir(s)))
		}
	}
	for s := range b.m {
		if filepath.Base(filepath.Dir(s)) != first.Format(constants.BackupTimeFormat) {
			delete(b.m, s)
		}
	}
	err := demoRestore(t, b, k, first.Add(time.Minute))
	if err == nil || demoGet(t, k).Status.RestoredTime != nil {
		t.Fatalf("a half-applied restore is declared done (%v, err=%v)", op.calls, err)
	}
}
'''),
]
