package sim

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/backup"
	"github.com/cybozu-go/moco/pkg/bucket"
	"github.com/cybozu-go/moco/pkg/constants"
	batchv1 "k8s.io/api/batch/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"mocosim/simbucket"
	"mocosim/simexec"
)

// World 3: world 2 plus the moco-backup processes (backup and restore jobs),
// the external programs they start, and the object storage bucket.

// simTools tells whether moco's backup code was built with simulated external programs.
var simTools bool

// jobMain runs one moco-backup process; replaced by the real command line in builds with simcmd.
var jobMain = func(ctx context.Context, args []string, password, dir string) error {
	cfg, err := ctrl.GetConfig()
	if err != nil {
		return err
	}
	sub, pos, threads := "", []string{}, 4
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "--threads="):
			fmt.Sscanf(a, "--threads=%d", &threads)
		case strings.HasPrefix(a, "--"):
		case sub == "":
			sub = a
		default:
			pos = append(pos, a)
		}
	}
	b, err := simbucket.NewS3Bucket(pos[0])
	if err != nil {
		return err
	}
	if sub == constants.BackupSubcommand {
		bm, err := backup.NewBackupManager(cfg, b, dir, pos[1], pos[2], password, threads)
		if err != nil {
			return err
		}
		return bm.Backup(ctx)
	}
	p, err := time.Parse(constants.BackupTimeFormat, pos[5])
	if err != nil {
		return err
	}
	once := func() (e error) {
		defer func() {
			if r := recover(); r != nil {
				if r != backup.ErrBadConnection {
					panic(r)
				}
				e = backup.ErrBadConnection
			}
		}()
		rm, err := backup.NewRestoreManager(cfg, b, dir, pos[1], pos[2], pos[3], pos[4], password, threads, p, pos[6], pos[7])
		if err != nil {
			return err
		}
		return rm.Restore(ctx)
	}
	for i := 0; ; i++ {
		err := once()
		if err != backup.ErrBadConnection || i == 2 {
			return err
		}
		time.Sleep(time.Second)
	}
}

// jobRun is one moco-backup process.
type jobRun struct {
	t       *w3World
	id      int
	kind    string // "backup" or "restore"
	c       *ClusterRef
	jobKey  objKey // the restore Job
	jobUID  types.UID
	args    []string
	pw, sa  string
	dir     string
	inc     *Incarnation
	ctx     context.Context
	cancel  context.CancelFunc
	start   time.Duration
	end     time.Duration
	started bool
	over    bool
	killed  bool
	err     error
	after   func(j *jobRun)

	// what happened
	sqlLost, apiLost bool
	faulty           bool // a tool, bucket, statement or API request of the job was made to fail
	recorded         bool // it wrote status.backup
	restored         bool // it wrote status.restoredTime
	prepared         bool // it made the target writable
	uuids            map[int][]string
	dump             *dumpFact
	segs             []*segFact
	gotDump          string // keys it fetched
	gotBinlog        string
	loads            int
	applyFailed      bool
	podUID           types.UID
	procs            int
	prepGen          int
	gotDumpAt        time.Time
	got              map[string][]byte
	cutAt            time.Duration
}

// dumpFact is one full dump that was taken.
type dumpFact struct {
	m    *Mysqld
	uuid string
	at   time.Duration
	snap GTIDSet
}

// segFact is one extraction of binary logs.
type segFact struct {
	m         *Mysqld
	low, high GTIDSet
}

// backupRec is one recorded (successful) backup.
type backupRec struct {
	at     time.Duration // when it was recorded
	t      time.Time
	s      GTIDSet
	warned bool
	st     mocov1beta2.BackupStatus
	job    *jobRun
}

type restoreTarget struct {
	c       *ClusterRef
	point   time.Time
	calm    bool
	created time.Duration
	done    time.Duration
	restAt  *metav1.Time
	gone    bool
	retries int
	failed  bool
	storm   bool
	after   func()
}

type w3World struct {
	w     *World
	x     *w2World
	byInc map[int]*jobRun
	cur   *jobRun
	queue []*jobRun
	jobs  []*jobRun
	dir   string
	bk    *memBucket
	recs  map[string][]*backupRec
	tgts  []*restoreTarget
	srcOf map[*restoreTarget]*ClusterRef
	txns  map[string]time.Duration
	calm  bool
	quiet bool // no new cron jobs

	mu sync.Mutex
	tf []toolFate
	bf []toolFate

	restoreEnv func()
}

type toolFate struct {
	tool, kind string
	n          int
	until      time.Duration
	cut        int
	skip       int    // so many starts are left alone first
	only       string // only in jobs of this kind
}

func (t *w3World) takeFate(l *[]toolFate, kind, tool string) (toolFate, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	now := t.w.S.Now()
	for i := range *l {
		f := &(*l)[i]
		if f.n <= 0 || f.until < now || f.tool != "" && f.tool != tool || f.only != "" && f.only != kind {
			continue
		}
		if f.skip > 0 {
			f.skip--
			continue
		}
		f.n--
		return *f, true
	}
	return toolFate{}, false
}

var w3StepClasses = []string{"", "", "", "job_tool_mysqlsh", "job_tool_mysqlbinlog", "job_tool_tar", "job_tool_zstd", "job_tool_mysql", "job_bucket_put", "job_bucket_get",
	"job_sql_open", "job_sql_close", "job_sql_setvar", "job_api_updatestatus_MySQLCluster", "job_api_create_Event", "job_snapshot", "job_load", "job_start", "job_end", "api_apply_Job",
	"job_snapshot", "job_bucket_put", "job_api_updatestatus_MySQLCluster"}

func (w *World) setupW3() {
	t := &w3World{w: w, srcOf: map[*restoreTarget]*ClusterRef{}, byInc: map[int]*jobRun{}, recs: map[string][]*backupRec{}}
	w.w3 = t
	t.bk = &memBucket{t: t, objs: map[string]*bkObject{}}
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "mocosim")
	if err != nil {
		w.S.Harness("cannot make a scratch directory: %v", err)
		return
	}
	t.dir = dir
	home, stderr, stdout, local := os.Getenv("HOME"), os.Stderr, os.Stdout, time.Local
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		w.S.Harness("%v", err)
		return
	}
	oldCfg := ctrl.GetConfig
	t.restoreEnv = func() {
		os.Setenv("HOME", home)
		os.Stderr, os.Stdout, time.Local = stderr, stdout, local
		ctrl.GetConfig = oldCfg
		simexec.Active = nil
		simbucket.New = nil
		null.Close()
		os.RemoveAll(dir)
	}
	os.Stderr, os.Stdout = null, null
	time.Local = time.FixedZone("JST", 9*3600)
	ctrl.GetConfig = t.restConfig
	simexec.Active = t
	simbucket.New = t.newBucket
	w.Cfg.Extra["backup"] = "1"
	w.setupW2()
	t.x = w.w2
	w.fireExtra = func(f *Fault, done func()) bool { return t.fire(f, done) || t.x.fire(f, done) }
	w.onShow = t.show
	w.Store.hooks = append(w.Store.hooks, t.changed)
}

// diskInited is called when a new data directory was initialised.
func (t *w3World) diskInited(m *Mysqld) {
	s := t.w.S
	m.Disk.BinNo = []int{0, 6, 96, 999997}[s.Intn("binno", 4)]
	if cl := t.w.cluster(m.Cluster); cl != nil && cl.Spec.Restore != nil {
		delete(m.Disk.Users, "app")
		if s.Chance("grants", 0.4) {
			d := s.Dur("grants", 0, 5*time.Second)
			if s.Chance("grants", 0.2) {
				d += s.Dur("grants", 0, 10*time.Second)
			}
			m.Disk.GrantsAt = s.Now() + 4*time.Second + d
		}
	}
}

// show answers the statements about binary logs.
func (t *w3World) show(m *Mysqld, q string, done func(*Result)) bool {
	u := strings.ToUpper(strings.Join(strings.Fields(strings.TrimRight(q, "; ")), " "))
	d := m.Disk
	denied := func() bool {
		if c := t.w.sqlCtx; c != nil && c.sess != nil && c.sess.OpenedAt < d.GrantsAt {
			t.w.probe("grants_missing")
			done(errResult(1227, "Access denied; you need (at least one of) the SUPER, REPLICATION CLIENT privilege(s) for this operation"))
			return true
		}
		return false
	}
	switch u {
	case "SHOW BINARY LOGS", "SHOW MASTER LOGS":
		if denied() {
			return true
		}
		r := &Result{Cols: []string{"Log_name", "File_size", "Encrypted"}}
		for i, f := range d.Files {
			end := d.BinBase + len(d.Binlog)
			if i+1 < len(d.Files) {
				end = d.Files[i+1].Start
			}
			r.Rows = append(r.Rows, []any{f.Name, fmt.Sprint(157 + 300*(end-f.Start)), "No"})
		}
		done(r)
	case "SHOW MASTER STATUS", "SHOW BINARY LOG STATUS":
		if u == "SHOW MASTER STATUS" != !strings.HasPrefix(m.Version, "8.4") {
			if u == "SHOW MASTER STATUS" || !strings.HasPrefix(m.Version, "8.4") {
				done(errResult(1064, "You have an error in your SQL syntax"))
				return true
			}
		}
		if denied() {
			return true
		}
		f := d.Files[len(d.Files)-1]
		done(&Result{Cols: []string{"File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"},
			Rows: [][]any{{f.Name, fmt.Sprint(157 + 300*(d.BinBase+len(d.Binlog)-f.Start)), "", "", d.Executed.String()}}})
	default:
		return false
	}
	return true
}

// ---- jobs ------------------------------------------------------------------------

func (t *w3World) fromSpec(j *jobRun, ps *corev1.PodSpec, ns string) bool {
	if len(ps.Containers) == 0 {
		return false
	}
	ct := ps.Containers[0]
	j.args = append([]string(nil), ct.Args...)
	j.sa = ps.ServiceAccountName
	for _, e := range ct.Env {
		if e.Name == "MYSQL_PASSWORD" && e.ValueFrom != nil && e.ValueFrom.SecretKeyRef != nil {
			o := t.w.Store.Peek(objKey{secretGVK, types.NamespacedName{Namespace: ns, Name: e.ValueFrom.SecretKeyRef.Name}})
			if o == nil {
				return false
			}
			j.pw = string(o.(*corev1.Secret).Data[e.ValueFrom.SecretKeyRef.Key])
		} else if e.Name == "MYSQL_PASSWORD" {
			j.pw = e.Value
		}
	}
	return true
}

func (t *w3World) enqueue(j *jobRun) {
	j.t = t
	j.id = len(t.jobs) + 1
	j.uuids = map[int][]string{}
	j.got = map[string][]byte{}
	j.cutAt = -time.Hour
	t.jobs = append(t.jobs, j)
	t.queue = append(t.queue, j)
	t.next()
}

func (t *w3World) next() {
	if t.cur != nil || len(t.queue) == 0 || t.w.ended {
		return
	}
	j := t.queue[0]
	t.queue = t.queue[1:]
	t.launch(j)
}

func (t *w3World) noteUUIDs(j *jobRun) {
	if j == nil || j.c == nil {
		return
	}
	for i, m := range t.w.instsOf(j.c) {
		if m.Disk == nil {
			continue
		}
		u := j.uuids[i]
		if len(u) == 0 || u[len(u)-1] != m.Disk.UUID {
			j.uuids[i] = append(u, m.Disk.UUID)
		}
	}
}

func (t *w3World) launch(j *jobRun) {
	w := t.w
	fail := func(why string) {
		w.S.Logf("job %d cannot start: %s", j.id, why)
		w.count("job_not_started")
		j.over, j.err = true, errors.New(why)
		t.jobOver(j)
	}
	switch j.kind {
	case "backup":
		o := w.Store.Peek(objKey{cronGVK, types.NamespacedName{Namespace: j.c.Namespace, Name: "moco-backup-" + j.c.Name}})
		if o == nil {
			fail("no CronJob")
			return
		}
		if !t.fromSpec(j, &o.(*batchv1.CronJob).Spec.JobTemplate.Spec.Template.Spec, j.c.Namespace) {
			fail("bad CronJob")
			return
		}
		t.cronActive(j, true)
	case "restore":
		o := w.Store.Peek(j.jobKey)
		if o == nil || o.GetUID() != j.jobUID {
			fail("the Job is gone")
			return
		}
		if !t.fromSpec(j, &o.(*batchv1.Job).Spec.Template.Spec, j.c.Namespace) {
			fail("bad Job")
			return
		}
	}
	w.incSeq++
	if w.incSeq >= 250 {
		w.S.Harness("too many processes")
		return
	}
	j.inc = w.S.NewIncarnation(w.incSeq)
	if w.ctl.incs == nil {
		w.ctl.incs = map[int]*Incarnation{}
	}
	w.ctl.incs[j.inc.ID] = j.inc
	t.byInc[j.inc.ID] = j
	t.cur = j
	j.started = true
	j.start = w.S.Now()
	j.ctx, j.cancel = context.WithCancel(context.Background())
	j.dir = filepath.Join(t.dir, fmt.Sprintf("j%d", j.id))
	if err := os.MkdirAll(j.dir, 0755); err != nil {
		w.S.Harness("%v", err)
		return
	}
	t.noteUUIDs(j)
	w.S.Logf("job start %d %s %s", j.id, j.kind, j.c.Name)
	w.count("job_" + j.kind)
	args := append(append([]string(nil), j.args...), "--work-dir="+j.dir)
	// the empty positional arguments of restore must stay where they are: flags go first
	if len(j.args) > 0 {
		args = append([]string{j.args[0], "--work-dir=" + j.dir}, j.args[1:]...)
	}
	w.S.Defer(func() {
		go func() {
			err := func() (e error) {
				defer func() {
					if r := recover(); r != nil {
						e = fmt.Errorf("panic: %v", r)
					}
				}()
				return jobMain(j.ctx, args, j.pw, j.dir)
			}()
			w.S.Call(context.Background(), nil, fmt.Sprintf("jobdone/%05d", j.id), func(r *request) {
				t.finished(j, err)
				w.S.Reply(r, true)
			})
		}()
	})
	w.S.After(0, func() { w.step("job_start") })
}

func (t *w3World) cronActive(j *jobRun, on bool) {
	k := objKey{cronGVK, types.NamespacedName{Namespace: j.c.Namespace, Name: "moco-backup-" + j.c.Name}}
	if t.w.Store.Peek(k) == nil {
		return
	}
	_ = t.w.Store.Mutate("cronctl", k, true, func(o client.Object) bool {
		cj := o.(*batchv1.CronJob)
		cj.Status.Active = nil
		if on {
			cj.Status.Active = []corev1.ObjectReference{{Kind: "Job", Namespace: k.Namespace, Name: fmt.Sprintf("%s-%d", k.Name, j.id)}}
		}
		return true
	})
}

// kill ends the process at once.
func (t *w3World) kill(j *jobRun, why string) {
	if j == nil || !j.started || j.over || j.killed {
		return
	}
	w := t.w
	w.S.Logf("job kill %d: %s", j.id, why)
	j.killed = true
	w.S.KillIncarnation(j.inc)
	for _, id := range w.connIDs() {
		wc := w.conns[id]
		if wc.inc == j.inc {
			w.S.Defer(func() { wc.cli.Close() })
		}
	}
	w.S.Defer(func() { j.cancel() })
}

func (t *w3World) finished(j *jobRun, err error) {
	w := t.w
	j.over = true
	j.end = w.S.Now()
	j.err = err
	j.cancel()
	if t.cur == j {
		t.cur = nil
	}
	msg := "ok"
	if err != nil {
		msg = strings.ReplaceAll(err.Error(), t.dir, "")
		if strings.HasPrefix(msg, "panic: ") && !j.killed {
			w.probe("job_panic")
		}
	}
	w.S.Logf("job end %d %s killed=%v: %s", j.id, j.kind, j.killed, msg)
	if err == nil {
		w.count("job_" + j.kind + "_ok")
	} else {
		w.count("job_" + j.kind + "_failed")
	}
	if !w.ended {
		t.jobEnded(j)
		w.step("job_end")
	}
	os.RemoveAll(j.dir)
	t.jobOver(j)
}

func (t *w3World) jobOver(j *jobRun) {
	if j.kind == "backup" && j.started {
		t.cronActive(j, false)
	}
	if j.kind == "restore" && !t.w.ended {
		if o := t.w.Store.Peek(j.jobKey); o != nil && o.GetUID() == j.jobUID {
			_ = t.w.Store.Mutate("jobctl", j.jobKey, true, func(o client.Object) bool {
				jb := o.(*batchv1.Job)
				typ := batchv1.JobComplete
				if j.err != nil || j.killed {
					typ = batchv1.JobFailed
					jb.Status.Failed = 1
				} else {
					jb.Status.Succeeded = 1
				}
				jb.Status.Conditions = []batchv1.JobCondition{{Type: typ, Status: corev1.ConditionTrue}}
				return true
			})
		}
	}
	if j.after != nil {
		f := j.after
		t.w.S.After(0, func() { f(j) })
	}
	t.w.S.After(0, t.next)
}

// backup runs backup processes of a cluster until one succeeds.
func (t *w3World) backup(c *ClusterRef, attempts int, done func(j *jobRun)) {
	j := &jobRun{kind: "backup", c: c}
	j.after = func(j *jobRun) {
		if (j.err != nil || j.killed) && attempts > 1 && t.w.cluster(c) != nil {
			t.w.S.After(t.w.S.Dur("backoff", 10*time.Second, 40*time.Second), func() { t.backup(c, attempts-1, done) })
			return
		}
		if done != nil {
			done(j)
		}
	}
	t.enqueue(j)
}

// cron fires backups of a cluster from time to time.
func (t *w3World) cron(c *ClusterRef, first time.Duration) {
	t.w.S.After(first, func() {
		if t.w.ended || t.quiet || t.w.cluster(c) == nil {
			return
		}
		t.backup(c, 3, func(*jobRun) {
			t.cron(c, t.w.S.Dur("cron/"+c.Name, 60*time.Second, 240*time.Second))
		})
	})
}

// jobChanged is the Job controller.
func (t *w3World) jobChanged(k objKey, old, cur client.Object) {
	w := t.w
	if !strings.HasPrefix(k.Name, "moco-restore-") {
		return
	}
	if old == nil && cur != nil {
		uid := cur.GetUID()
		c := t.x.ref(strings.TrimPrefix(k.Name, "moco-restore-"))
		if c == nil {
			return
		}
		w.S.After(w.S.Dur("jobsched", 500*time.Millisecond, 10*time.Second), func() {
			if o := w.Store.Peek(k); o == nil || o.GetUID() != uid {
				return
			}
			t.enqueue(&jobRun{kind: "restore", c: c, jobKey: k, jobUID: uid, after: func(j *jobRun) { t.restoreOver(j) }})
		})
	}
	if cur == nil && old != nil {
		for _, j := range t.jobs {
			if j.kind == "restore" && j.jobKey == k && j.jobUID == old.GetUID() {
				t.kill(j, "its Job was deleted")
			}
		}
	}
}

func (t *w3World) target(c *ClusterRef) *restoreTarget {
	for _, r := range t.tgts {
		if r.c == c {
			return r
		}
	}
	return nil
}

// restoreOver is the user looking at the outcome of a restore Job.
func (t *w3World) restoreOver(j *jobRun) {
	w := t.w
	r := t.target(j.c)
	if r == nil || w.ended || r.gone {
		return
	}
	cl := w.cluster(j.c)
	if cl == nil {
		r.gone = true
		return
	}
	if cl.Status.RestoredTime != nil {
		// "Users can safely delete a successful Job"
		if w.S.Chance("rmjob", 0.5) {
			w.S.After(w.S.logDur("rmjob", 10*time.Millisecond, 20*time.Second), func() {
				if w.Store.Peek(j.jobKey) != nil && !w.ended {
					w.count("job_deleted_after_success")
					_ = w.Store.Delete("human", j.jobKey)
				}
			})
		}
		return
	}
	if o := w.Store.Peek(j.jobKey); o == nil || o.GetUID() != j.jobUID {
		return
	}
	d := w.S.Dur("rmjob", time.Second, 20*time.Second)
	m := w.inst(j.c, 0)
	if r.retries < 2 && m != nil && m.Disk != nil && m.Disk.Executed.Empty() && !m.Disk.Loaded {
		r.retries++
		w.S.After(d, func() {
			if w.Store.Peek(j.jobKey) != nil && !w.ended {
				w.count("job_retried_by_user")
				_ = w.Store.Delete("human", j.jobKey)
			}
		})
		return
	}
	r.failed = true
	w.S.After(d, func() { t.drop(r) })
}

// drop deletes a cluster whose restoration failed.
func (t *w3World) drop(r *restoreTarget) {
	w := t.w
	if w.ended || r.gone || w.cluster(r.c) == nil {
		return
	}
	w.count("target_dropped")
	r.gone = true
	t.x.deleted[r.c.Name] = true
	_ = w.Store.Delete("human", r.c.key())
}

// restore creates a cluster that is restored from a backup of src.
func (t *w3World) restore(src *ClusterRef, n int, p time.Time, schema, users string, calm bool) *restoreTarget {
	w := t.w
	c := &ClusterRef{types.NamespacedName{Namespace: "nsmain", Name: fmt.Sprintf("rst%d", len(t.tgts)+1)}, n}
	w.clusters = append(w.clusters, c)
	r := &restoreTarget{c: c, point: p, calm: calm, created: w.S.Now()}
	t.tgts = append(t.tgts, r)
	t.srcOf[r] = src
	cl := t.x.newCluster(c.Namespace, c.Name, n)
	cl.Spec.BackupPolicyName = nil
	cl.Spec.Restore = &mocov1beta2.RestoreSpec{SourceName: src.Name, SourceNamespace: src.Namespace, RestorePoint: metav1.NewTime(p),
		Schema: schema, Users: users, JobConfig: jobConfig("sa-restore")}
	w.S.Logf("user restores %s at %s schema=%q", c.Name, p.UTC().Format(constants.BackupTimeFormat), schema)
	w.mustCreate(cl)
	w.count("restore_requested")
	t.x.touchedAt = w.S.Now()
	return r
}

// ---- faults ------------------------------------------------------------------------

func (t *w3World) fire(f *Fault, done func()) bool {
	w := t.w
	now := w.S.Now()
	c := w.clusters[0]
	switch f.Kind {
	case "j_kill":
		if t.cur != nil && !t.cur.killed {
			done()
			t.cur.faulty = true
			t.kill(t.cur, "injected")
		}
	case "j_part": // the job loses an instance
		m := w.target(c, f)
		if t.cur != nil && t.cur.kind == "restore" && f.Arg%2 == 0 {
			m = w.inst(t.cur.c, 0)
		}
		if m != nil {
			done()
			if t.cur != nil {
				t.cur.faulty = true
			}
			if f.Arg%3 != 1 {
				w.block("job", m.Node, f.Dur)
			}
			if f.Arg%3 != 2 {
				w.block(m.Node, "job", f.Dur)
			}
		}
	case "j_sql":
		done()
		kinds := []string{"lost_request", "lost_reply", "lost_reply", "lost_read"}
		classes := []string{"", "open", "close", "setvar"}
		r := sqlFateRule{kind: kinds[f.Arg%4], n: 1 + f.Arg/4%3, until: now + 300*time.Second, class: classes[f.Arg/12%4], job: true}
		if r.kind == "lost_read" {
			r.class = "read"
		}
		w.nextSQL = append(w.nextSQL, r)
	case "j_api":
		done()
		kinds := []string{"before", "after", "after", "conflict", "conflict"}
		classes := []string{"write", "write", "read", "updatestatus", "updatestatus", "Pod", "Event"}
		w.nextAPI = append(w.nextAPI, apiFateRule{kind: kinds[f.Arg%5], n: 1 + f.Arg/5%3, until: now + 300*time.Second, class: classes[f.Arg/15%7], job: true})
	case "t_fail":
		done()
		tools := []string{"mysqlsh", "mysqlbinlog", "tar", "zstd", "mysql", "tar", "mysqlbinlog", ""}
		kinds := []string{"start", "partial", "partial", "kill", "late"}
		t.mu.Lock()
		t.tf = append(t.tf, toolFate{tool: tools[f.Arg%8], kind: kinds[f.Arg/8%5], n: 1, until: now + 300*time.Second, cut: f.Arg / 40})
		t.mu.Unlock()
	case "b_fail":
		done()
		ops := []string{"put", "put", "get", "list", "put", "get"}
		kinds := []string{"early", "before", "after", "short"}
		t.mu.Lock()
		t.bf = append(t.bf, toolFate{tool: ops[f.Arg%6], kind: kinds[f.Arg/6%4], n: 1, until: now + 300*time.Second, cut: f.Arg / 24})
		t.mu.Unlock()
	case "d_rotate":
		if m := w.target(c, f); m != nil && m.Up && !m.Stalled && m.waitSessions() == 0 {
			done()
			for i := 0; i <= f.Arg%3; i++ {
				m.Disk.Rotate()
			}
		}
	case "d_purge":
		if m := w.target(c, f); m != nil && m.Up && !m.Stalled && m.PurgeFiles(1+f.Arg%6) {
			done()
		}
	case "d_expire": // every instance drops its old files
		any := false
		for _, m := range w.instsOf(c) {
			if m.Up && !m.Stalled && m.waitSessions() == 0 {
				m.Disk.Rotate()
				any = m.PurgeFiles(20) || any
			}
		}
		if any {
			done()
		}
	case "r_crash", "r_poddel", "r_stall":
		if len(t.tgts) == 0 {
			return true
		}
		r := t.tgts[f.Arg%len(t.tgts)]
		if t.cur != nil && t.cur.kind == "restore" {
			r = t.target(t.cur.c)
		}
		m := w.inst(r.c, 0)
		if m == nil || !m.Up {
			return true
		}
		done()
		if t.cur != nil {
			t.cur.faulty = true
		}
		switch f.Kind {
		case "r_crash":
			w.kl.crash(m, "injected crash")
		case "r_stall":
			w.stall(m, f.Dur)
		default:
			if p := w.pod(m); p != nil && p.DeletionTimestamp == nil {
				w.kl.deletePod(p, "human")
			}
		}
	default:
		return false
	}
	return true
}

func (t *w3World) heal() {
	t.mu.Lock()
	t.tf, t.bf = nil, nil
	t.mu.Unlock()
}

// teardown ends everything of the run; it returns false while processes are still there.
func (t *w3World) teardown() {
	t.queue = nil
	if t.cur != nil {
		t.kill(t.cur, "end of run")
	}
}

func (t *w3World) newBucketFor(j *jobRun) bucket.Bucket { return &jobBucket{t.bk, j} }

func sortedObjs(m map[string]*bkObject) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
