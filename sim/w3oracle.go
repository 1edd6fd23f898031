package sim

import (
	"fmt"
	"path"
	"reflect"
	"strconv"
	"strings"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	corev1 "k8s.io/api/core/v1"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

// ---- keys of the bucket (documented in docs/backup.md) --------------------------------

func bkKey(c *ClusterRef, at time.Time, file string) string {
	return path.Join("moco", c.Namespace, c.Name, at.UTC().Format(constants.BackupTimeFormat), file)
}

// splitKey returns the cluster's prefix, the time and the file of a key.
func splitKey(key string) (string, time.Time, string, bool) {
	f := strings.Split(key, "/")
	if len(f) != 5 || f[0] != "moco" {
		return "", time.Time{}, "", false
	}
	at, err := time.Parse(constants.BackupTimeFormat, f[3])
	return f[1] + "/" + f[2], at, f[4], err == nil
}

func (t *w3World) recsOf(c *ClusterRef) []*backupRec { return t.recs[c.Namespace+"/"+c.Name] }

func (t *w3World) noteTxn(x *Txn) {
	if t.txns == nil {
		t.txns = map[string]time.Duration{}
	}
	t.txns[x.GTID()] = x.TS
}

// ---- observations -----------------------------------------------------------------------

func (t *w3World) sql(m *Mysqld, c *wireConn, q, cl string) {
	w := t.w
	if !w.isJob(c.inc) {
		if m.Cluster == nil {
			return
		}
		o := w.cluster(m.Cluster)
		if cl == "open" && o != nil && o.Spec.Restore != nil && o.Status.RestoredTime == nil {
			w.violate("C20", "opened-before-restored", "the controller made %s writable although its cluster is not restored yet", m.Name)
		}
		return
	}
	j := t.byInc[c.inc.ID]
	if j.kind == "backup" {
		if cl != "read" {
			w.violate("C19", "backup-changes-source", "a backup executed %q on %s", q, m.Name)
		}
		return
	}
	switch cl {
	case "open":
		j.prepared = true
		j.prepGen = m.Gen
		t.onLoad(j, m)
	}
}

// onLoad is called when a job writes to an instance.
func (t *w3World) onLoad(j *jobRun, m *Mysqld) {
	w := t.w
	if j.kind != "restore" {
		w.violate("C20", "backup-writes", "a backup writes to %s", m.Name)
		return
	}
	if m != w.inst(j.c, 0) {
		w.violate("C20", "wrong-instance", "the restore of %s writes to %s", j.c.Name, m.Name)
		return
	}
	if cl := w.cluster(j.c); cl != nil && cl.Status.RestoredTime != nil {
		w.violate("C20", "restored-again", "a restore writes to %s although its cluster is restored", m.Name)
	}
}

func (t *w3World) onGet(j *jobRun, key string) {
	_, at, file, ok := splitKey(key)
	if !ok {
		return
	}
	switch file {
	case constants.DumpFilename:
		j.gotDump, j.gotDumpAt = key, at
	case constants.BinlogFilename:
		j.gotBinlog = key
	}
	j.got[key] = t.bk.objs[key].data
}

func (t *w3World) onPut(j *jobRun, key string, data []byte) {
	w := t.w
	pre, at, file, ok := splitKey(key)
	own := j.c.Namespace + "/" + j.c.Name
	if j.kind != "backup" || !ok || pre != own || file != constants.DumpFilename && file != constants.BinlogFilename {
		w.violate("C19", "foreign-object", "job %d (%s of %s) stored %s", j.id, j.kind, own, key)
		return
	}
	recs := t.recs[own]
	for i, r := range recs {
		if !r.t.Equal(at) {
			continue
		}
		if file == constants.DumpFilename {
			w.violate("C19", "overwrote-dump", "%s of a recorded backup was overwritten", key)
		} else if i != len(recs)-1 && t.bk.objs[key] != nil {
			w.violate("C19", "overwrote-binlog", "%s of a backup that is followed by another one was overwritten", key)
		}
	}
}

// changed looks at every stored object that changes.
func (t *w3World) changed(k objKey, old, cur client.Object, who string) {
	w := t.w
	if w.ended {
		return
	}
	switch k.GVK {
	case clusterGVK:
		if old == nil || cur == nil {
			return
		}
		a, b := old.(*mocov1beta2.MySQLCluster), cur.(*mocov1beta2.MySQLCluster)
		var j *jobRun
		if who == "job" && w.apiCaller != nil {
			j = t.byInc[w.apiCaller.inc.ID]
		}
		if !reflect.DeepEqual(a.Status.Backup, b.Status.Backup) {
			if j == nil || j.kind != "backup" || j.c.NamespacedName != k.NamespacedName {
				w.violate("C19", "status-changed", "status.backup of %s was changed by %s", k, who)
			} else {
				t.recorded(j, &a.Status.Backup, &b.Status.Backup)
			}
		}
		if !reflect.DeepEqual(a.Status.RestoredTime, b.Status.RestoredTime) {
			switch {
			case a.Status.RestoredTime != nil:
				w.violate("C20", "restored-twice", "status.restoredTime of %s was changed from %v to %v", k, a.Status.RestoredTime, b.Status.RestoredTime)
			case j == nil || j.kind != "restore" || j.c.NamespacedName != k.NamespacedName:
				w.violate("C20", "restored-by-other", "status.restoredTime of %s was set by %s", k, who)
			default:
				j.restored = true
				t.restoredAt(j, b)
			}
		}
		if who == "job" && !reflect.DeepEqual(a.Spec, b.Spec) {
			w.violate("C20", "spec-changed", "a job changed the specification of %s", k)
		}
	case podGVK:
		if cur == nil || who != "ctl" || cur.GetLabels()[constants.LabelMocoRole] != constants.RolePrimary {
			return
		}
		if old != nil && old.GetLabels()[constants.LabelMocoRole] == constants.RolePrimary {
			return
		}
		if m := t.podInst(k); m != nil && m.Cluster != nil {
			if cl := w.cluster(m.Cluster); cl != nil && cl.Spec.Restore != nil && cl.Status.RestoredTime == nil {
				w.violate("C20", "served-before-restored", "%s became the primary although its cluster is not restored yet", k.Name)
			}
		}
	}
}

func (t *w3World) podInst(k objKey) *Mysqld { return t.w.insts[k.Namespace+"/"+k.Name] }

// ---- C19: a backup is recorded --------------------------------------------------------------

func (t *w3World) recorded(j *jobRun, prev, st *mocov1beta2.BackupStatus) {
	w := t.w
	j.recorded = true
	at := st.Time.Time
	s, err := ParseGTIDSet(st.GTIDSet)
	if err != nil {
		w.violate("C19", "gtid", "status.backup.gtidSet is %q", st.GTIDSet)
		return
	}
	rec := &backupRec{at: w.S.Now(), t: at, s: s, warned: len(st.Warnings) > 0, st: *st.DeepCopy(), job: j}
	own := j.c.Namespace + "/" + j.c.Name
	defer func() { t.recs[own] = append(t.recs[own], rec) }()
	w.count("backup_recorded")
	if rec.warned {
		w.count("backup_warned")
	}
	bad := func(key, format string, a ...any) {
		w.violate("C19", key, "backup %s of %s is recorded, but %s", at.UTC().Format(constants.BackupTimeFormat), own, fmt.Sprintf(format, a...))
	}
	key := bkKey(j.c, at, constants.DumpFilename)
	o := t.bk.objs[key]
	if o == nil || o.job != j {
		bad("no-dump", "%s was not stored by it", key)
		return
	}
	dd, _, err := dumpOf(o.data)
	if err != nil {
		bad("bad-dump", "its dump cannot be used: %v", err)
		return
	}
	d := j.dump
	if d == nil {
		bad("no-dump", "no dump was taken")
		return
	}
	inDump, _ := ParseGTIDSet(dd.Executed)
	if !inDump.Equal(s) || !d.snap.Equal(s) {
		bad("gtid", "the recorded position is %s instead of %s", short(st.GTIDSet), short(d.snap.String()))
	}
	for _, n := range constants.MocoUsers {
		if _, ok := dd.Users[n]; ok {
			bad("moco-users", "its dump has MOCO's user %s", n)
		}
	}
	if st.DumpSize != int64(len(o.data)) {
		bad("size", "the recorded size of the dump is %d instead of %d", st.DumpSize, len(o.data))
	}
	if st.SourceUUID != d.uuid || st.SourceIndex != d.m.Index || d.m.Cluster == nil || d.m.Cluster.NamespacedName != j.c.NamespacedName {
		bad("source", "its source is %s (%s), not %d (%s)", d.m.Name, d.uuid, st.SourceIndex, st.SourceUUID)
	}
	if lo, hi := w.S.Wall(j.start).Truncate(time.Second), w.S.Wall(d.at); at.Before(lo) || at.After(hi) {
		bad("time", "its time is outside of %v to %v", lo.UTC(), hi.UTC())
	}
	for i, u := range st.UUIDSet {
		n, _ := strconv.Atoi(i)
		ok := false
		for _, x := range j.uuids[n] {
			ok = ok || x == u
		}
		if !ok {
			bad("uuids", "instance %s had UUIDs %v, not %s", i, j.uuids[n], u)
		}
	}
	if dk := d.m.Disk; dk != nil && dk.UUID == d.uuid {
		for _, f := range dk.Files {
			if f.Name != st.BinlogFilename {
				continue
			}
			for i := 0; i < f.Start-dk.BinBase && i < len(dk.Binlog); i++ {
				if x := dk.Binlog[i]; !s.Has(x.UUID, x.No) {
					bad("binlog-position", "transaction %s before %s is not part of it", x.GTID(), f.Name)
					break
				}
			}
		}
	}
	if prev.Time.IsZero() || rec.warned {
		return
	}
	bkey := bkKey(j.c, prev.Time.Time, constants.BinlogFilename)
	bo := t.bk.objs[bkey]
	if bo == nil || bo.job != j {
		bad("no-binlog", "%s was not stored by it", bkey)
		return
	}
	txns, err := binlogOf(bo.data)
	if err != nil {
		bad("bad-binlog", "%s cannot be used: %v", bkey, err)
		return
	}
	ps, _ := ParseGTIDSet(prev.GTIDSet)
	have := GTIDSet{}
	for _, x := range txns {
		have.Add(x.UUID, x.No)
	}
	if miss := s.Minus(ps).Minus(have); !miss.Empty() {
		bad("gap", "there is no warning, and the binary logs that connect it with the previous one lack %s", short(miss.String()))
	}
	if st.BinlogSize != int64(len(bo.data)) {
		bad("size", "the recorded size of the binary logs is %d instead of %d", st.BinlogSize, len(bo.data))
	}
}

// ---- C18, C20: a cluster is declared restored -------------------------------------------------

func (t *w3World) second(ts time.Duration) int64 { return t.w.S.Wall(ts).Unix() }

func (t *w3World) restoredAt(j *jobRun, cl *mocov1beta2.MySQLCluster) {
	w := t.w
	r := t.target(j.c)
	m := w.inst(j.c, 0)
	if r == nil || m == nil || m.Disk == nil {
		return
	}
	r.done = w.S.Now()
	w.count("restored")
	dk := m.Disk
	switch {
	case dk.Partial:
		w.violate("C20", "half-loaded", "%s is declared restored, but the dump is half loaded", j.c.Name)
	case j.applyFailed:
		w.violate("C20", "half-applied", "%s is declared restored, but applying the binary logs failed", j.c.Name)
	case j.loads == 0:
		w.violate("C20", "nothing-loaded", "%s is declared restored, but nothing was loaded", j.c.Name)
	}
	if m.Up && !m.SuperRO {
		w.violate("C20", "left-writable", "%s is declared restored while its instance is still writable", j.c.Name)
	}
	if m.Up && isTrue(m.Vars["local_infile"]) {
		w.violate("C20", "left-infile", "%s is declared restored while local_infile is on", j.c.Name)
	}

	// what should be there
	p := r.point
	src := t.x.ref(cl.Spec.Restore.SourceName)
	R := dk.Executed
	i, i2, next := t.recFor(src, p)
	loaded := t.dumpSet(j.got[j.gotDump])
	if loaded == nil {
		return
	}
	var seg []*Txn
	if j.gotBinlog != "" {
		seg, _ = binlogOf(j.got[j.gotBinlog])
	}
	// what was fetched must be there
	for _, x := range seg {
		if t.second(x.TS) >= p.Unix() {
			break
		}
		if !R.Has(x.UUID, x.No) {
			w.violate("C20", "half-applied", "%s is declared restored, but %s of %s was not applied", j.c.Name, x.GTID(), j.gotBinlog)
			break
		}
	}
	if x := loaded.Minus(R); !x.Empty() {
		w.violate("C20", "half-loaded", "%s is declared restored, but %s of %s was not loaded", j.c.Name, short(x.String()), j.gotDump)
	}
	// upper bound
	upper := loaded.Clone()
	if j.gotBinlog != "" && path.Dir(j.gotBinlog) != path.Dir(j.gotDump) {
		w.violate("C18", "mixed-backups", "%s was restored from %s and %s", j.c.Name, j.gotDump, j.gotBinlog)
	}
	for _, x := range seg {
		if t.second(x.TS) < p.Unix() {
			upper.Add(x.UUID, x.No)
		}
	}
	if pre, _, _, _ := splitKey(j.gotDump); pre != src.Namespace+"/"+src.Name {
		w.violate("C18", "wrong-source", "%s was restored from %s", j.c.Name, j.gotDump)
	}
	if j.gotDumpAt.After(p) {
		w.violate("C18", "later-dump", "%s was restored to %v from the later dump %s", j.c.Name, p.UTC(), j.gotDump)
	}
	if x := R.Minus(upper); !x.Empty() {
		w.violate("C18", "extra", "%s is restored to %v, but has %s, which %s", j.c.Name, p.UTC(), short(x.String()), t.whenOf(x))
	}
	// lower bound
	if i != nil {
		lower := i.s.Clone()
		if next && !i2.warned {
			obj := t.bk.objs[bkKey(src, i.t, constants.BinlogFilename)]
			late := GTIDSet{}
			if obj != nil {
				txns, _ := binlogOf(obj.data)
				on := false
				for _, x := range txns {
					on = on || t.second(x.TS) >= p.Unix()
					if on {
						late.Add(x.UUID, x.No)
					}
				}
			}
			for u, ivs := range i2.s.Minus(i.s).Minus(late) {
				for _, iv := range ivs {
					for n := iv.lo; n <= iv.hi; n++ {
						if ts, ok := t.txns[fmt.Sprintf("%s:%d", u, n)]; ok && t.second(ts) < p.Unix() {
							lower.Add(u, n)
						}
					}
				}
			}
		}
		w.count("restore_judged")
		if x := lower.Minus(R); !x.Empty() {
			key := "missing"
			if !j.gotDumpAt.Equal(i.t) && t.orphan(src, j.gotDumpAt) {
				key = "orphan-dump"
			}
			w.violate("C18", key, "%s is restored to %v from %s, but lacks %s, which %s (backup %v, next %v)", j.c.Name, p.UTC(), j.gotDump, short(x.String()), t.whenOf(x), i.t.UTC(), i2Time(i2))
		}
	} else {
		w.count("restored_without_record")
	}
	// the data itself
	sch := cl.Spec.Restore.Schema
	want := t.dumpMissing(j.got[j.gotDump])
	if sch != "" {
		for u, ivs := range R {
			for _, iv := range ivs {
				for n := iv.lo; n <= iv.hi; n++ {
					if schemaOf(n) != sch {
						want.Add(u, n)
					}
				}
			}
		}
	}
	if !dk.Missing.Equal(want) {
		w.violate("C18", "data", "%s (schema %q) lacks the data of %s instead of %s", j.c.Name, sch, short(dk.Missing.String()), short(want.String()))
	}
	if us := cl.Spec.Restore.Users; us == "" || listOf(us)["app"] {
		if dk.Users["app"] != "app" {
			w.violate("C18", "users", "the users of the source are not restored in %s", j.c.Name)
		}
	} else if _, ok := dk.Users["app"]; ok {
		w.violate("C18", "users", "user app was restored in %s although it was not asked for", j.c.Name)
	}
	if dk.Users[constants.AdminUser] != j.pw {
		w.violate("C18", "users", "the password of %s changed in %s", constants.AdminUser, j.c.Name)
	}
}

func i2Time(r *backupRec) string {
	if r == nil {
		return "none"
	}
	return fmt.Sprintf("%v warned=%v", r.t.UTC(), r.warned)
}

func (t *w3World) whenOf(g GTIDSet) string {
	for _, u := range sortedKeys(g) {
		for _, iv := range g[u] {
			if ts, ok := t.txns[fmt.Sprintf("%s:%d", u, iv.lo)]; ok {
				return fmt.Sprintf("was executed from %v on", t.w.S.Wall(ts).UTC().Format("15:04:05.000"))
			}
		}
	}
	return "is unknown"
}

// recFor returns the latest recorded backup of a cluster not after p, and the one after it.
func (t *w3World) recFor(src *ClusterRef, p time.Time) (*backupRec, *backupRec, bool) {
	if src == nil {
		return nil, nil, false
	}
	var r *backupRec
	for _, x := range t.recsOf(src) {
		if x.t.After(p) {
			return r, x, true
		}
		r = x
	}
	return r, nil, false
}

// orphan tells whether no recorded backup has this time.
func (t *w3World) orphan(src *ClusterRef, at time.Time) bool {
	for _, x := range t.recsOf(src) {
		if x.t.Equal(at) {
			return false
		}
	}
	return true
}

func (t *w3World) dumpSet(obj []byte) GTIDSet {
	dd, _, err := dumpOf(obj)
	if err != nil {
		return nil
	}
	g, _ := ParseGTIDSet(dd.Executed)
	return g
}

func (t *w3World) dumpMissing(obj []byte) GTIDSet {
	if dd, _, err := dumpOf(obj); err == nil {
		if g, err := ParseGTIDSet(dd.Missing); err == nil {
			return g
		}
	}
	return GTIDSet{}
}

// jobEnded is called when a process is gone.
func (t *w3World) jobEnded(j *jobRun) {
	w := t.w
	cl := w.cluster(j.c)
	if cl == nil || cl.DeletionTimestamp != nil {
		return
	}
	switch j.kind {
	case "backup":
		if j.err == nil && !j.killed && !j.recorded {
			w.violate("C19", "silent-failure", "a backup of %s ended successfully without being recorded", j.c.Name)
		}
		if j.err != nil && !j.killed && j.recorded && !j.apiLost {
			w.violate("C19", "false-failure", "a backup of %s was recorded, but reported as failed: %v", j.c.Name, j.err)
		}
	case "restore":
		if j.err == nil && !j.killed && cl.Status.RestoredTime == nil {
			w.violate("C20", "silent-failure", "the restore of %s ended successfully, but the cluster is not declared restored", j.c.Name)
		}
		m := w.inst(j.c, 0)
		if j.err != nil && !j.killed && j.prepared && m != nil && m.Up && m.Gen == j.prepGen && !m.SuperRO && cl.Status.RestoredTime == nil &&
			!j.sqlLost && w.both("job", m.Node) && !m.Stalled && w.S.Now()-j.cutAt > 60*time.Second {
			w.violate("C20", "failed-writable", "the restore of %s failed (%v) and left the instance writable", j.c.Name, j.err)
		}
	}
}

// tick is called every second.
func (t *w3World) tick() {
	j := t.cur
	if j == nil {
		return
	}
	t.noteUUIDs(j)
	if m := t.w.inst(j.c, 0); j.kind == "restore" && m != nil && (!t.w.both("job", m.Node) || m.Stalled) {
		j.cutAt = t.w.S.Now()
	}
}

var _ = corev1.Pod{}
