package sim

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cybozu-go/moco/pkg/constants"
)

// Txn is one transaction in a binary or relay log.
type Txn struct {
	UUID   string
	No     int64
	TS     time.Duration // when it was executed on its origin
	Origin string        // pod (or "ext") on which it was first executed
	Write  *AppWrite     // nil for operator / external writes
	Kind   string        // "app", "human", "ext", "init"
}

func (t *Txn) GTID() string { return fmt.Sprintf("%s:%d", t.UUID, t.No) }

// SourceConf is the replication channel configuration.
type SourceConf struct {
	Host, User, Password string
	Port                 int
	AutoPos              bool
}

// Disk is what survives a crash of mysqld: the contents of its volume.
type Disk struct {
	ID        string
	UUID      string
	Inited    bool
	Executed  GTIDSet
	Purged    GTIDSet
	PurgedAt  map[string]time.Duration // gtid -> when it was purged
	Binlog    []*Txn
	Relay     []*Txn // not yet applied part only
	Retrieved GTIDSet
	Source    *SourceConf
	Users     map[string]string
	Clone     string // performance_schema.clone_status.state, "" = no row
	DataFrom  string
	Owner     string // instance it belongs to

	Files    []binFile // binary log files, oldest first
	BinBase  int       // absolute position of Binlog[0]
	BinNo    int       // number of the last file
	Missing  GTIDSet   // executed transactions whose data is not there (restored partially)
	Loaded   bool      // a dump was loaded into it, at least in part
	Partial  bool      // a dump is being loaded, or was left half loaded
	GrantsAt time.Duration
}

// binFile is one binary log file; Start is the absolute position of its first transaction.
type binFile struct {
	Name  string
	Start int
}

// Rotate opens a new binary log file.
func (d *Disk) Rotate() {
	d.BinNo++
	d.Files = append(d.Files, binFile{fmt.Sprintf("binlog.%06d", d.BinNo), d.BinBase + len(d.Binlog)})
}

// fileOf returns the index of the file that holds the transaction at Binlog[i].
func (d *Disk) fileOf(i int) int {
	for k := len(d.Files) - 1; k > 0; k-- {
		if d.Files[k].Start <= d.BinBase+i {
			return k
		}
	}
	return 0
}

// PurgeFiles drops the oldest n files, as expiry would, if they may go.
func (m *Mysqld) PurgeFiles(n int) bool {
	d := m.Disk
	if n >= len(d.Files) {
		n = len(d.Files) - 1
	}
	for ; n > 0; n-- {
		cut := d.Files[n].Start - d.BinBase
		ok := true
		for i := 0; i < cut && ok; i++ {
			t := d.Binlog[i]
			ok = d.Executed.Has(t.UUID, t.No)
			if m.Cluster != nil {
				for _, x := range m.W.instsOf(m.Cluster) {
					ok = ok && x.Disk != nil && x.Disk.Executed.Has(t.UUID, t.No)
				}
			}
		}
		for _, k := range sortedKeys(m.dumps) {
			ok = ok && (!m.dumps[k].open || m.dumps[k].pos >= cut)
		}
		if ok {
			m.PurgeBinlog(len(d.Binlog) - cut)
			d.Files = append([]binFile(nil), d.Files[n:]...)
			m.W.S.Logf("mysqld purge %s to %s", m.Name, d.Files[0].Name)
			return true
		}
	}
	return false
}

func newDisk(id, uuid string) *Disk {
	return &Disk{ID: id, UUID: uuid, Executed: GTIDSet{}, Purged: GTIDSet{}, Retrieved: GTIDSet{},
		Users: map[string]string{}, PurgedAt: map[string]time.Duration{}, Missing: GTIDSet{}}
}

// Received is everything the instance holds: executed, waiting in the binlog, or in the relay log.
func (d *Disk) Received() GTIDSet {
	g := d.Executed.Clone()
	for _, t := range d.Relay {
		g.Add(t.UUID, t.No)
	}
	for i := len(d.Binlog) - 1; i >= 0 && i >= len(d.Binlog)-64; i-- {
		g.Add(d.Binlog[i].UUID, d.Binlog[i].No)
	}
	return g
}

func (d *Disk) Holds(t *Txn) bool {
	if d.Executed.Has(t.UUID, t.No) {
		return true
	}
	for _, r := range d.Relay {
		if r.UUID == t.UUID && r.No == t.No {
			return true
		}
	}
	return false
}

// Session is a client connection as mysqld sees it.
type Session struct {
	ID       uint64
	User     string
	Host     string
	OpenedAt time.Duration
	Via      string // "primary", "replica", "local", "ctl", "repl", ...
	App      *App
	conn     *wireConn
	stmt     *stmt
	dead     bool
}

// stmt is a running write.
type stmt struct {
	sess   *Session
	write  *AppWrite
	txn    *Txn
	state  string // "blocked" (global read lock pending), "running", "waiting"
	acks   map[string]bool
	ev     *event
	noneed bool
}

// MySQLError is returned to the client.
type MySQLError struct {
	No  uint16
	Msg string
}

func (e *MySQLError) Error() string { return fmt.Sprintf("Error %d: %s", e.No, e.Msg) }

type roWait struct {
	sess  *Session
	super bool
	done  func(err *MySQLError)
}

type gtidWait struct {
	sess *Session
	set  GTIDSet
	done func(timeout bool)
	ev   *event
}

// Mysqld is one simulated server process.
type Mysqld struct {
	W       *World
	Name    string // pod name, or "ext"
	Node    string // network identity
	Kind    string // "ext" for an external server
	Index   int
	Host    string // DNS name by which replicas reach it
	IP      string
	Disk    *Disk
	Cluster *ClusterRef
	Version string
	SrvID   int32

	Up       bool
	BootAt   time.Duration
	Gen      int // incremented at every stop
	Stalled  bool
	held     []func()
	initing  bool
	cloneRun bool

	ReadOnly, SuperRO bool
	SSMaster, SSSlave bool
	SSWait            int
	SSTimeout         int64
	ssOff             bool // semi-sync has timed out and works asynchronously for now
	Vars              map[string]string

	IO, SQL              string // "No", "Connecting", "Yes" / "No","Yes"
	IOErrno, SQLErrno    int
	IOError, SQLError    string
	ioGen                int
	sqlGen               int
	src                  *replConn // our upstream connection
	dumps                map[string]*replConn
	ApplyHold            time.Duration // SQL thread is stalled until then
	ApplySlow            time.Duration
	sessions             map[uint64]*Session
	stmts                []*stmt
	ro                   []*roWait
	gw                   []*gtidWait
	lastRO               time.Duration // last time it became read-only
	OpenedAt             time.Duration // last time read_only went 1 -> 0
	Opens                int
	KillReleases         bool
	LastIOGap            time.Duration
	applying             bool
	ReplicaStartedAt     time.Duration
	readyTick            uint64
	DemotedAt            time.Duration
	firstConfiguredClone bool
}

func (m *Mysqld) nextGNO() int64 {
	var n int64
	for _, iv := range m.Disk.Executed[m.Disk.UUID] {
		if iv.hi > n {
			n = iv.hi
		}
	}
	for i := len(m.Disk.Binlog) - 1; i >= 0; i-- {
		t := m.Disk.Binlog[i]
		if t.UUID == m.Disk.UUID && t.No > n {
			n = t.No
		}
		if len(m.Disk.Binlog)-i > 256 {
			break
		}
	}
	return n + 1
}

// Start boots the server on its disk, doing crash recovery.
func (m *Mysqld) Start() {
	s := m.W.S
	m.Up = true
	m.BootAt = s.Now()
	m.ReadOnly, m.SuperRO = true, true
	if m.W.bootVars != nil {
		m.W.bootVars(m)
	}
	m.SSMaster, m.SSSlave = false, false
	m.SSWait = 1
	m.SSTimeout = 10000
	m.ssOff = false
	m.Vars = map[string]string{}
	m.IO, m.SQL = "No", "No"
	m.IOErrno, m.SQLErrno, m.IOError, m.SQLError = 0, 0, "", ""
	m.sessions = map[uint64]*Session{}
	m.dumps = map[string]*replConn{}
	m.stmts, m.ro, m.gw = nil, nil, nil
	m.src = nil
	m.applying = false
	m.Stalled = false
	// recovery: everything in the binary log is committed
	for _, t := range m.Disk.Binlog {
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			m.Disk.Executed.Add(t.UUID, t.No)
			m.W.S.Logf("mysqld recover %s %s", m.Name, t.GTID())
			m.W.probe("recovered_unacked")
		}
	}
	m.Disk.Rotate()
	// drop relay entries that are already executed
	m.trimRelay()
	// background threads visible in the process list
	m.newSession("event_scheduler", "localhost", "sys")
	s.Logf("mysqld up %s executed=%s", m.Name, short(m.Disk.Executed.String()))
}

func (m *Mysqld) trimRelay() {
	var r []*Txn
	for _, t := range m.Disk.Relay {
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			r = append(r, t)
		}
	}
	m.Disk.Relay = r
}

// Down stops the server. Nothing volatile survives.
func (m *Mysqld) Down(why string) {
	if !m.Up {
		return
	}
	s := m.W.S
	s.Logf("mysqld down %s (%s)", m.Name, why)
	m.W.orc.inst(m).unreachAt = s.Now()
	m.Up = false
	m.Gen++
	m.ioGen++
	m.sqlGen++
	for _, id := range m.sessionIDs() {
		m.dropSession(m.sessions[id], "server shutdown")
	}
	m.sessions = map[uint64]*Session{}
	for _, g := range m.gw {
		s.Cancel(g.ev)
	}
	m.gw, m.ro, m.stmts = nil, nil, nil
	m.IO, m.SQL = "No", "No"
	if m.src != nil {
		m.src.close(false)
		m.src = nil
	}
	for _, k := range sortedKeys(m.dumps) {
		m.dumps[k].close(true)
	}
	m.dumps = map[string]*replConn{}
	m.held = nil
	m.cloneRun = false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Mysqld) sessionIDs() []uint64 {
	ids := make([]uint64, 0, len(m.sessions))
	for id := range m.sessions {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (m *Mysqld) newSession(user, host, via string) *Session {
	m.W.connSeq++
	ss := &Session{ID: m.W.connSeq, User: user, Host: host, OpenedAt: m.W.S.Now(), Via: via}
	m.sessions[ss.ID] = ss
	return ss
}

// dropSession closes a session; the peer notices (unless it is partitioned).
func (m *Mysqld) dropSession(ss *Session, why string) {
	if ss == nil || ss.dead {
		return
	}
	ss.dead = true
	delete(m.sessions, ss.ID)
	if ss.stmt != nil {
		m.abortStmt(ss.stmt)
	}
	for _, r := range append([]*roWait(nil), m.ro...) {
		if r.sess == ss {
			m.removeRO(r)
		}
	}
	for _, g := range append([]*gtidWait(nil), m.gw...) {
		if g.sess == ss {
			m.removeGW(g)
		}
	}
	if ss.conn != nil {
		c := ss.conn
		m.W.S.Defer(func() { c.shutdown() })
	}
	if ss.App != nil {
		ss.App.lost(ss, why)
	}
	m.checkRO()
}

// ---- writes -------------------------------------------------------------

// Write starts a write statement in an application session.
func (m *Mysqld) Write(ss *Session, w *AppWrite, dur time.Duration) {
	st := &stmt{sess: ss, write: w, acks: map[string]bool{}}
	ss.stmt = st
	if len(m.ro) > 0 {
		st.state = "blocked"
		m.stmts = append(m.stmts, st)
		return
	}
	m.beginStmt(st, dur)
	if st.state == "running" {
		m.stmts = append(m.stmts, st)
	}
}

func (m *Mysqld) roBlocks(ss *Session) bool {
	if m.SuperRO {
		return true
	}
	return m.ReadOnly && !isSuper(ss.User)
}

func isSuper(u string) bool { return constants.MocoSystemUsers[u] || u == "root" || u == "dba" }

func (m *Mysqld) beginStmt(st *stmt, dur time.Duration) {
	if m.roBlocks(st.sess) {
		st.sess.stmt = nil
		st.write.fail(&MySQLError{1290, "The MySQL server is running with the --read-only option so it cannot execute this statement"})
		return
	}
	st.state = "running"
	gen := m.Gen
	st.ev = m.W.S.After(dur, func() {
		if gen != m.Gen || st.state != "running" {
			return
		}
		m.commitStmt(st)
	})
}

func (m *Mysqld) commitStmt(st *stmt) {
	t := &Txn{UUID: m.Disk.UUID, No: m.nextGNO(), TS: m.W.S.Now(), Origin: m.Name, Write: st.write, Kind: "app"}
	st.txn = t
	if st.write != nil {
		st.write.Txn = t
		st.write.Inst = m
	}
	m.Disk.Binlog = append(m.Disk.Binlog, t)
	m.W.onBinlogged(m, t)
	if m.SSMaster && m.SSWait > 0 && !m.ssOff {
		st.state = "waiting"
		if m.SSTimeout < 3600*1000 {
			gen := m.Gen
			m.W.S.After(time.Duration(m.SSTimeout)*time.Millisecond, func() {
				if m.Gen == gen && m.Up && st.state == "waiting" {
					m.W.S.Logf("semi-sync of %s times out", m.Name)
					m.W.count("semisync_timeout")
					m.ssOff = true
					m.checkAcks()
				}
			})
		}
		for _, k := range sortedKeys(m.dumps) {
			m.dumps[k].pump()
		}
		return
	}
	m.engineCommit(st)
	for _, k := range sortedKeys(m.dumps) {
		m.dumps[k].pump()
	}
}

func (m *Mysqld) engineCommit(st *stmt) {
	m.Disk.Executed.Add(st.txn.UUID, st.txn.No)
	m.removeStmt(st)
	st.sess.stmt = nil
	m.W.onCommitted(m, st.txn)
	if st.write != nil && !st.sess.dead {
		st.write.ack(m)
	}
	m.checkGW()
	m.checkRO()
}

func (m *Mysqld) removeStmt(st *stmt) {
	st.state = "done"
	for i, x := range m.stmts {
		if x == st {
			m.stmts = append(m.stmts[:i:i], m.stmts[i+1:]...)
			return
		}
	}
}

// abortStmt is called when the session goes away.
func (m *Mysqld) abortStmt(st *stmt) {
	switch st.state {
	case "running", "blocked":
		m.W.S.Cancel(st.ev)
		m.removeStmt(st)
	case "waiting":
		if m.Up && m.KillReleases {
			m.Disk.Executed.Add(st.txn.UUID, st.txn.No)
			m.W.onCommitted(m, st.txn)
			m.removeStmt(st)
			m.checkGW()
			m.checkRO()
		}
		// otherwise the thread keeps waiting for acknowledgements
	}
}

func (m *Mysqld) waitSessions() int {
	n := 0
	for _, st := range m.stmts {
		if st.state == "waiting" {
			n++
		}
	}
	return n
}

// releaseWaiters is called when semi-sync is switched off or the ack count changes.
func (m *Mysqld) checkAcks() {
	for {
		again := false
		for _, st := range m.stmts {
			if st.state != "waiting" {
				continue
			}
			if !m.SSMaster || m.ssOff || len(st.acks) >= m.SSWait {
				m.engineCommit(st)
				again = true
				break
			}
		}
		if !again {
			return
		}
	}
}

// HumanWrite is a write by an operator with local access, bypassing read-only.
func (m *Mysqld) HumanWrite() *Txn {
	t := &Txn{UUID: m.Disk.UUID, No: m.nextGNO(), TS: m.W.S.Now(), Origin: m.Name, Kind: "human"}
	m.Disk.Binlog = append(m.Disk.Binlog, t)
	m.Disk.Executed.Add(t.UUID, t.No)
	m.W.onBinlogged(m, t)
	m.W.onCommitted(m, t)
	for _, k := range sortedKeys(m.dumps) {
		m.dumps[k].pump()
	}
	m.checkGW()
	return t
}

// SetRO implements SET GLOBAL read_only / super_read_only.
func (m *Mysqld) SetRO(ss *Session, super, on bool, done func(err *MySQLError)) {
	if !on {
		// super_read_only=0 leaves read_only alone; read_only=0 clears both
		if super {
			m.SuperRO = false
		} else {
			was := m.ReadOnly
			m.ReadOnly, m.SuperRO = false, false
			if was {
				m.OpenedAt = m.W.S.Now()
				m.Opens++
				m.W.onOpened(m)
			}
		}
		done(nil)
		return
	}
	m.ro = append(m.ro, &roWait{sess: ss, super: super, done: done})
	m.checkRO()
}

func (m *Mysqld) removeRO(r *roWait) {
	for i, x := range m.ro {
		if x == r {
			m.ro = append(m.ro[:i:i], m.ro[i+1:]...)
			break
		}
	}
	if len(m.ro) == 0 {
		m.unblockStmts()
	}
}

func (m *Mysqld) unblockStmts() {
	for _, st := range append([]*stmt(nil), m.stmts...) {
		if st.state == "blocked" {
			m.beginStmt(st, 5*time.Millisecond)
			if st.state != "running" {
				m.removeStmt(st)
			}
		}
	}
}

func (m *Mysqld) checkRO() {
	if len(m.ro) == 0 || !m.Up {
		return
	}
	for _, st := range m.stmts {
		if st.state == "running" || st.state == "waiting" {
			return
		}
	}
	rs := m.ro
	m.ro = nil
	for _, r := range rs {
		was := m.ReadOnly
		m.ReadOnly = true
		if r.super {
			m.SuperRO = true
		}
		if !was {
			m.lastRO = m.W.S.Now()
			m.W.onClosed(m)
		}
		r.done(nil)
	}
	m.unblockStmts()
}

// WaitGTID implements WAIT_FOR_EXECUTED_GTID_SET.
func (m *Mysqld) WaitGTID(ss *Session, set GTIDSet, timeout time.Duration, done func(timeout bool)) {
	if set.SubsetOf(m.Disk.Executed) {
		done(false)
		return
	}
	g := &gtidWait{sess: ss, set: set, done: done}
	m.gw = append(m.gw, g)
	m.W.probe("gtid_wait_blocked")
	if timeout > 0 {
		gen := m.Gen
		g.ev = m.W.S.After(timeout, func() {
			if gen != m.Gen {
				return
			}
			for _, x := range m.gw {
				if x == g {
					m.removeGW(g)
					g.done(true)
					return
				}
			}
		})
	}
}

func (m *Mysqld) removeGW(g *gtidWait) {
	m.W.S.Cancel(g.ev)
	for i, x := range m.gw {
		if x == g {
			m.gw = append(m.gw[:i:i], m.gw[i+1:]...)
			return
		}
	}
}

func (m *Mysqld) checkGW() {
	for _, g := range append([]*gtidWait(nil), m.gw...) {
		if g.set.SubsetOf(m.Disk.Executed) {
			m.removeGW(g)
			g.done(false)
		}
	}
}

// Kill implements KILL CONNECTION.
func (m *Mysqld) Kill(id uint64) *MySQLError {
	ss := m.sessions[id]
	if ss == nil {
		return &MySQLError{1094, fmt.Sprintf("Unknown thread id: %d", id)}
	}
	m.W.S.Logf("mysqld kill %s %d %s@%s", m.Name, id, ss.User, ss.Host)
	m.W.onKill(m, ss)
	if ss.Via == "repl" {
		if rc := m.dumpBySession(ss); rc != nil {
			rc.close(true)
		}
	}
	m.dropSession(ss, "killed")
	return nil
}

func (m *Mysqld) dumpBySession(ss *Session) *replConn {
	for _, k := range sortedKeys(m.dumps) {
		if m.dumps[k].sess == ss {
			return m.dumps[k]
		}
	}
	return nil
}

// ---- replication ---------------------------------------------------------

type replConn struct {
	src, dst *Mysqld
	sess     *Session
	open     bool
	semi     bool
	pos      int // next index in src.Disk.Binlog
	have     GTIDSet
	busy     bool
	stalled  bool
	lastData time.Duration
	disk     *Disk
	startPos int
}

func (rc *replConn) close(srcSide bool) {
	if !rc.open {
		return
	}
	rc.open = false
	src, dst := rc.src, rc.dst
	if src.dumps[dst.Name] == rc {
		delete(src.dumps, dst.Name)
	}
	if rc.sess != nil && !rc.sess.dead {
		rc.sess.dead = true
		delete(src.sessions, rc.sess.ID)
	}
	if srcSide && dst.src == rc {
		// the replica notices after a network delay, if it can
		w := dst.W
		gen := dst.ioGen
		if w.Link(src.Node, dst.Node) {
			w.S.After(w.netLat(src.Node, dst.Node), func() {
				if dst.ioGen == gen && dst.src == rc {
					dst.ioLost(2013, "Lost connection to MySQL server during query")
				}
			})
		} else {
			// silent: replica_net_timeout
			w.S.After(60*time.Second, func() {
				if dst.ioGen == gen && dst.src == rc {
					dst.ioLost(2013, "Lost connection to MySQL server during query")
				}
			})
		}
	}
}

func (m *Mysqld) ioLost(errno int, msg string) {
	m.src = nil
	if m.IO == "No" {
		return
	}
	m.IO = "Connecting"
	m.IOErrno, m.IOError = errno, msg
	gen := m.ioGen
	// the first reconnection attempt is immediate, later ones wait for connect_retry
	m.W.S.After(m.W.S.Dur("ioretry/"+m.Name, 10*time.Millisecond, 300*time.Millisecond), func() {
		if m.Up && m.ioGen == gen && m.IO == "Connecting" {
			m.ioConnect()
		}
	})
}

// StartIO starts the receiver thread.
func (m *Mysqld) StartIO() {
	if m.IO != "No" {
		return
	}
	m.IO = "Connecting"
	m.IOErrno, m.IOError = 0, ""
	m.ioGen++
	m.ReplicaStartedAt = m.W.S.Now()
	gen := m.ioGen
	m.W.S.After(m.W.S.Dur("iostart/"+m.Name, time.Millisecond, 20*time.Millisecond), func() {
		if m.Up && m.ioGen == gen {
			m.ioConnect()
		}
	})
}

// StopIO stops the receiver thread.
func (m *Mysqld) StopIO() {
	m.ioGen++
	m.IO = "No"
	m.IOErrno, m.IOError = 0, ""
	if m.src != nil {
		rc := m.src
		m.src = nil
		src := rc.src
		w := m.W
		// the source notices only when it can hear from us
		rc.open = false
		fin := func() {
			if src.dumps[m.Name] == rc {
				delete(src.dumps, m.Name)
			}
			if rc.sess != nil && !rc.sess.dead {
				rc.sess.dead = true
				delete(src.sessions, rc.sess.ID)
			}
		}
		if w.Link(m.Node, src.Node) {
			w.S.After(w.netLat(m.Node, src.Node), fin)
		} else {
			w.S.After(60*time.Second, fin)
		}
	}
}

func (m *Mysqld) ioRetryLater(errno int, msg string) {
	m.IO = "Connecting"
	m.IOErrno, m.IOError = errno, msg
	gen := m.ioGen
	m.W.S.After(60*time.Second, func() {
		if m.Up && m.ioGen == gen && m.IO == "Connecting" {
			m.ioConnect()
		}
	})
}

func (m *Mysqld) ioFatal(errno int, msg string) {
	m.W.S.Logf("mysqld iofatal %s %d %s", m.Name, errno, msg)
	m.ioGen++
	m.IO = "No"
	m.IOErrno, m.IOError = errno, msg
	m.src = nil
	m.W.probe(fmt.Sprintf("io_fatal_%d", errno))
}

func (m *Mysqld) ioConnect() {
	w := m.W
	sc := m.Disk.Source
	if sc == nil {
		m.ioFatal(1200, "not configured")
		return
	}
	src := w.resolveHost(sc.Host, sc.Port)
	gen := m.ioGen
	if src == nil {
		m.ioRetryLater(2005, fmt.Sprintf("Unknown MySQL server host '%s'", sc.Host))
		return
	}
	w.S.After(2*w.netLat(m.Node, src.Node), func() {
		if !m.Up || m.ioGen != gen {
			return
		}
		if !src.Up || src.initing || !w.Link(m.Node, src.Node) || !w.Link(src.Node, m.Node) || src.Stalled {
			m.ioRetryLater(2003, fmt.Sprintf("Can't connect to MySQL server on '%s:%d'", sc.Host, sc.Port))
			return
		}
		if pw, ok := src.Disk.Users[sc.User]; !ok || pw != sc.Password {
			m.ioRetryLater(1045, fmt.Sprintf("Access denied for user '%s'", sc.User))
			return
		}
		if src == m || src.Disk.UUID == m.Disk.UUID {
			m.ioFatal(13117, "source and replica have equal MySQL server UUIDs")
			return
		}
		have := m.Disk.Executed.Clone()
		have.Union(m.Disk.Retrieved)
		for _, t := range m.Disk.Relay {
			have.Add(t.UUID, t.No)
		}
		if d := src.Disk.Purged.Minus(have); !d.Empty() {
			m.ioFatal(13114, "Got fatal error 1236 from source: 'Cannot replicate because the source purged required binary logs. Missing: "+d.String()+"'")
			return
		}
		srcAll := src.Disk.Executed.Clone()
		for _, t := range src.Disk.Binlog {
			srcAll.Add(t.UUID, t.No)
		}
		own := GTIDSet{src.Disk.UUID: have[src.Disk.UUID]}
		if d := own.Minus(srcAll); !d.Empty() {
			m.ioFatal(13114, "Got fatal error 1236 from source: 'Replica has more GTIDs than the source has, using the source's SERVER_UUID'")
			return
		}
		if old := src.dumps[m.Name]; old != nil {
			old.close(false)
		}
		rc := &replConn{src: src, dst: m, open: true, semi: m.SSSlave, have: have, lastData: w.S.Now(), disk: src.Disk}
		rc.sess = src.newSession(sc.User, m.IP+":40000", "repl")
		src.dumps[m.Name] = rc
		m.src = rc
		m.IO = "Yes"
		m.IOErrno, m.IOError = 0, ""
		w.S.Logf("repl connect %s <- %s semi=%v", m.Name, src.Name, rc.semi)
		// acknowledge what the replica already has
		if rc.semi {
			for _, st := range src.stmts {
				if st.state == "waiting" && have.Has(st.txn.UUID, st.txn.No) {
					st.acks[m.Name] = true
				}
			}
			src.checkAcks()
		}
		rc.pump()
		// keep-alive
		w.S.Every(30*time.Second, func() bool {
			if !rc.open || !m.Up || m.src != rc {
				return false
			}
			if w.Link(src.Node, m.Node) && src.Up && !src.Stalled {
				rc.lastData = w.S.Now()
			} else if w.S.Now()-rc.lastData > 60*time.Second {
				w.S.Logf("repl timeout %s <- %s", m.Name, src.Name)
				m.src = nil
				rc.open = false
				w.S.After(30*time.Second, func() {
					if src.dumps[m.Name] == rc {
						delete(src.dumps, m.Name)
					}
					if !rc.sess.dead {
						rc.sess.dead = true
						delete(src.sessions, rc.sess.ID)
					}
				})
				m.ioLost(2013, "Lost connection to MySQL server during query")
				return false
			}
			return true
		})
	})
}

// pump sends the next transaction the replica lacks.
func (rc *replConn) pump() {
	if !rc.open || rc.busy {
		return
	}
	src, dst, w := rc.src, rc.dst, rc.src.W
	var t *Txn
	for rc.pos < len(rc.disk.Binlog) {
		x := rc.disk.Binlog[rc.pos]
		if !rc.have.Has(x.UUID, x.No) {
			t = x
			break
		}
		rc.pos++
	}
	if t == nil {
		return
	}
	rc.busy = true
	gen, dgen := src.Gen, dst.ioGen
	var arrive func()
	arrive = func() {
		if !rc.open || src.Gen != gen || dst.ioGen != dgen || dst.src != rc {
			rc.busy = false
			return
		}
		if !w.Link(src.Node, dst.Node) || dst.Stalled || src.Stalled {
			w.S.After(200*time.Millisecond, arrive)
			return
		}
		rc.busy = false
		rc.lastData = w.S.Now()
		rc.have.Add(t.UUID, t.No)
		rc.pos++
		dst.receive(t)
		if rc.semi {
			rc.sendAck(t)
		}
		rc.pump()
	}
	w.S.After(w.netLat(src.Node, dst.Node)+dst.LastIOGap, arrive)
}

func (rc *replConn) sendAck(t *Txn) {
	src, dst, w := rc.src, rc.dst, rc.src.W
	gen := src.Gen
	var arrive func()
	arrive = func() {
		if src.Gen != gen || !src.Up || !rc.open {
			return
		}
		if !w.Link(dst.Node, src.Node) || src.Stalled {
			w.S.After(200*time.Millisecond, arrive)
			return
		}
		for _, st := range src.stmts {
			if st.state == "waiting" && rc.have.Has(st.txn.UUID, st.txn.No) {
				st.acks[dst.Name] = true
			}
		}
		if src.ssOff && len(src.Disk.Binlog) > 0 {
			l, n := src.Disk.Binlog[len(src.Disk.Binlog)-1], 0
			for _, k := range sortedKeys(src.dumps) {
				if d := src.dumps[k]; d.semi && d.have.Has(l.UUID, l.No) {
					n++
				}
			}
			if n >= src.SSWait { // the replicas have caught up
				src.ssOff = false
			}
		}
		src.checkAcks()
	}
	w.S.After(w.netLat(dst.Node, src.Node), arrive)
}

func (m *Mysqld) receive(t *Txn) {
	m.Disk.Retrieved.Add(t.UUID, t.No)
	m.W.orc.received(m, t)
	if !m.Disk.Executed.Has(t.UUID, t.No) {
		m.Disk.Relay = append(m.Disk.Relay, t)
	}
	m.applyNext()
}

// StartSQL starts the applier.
func (m *Mysqld) StartSQL() {
	if m.SQL == "Yes" {
		return
	}
	m.SQL = "Yes"
	m.SQLErrno, m.SQLError = 0, ""
	m.sqlGen++
	m.applying = false
	m.applyNext()
}

func (m *Mysqld) StopSQL() {
	m.sqlGen++
	m.SQL = "No"
	m.applying = false
}

func (m *Mysqld) applyNext() {
	if m.SQL != "Yes" || m.applying || !m.Up {
		return
	}
	for len(m.Disk.Relay) > 0 && m.Disk.Executed.Has(m.Disk.Relay[0].UUID, m.Disk.Relay[0].No) {
		m.Disk.Relay = m.Disk.Relay[1:]
	}
	if len(m.Disk.Relay) == 0 {
		return
	}
	w := m.W
	d := w.S.Dur("apply/"+m.Name, time.Millisecond, 10*time.Millisecond) + m.ApplySlow
	if w.S.Now() < m.ApplyHold {
		d += m.ApplyHold - w.S.Now()
		w.probe("apply_held")
	}
	m.applying = true
	gen := m.sqlGen
	w.S.After(d, func() {
		if m.sqlGen != gen || !m.Up {
			return
		}
		m.applying = false
		if w.S.Now() < m.ApplyHold {
			m.applyNext()
			return
		}
		if len(m.Disk.Relay) == 0 {
			return
		}
		t := m.Disk.Relay[0]
		m.Disk.Relay = m.Disk.Relay[1:]
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			m.Disk.Binlog = append(m.Disk.Binlog, t)
			m.Disk.Executed.Add(t.UUID, t.No)
			w.onCommitted(m, t)
			for _, k := range sortedKeys(m.dumps) {
				m.dumps[k].pump()
			}
			m.checkGW()
		}
		m.applyNext()
	})
}

// PurgeBinlog drops the older part of the binary log, as expiry would.
func (m *Mysqld) PurgeBinlog(keep int) int {
	n := 0
	for len(m.Disk.Binlog) > keep {
		t := m.Disk.Binlog[0]
		if !m.Disk.Executed.Has(t.UUID, t.No) {
			break
		}
		// an active dump thread keeps its file
		for _, k := range sortedKeys(m.dumps) {
			if m.dumps[k].open && m.dumps[k].pos == 0 {
				return n
			}
		}
		m.Disk.Binlog = m.Disk.Binlog[1:]
		m.Disk.BinBase++
		m.Disk.Purged.Add(t.UUID, t.No)
		m.Disk.PurgedAt[t.GTID()] = m.W.S.Now()
		for _, k := range sortedKeys(m.dumps) {
			if m.dumps[k].pos > 0 {
				m.dumps[k].pos--
			}
		}
		n++
	}
	return n
}

func (m *Mysqld) secondsBehind() (int64, bool) {
	if m.SQL != "Yes" {
		return 0, false
	}
	if len(m.Disk.Relay) == 0 {
		if m.IO == "Yes" {
			return 0, true
		}
		return 0, false
	}
	return int64((m.W.S.Now() - m.Disk.Relay[0].TS) / time.Second), true
}

func short(s string) string {
	s = strings.ReplaceAll(s, "\n", "")
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
