package sim

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"mocosim/simexec"
)

// The external programs of moco-backup.  Programs that write to a pipe never
// park, and programs that read one drain it before they park, because a
// goroutine blocked on a pipe keeps the simulated clock from advancing.

// procData is what the simulator keeps about a running program.
type procData struct {
	j    *jobRun
	fate toolFate
	n    int
}

// Begin is called when a program is started.
func (t *w3World) Begin(p *simexec.Proc) error {
	j := t.cur
	if j == nil || j.inc.Dead() {
		return ErrDead
	}
	s := t.w.S
	fate, ok := t.takeFate(&t.tf, j.kind, p.Name)
	t.mu.Lock()
	j.procs++
	n := j.procs
	t.mu.Unlock()
	if ok {
		j.faulty = true
	}
	s.park(nil, fmt.Sprintf("tool/%05d/%05d/a", j.id, n), func(r *request) {
		if ok {
			t.w.Faults["tool_"+p.Name+"_"+fate.kind]++
		}
		s.Logf("tool start %s %s", p.Name, fate.kind)
		s.After(0, func() { t.w.step("job_tool_" + p.Name) })
		s.Reply(r, true)
	})
	if fate.kind == "start" {
		return errors.New("resource temporarily unavailable")
	}
	p.Data = &procData{j: j, fate: fate, n: n}
	return nil
}

// Main runs a program.
func (t *w3World) Main(p *simexec.Proc) int {
	d := p.Data.(*procData)
	code := 0
	switch p.Name {
	case "mysqlsh":
		code = t.mysqlsh(p, d)
	case "mysqlbinlog":
		code = t.mysqlbinlog(p, d)
	case "mysql":
		code = t.mysql(p, d)
	case "tar":
		code = t.tar(p, d)
	case "zstd":
		code = t.zstd(p, d)
	default:
		t.bad("unknown program %s", p.Name)
		return 127
	}
	if code == 0 && d.fate.kind == "late" {
		code = 1
	}
	if code == 0 && (d.fate.kind == "partial" || d.fate.kind == "kill") {
		t.bad("%s ignores its fate", p.Name)
	}
	if p.Ctx.Err() != nil && code != 0 {
		code = -1
	}
	return code
}

func (t *w3World) bad(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	t.w.S.park(nil, "tool/bad", func(r *request) {
		t.w.S.Harness("%s", msg)
		t.w.S.Reply(r, true)
	})
}

// failCode is the exit code of a program that fails on the way.
func (d *procData) failCode(code int) int {
	if d.fate.kind == "kill" {
		return -1
	}
	return code
}

func (d *procData) broken() bool { return d.fate.kind == "partial" || d.fate.kind == "kill" }

// frac is the part of its work a failing program does.
func (d *procData) frac(n int) int { return n * (d.fate.cut % 11) / 11 }

// client is a program connected to a server.
type toolConn struct {
	t       *w3World
	m       *Mysqld
	gen     int
	blocked time.Duration
}

// ok tells whether the connection is still usable; it is called every 250 ms.
func (c *toolConn) ok() bool {
	w := c.t.w
	if !c.m.Up || c.m.Gen != c.gen {
		return false
	}
	if !w.both("job", c.m.Node) || c.m.Stalled {
		c.blocked += 250 * time.Millisecond
	} else {
		c.blocked = 0
	}
	return c.blocked < 30*time.Second
}

// server runs work while connected to a server: open is called once the session exists, done replies.
func (t *w3World) server(p *simexec.Proc, d *procData, host, port, user, pw string, work func(c *toolConn, ended func() bool, done func(v any))) (any, bool) {
	w := t.w
	v, err := w.S.Call(p.Ctx, d.j.inc, fmt.Sprintf("tool/%05d/%05d/b", d.j.id, d.n), func(r *request) {
		deadline := w.S.Now() + 20*time.Second
		var attempt func()
		attempt = func() {
			if r.Abandoned() {
				return
			}
			m := w.instByIP(host)
			if m == nil {
				m = w.resolveHost(host, 3306)
			}
			if m == nil || !w.both("job", m.Node) || m.Stalled {
				if w.S.Now() > deadline {
					w.S.Reply(r, errors.New("cannot connect"))
					return
				}
				w.S.After(500*time.Millisecond, attempt)
				return
			}
			if port != "3306" || !m.Up {
				w.S.Reply(r, errors.New("connection refused"))
				return
			}
			if want, ok := m.Disk.Users[user]; !ok || want != pw {
				w.S.Logf("tool denied %s user=%s", m.Name, user)
				w.S.Reply(r, errors.New("access denied"))
				return
			}
			c := &toolConn{t: t, m: m, gen: m.Gen}
			work(c, func() bool { return r.Abandoned() || p.Ctx.Err() != nil || w.ended }, func(v any) {
				if err, ok := v.(error); ok {
					w.S.Logf("tool fails %s on %s: %v", p.Name, m.Name, err)
				}
				w.S.Reply(r, v)
			})
		}
		w.S.After(2*w.netLat("job", host)+w.S.Dur("tool", 10*time.Millisecond, 200*time.Millisecond), attempt)
	})
	return v, err == nil
}

// ---- mysqlsh -----------------------------------------------------------------------

type dumpData struct {
	Executed string            `json:"executed"`
	Missing  string            `json:"missing"`
	Users    map[string]string `json:"users"`
}

func (t *w3World) mysqlsh(p *simexec.Proc, d *procData) int {
	var uri, pw, verb, dir string
	opt := map[string]string{}
	after := false
	var pos []string
	for i := 0; i < len(p.Args); i++ {
		a := p.Args[i]
		switch {
		case !after && a == "--":
			after = true
		case !after && strings.HasPrefix(a, "mysql://"):
			uri = a
		case !after && strings.HasPrefix(a, "--password="):
			pw = a[len("--password="):]
		case !after && strings.HasPrefix(a, "-p") && !strings.HasPrefix(a, "--"):
			pw = a[2:]
		case !after && a == "-C":
			i++
		case !after:
		case strings.HasPrefix(a, "--"):
			kv := strings.SplitN(a[2:], "=", 2)
			v := "true"
			if len(kv) == 2 {
				v = kv[1]
			}
			opt[kv[0]] = v
		default:
			pos = append(pos, a)
		}
	}
	u, err := url.Parse(uri)
	if err != nil || len(pos) != 3 || pos[0] != "util" {
		t.bad("mysqlsh arguments: %v", p.Args)
		return 1
	}
	verb, dir = pos[1], pos[2]
	user := u.User.Username()
	host, port, err := net.SplitHostPort(u.Host)
	if err != nil {
		host, port = u.Host, "3306"
	}
	switch verb {
	case "dump-instance", "dumpInstance":
		return t.dumpInstance(p, d, host, port, user, pw, dir, opt)
	case "load-dump", "loadDump":
		return t.loadDump(p, d, host, port, user, pw, dir, opt)
	}
	t.bad("mysqlsh: unknown utility %s", verb)
	return 1
}

func isTrue(s string) bool {
	switch strings.ToLower(s) {
	case "1", "true", "on", "yes":
		return true
	}
	return false
}

func listOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x = strings.Trim(strings.TrimSpace(x), "'`\""); x != "" {
			if i := strings.IndexByte(x, '@'); i > 0 {
				x = strings.Trim(x[:i], "'`\"")
			}
			m[x] = true
		}
	}
	return m
}

func (t *w3World) dumpInstance(p *simexec.Proc, d *procData, host, port, user, pw, dir string, opt map[string]string) int {
	if ents, err := os.ReadDir(dir); err == nil && len(ents) > 0 {
		return 1 // "the directory is not empty"
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return 1
	}
	w, j := t.w, d.j
	type out struct {
		meta, data []byte
		whole      bool
	}
	v, ok := t.server(p, d, host, port, user, pw, func(c *toolConn, ended func() bool, done func(v any)) {
		wait := w.S.logDur("dump", 100*time.Millisecond, 2*time.Second)
		total := w.S.logDur("dump", time.Second, 60*time.Second)
		lockBy := w.S.Now() + 120*time.Second
		var fact *dumpFact
		var o *out
		var lock, tick func()
		end := time.Duration(0)
		lock = func() {
			if ended() {
				return
			}
			if !c.ok() || w.S.Now() > lockBy {
				done(errors.New("cannot get the lock"))
				return
			}
			m := c.m
			if m.waitSessions() > 0 || len(m.ro) > 0 {
				// the global lock waits for commits in progress
				w.S.After(20*time.Millisecond, lock)
				return
			}
			fact = &dumpFact{m: m, uuid: m.Disk.UUID, at: w.S.Now(), snap: m.Disk.Executed.Clone()}
			j.dump = fact
			users := map[string]string{}
			ex := listOf(opt["excludeUsers"])
			if _, ok := opt["users"]; !ok || isTrue(opt["users"]) {
				for n, x := range m.Disk.Users {
					if !ex[n] {
						users[n] = x
					}
				}
			}
			o = &out{whole: true}
			o.meta, _ = json.Marshal(map[string]any{"dumper": "mysqlsh", "gtidExecuted": fact.snap.String(), "gtidExecutedInconsistent": false})
			o.data, _ = json.Marshal(dumpData{Executed: fact.snap.String(), Missing: m.Disk.Missing.String(), Users: users})
			w.S.Logf("tool snapshot %s %s", m.Name, short(fact.snap.String()))
			w.S.After(0, func() { w.step("job_snapshot") })
			end = w.S.Now() + total
			tick()
		}
		tick = func() {
			if ended() {
				return
			}
			if !c.ok() {
				o.whole = false
				done(o)
				return
			}
			if w.S.Now() >= end {
				if d.broken() {
					o.whole = false
				}
				done(o)
				return
			}
			w.S.After(250*time.Millisecond, tick)
		}
		w.S.After(wait, lock)
	})
	if !ok {
		return 1
	}
	o := v.(*out)
	if os.WriteFile(filepath.Join(dir, "@.json"), o.meta, 0644) != nil {
		return 1
	}
	if !o.whole {
		_ = os.WriteFile(filepath.Join(dir, "data.json"), o.data[:d.frac(len(o.data))], 0644)
		return d.failCode(1)
	}
	if os.WriteFile(filepath.Join(dir, "data.json"), o.data, 0644) != nil || os.WriteFile(filepath.Join(dir, "@.done.json"), []byte("{}"), 0644) != nil {
		return 1
	}
	return 0
}

// readDump understands the contents of a dump directory.
func readDump(files map[string][]byte) (*dumpData, error) {
	if _, ok := files["@.done.json"]; !ok {
		return nil, errors.New("the dump is not complete")
	}
	dd := &dumpData{}
	if err := json.Unmarshal(files["data.json"], dd); err != nil {
		return nil, fmt.Errorf("the dump is damaged: %w", err)
	}
	return dd, nil
}

func (t *w3World) loadDump(p *simexec.Proc, d *procData, host, port, user, pw, dir string, opt map[string]string) int {
	files := map[string][]byte{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return 1
	}
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return 1
		}
		files[e.Name()] = b
	}
	dd, err := readDump(files)
	if err != nil {
		return 1
	}
	snap, err := ParseGTIDSet(dd.Executed)
	if err != nil {
		return 1
	}
	missing, _ := ParseGTIDSet(dd.Missing)
	w, j := t.w, d.j
	v, ok := t.server(p, d, host, port, user, pw, func(c *toolConn, ended func() bool, done func(v any)) {
		m := c.m
		if !isTrue(m.Vars["local_infile"]) {
			done(errors.New("local_infile is off"))
			return
		}
		if m.SuperRO || m.ReadOnly && !isSuper(user) {
			done(errors.New("the server is read-only"))
			return
		}
		dk := m.Disk
		ignore := isTrue(opt["ignoreExistingObjects"])
		users := map[string]string{}
		if isTrue(opt["loadUsers"]) {
			inc, ex := listOf(opt["includeUsers"]), listOf(opt["excludeUsers"])
			for n, x := range dd.Users {
				if len(inc) > 0 && !inc[n] || ex[n] {
					continue
				}
				if _, dup := dk.Users[n]; dup && !ignore {
					done(errors.New("duplicate user " + n))
					return
				} else if dup {
					continue
				}
				users[n] = x
			}
		}
		if (!dk.Executed.Empty() || dk.Loaded) && !ignore {
			done(errors.New("duplicate objects"))
			return
		}
		if !dk.Executed.Empty() && opt["updateGtidSet"] == "replace" {
			done(errors.New("gtid_executed is not empty"))
			return
		}
		t.onLoad(j, m)
		dk.Partial, dk.Loaded = true, true
		total := w.S.logDur("load", time.Second, 40*time.Second)
		end := w.S.Now() + total
		if d.broken() {
			end = w.S.Now() + total*time.Duration(d.fate.cut%11)/11
		}
		w.S.Logf("tool load %s", m.Name)
		w.S.After(total/2, func() { w.step("job_load") })
		var tick func()
		tick = func() {
			if ended() {
				return
			}
			if !c.ok() || m.SuperRO || m.Disk != dk {
				done(errors.New("the connection or the permission was lost"))
				return
			}
			if w.S.Now() < end {
				w.S.After(250*time.Millisecond, tick)
				return
			}
			if d.broken() {
				done(errors.New("broken"))
				return
			}
			for n, x := range users {
				dk.Users[n] = x
			}
			dk.Missing.Union(missing)
			if in := listOf(opt["includeSchemas"]); len(in) > 0 {
				for u, ivs := range snap {
					for _, iv := range ivs {
						for n := iv.lo; n <= iv.hi; n++ {
							if !in[schemaOf(n)] {
								dk.Missing.Add(u, n)
							}
						}
					}
				}
			}
			if !isTrue(opt["skipBinlog"]) {
				for i := 0; i < 3; i++ {
					m.HumanWrite()
				}
			}
			switch opt["updateGtidSet"] {
			case "replace":
				if !dk.Executed.Empty() {
					done(errors.New("gtid_executed is not empty"))
					return
				}
				dk.Executed, dk.Purged = snap.Clone(), snap.Clone()
			case "append":
				dk.Executed.Union(snap)
				dk.Purged.Union(snap)
			}
			dk.Partial = false
			j.loads++
			done(true)
		}
		tick()
	})
	if !ok || v == nil {
		return d.failCode(1)
	}
	return 0
}

// ---- mysqlbinlog -------------------------------------------------------------------------

// schemaOf tells which schema a transaction writes to.
func schemaOf(no int64) string {
	if no%3 == 0 {
		return "db2"
	}
	return "db1"
}

func binLine(x *Txn) string { return fmt.Sprintf("%s:%d %d %s\n", x.UUID, x.No, int64(x.TS), x.Kind) }

func parseBinLine(l string) (*Txn, bool) {
	f := strings.Fields(l)
	if len(f) != 3 {
		return nil, false
	}
	i := strings.LastIndexByte(f[0], ':')
	if i < 0 {
		return nil, false
	}
	no, err1 := strconv.ParseInt(f[0][i+1:], 10, 64)
	ts, err2 := strconv.ParseInt(f[1], 10, 64)
	return &Txn{UUID: f[0][:i], No: no, TS: time.Duration(ts), Kind: f[2]}, err1 == nil && err2 == nil
}

func (t *w3World) mysqlbinlog(p *simexec.Proc, d *procData) int {
	var host, port, user, pw, excl, result, stop, db string
	remote, raw, never := false, false, false
	port = "3306"
	var pos []string
	for i := 0; i < len(p.Args); i++ {
		a := p.Args[i]
		val := ""
		if k := strings.IndexByte(a, '='); k > 0 && strings.HasPrefix(a, "--") {
			a, val = a[:k], a[k+1:]
		} else if strings.HasPrefix(a, "--") || len(a) == 2 && a[0] == '-' {
			switch a {
			case "-h", "--host", "--port", "-P", "-u", "--user", "--exclude-gtids", "--result-file", "-r", "--stop-datetime", "--database", "-d":
				if i+1 < len(p.Args) {
					i++
					val = p.Args[i]
				}
			}
		}
		switch {
		case a == "-h" || a == "--host":
			host = val
		case a == "--port" || a == "-P":
			port = val
		case a == "-u" || a == "--user":
			user = val
		case a == "--password":
			pw = val
		case strings.HasPrefix(a, "-p") && !strings.HasPrefix(a, "--"):
			pw = a[2:]
		case a == "--exclude-gtids":
			excl = val
		case a == "--read-from-remote-master" || a == "--read-from-remote-source" || a == "--read-from-remote-server" || a == "-R":
			remote = true
		case a == "-t" || a == "--to-last-log":
			never = true
		case a == "--raw":
			raw = true
		case a == "--result-file" || a == "-r":
			result = val
		case a == "--stop-datetime":
			stop = val
		case a == "--database" || a == "-d":
			db = val
		case strings.HasPrefix(a, "-"):
		default:
			pos = append(pos, a)
		}
	}
	if remote {
		if !raw || len(pos) != 1 {
			t.bad("mysqlbinlog arguments: %v", p.Args)
			return 1
		}
		return t.remoteBinlog(p, d, host, port, user, pw, excl, result, pos[0], never)
	}
	// local files
	loc := time.FixedZone("JST", 9*3600)
	for _, e := range p.Env {
		if v, ok := strings.CutPrefix(e, "TZ="); ok {
			if l, ok := map[string]*time.Location{"": time.UTC, "UTC": time.UTC, "Etc/UTC": time.UTC, "UTC0": time.UTC, "GMT": time.UTC}[v]; ok {
				loc = l
			}
		}
	}
	var limit time.Time
	if stop != "" {
		var err error
		if limit, err = time.ParseInLocation("2006-01-02 15:04:05", stop, loc); err != nil {
			return 1
		}
	}
	var out bytes.Buffer
	fail := 0
loop:
	for _, f := range pos {
		b, err := os.ReadFile(f)
		if err != nil {
			fail = 1
			break
		}
		for _, l := range strings.SplitAfter(string(b), "\n") {
			if l == "" {
				continue
			}
			x, ok := parseBinLine(l)
			if !ok {
				fail = 1
				break loop
			}
			if !limit.IsZero() && t.w.S.Wall(x.TS).Unix() >= limit.Unix() {
				break loop
			}
			if db != "" && schemaOf(x.No) != db {
				x.Kind = "empty"
			}
			out.WriteString(binLine(x))
		}
	}
	data := out.Bytes()
	if d.broken() {
		n := d.frac(bytes.Count(data, []byte("\n")))
		k := 0
		for ; n > 0; n-- {
			k += bytes.IndexByte(data[k:], '\n') + 1
		}
		data = data[:k]
		fail = d.failCode(1)
	}
	if _, err := p.Stdout.Write(data); err != nil {
		fail = 1
	}
	if fail != 0 || d.fate.kind == "late" {
		t.mu.Lock()
		d.j.applyFailed = true
		t.mu.Unlock()
	}
	return fail
}

func (t *w3World) remoteBinlog(p *simexec.Proc, d *procData, host, port, user, pw, excl, result, first string, toLast bool) int {
	ex, err := ParseGTIDSet(excl)
	if err != nil {
		return 1
	}
	w, j := t.w, d.j
	type file struct{ name, data string }
	v, ok := t.server(p, d, host, port, user, pw, func(c *toolConn, ended func() bool, done func(v any)) {
		m := c.m
		dk := m.Disk
		have := false
		for _, f := range dk.Files {
			have = have || f.Name == first
		}
		if !have {
			done(errors.New("Could not find first log file name in binary log index file"))
			return
		}
		seg := &segFact{m: m, low: dk.Executed.Clone()}
		end := w.S.Now() + w.S.logDur("binlog", 200*time.Millisecond, 5*time.Second)
		var tick func()
		tick = func() {
			if ended() {
				return
			}
			if !c.ok() || m.Disk != dk {
				done(errors.New("Lost connection"))
				return
			}
			if w.S.Now() < end {
				w.S.After(250*time.Millisecond, tick)
				return
			}
			var fs []file
			on := false
			for i, f := range dk.Files {
				if f.Name == first {
					on = true
				}
				if !on {
					continue
				}
				hi := dk.BinBase + len(dk.Binlog)
				if i+1 < len(dk.Files) {
					hi = dk.Files[i+1].Start
				}
				var b strings.Builder
				for k := max(f.Start, dk.BinBase); k < hi; k++ {
					x := dk.Binlog[k-dk.BinBase]
					if !ex.Has(x.UUID, x.No) {
						b.WriteString(binLine(x))
					}
				}
				fs = append(fs, file{f.Name, b.String()})
				if !toLast {
					break
				}
			}
			if len(fs) == 0 {
				done(errors.New("Could not find next log"))
				return
			}
			seg.high = dk.Executed.Clone()
			for _, x := range dk.Binlog {
				seg.high.Add(x.UUID, x.No)
			}
			j.segs = append(j.segs, seg)
			done(fs)
		}
		tick()
	})
	if !ok {
		return d.failCode(1)
	}
	fs := v.([]file)
	if d.broken() {
		fs = fs[:d.frac(len(fs))]
	}
	for _, f := range fs {
		if os.WriteFile(result+f.name, []byte(f.data), 0644) != nil {
			return 1
		}
	}
	if d.broken() {
		return d.failCode(1)
	}
	return 0
}

// ---- mysql -------------------------------------------------------------------------------

func (t *w3World) mysql(p *simexec.Proc, d *procData) int {
	host, port, user, pw := "", "3306", "", ""
	for i := 0; i < len(p.Args); i++ {
		a := p.Args[i]
		val := ""
		if k := strings.IndexByte(a, '='); k > 0 && strings.HasPrefix(a, "--") {
			a, val = a[:k], a[k+1:]
		} else if i+1 < len(p.Args) {
			val = p.Args[i+1]
		}
		switch {
		case a == "-h" || a == "--host":
			host = val
		case a == "--port" || a == "-P":
			port = val
		case a == "-u" || a == "--user":
			user = val
		case a == "--password":
			pw = val
		case strings.HasPrefix(a, "-p") && !strings.HasPrefix(a, "--") && len(a) > 2:
			pw = a[2:]
		}
	}
	var txns []*Txn
	bad := false
	if d.fate.kind == "kill" {
		// dies before it read anything
		t.mu.Lock()
		d.j.applyFailed = true
		t.mu.Unlock()
		return -1
	}
	in, err := io.ReadAll(p.Stdin)
	if err != nil {
		bad = true
	}
	for _, l := range strings.Split(string(in), "\n") {
		if l == "" {
			continue
		}
		x, ok := parseBinLine(l)
		if !ok {
			bad = true
			break
		}
		txns = append(txns, x)
	}
	w, j := t.w, d.j
	v, ok := t.server(p, d, host, port, user, pw, func(c *toolConn, ended func() bool, done func(v any)) {
		m := c.m
		dk := m.Disk
		t.onLoad(j, m)
		n := len(txns)
		if d.broken() {
			n = d.frac(n)
		}
		per := 1 + len(txns)/40
		w.S.Logf("tool apply %s %d", m.Name, n)
		w.S.After(0, func() { w.step("job_load") })
		i := 0
		var tick func()
		tick = func() {
			if ended() {
				return
			}
			if !c.ok() || m.Disk != dk || m.SuperRO || m.ReadOnly && !isSuper(user) {
				done(errors.New("the connection or the permission was lost"))
				return
			}
			for k := 0; k < per && i < n; k++ {
				x := txns[i]
				i++
				if dk.Executed.Has(x.UUID, x.No) {
					continue
				}
				if x.Kind == "empty" {
					dk.Missing.Add(x.UUID, x.No)
				}
				dk.Binlog = append(dk.Binlog, &Txn{UUID: x.UUID, No: x.No, TS: x.TS, Origin: "restored", Kind: "human"})
				dk.Executed.Add(x.UUID, x.No)
			}
			for _, k := range sortedKeys(m.dumps) {
				m.dumps[k].pump()
			}
			m.checkGW()
			if i < n {
				w.S.After(250*time.Millisecond, tick)
				return
			}
			if bad || d.broken() {
				done(errors.New("bad input"))
				return
			}
			done(true)
		}
		w.S.After(w.S.Dur("tool", 10*time.Millisecond, 500*time.Millisecond), tick)
	})
	if !ok || v == nil || d.fate.kind == "late" {
		t.mu.Lock()
		j.applyFailed = true
		t.mu.Unlock()
		if !ok || v == nil {
			return d.failCode(1)
		}
	}
	return 0
}

// ---- tar and zstd ---------------------------------------------------------------------------

func (t *w3World) tar(p *simexec.Proc, d *procData) int {
	mode := byte(0)
	dir, file := p.Dir, "-"
	var names []string
	for i := 0; i < len(p.Args); i++ {
		a := p.Args[i]
		switch {
		case a == "--create":
			mode = 'c'
		case a == "--extract":
			mode = 'x'
		case strings.HasPrefix(a, "--directory="):
			dir = a[len("--directory="):]
		case strings.HasPrefix(a, "--file="):
			file = a[len("--file="):]
		case strings.HasPrefix(a, "--"):
		case strings.HasPrefix(a, "-") && a != "-" || i == 0:
			for k, c := range []byte(strings.TrimPrefix(a, "-")) {
				_ = k
				switch c {
				case 'c', 'x':
					mode = c
				case 'f':
					i++
					if i < len(p.Args) {
						file = p.Args[i]
					}
				case 'C':
					i++
					if i < len(p.Args) {
						dir = p.Args[i]
					}
				}
			}
		default:
			names = append(names, a)
		}
	}
	if file != "-" || mode == 0 || dir == "" {
		t.bad("tar arguments: %v", p.Args)
		return 2
	}
	if mode == 'c' {
		data, err := makeTar(dir, names)
		if err != nil {
			return 2
		}
		if d.broken() {
			_, _ = p.Stdout.Write(data[:d.frac(len(data))])
			return d.failCode(2)
		}
		if _, err := p.Stdout.Write(data); err != nil {
			return 2
		}
		return 0
	}
	if d.fate.kind == "kill" {
		return -1
	}
	in, err := io.ReadAll(p.Stdin)
	if err != nil {
		return 2
	}
	files, err := readTar(in)
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if d.broken() {
		total := 0
		for _, k := range ks {
			total += len(files[k]) + 1
		}
		left := d.frac(total)
		for i, k := range ks {
			if n := len(files[k]) + 1; n <= left {
				left -= n
				continue
			}
			ks = ks[:i+1]
			b := files[k][:min(left, len(files[k]))]
			files[k] = b[:bytes.LastIndexByte(b, '\n')+1]
			if strings.HasSuffix(k, "/") || len(files[k]) == 0 {
				ks = ks[:i]
			}
			break
		}
		err = errors.New("broken")
	}
	for _, k := range ks {
		f := filepath.Join(dir, filepath.Clean("/"+k))
		if strings.HasSuffix(k, "/") {
			if os.MkdirAll(f, 0755) != nil {
				return 2
			}
			continue
		}
		if os.MkdirAll(filepath.Dir(f), 0755) != nil || os.WriteFile(f, files[k], 0644) != nil {
			return 2
		}
	}
	if err != nil {
		return 2
	}
	return 0
}

func makeTar(dir string, names []string) ([]byte, error) {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, n := range names {
		err := filepath.WalkDir(filepath.Join(dir, n), func(path string, e os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, err := filepath.Rel(dir, path)
			if err != nil {
				return err
			}
			if e.IsDir() {
				return tw.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: rel + "/", Mode: 0755})
			}
			data, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			if err := tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: rel, Mode: 0644, Size: int64(len(data))}); err != nil {
				return err
			}
			_, err = tw.Write(data)
			return err
		})
		if err != nil {
			return nil, err
		}
	}
	err := tw.Close()
	return b.Bytes(), err
}

// readTar returns what an archive holds, and an error if it is not complete.
func readTar(in []byte) (map[string][]byte, error) {
	files := map[string][]byte{}
	tr := tar.NewReader(bytes.NewReader(in))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			// the reader is content without the end marker, tar is not
			if len(in) < 1024 || !bytes.Equal(in[len(in)-1024:], make([]byte, 1024)) {
				return files, io.ErrUnexpectedEOF
			}
			return files, nil
		}
		if err != nil {
			return files, err
		}
		data, err := io.ReadAll(tr)
		files[h.Name] = data
		if err != nil {
			return files, err
		}
	}
}

var zMagic = []byte("SIMZSTD1")

func compress(b []byte) []byte {
	out := append([]byte(nil), zMagic...)
	out = binary.LittleEndian.AppendUint64(out, uint64(len(b)))
	out = append(out, b...)
	return binary.LittleEndian.AppendUint32(out, crc32.ChecksumIEEE(b))
}

// decompress returns what could be read.
func decompress(b []byte) ([]byte, error) {
	if len(b) < 16 || !bytes.Equal(b[:8], zMagic) {
		return nil, errors.New("not compressed")
	}
	n := int(binary.LittleEndian.Uint64(b[8:]))
	b = b[16:]
	if len(b) != n+4 {
		if len(b) > n {
			b = b[:n]
		}
		return b, io.ErrUnexpectedEOF
	}
	if crc32.ChecksumIEEE(b[:n]) != binary.LittleEndian.Uint32(b[n:]) {
		return b[:n], errors.New("checksum mismatch")
	}
	return b[:n], nil
}

func (t *w3World) zstd(p *simexec.Proc, d *procData) int {
	dec := false
	for _, a := range p.Args {
		if a == "-d" || a == "--decompress" || a == "-dc" || a == "-cd" {
			dec = true
		}
	}
	if d.fate.kind == "kill" && d.fate.cut%2 == 0 {
		return -1
	}
	in, err := io.ReadAll(p.Stdin)
	if err != nil {
		return 1
	}
	var out []byte
	code := 0
	if dec {
		out, err = decompress(in)
		if err != nil {
			code = 1
		}
	} else {
		out = compress(in)
	}
	if d.broken() {
		out = out[:d.frac(len(out))]
		code = d.failCode(1)
	}
	if _, err := p.Stdout.Write(out); err != nil {
		code = 1
	}
	return code
}

// ---- what an object of the bucket holds ------------------------------------------------------

func dumpOf(obj []byte) (*dumpData, string, error) {
	files, err := readTar(obj)
	if err != nil {
		return nil, "", err
	}
	in := map[string][]byte{}
	for k, v := range files {
		in[filepath.Base(k)] = v
	}
	dd, err := readDump(in)
	if err != nil {
		return nil, "", err
	}
	var meta struct {
		G string `json:"gtidExecuted"`
	}
	err = json.Unmarshal(in["@.json"], &meta)
	return dd, meta.G, err
}

// binlogOf returns the transactions of an object in the order in which they are applied.
func binlogOf(obj []byte) ([]*Txn, error) {
	b, err := decompress(obj)
	if err != nil {
		return nil, err
	}
	files, err := readTar(b)
	if err != nil {
		return nil, err
	}
	type f struct {
		n    int
		data []byte
	}
	var fs []f
	for k, v := range files {
		base := filepath.Base(k)
		if n, err := strconv.Atoi(strings.TrimPrefix(base, "binlog.")); err == nil && strings.HasPrefix(base, "binlog.") {
			fs = append(fs, f{n, v})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].n < fs[j].n })
	var txns []*Txn
	for _, x := range fs {
		for _, l := range strings.Split(string(x.data), "\n") {
			if l == "" {
				continue
			}
			t, ok := parseBinLine(l)
			if !ok {
				return nil, errors.New("damaged binary log")
			}
			txns = append(txns, t)
		}
	}
	if len(fs) == 0 {
		return nil, errors.New("no binary log file")
	}
	return txns, nil
}
