package sim

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Result is a query result.
type Result struct {
	Cols []string
	Rows [][]any // string or nil
	Err  *MySQLError
	Ver  string
}

func okResult() *Result                    { return &Result{} }
func errResult(n uint16, m string) *Result { return &Result{Err: &MySQLError{n, m}} }

type tok struct {
	k   byte // 'i' ident, 's' string, 'n' number, 'v' @@var, 'u' @var, 'p' punctuation
	t   string
	pos int
	end int
}

func lexSQL(q string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(q) && q[i+1] == '*':
			e := strings.Index(q[i:], "*/")
			if e < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += e + 2
		case c == '-' && strings.HasPrefix(q[i:], "-- "):
			e := strings.IndexByte(q[i:], '\n')
			if e < 0 {
				i = len(q)
			} else {
				i += e + 1
			}
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(q) {
					return nil, fmt.Errorf("unterminated string")
				}
				if q[j] == '\\' && j+1 < len(q) {
					j++
					switch q[j] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case 't':
						b.WriteByte('\t')
					case '0':
						b.WriteByte(0)
					case 'Z':
						b.WriteByte(26)
					default:
						b.WriteByte(q[j])
					}
					continue
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j++
						continue
					}
					break
				}
				b.WriteByte(q[j])
			}
			ts = append(ts, tok{'s', b.String(), i, j + 1})
			i = j + 1
		case c == '`':
			e := strings.IndexByte(q[i+1:], '`')
			if e < 0 {
				return nil, fmt.Errorf("unterminated identifier")
			}
			ts = append(ts, tok{'i', q[i+1 : i+1+e], i, i + e + 2})
			i += e + 2
		case c == '@':
			j := i
			for j < len(q) && q[j] == '@' {
				j++
			}
			n := j - i
			k := j
			for k < len(q) && (isIdent(q[k]) || q[k] == '.') {
				k++
			}
			kind := byte('u')
			if n == 2 {
				kind = 'v'
			}
			ts = append(ts, tok{kind, q[j:k], i, k})
			i = k
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			if j < len(q) && isIdent(q[j]) {
				for j < len(q) && isIdent(q[j]) {
					j++
				}
				ts = append(ts, tok{'i', q[i:j], i, j})
			} else {
				ts = append(ts, tok{'n', q[i:j], i, j})
			}
			i = j
		case isIdent(c):
			j := i
			for j < len(q) && isIdent(q[j]) {
				j++
			}
			ts = append(ts, tok{'i', q[i:j], i, j})
			i = j
		case strings.HasPrefix(q[i:], "<=") || strings.HasPrefix(q[i:], ">=") || strings.HasPrefix(q[i:], "<>") || strings.HasPrefix(q[i:], "!=") || strings.HasPrefix(q[i:], ":="):
			ts = append(ts, tok{'p', q[i : i+2], i, i + 2})
			i += 2
		default:
			ts = append(ts, tok{'p', string(c), i, i + 1})
			i++
		}
	}
	return ts, nil
}

func isIdent(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
}

type parser struct {
	q  string
	ts []tok
	i  int
	m  *Mysqld
	ss *Session
}

type unsupported struct{ msg string }

func (p *parser) bad(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (p *parser) peek() tok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return tok{}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }
func (p *parser) kw(words ...string) bool {
	for j, w := range words {
		if p.i+j >= len(p.ts) {
			return false
		}
		t := p.ts[p.i+j]
		if !(t.k == 'i' || t.k == 'p') || !strings.EqualFold(t.t, w) {
			return false
		}
	}
	p.i += len(words)
	return true
}
func (p *parser) need(words ...string) {
	if !p.kw(words...) {
		p.bad("expected %v", words)
	}
}
func (p *parser) end() {
	p.kw(";")
	if p.i < len(p.ts) {
		p.bad("trailing tokens at %q", p.peek().t)
	}
}

// ExecSQL runs one statement; done may be called later.
func (m *Mysqld) ExecSQL(ss *Session, q string, done func(*Result)) {
	ts, err := lexSQL(q)
	if err != nil {
		m.W.S.Harness("cannot lex SQL %q: %v", q, err)
		return
	}
	p := &parser{q: q, ts: ts, m: m, ss: ss}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				m.W.S.Harness("unsupported SQL %q: %s", q, u.msg)
				return
			}
			panic(r)
		}
	}()
	p.statement(done)
}

func (p *parser) statement(done func(*Result)) {
	m := p.m
	w := m.W
	switch {
	case p.kw("SELECT"):
		p.selectStmt(done)
	case p.kw("SHOW"):
		p.show(done)
	case p.kw("SET"):
		p.set(done)
	case p.kw("START"):
		if p.kw("TRANSACTION") {
			p.i = len(p.ts)
			done(okResult())
			return
		}
		p.replWord()
		io, sql := p.threads()
		p.end()
		if m.Disk.Source == nil {
			done(errResult(1200, "The server is not configured as replica; fix in config file or with CHANGE REPLICATION SOURCE TO"))
			return
		}
		w.onReplCmd(m, "START", io, sql)
		if sql {
			m.StartSQL()
		}
		if io {
			m.StartIO()
		}
		done(okResult())
	case p.kw("STOP"):
		p.replWord()
		io, sql := p.threads()
		p.end()
		w.onReplCmd(m, "STOP", io, sql)
		if io {
			m.StopIO()
		}
		if sql {
			m.StopSQL()
		}
		done(okResult())
	case p.kw("RESET"):
		if p.kw("MASTER") || p.kw("BINARY", "LOGS", "AND", "GTIDS") {
			p.end()
			w.onReset(m, "MASTER")
			m.Disk.Executed, m.Disk.Purged = GTIDSet{}, GTIDSet{}
			m.Disk.Binlog = nil
			m.Disk.Files, m.Disk.BinBase, m.Disk.BinNo = nil, 0, 0
			m.Disk.Rotate()
			done(okResult())
			return
		}
		p.replWord()
		all := p.kw("ALL")
		p.end()
		if m.IO != "No" || m.SQL != "No" {
			done(errResult(1198, "This operation cannot be performed with running replication threads; run STOP REPLICA FOR CHANNEL '' first"))
			return
		}
		w.onReset(m, "REPLICA")
		m.Disk.Relay = nil
		m.Disk.Retrieved = GTIDSet{}
		if all {
			m.Disk.Source = nil
		}
		done(okResult())
	case p.kw("CHANGE"):
		p.change(done)
	case p.kw("KILL"):
		if !p.kw("CONNECTION") {
			p.kw("QUERY")
		}
		id, err := strconv.ParseUint(p.next().t, 10, 64)
		if err != nil {
			p.bad("bad id")
		}
		p.end()
		if e := m.Kill(id); e != nil {
			done(&Result{Err: e})
			return
		}
		done(okResult())
	case p.kw("FLUSH"):
		p.flush(done)
	case p.kw("PURGE"), p.kw("DROP"), p.kw("CREATE"), p.kw("GRANT"), p.kw("ALTER"), p.kw("INSERT"), p.kw("UPDATE"), p.kw("DELETE"), p.kw("TRUNCATE"), p.kw("REPLACE"):
		if w.onDDL == nil {
			p.bad("DDL/DML")
		}
		w.onDDL(m, p.ss, p.q, done)
	case p.kw("DO"), p.kw("USE"), p.kw("COMMIT"), p.kw("ROLLBACK"), p.kw("BEGIN"), p.kw("UNLOCK"), p.kw("LOCK"):
		done(okResult())
	default:
		p.bad("statement")
	}
}

func (p *parser) replWord() {
	if !p.kw("REPLICA") && !p.kw("SLAVE") {
		p.bad("expected REPLICA")
	}
}

func (p *parser) threads() (io, sql bool) {
	for {
		switch {
		case p.kw("IO_THREAD"):
			io = true
		case p.kw("SQL_THREAD"):
			sql = true
		default:
			if !io && !sql {
				return true, true
			}
			return
		}
		if !p.kw(",") {
			return
		}
	}
}

func (p *parser) change(done func(*Result)) {
	m := p.m
	if !p.kw("REPLICATION", "SOURCE", "TO") && !p.kw("MASTER", "TO") {
		p.bad("CHANGE")
	}
	sc := &SourceConf{Port: 3306}
	if m.Disk.Source != nil {
		*sc = *m.Disk.Source
	}
	hostChanged := false
	for {
		k := strings.ToUpper(p.next().t)
		p.need("=")
		v := p.next()
		k = strings.Replace(k, "MASTER_", "SOURCE_", 1)
		switch k {
		case "SOURCE_HOST":
			hostChanged = sc.Host != v.t
			sc.Host = v.t
		case "SOURCE_PORT":
			n, err := strconv.Atoi(v.t)
			if err != nil {
				p.bad("port")
			}
			sc.Port = n
		case "SOURCE_USER":
			sc.User = v.t
		case "SOURCE_PASSWORD":
			sc.Password = v.t
		case "SOURCE_AUTO_POSITION":
			sc.AutoPos = v.t == "1"
		case "GET_SOURCE_PUBLIC_KEY", "SOURCE_SSL", "SOURCE_CONNECT_RETRY", "SOURCE_RETRY_COUNT", "SOURCE_HEARTBEAT_PERIOD":
		default:
			p.bad("CHANGE option %s", k)
		}
		if !p.kw(",") {
			break
		}
	}
	p.end()
	_ = hostChanged
	if m.IO != "No" {
		done(errResult(3021, "This operation cannot be performed with a running replica io thread; run STOP REPLICA IO_THREAD FOR CHANNEL '' first."))
		return
	}
	if m.SQL != "No" {
		done(errResult(1776, "This operation cannot be performed with a running replica sql thread; run STOP REPLICA SQL_THREAD FOR CHANNEL '' first"))
		return
	}
	m.W.onChangeSource(m, sc)
	if len(m.Disk.Relay) > 0 {
		m.W.probe("relay_purged_by_change_source")
	}
	m.Disk.Source = sc
	m.Disk.Relay = nil
	m.Disk.Retrieved = GTIDSet{}
	done(okResult())
}

func boolVal(s string) (bool, bool) {
	switch strings.ToUpper(s) {
	case "1", "ON", "TRUE", "YES":
		return true, true
	case "0", "OFF", "FALSE", "NO":
		return false, true
	}
	return false, false
}

func normVar(n string) string {
	n = strings.ToLower(n)
	n = strings.TrimPrefix(n, "global.")
	n = strings.TrimPrefix(n, "session.")
	n = strings.TrimPrefix(n, "persist.")
	switch n {
	case "rpl_semi_sync_source_enabled":
		return "rpl_semi_sync_master_enabled"
	case "rpl_semi_sync_replica_enabled":
		return "rpl_semi_sync_slave_enabled"
	case "rpl_semi_sync_source_timeout":
		return "rpl_semi_sync_master_timeout"
	case "rpl_semi_sync_source_wait_for_replica_count":
		return "rpl_semi_sync_master_wait_for_slave_count"
	}
	return n
}

func (p *parser) set(done func(*Result)) {
	m := p.m
	type asg struct{ n, v string }
	var as []asg
	global := false
	for {
		if p.kw("GLOBAL") || p.kw("PERSIST") {
			global = true
		} else if p.kw("SESSION") || p.kw("NAMES") || p.kw("LOCAL") {
			global = false
			p.i = len(p.ts)
			break
		}
		t := p.next()
		name := t.t
		if t.k == 'v' {
			if strings.HasPrefix(strings.ToLower(name), "global.") {
				global = true
			}
		}
		if !p.kw("=") && !p.kw(":=") {
			p.bad("SET syntax")
		}
		v := p.next()
		val := v.t
		if v.k == 'i' && strings.EqualFold(val, "ON") {
			val = "1"
		}
		if global {
			as = append(as, asg{normVar(name), val})
		}
		if !p.kw(",") {
			break
		}
	}
	p.end()
	var step func(i int)
	step = func(i int) {
		if i == len(as) {
			done(okResult())
			return
		}
		a := as[i]
		b, isb := boolVal(a.v)
		m.W.onSetVar(m, a.n, a.v)
		switch a.n {
		case "read_only", "super_read_only":
			if !isb {
				p.bad("bool")
			}
			m.SetRO(p.ss, a.n == "super_read_only", b, func(e *MySQLError) {
				if e != nil {
					done(&Result{Err: e})
					return
				}
				step(i + 1)
			})
			return
		case "rpl_semi_sync_master_enabled":
			if !isb {
				p.bad("bool")
			}
			m.SSMaster = b
			m.checkAcks()
		case "rpl_semi_sync_slave_enabled":
			if !isb {
				p.bad("bool")
			}
			m.SSSlave = b
		case "rpl_semi_sync_master_wait_for_slave_count":
			n, err := strconv.Atoi(a.v)
			if err != nil || n < 1 {
				done(errResult(1231, "Variable 'rpl_semi_sync_master_wait_for_slave_count' can't be set to the value of '"+a.v+"'"))
				return
			}
			m.SSWait = n
			m.checkAcks()
		case "rpl_semi_sync_master_timeout":
			n, err := strconv.ParseInt(a.v, 10, 64)
			if err != nil {
				p.bad("int")
			}
			m.SSTimeout = n
		default:
			m.Vars[a.n] = a.v
		}
		step(i + 1)
	}
	step(0)
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (m *Mysqld) sysvar(n string) (string, bool) {
	switch normVar(n) {
	case "server_uuid":
		return m.Disk.UUID, true
	case "server_id":
		return strconv.Itoa(int(m.SrvID)), true
	case "gtid_executed":
		return m.Disk.Executed.String(), true
	case "gtid_purged":
		return m.Disk.Purged.String(), true
	case "read_only":
		return b01(m.ReadOnly), true
	case "super_read_only":
		return b01(m.SuperRO), true
	case "rpl_semi_sync_master_enabled":
		return b01(m.SSMaster), true
	case "rpl_semi_sync_slave_enabled":
		return b01(m.SSSlave), true
	case "rpl_semi_sync_master_wait_for_slave_count":
		return strconv.Itoa(m.SSWait), true
	case "rpl_semi_sync_master_timeout":
		return strconv.FormatInt(m.SSTimeout, 10), true
	case "version":
		return m.Version, true
	case "hostname":
		return m.Name, true
	case "max_allowed_packet":
		return "67108864", true
	}
	v, ok := m.Vars[normVar(n)]
	return v, ok
}

func (p *parser) flush(done func(*Result)) {
	m := p.m
	p.kw("LOCAL")
	if m.W.onFlush == nil {
		p.bad("FLUSH")
	}
	m.W.onFlush(m, p.q, done)
}

// ---- SELECT ---------------------------------------------------------------

type val struct {
	s    string
	null bool
}

type expr func(row map[string]val) val

type selItem struct {
	name string
	star bool
	e    expr
	wait *waitCall
}

type waitCall struct{ set, timeout expr }

func (p *parser) selectStmt(done func(*Result)) {
	m := p.m
	var items []selItem
	for {
		if p.peek().t == "*" {
			p.i++
			items = append(items, selItem{star: true})
		} else {
			st := p.i
			var it selItem
			if p.kw("WAIT_FOR_EXECUTED_GTID_SET", "(") {
				a := p.expr()
				it.wait = &waitCall{set: a}
				if p.kw(",") {
					it.wait.timeout = p.expr()
				}
				p.need(")")
			} else {
				it.e = p.expr()
			}
			it.name = p.q[p.ts[st].pos:p.ts[p.i-1].end]
			if p.ts[st].k == 'i' && p.i == st+1 {
				it.name = p.ts[st].t
			}
			if p.kw("AS") {
				it.name = p.next().t
			} else if t := p.peek(); t.k == 'i' && !isClause(t.t) {
				it.name = t.t
				p.i++
			}
			items = append(items, it)
		}
		if !p.kw(",") {
			break
		}
	}
	rows := []map[string]val{{}}
	var cols []string
	if p.kw("FROM") {
		name := strings.ToLower(p.next().t)
		for p.kw(".") {
			name += "." + strings.ToLower(p.next().t)
		}
		p.alias()
		cols, rows = m.table(name)
		if cols == nil {
			p.bad("table %s", name)
		}
	}
	if p.kw("WHERE") {
		e := p.expr()
		var out []map[string]val
		for _, r := range rows {
			v := e(r)
			if !v.null && truthy(v.s) {
				out = append(out, r)
			}
		}
		rows = out
	}
	if p.kw("ORDER", "BY") {
		for p.i < len(p.ts) && !strings.EqualFold(p.peek().t, "LIMIT") {
			p.i++
		}
	}
	if p.kw("LIMIT") {
		n, _ := strconv.Atoi(p.next().t)
		if len(rows) > n {
			rows = rows[:n]
		}
	}
	p.end()
	// blocking function
	if len(items) == 1 && items[0].wait != nil {
		wc := items[0].wait
		set, err := ParseGTIDSet(wc.set(nil).s)
		if err != nil {
			done(errResult(1772, "Malformed GTID set specification"))
			return
		}
		var to time.Duration
		if wc.timeout != nil {
			f, err := strconv.ParseFloat(wc.timeout(nil).s, 64)
			if err != nil {
				p.bad("timeout")
			}
			to = time.Duration(f * float64(time.Second))
		}
		m.W.onWaitGTID(m, set)
		m.WaitGTID(p.ss, set, to, func(timeout bool) {
			done(&Result{Cols: []string{items[0].name}, Rows: [][]any{{b01(timeout)}}})
		})
		return
	}
	res := &Result{}
	for _, it := range items {
		if it.wait != nil {
			p.bad("WAIT_FOR in list")
		}
		if it.star {
			res.Cols = append(res.Cols, cols...)
		} else {
			res.Cols = append(res.Cols, it.name)
		}
	}
	for _, r := range rows {
		var out []any
		for _, it := range items {
			if it.star {
				for _, c := range cols {
					out = append(out, r[strings.ToLower(c)].any())
				}
			} else {
				out = append(out, it.e(r).any())
			}
		}
		res.Rows = append(res.Rows, out)
	}
	done(res)
}

func (v val) any() any {
	if v.null {
		return nil
	}
	return v.s
}

func truthy(s string) bool { return s != "" && s != "0" }

func isClause(s string) bool {
	switch strings.ToUpper(s) {
	case "FROM", "WHERE", "ORDER", "LIMIT", "GROUP", "AND", "OR", "IN", "LIKE", "NOT", "AS", "INTO", "IS":
		return true
	}
	return false
}

func (p *parser) alias() {
	p.kw("AS")
	if t := p.peek(); t.k == 'i' && !isClause(t.t) {
		p.i++
	}
}

func (p *parser) expr() expr {
	l := p.andExpr()
	for p.kw("OR") {
		r, l0 := p.andExpr(), l
		l = func(row map[string]val) val { return val{s: b01(truthy(l0(row).s) || truthy(r(row).s))} }
	}
	return l
}

func (p *parser) andExpr() expr {
	l := p.notExpr()
	for p.kw("AND") {
		r, l0 := p.notExpr(), l
		l = func(row map[string]val) val { return val{s: b01(truthy(l0(row).s) && truthy(r(row).s))} }
	}
	return l
}

func (p *parser) notExpr() expr {
	if p.kw("NOT") {
		e := p.notExpr()
		return func(row map[string]val) val { return val{s: b01(!truthy(e(row).s))} }
	}
	return p.cmpExpr()
}

func likeMatch(pat, s string) bool {
	r := "(?is)^"
	for i := 0; i < len(pat); i++ {
		switch {
		case pat[i] == '%':
			r += ".*"
		case pat[i] == '_':
			r += "."
		case pat[i] == '\\' && i+1 < len(pat):
			i++
			r += regexp.QuoteMeta(string(pat[i]))
		default:
			r += regexp.QuoteMeta(string(pat[i]))
		}
	}
	return regexp.MustCompile(r + "$").MatchString(s)
}

func (p *parser) cmpExpr() expr {
	l := p.prim()
	neg := false
	if p.i+1 < len(p.ts) && strings.EqualFold(p.peek().t, "NOT") && (strings.EqualFold(p.ts[p.i+1].t, "IN") || strings.EqualFold(p.ts[p.i+1].t, "LIKE")) {
		p.i++
		neg = true
	}
	switch {
	case p.kw("IN"):
		p.need("(")
		var es []expr
		for {
			es = append(es, p.expr())
			if !p.kw(",") {
				break
			}
		}
		p.need(")")
		return func(row map[string]val) val {
			x := l(row)
			for _, e := range es {
				if strings.EqualFold(e(row).s, x.s) {
					return val{s: b01(!neg)}
				}
			}
			return val{s: b01(neg)}
		}
	case p.kw("LIKE"):
		r := p.prim()
		return func(row map[string]val) val { return val{s: b01(likeMatch(r(row).s, l(row).s) != neg)} }
	case p.kw("IS"):
		not := p.kw("NOT")
		p.need("NULL")
		return func(row map[string]val) val { return val{s: b01(l(row).null != not)} }
	}
	for _, op := range []string{"=", "!=", "<>", "<=", ">=", "<", ">"} {
		if t := p.peek(); t.k == 'p' && t.t == op {
			p.i++
			r := p.prim()
			return func(row map[string]val) val {
				a, b := l(row), r(row)
				if a.null || b.null {
					return val{null: true}
				}
				fa, e1 := strconv.ParseFloat(a.s, 64)
				fb, e2 := strconv.ParseFloat(b.s, 64)
				c := strings.Compare(strings.ToLower(a.s), strings.ToLower(b.s))
				if e1 == nil && e2 == nil {
					switch {
					case fa < fb:
						c = -1
					case fa > fb:
						c = 1
					default:
						c = 0
					}
				}
				var ok bool
				switch op {
				case "=":
					ok = c == 0
				case "!=", "<>":
					ok = c != 0
				case "<":
					ok = c < 0
				case ">":
					ok = c > 0
				case "<=":
					ok = c <= 0
				case ">=":
					ok = c >= 0
				}
				return val{s: b01(ok)}
			}
		}
	}
	return l
}

func lit(s string) expr { return func(map[string]val) val { return val{s: s} } }

func (p *parser) prim() expr {
	m := p.m
	t := p.next()
	switch t.k {
	case 's', 'n':
		return lit(t.t)
	case 'v':
		n := t.t
		return func(map[string]val) val {
			v, ok := m.sysvar(n)
			if !ok {
				p.bad("variable %s", n)
			}
			return val{s: v}
		}
	case 'p':
		if t.t == "(" {
			e := p.expr()
			p.need(")")
			return e
		}
		if t.t == "-" {
			return lit("-" + p.next().t)
		}
	case 'i':
		switch strings.ToUpper(t.t) {
		case "NULL":
			return func(map[string]val) val { return val{null: true} }
		case "TRUE":
			return lit("1")
		case "FALSE":
			return lit("0")
		}
		if p.kw("(") {
			var args []expr
			if !p.kw(")") {
				for {
					args = append(args, p.expr())
					if !p.kw(",") {
						break
					}
				}
				p.need(")")
			}
			return p.call(strings.ToUpper(t.t), args)
		}
		name := t.t
		for p.kw(".") {
			name = p.next().t
		}
		return func(row map[string]val) val {
			v, ok := row[strings.ToLower(name)]
			if !ok {
				p.bad("column %s", name)
			}
			return v
		}
	}
	p.bad("expression at %q", t.t)
	return nil
}

func (p *parser) call(fn string, a []expr) expr {
	m := p.m
	argc := func(n int) {
		if len(a) != n {
			p.bad("%s argument count", fn)
		}
	}
	gt := func(row map[string]val, i int) GTIDSet {
		g, err := ParseGTIDSet(a[i](row).s)
		if err != nil {
			p.bad("GTID %v", err)
		}
		return g
	}
	switch fn {
	case "VERSION":
		return lit(m.Version)
	case "SUBSTRING_INDEX":
		argc(3)
		return func(row map[string]val) val {
			n, _ := strconv.Atoi(a[2](row).s)
			f := strings.Split(a[0](row).s, a[1](row).s)
			if n >= 0 && n < len(f) {
				f = f[:n]
			}
			return val{s: strings.Join(f, a[1](row).s)}
		}
	case "GTID_SUBSET":
		argc(2)
		return func(row map[string]val) val { return val{s: b01(gt(row, 0).SubsetOf(gt(row, 1)))} }
	case "GTID_SUBTRACT":
		argc(2)
		return func(row map[string]val) val { return val{s: gt(row, 0).Minus(gt(row, 1)).String()} }
	case "COUNT":
		p.bad("aggregate")
	case "CONNECTION_ID":
		return lit(strconv.FormatUint(p.ss.ID, 10))
	case "USER", "CURRENT_USER":
		return lit(p.ss.User + "@" + p.ss.Host)
	case "CONCAT":
		return func(row map[string]val) val {
			s := ""
			for _, x := range a {
				s += x(row).s
			}
			return val{s: s}
		}
	case "IFNULL", "COALESCE":
		return func(row map[string]val) val {
			for _, x := range a {
				if v := x(row); !v.null {
					return v
				}
			}
			return val{null: true}
		}
	}
	p.bad("function %s", fn)
	return nil
}

func mkrow(cols []string, vs ...any) map[string]val {
	r := map[string]val{}
	for i, c := range cols {
		v := val{}
		switch x := vs[i].(type) {
		case nil:
			v.null = true
		case string:
			v.s = x
		default:
			v.s = fmt.Sprint(x)
		}
		r[strings.ToLower(c)] = v
	}
	return r
}

func (m *Mysqld) table(name string) ([]string, []map[string]val) {
	switch name {
	case "performance_schema.global_status":
		cols := []string{"VARIABLE_NAME", "VARIABLE_VALUE"}
		var rows []map[string]val
		for _, kv := range m.globalStatus() {
			rows = append(rows, mkrow(cols, kv[0], kv[1]))
		}
		return cols, rows
	case "performance_schema.global_variables":
		cols := []string{"VARIABLE_NAME", "VARIABLE_VALUE"}
		var rows []map[string]val
		for _, n := range []string{"server_uuid", "gtid_executed", "gtid_purged", "read_only", "super_read_only", "rpl_semi_sync_master_enabled", "rpl_semi_sync_slave_enabled", "rpl_semi_sync_master_wait_for_slave_count", "version"} {
			v, _ := m.sysvar(n)
			rows = append(rows, mkrow(cols, n, v))
		}
		return cols, rows
	case "performance_schema.clone_status":
		cols := []string{"ID", "PID", "STATE", "ERROR_NO", "ERROR_MESSAGE"}
		if m.Disk.Clone == "" {
			return cols, nil
		}
		return cols, []map[string]val{mkrow(cols, "1", "0", m.Disk.Clone, "0", "")}
	case "information_schema.processlist", "performance_schema.processlist":
		cols := []string{"ID", "USER", "HOST", "DB", "COMMAND", "TIME", "STATE", "INFO"}
		var rows []map[string]val
		for _, r := range m.processList() {
			rows = append(rows, mkrow(cols, r.ID, r.User, r.Host, nil, r.Via, "0", "", nil))
		}
		return cols, rows
	case "dual":
		return []string{"dummy"}, []map[string]val{{}}
	}
	if m.W.onTable != nil {
		return m.W.onTable(m, name)
	}
	return nil, nil
}

func (m *Mysqld) globalStatus() [][2]string {
	on := "OFF"
	if m.SSMaster && !m.ssOff {
		on = "ON"
	}
	clients := 0
	for _, k := range sortedKeys(m.dumps) {
		if m.dumps[k].semi {
			clients++
		}
	}
	w := strconv.Itoa(m.waitSessions())
	return [][2]string{
		{"Uptime", strconv.Itoa(int((m.W.S.Now() - m.BootAt) / time.Second))},
		{"Rpl_semi_sync_master_wait_sessions", w},
		{"Rpl_semi_sync_source_wait_sessions", w},
		{"Rpl_semi_sync_master_status", on},
		{"Rpl_semi_sync_master_clients", strconv.Itoa(clients)},
		{"Threads_connected", strconv.Itoa(len(m.sessions))},
	}
}

func (m *Mysqld) processList() []*Session {
	var out []*Session
	if m.IO != "No" {
		out = append(out, &Session{ID: 5, User: "system user", Host: "connecting host", Via: "Connect"})
	}
	if m.SQL != "No" {
		out = append(out, &Session{ID: 6, User: "system user", Host: "", Via: "Query"})
	}
	for _, id := range m.sessionIDs() {
		out = append(out, m.sessions[id])
	}
	return out
}

func (p *parser) show(done func(*Result)) {
	m := p.m
	switch {
	case p.kw("REPLICAS"), p.kw("SLAVE", "HOSTS"):
		p.end()
		res := &Result{Cols: []string{"Server_Id", "Host", "Port", "Source_Id", "Replica_UUID"}}
		for _, k := range sortedKeys(m.dumps) {
			d := m.dumps[k]
			res.Rows = append(res.Rows, []any{strconv.Itoa(int(d.dst.SrvID)), "", "3306", strconv.Itoa(int(m.SrvID)), d.dst.Disk.UUID})
		}
		done(res)
	case p.kw("REPLICA", "STATUS"), p.kw("SLAVE", "STATUS"):
		p.end()
		done(m.showReplicaStatus())
	case p.kw("GLOBAL", "STATUS"), p.kw("STATUS"), p.kw("GLOBAL", "VARIABLES"), p.kw("VARIABLES"):
		table := "performance_schema.global_status"
		if strings.EqualFold(p.ts[p.i-1].t, "VARIABLES") {
			table = "performance_schema.global_variables"
		}
		_, rows := m.table(table)
		pat := "%"
		if p.kw("LIKE") {
			pat = p.next().t
		} else if p.kw("WHERE") {
			p.i = len(p.ts)
		}
		p.end()
		res := &Result{Cols: []string{"Variable_name", "Value"}}
		for _, r := range rows {
			if likeMatch(pat, r["variable_name"].s) {
				res.Rows = append(res.Rows, []any{r["variable_name"].s, r["variable_value"].s})
			}
		}
		done(res)
	case p.kw("PROCESSLIST"), p.kw("FULL", "PROCESSLIST"):
		p.end()
		res := &Result{Cols: []string{"Id", "User", "Host", "db", "Command", "Time", "State", "Info"}}
		for _, r := range m.processList() {
			res.Rows = append(res.Rows, []any{strconv.FormatUint(r.ID, 10), r.User, r.Host, nil, r.Via, "0", "", nil})
		}
		done(res)
	default:
		if m.W.onShow == nil {
			p.bad("SHOW")
		}
		if !m.W.onShow(m, p.q, done) {
			p.bad("SHOW")
		}
	}
}

func (m *Mysqld) showReplicaStatus() *Result {
	if m.Disk.Source == nil {
		return &Result{Cols: []string{"Source_Host"}}
	}
	sc := m.Disk.Source
	var sbs any
	if n, ok := m.secondsBehind(); ok {
		sbs = strconv.FormatInt(n, 10)
	}
	srcUUID := ""
	if m.src != nil {
		srcUUID = m.src.src.Disk.UUID
	}
	kv := [][2]any{
		{"Replica_IO_State", ""}, {"Source_Host", sc.Host}, {"Source_User", sc.User}, {"Source_Port", strconv.Itoa(sc.Port)},
		{"Connect_Retry", "60"}, {"Source_Log_File", ""}, {"Read_Source_Log_Pos", "4"}, {"Relay_Log_File", "relay.000001"}, {"Relay_Log_Pos", "4"},
		{"Replica_IO_Running", m.IO}, {"Replica_SQL_Running", m.SQL},
		{"Last_Errno", strconv.Itoa(m.SQLErrno)}, {"Last_Error", m.SQLError},
		{"Seconds_Behind_Source", sbs},
		{"Last_IO_Errno", strconv.Itoa(m.IOErrno)}, {"Last_IO_Error", m.IOError},
		{"Last_SQL_Errno", strconv.Itoa(m.SQLErrno)}, {"Last_SQL_Error", m.SQLError},
		{"Source_UUID", srcUUID}, {"SQL_Delay", "0"}, {"SQL_Remaining_Delay", nil},
		{"Retrieved_Gtid_Set", m.Disk.Retrieved.String()}, {"Executed_Gtid_Set", m.Disk.Executed.String()},
		{"Auto_Position", "1"}, {"Channel_Name", ""},
	}
	res := &Result{Rows: [][]any{nil}}
	for _, x := range kv {
		res.Cols = append(res.Cols, x[0].(string))
		res.Rows[0] = append(res.Rows[0], x[1])
	}
	return res
}
