package sim

import (
	"fmt"
	"time"
)

// AppWrite is one write of a client.
type AppWrite struct {
	ID      int
	App     *App
	Start   time.Duration
	StartOn *Mysqld
	Txn     *Txn
	Inst    *Mysqld
	AckedAt time.Duration
	Acked   bool
	Done    bool
}

// App is a simulated client that goes through the primary or replica service.
type App struct {
	w        *World
	ID       int
	Role     string
	C        *ClusterRef
	User     string
	Host     string
	sess     *Session
	m        *Mysqld
	wr       *AppWrite
	epoch    int
	LongNext time.Duration
	Acks     int
	Fails    int
	stop     bool
}

func (w *World) newApp(c *ClusterRef, role, user, host string) *App {
	a := &App{w: w, ID: len(w.apps), Role: role, C: c, User: user, Host: host}
	w.apps = append(w.apps, a)
	w.S.After(w.S.Dur("appstart", 0, 2*time.Second), a.connect)
	return a
}

func (a *App) again(d time.Duration) {
	e := a.epoch
	a.w.S.After(d, func() {
		if a.epoch == e {
			a.connect()
		}
	})
}

func (a *App) connect() {
	w := a.w
	if a.stop {
		return
	}
	a.epoch++
	a.sess, a.wr = nil, nil
	eps := w.kl.eps[a.C.Namespace+"/"+a.C.Name+"/"+a.Role]
	key := fmt.Sprintf("app/%d", a.ID)
	if len(eps) == 0 {
		a.again(w.S.Dur(key, 200*time.Millisecond, time.Second))
		return
	}
	m := w.insts[eps[w.S.Intn(key, len(eps))]]
	lat := w.netLat("app", m.Node)
	e := a.epoch
	w.S.After(lat, func() {
		if a.epoch != e {
			return
		}
		if !m.Up || m.Stalled || !w.both("app", m.Node) {
			a.again(w.S.Dur(key, 200*time.Millisecond, time.Second))
			return
		}
		a.m = m
		ss := m.newSession(a.User, a.Host, a.Role)
		ss.App = a
		a.sess = ss
		w.S.Logf("app %d connected to %s", a.ID, m.Name)
		a.nextWrite()
	})
}

func (a *App) nextWrite() {
	w := a.w
	key := fmt.Sprintf("app/%d", a.ID)
	gap := w.S.Dur(key, w.Cfg.WriteGap/4, w.Cfg.WriteGap*2)
	if a.Role != "primary" {
		// readers only keep a connection, and reconnect from time to time
		if w.S.Chance(key, 0.2) {
			e, ss := a.epoch, a.sess
			w.S.After(gap*4, func() {
				if a.epoch == e && !ss.dead {
					a.epoch++
					a.m.dropSession(ss, "client closed")
					a.connect()
				}
			})
		}
		return
	}
	e := a.epoch
	w.S.After(gap, func() {
		if a.epoch != e || a.sess == nil || a.sess.dead || a.stop {
			return
		}
		if !w.both("app", a.m.Node) {
			// nothing gets through; retry later on the same connection or give up
			if w.S.Chance(key, 0.1) {
				a.abandon()
				return
			}
			a.nextWrite()
			return
		}
		if a.m.Stalled {
			a.nextWrite()
			return
		}
		a.write()
	})
}

// abandon gives up a connection without the server noticing at once.
func (a *App) abandon() {
	ss, m := a.sess, a.m
	a.epoch++
	a.wr = nil
	a.sess = nil
	if ss != nil {
		ss.App = nil
		gen := m.Gen
		w := a.w
		var fin func()
		fin = func() {
			if m.Gen != gen || ss.dead {
				return
			}
			if w.both("app", m.Node) {
				m.dropSession(ss, "client gone")
				return
			}
			w.S.After(5*time.Second, fin)
		}
		w.S.After(time.Second, fin)
	}
	a.again(500 * time.Millisecond)
}

func (a *App) write() {
	w := a.w
	key := fmt.Sprintf("app/%d", a.ID)
	w.Counts["write"]++
	wr := &AppWrite{ID: w.Counts["write"], App: a, Start: w.S.Now(), StartOn: a.m}
	a.wr = wr
	d := w.S.Dur(key, time.Millisecond, 15*time.Millisecond)
	if a.LongNext > 0 {
		d = a.LongNext
		a.LongNext = 0
		w.probe("long_write")
	}
	e := a.epoch
	a.m.Write(a.sess, wr, d)
	// client-side timeout
	w.S.After(60*time.Second+d, func() {
		if a.epoch == e && a.wr == wr && !wr.Done {
			w.probe("client_timeout")
			a.abandon()
		}
	})
}

// fail is the server's error reply.
func (wr *AppWrite) fail(err *MySQLError) {
	a := wr.App
	wr.Done = true
	a.Fails++
	a.w.count("write_failed")
	if a.wr != wr {
		return
	}
	a.wr = nil
	key := fmt.Sprintf("app/%d", a.ID)
	// half of the clients keep the connection, the others reconnect
	if a.w.S.Chance(key, 0.5) {
		a.nextWriteSoon()
		return
	}
	ss := a.sess
	a.epoch++
	a.w.S.After(0, func() {
		if ss != nil && !ss.dead {
			ss.App = nil
			a.m.dropSession(ss, "client closed")
		}
	})
	a.again(a.w.S.Dur(key, 100*time.Millisecond, time.Second))
}

func (a *App) nextWriteSoon() {
	e := a.epoch
	a.w.S.After(0, func() {
		if a.epoch == e {
			a.nextWrite()
		}
	})
}

// ack is the server's success reply.
func (wr *AppWrite) ack(m *Mysqld) {
	a := wr.App
	w := a.w
	wr.Done = true
	if a.wr != wr || !w.Link(m.Node, "app") || m.Stalled {
		w.count("ack_not_delivered")
		return
	}
	wr.Acked = true
	wr.AckedAt = w.S.Now()
	a.Acks++
	a.wr = nil
	w.count("ack")
	w.S.Logf("app %d ack %s on %s", a.ID, wr.Txn.GTID(), m.Name)
	w.orc.acked(m, wr)
	a.nextWriteSoon()
}

// lost is called when the server drops the session.
func (a *App) lost(ss *Session, why string) {
	if a.sess != ss {
		return
	}
	a.epoch++
	a.sess = nil
	a.wr = nil
	a.again(a.w.S.Dur(fmt.Sprintf("app/%d", a.ID), 50*time.Millisecond, 800*time.Millisecond))
}
