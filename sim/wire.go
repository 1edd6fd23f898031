package sim

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/go-sql-driver/mysql"
)

// curWorld is the world of the run in progress (one run at a time per process).
var curWorld *World

type discardLogger struct{}

func (discardLogger) Print(v ...any) {}

func init() {
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		w := curWorld
		if w == nil {
			return nil, errors.New("sim: no world")
		}
		return w.dial(ctx, addr)
	})
	_ = mysql.SetLogger(discardLogger{})
}

// wireConn is the server end of a simulated TCP connection.
type wireConn struct {
	w    *World
	m    *Mysqld
	gen  int
	c    net.Conn
	cli  net.Conn
	from string // client node
	inc  *Incarnation
	id   uint64
	sess *Session
	qn   int
	open bool
}

// clientConn makes the addresses presentable.
type clientConn struct {
	net.Conn
	addr string
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c clientConn) RemoteAddr() net.Addr { return simAddr(c.addr) }
func (c clientConn) LocalAddr() net.Addr  { return simAddr("10.0.0.1:45678") }

// dial is the transport of the real MySQL driver.
func (w *World) dial(ctx context.Context, addr string) (net.Conn, error) {
	inc := w.incOfAddr(addr)
	key := fmt.Sprintf("dial/%s", addr)
	v, err := w.S.Call(ctx, inc, key, func(r *request) {
		from := w.ctlNode(inc)
		var attempt func()
		attempt = func() {
			if r.Abandoned() || ctx.Err() != nil {
				return
			}
			host, port, _ := net.SplitHostPort(addr)
			m := w.instByIP(host)
			if m == nil && w.isJob(inc) {
				m = w.resolveHost(host, 3306)
			}
			if m == nil {
				// nobody answers at this address
				w.S.After(200*time.Millisecond, attempt)
				return
			}
			if !w.Link(from, m.Node) || !w.Link(m.Node, from) || m.Stalled {
				w.S.After(200*time.Millisecond, attempt)
				return
			}
			if !m.Up {
				w.S.Reply(r, error(&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}))
				return
			}
			if port != "33062" && port != "3306" {
				w.S.Reply(r, error(&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}))
				return
			}
			w.connSeq++
			a, b := net.Pipe()
			wc := &wireConn{w: w, m: m, gen: m.Gen, c: b, cli: a, from: from, inc: inc, id: w.connSeq, open: true}
			w.conns[wc.id] = wc
			w.S.Defer(func() { go wc.serve() })
			w.S.Reply(r, net.Conn(clientConn{a, addr}))
		}
		w.S.After(2*w.netLat(from, addr), attempt)
	})
	if err != nil {
		return nil, err
	}
	return v.(net.Conn), nil
}

func (c *wireConn) shutdown() {
	c.c.Close()
}

func readPacket(r io.Reader) ([]byte, byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, 0, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, 0, err
	}
	return b, h[3], nil
}

type pktWriter struct {
	buf bytes.Buffer
	seq byte
}

func (p *pktWriter) add(b []byte) {
	n := len(b)
	p.buf.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), p.seq})
	p.buf.Write(b)
	p.seq++
}

func lenenc(b []byte, n uint64) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, n)
}

func lenencStr(b []byte, s string) []byte {
	b = lenenc(b, uint64(len(s)))
	return append(b, s...)
}

func okPacket() []byte { return []byte{0, 0, 0, 2, 0, 0, 0} }

func errPacket(e *MySQLError) []byte {
	b := []byte{0xff, byte(e.No), byte(e.No >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, e.Msg...)
}

func scramble(pw string, salt []byte) []byte {
	if pw == "" {
		return nil
	}
	s1 := sha1.Sum([]byte(pw))
	s2 := sha1.Sum(s1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(s2[:])
	s3 := h.Sum(nil)
	for i := range s3 {
		s3[i] ^= s1[i]
	}
	return s3
}

const connSalt = "abcdefgh12345678ijkl"

func (c *wireConn) serve() {
	defer func() {
		c.c.Close()
		c.w.S.Call(context.Background(), nil, fmt.Sprintf("close/%012d", c.id), func(r *request) {
			w := c.w
			fin := func() {
				c.open = false
				delete(w.conns, c.id)
				if c.sess != nil && !c.sess.dead {
					c.sess.conn = nil
					c.m.dropSession(c.sess, "client closed")
				}
			}
			// the server notices a closed connection when it hears about it; statements sent before
			// are executed before, requests held back by a partition are lost
			if w.Link(c.from, c.m.Node) && !c.m.Stalled {
				w.S.After(2*w.Cfg.NetHi, fin)
			} else {
				fin()
			}
			w.S.Reply(r, true)
		})
	}()
	// handshake
	var hs []byte
	hs = append(hs, 10)
	hs = append(hs, c.m.Version...)
	hs = append(hs, 0)
	hs = binary.LittleEndian.AppendUint32(hs, uint32(c.id))
	hs = append(hs, connSalt[:8]...)
	hs = append(hs, 0)
	const caps = 0x1 | 0x200 | 0x8000 | 0x80000 | 0x8 | 0x2 | 0x2000 | 0x10000 | 0x20000
	hs = append(hs, byte(caps&0xff), byte((caps>>8)&0xff))
	hs = append(hs, 45, 2, 0)
	hs = append(hs, byte((caps>>16)&0xff), byte((caps>>24)&0xff))
	hs = append(hs, 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, connSalt[8:]...)
	hs = append(hs, 0)
	hs = append(hs, "mysql_native_password"...)
	hs = append(hs, 0)
	pw := &pktWriter{}
	pw.add(hs)
	if _, err := c.c.Write(pw.buf.Bytes()); err != nil {
		return
	}
	p, seq, err := readPacket(c.c)
	if err != nil || len(p) < 33 {
		return
	}
	rest := p[32:]
	i := bytes.IndexByte(rest, 0)
	if i < 0 {
		return
	}
	user := string(rest[:i])
	rest = rest[i+1:]
	if len(rest) < 1 {
		return
	}
	n := int(rest[0])
	if len(rest) < 1+n {
		return
	}
	auth := append([]byte(nil), rest[1:1+n]...)
	v, err := c.w.S.Call(context.Background(), c.inc, fmt.Sprintf("auth/%012d", c.id), func(r *request) {
		c.w.S.After(c.w.netLat(c.from, c.m.Node), func() {
			m := c.m
			if !m.Up || m.Gen != c.gen {
				c.w.S.Reply(r, errors.New("gone"))
				return
			}
			want, ok := m.Disk.Users[user]
			if !ok || !bytes.Equal(scramble(want, []byte(connSalt)), auth) {
				c.w.probe("auth_denied")
				c.w.S.Logf("sql denied %s user=%s", m.Name, user)
				c.w.onAuthDenied(m, user)
				c.w.S.Reply(r, &MySQLError{1045, "Access denied for user '" + user + "'"})
				return
			}
			c.sess = m.newSession(user, "10.0.0.1:"+fmt.Sprint(40000+c.id%20000), "ctl")
			c.sess.conn = c
			c.w.S.Reply(r, true)
		})
	})
	var e *MySQLError
	if errors.As(err, &e) {
		pw = &pktWriter{seq: seq + 1}
		pw.add(errPacket(e))
		c.c.Write(pw.buf.Bytes())
		return
	}
	if err != nil {
		return
	}
	_ = v
	pw = &pktWriter{seq: seq + 1}
	pw.add(okPacket())
	if _, err := c.c.Write(pw.buf.Bytes()); err != nil {
		return
	}
	for {
		p, seq, err := readPacket(c.c)
		if err != nil {
			return
		}
		if len(p) == 0 {
			return
		}
		switch p[0] {
		case 1: // quit
			return
		case 14: // ping
			pw := &pktWriter{seq: seq + 1}
			pw.add(okPacket())
			if _, err := c.c.Write(pw.buf.Bytes()); err != nil {
				return
			}
		case 3:
			q := string(p[1:])
			c.qn++
			qn := c.qn
			go c.query(q, qn, seq)
		default:
			c.w.S.Call(context.Background(), nil, "badcmd", func(r *request) {
				c.w.S.Harness("unsupported MySQL command %d", p[0])
				c.w.S.Reply(r, true)
			})
			return
		}
	}
}

func (c *wireConn) query(q string, qn int, seq byte) {
	w := c.w
	v, err := w.S.Call(context.Background(), c.inc, fmt.Sprintf("sql/%s/%012d/%06d", c.m.Name, c.id, qn), func(r *request) {
		w.sqlRequest(c, r, q)
	})
	if err != nil {
		c.c.Close()
		return
	}
	res := v.(*Result)
	pw := &pktWriter{seq: seq + 1}
	switch {
	case res.Err != nil:
		pw.add(errPacket(res.Err))
	case len(res.Cols) == 0:
		pw.add(okPacket())
	default:
		pw.add(lenenc(nil, uint64(len(res.Cols))))
		for _, col := range res.Cols {
			b := lenencStr(nil, "def")
			b = lenencStr(b, "")
			b = lenencStr(b, "")
			b = lenencStr(b, "")
			b = lenencStr(b, col)
			b = lenencStr(b, col)
			b = append(b, 0x0c, 45, 0, 0xff, 0xff, 0, 0, 0xfd, 0, 0, 0, 0, 0)
			pw.add(b)
		}
		pw.add([]byte{0xfe, 0, 0, 2, 0})
		for _, row := range res.Rows {
			var b []byte
			for _, x := range row {
				if x == nil {
					b = append(b, 0xfb)
				} else {
					b = lenencStr(b, x.(string))
				}
			}
			pw.add(b)
		}
		pw.add([]byte{0xfe, 0, 0, 2, 0})
	}
	c.c.Write(pw.buf.Bytes())
}

// sqlRequest decides the fate of one statement sent by moco.
func (w *World) sqlRequest(c *wireConn, r *request, q string) {
	m := c.m
	lat := w.netLat(c.from, m.Node)
	fate := w.sqlFate(c, q)
	var deliver func()
	deliver = func() {
		if !c.open || r.Abandoned() && c.inc.Dead() && w.S.Chance("sqllost", 0.5) {
			return
		}
		if !m.Up || m.Gen != c.gen {
			w.S.Reply(r, errors.New("gone"))
			return
		}
		if fate == "lost_request" || c.sess == nil || c.sess.dead {
			w.S.Logf("sql drop %s %s", m.Name, short(q))
			w.sqlWasLost(c, m, q)
			w.S.Reply(r, errors.New("gone"))
			return
		}
		if !w.Link(c.from, m.Node) || m.Stalled {
			w.S.After(250*time.Millisecond, deliver)
			return
		}
		w.S.Logf("sql exec %s %s", m.Name, sqlDigest(q))
		w.onSQL(m, c, q)
		w.sqlCtx = c
		m.ExecSQL(c.sess, q, func(res *Result) {
			if fate == "lost_reply" {
				w.S.Logf("sql lostreply %s", m.Name)
				w.sqlWasLost(c, m, q)
				w.S.Reply(r, errors.New("gone"))
				return
			}
			var back func()
			back = func() {
				if !c.open {
					return
				}
				if !m.Up || m.Gen != c.gen {
					w.S.Reply(r, errors.New("gone"))
					return
				}
				if !w.Link(m.Node, c.from) || m.Stalled {
					w.S.After(250*time.Millisecond, back)
					return
				}
				w.S.Reply(r, res)
			}
			w.S.After(w.netLat(m.Node, c.from), back)
		})
		w.sqlCtx = nil
	}
	w.S.After(lat, deliver)
}

func (w *World) sqlWasLost(c *wireConn, m *Mysqld, q string) {
	if w.isJob(c.inc) {
		w.w3.byInc[c.inc.ID].sqlLost = true
		return
	}
	w.orc.sqlLost(m, q)
}

func sqlDigest(q string) string {
	if len(q) > 60 {
		return short(q[:60])
	}
	return short(q)
}
