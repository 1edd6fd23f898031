// Package sim is a deterministic simulator that runs the real moco code.
//
// Everything runs inside one testing/synctest bubble.  The bubble's root
// goroutine executes the event loop below; it is the only goroutine that
// mutates simulated state.  Every other goroutine (moco's own, database/sql's,
// controller-runtime's) reaches the outside world only by parking a request at
// a seam.  The loop waits until all goroutines are durably blocked, collects
// the parked requests, sorts them by a key that does not depend on goroutine
// scheduling, gives each a latency and a fate derived from the seed, and
// executes events in (time, sequence) order.
package sim

import (
	"container/heap"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// ErrDead is returned by every seam of a crashed process.
var ErrDead = errors.New("sim: process is dead")

type event struct {
	at  time.Duration
	seq uint64
	run func()
	// weak events (periodic background activity) do not keep the run alive
	cancelled bool
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	old := *h
	n := len(old)
	x := old[n-1]
	*h = old[:n-1]
	return x
}

// request is a parked call.
type request struct {
	key  string
	arr  uint64
	exec func(r *request)
	done chan any
	dead bool // already answered or abandoned
	inc  *Incarnation
}

// Incarnation is the lifetime of one simulated moco process.
type Incarnation struct {
	ID   int
	dead bool
	mu   sync.Mutex
	pend map[*request]struct{}
}

func (i *Incarnation) Dead() bool {
	if i == nil {
		return false
	}
	i.mu.Lock()
	defer i.mu.Unlock()
	return i.dead
}

// Sim is the event loop.
type Sim struct {
	Seed  uint64
	start time.Time

	mu       sync.Mutex
	incoming []*request
	arr      uint64
	wake     chan struct{}

	heap    eventHeap
	seq     uint64
	replies []func()

	counts map[string]uint64

	// trace
	Steps     uint64
	traceHash uint64
	TraceOn   bool
	Trace     []string
	LogTail   []string
	LastEvt   string

	// interleaving measure: distinct ordered pairs (kind of event, kind of next event)
	Pairs    map[uint64]struct{}
	lastKind string

	MaxSteps uint64
	Stopped  bool
	StopWhy  string

	// harness failure (not a property violation)
	HarnessErr string

	// called after every executed event
	AfterStep func()
}

func NewSim(seed uint64) *Sim {
	return &Sim{
		Seed:      seed,
		start:     time.Now(),
		wake:      make(chan struct{}, 1),
		counts:    map[string]uint64{},
		traceHash: 14695981039346656037,
		Pairs:     map[uint64]struct{}{},
		MaxSteps:  3_000_000,
	}
}

// Now is the simulated time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Wall converts simulated time to the bubble's wall clock.
func (s *Sim) Wall(d time.Duration) time.Time { return s.start.Add(d) }

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

// Hash is a pure function of the seed and its arguments.
func (s *Sim) Hash(parts ...any) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, s.Seed)
	for _, p := range parts {
		f.Write([]byte{0})
		switch v := p.(type) {
		case string:
			f.Write([]byte(v))
		default:
			fmt.Fprint(f, v)
		}
	}
	return mix(f.Sum64())
}

// Draw returns the next value of the stream named key.
func (s *Sim) Draw(key string) uint64 {
	n := s.counts[key]
	s.counts[key] = n + 1
	return s.Hash(key, n)
}

func (s *Sim) Intn(key string, n int) int { return int(s.Draw(key) % uint64(n)) }
func (s *Sim) Float(key string) float64   { return float64(s.Draw(key)>>11) / (1 << 53) }
func (s *Sim) Chance(key string, p float64) bool {
	return s.Float(key) < p
}
func (s *Sim) Dur(key string, lo, hi time.Duration) time.Duration {
	if hi <= lo {
		return lo
	}
	return lo + time.Duration(s.Draw(key)%uint64(hi-lo))
}

// After schedules f; it may only be called by the root goroutine.
func (s *Sim) After(d time.Duration, f func()) *event {
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &event{at: s.Now() + d, seq: s.seq, run: f}
	heap.Push(&s.heap, e)
	return e
}

func (s *Sim) Cancel(e *event) {
	if e != nil {
		e.cancelled = true
	}
}

// Every runs f periodically until it returns false.
func (s *Sim) Every(d time.Duration, f func() bool) {
	var g func()
	g = func() {
		if f() {
			s.After(d, g)
		}
	}
	s.After(d, g)
}

// Logf appends to the trace (which is also hashed for the determinism check).
func (s *Sim) Logf(format string, args ...any) {
	line := fmt.Sprintf("%12.6f ", s.Now().Seconds()) + fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(line))
	s.traceHash = mix(s.traceHash ^ h.Sum64())
	kind := line[13:]
	if i := strings.IndexAny(kind, " :"); i > 0 {
		kind = kind[:i]
	}
	h2 := fnv.New64a()
	h2.Write([]byte(s.lastKind))
	h2.Write([]byte{0})
	h2.Write([]byte(kind))
	s.Pairs[h2.Sum64()] = struct{}{}
	s.lastKind = kind
	if s.TraceOn {
		s.Trace = append(s.Trace, line)
	}
}

func (s *Sim) TraceHash() uint64 { return s.traceHash }

// Harness records a failure of the simulator itself.
func (s *Sim) Harness(format string, args ...any) {
	if s.HarnessErr == "" {
		s.HarnessErr = fmt.Sprintf(format, args...)
	}
	s.Stop("harness: " + s.HarnessErr)
}

func (s *Sim) Stop(why string) {
	if !s.Stopped {
		s.Stopped = true
		s.StopWhy = why
	}
}

// park enqueues a request from any goroutine.
func (s *Sim) park(inc *Incarnation, key string, exec func(r *request)) *request {
	r := &request{key: key, exec: exec, done: make(chan any, 1), inc: inc}
	if inc != nil {
		inc.mu.Lock()
		if inc.dead {
			inc.mu.Unlock()
			r.dead = true
			r.done <- error(ErrDead)
			return r
		}
		inc.pend[r] = struct{}{}
		inc.mu.Unlock()
	}
	s.mu.Lock()
	s.arr++
	r.arr = s.arr
	s.incoming = append(s.incoming, r)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	return r
}

// Reply answers a request at the end of the current event.
func (s *Sim) Reply(r *request, v any) {
	s.replies = append(s.replies, func() { r.answer(v) })
}

func (r *request) answer(v any) {
	if r.dead {
		return
	}
	r.dead = true
	if r.inc != nil {
		r.inc.mu.Lock()
		delete(r.inc.pend, r)
		r.inc.mu.Unlock()
	}
	r.done <- v
}

// Abandoned tells whether nobody waits for the answer any more.
func (r *request) Abandoned() bool { return r.dead }

// Defer runs f (which may unblock goroutines) at the end of the current event.
func (s *Sim) Defer(f func()) { s.replies = append(s.replies, f) }

// Call parks a request and waits for its answer.
func (s *Sim) Call(ctx context.Context, inc *Incarnation, key string, exec func(r *request)) (any, error) {
	if ctx == nil {
		ctx = context.Background()
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r := s.park(inc, key, exec)
	select {
	case v := <-r.done:
		if e, ok := v.(error); ok {
			return nil, e
		}
		return v, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (s *Sim) NewIncarnation(id int) *Incarnation {
	return &Incarnation{ID: id, pend: map[*request]struct{}{}}
}

// Kill makes every pending and future call of the incarnation fail.
// Requests already scheduled may still be executed (they were on the wire).
func (s *Sim) KillIncarnation(inc *Incarnation) {
	inc.mu.Lock()
	inc.dead = true
	var rs []*request
	for r := range inc.pend {
		rs = append(rs, r)
	}
	inc.pend = map[*request]struct{}{}
	inc.mu.Unlock()
	sort.Slice(rs, func(i, j int) bool { return rs[i].arr < rs[j].arr })
	for _, r := range rs {
		r := r
		s.replies = append(s.replies, func() {
			if !r.dead {
				r.dead = true
				r.done <- error(ErrDead)
			}
		})
	}
}

func (s *Sim) flush() {
	for len(s.replies) > 0 {
		rs := s.replies
		s.replies = nil
		for _, f := range rs {
			f()
		}
	}
}

// Settle waits for all goroutines to block, then executes newly parked requests' exec
// (which normally schedules an event).
func (s *Sim) settle() {
	for {
		s.flush()
		synctest.Wait()
		s.mu.Lock()
		in := s.incoming
		s.incoming = nil
		s.mu.Unlock()
		if len(in) == 0 {
			return
		}
		sort.SliceStable(in, func(i, j int) bool {
			if in[i].key != in[j].key {
				return in[i].key < in[j].key
			}
			return in[i].arr < in[j].arr
		})
		for _, r := range in {
			if r.dead {
				continue
			}
			r.exec(r)
		}
	}
}

// Run executes events until the given simulated time.
func (s *Sim) Run(until time.Duration) {
	for !s.Stopped {
		s.settle()
		if s.Stopped {
			return
		}
		now := s.Now()
		if now >= until {
			return
		}
		next := until
		if len(s.heap) > 0 && s.heap[0].at < next {
			next = s.heap[0].at
		}
		if len(s.heap) > 0 && s.heap[0].at <= now {
			e := heap.Pop(&s.heap).(*event)
			if e.cancelled {
				continue
			}
			s.Steps++
			if s.Steps > s.MaxSteps {
				s.Harness("step limit exceeded (livelock?) at %v", now)
				return
			}
			e.run()
			if s.AfterStep != nil {
				s.AfterStep()
			}
			continue
		}
		t := time.NewTimer(next - now)
		select {
		case <-s.wake:
		case <-t.C:
		}
		t.Stop()
	}
}
