package vharness

// In-memory listener and connection whose every delivery and write is
// controlled by the scenario and recorded.

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Ev is one event of a trace.
type Ev map[string]any

// Log is the totally ordered event log of one scenario. Events are appended
// while the effect they describe cannot be observed by anyone else yet.
type Log struct {
	mu  sync.Mutex
	evs []Ev
	now func() int
}

func (l *Log) add(e Ev) {
	l.mu.Lock()
	if l.now != nil {
		e["t"] = l.now()
	}
	l.evs = append(l.evs, e)
	l.mu.Unlock()
}

func (l *Log) copy() []Ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Ev(nil), l.evs...)
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []net.Conn
	closed bool
	log    *Log
}

func newListener(log *Log) *Listener {
	l := &Listener{log: log}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for !l.closed && len(l.q) == 0 {
		l.cond.Wait()
	}
	if l.closed {
		return nil, net.ErrClosed
	}
	c := l.q[0]
	l.q = l.q[1:]
	if m, ok := c.(*Conn); ok {
		l.log.add(Ev{"e": "acc", "c": m.id})
	}
	return c, nil
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.log.add(Ev{"e": "lclosed"})
	l.cond.Broadcast()
	return nil
}

// fail closes the listener on behalf of the program.
func (l *Listener) fail() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed = true
	l.log.add(Ev{"e": "lfail"})
	l.cond.Broadcast()
}

// next is a listener to serve after l, with the connections l did not accept.
func (l *Listener) next() *Listener {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := newListener(l.log)
	n.q, l.q = l.q, nil
	return n
}

func (l *Listener) Addr() net.Addr { return addr("mem:0") }

func (l *Listener) dial(c net.Conn) {
	l.mu.Lock()
	l.q = append(l.q, c)
	l.cond.Broadcast()
	l.mu.Unlock()
}

var errInjected = errors.New("injected connection failure")

type Conn struct {
	id   int
	log  *Log
	mu   sync.Mutex
	cond *sync.Cond

	in     [][]byte // segments not read yet
	inErr  error    // after all segments
	closed bool

	gated    bool
	permits  int
	blocked  int   // writers waiting for a permit
	wErr     error // every write fails
	wErrPart int   // bytes accepted of the first failing write
	yield    bool  // yield the processor around each write

	rdl, wdl time.Time

	out    []byte // bytes not yet taken by parse
	out2   []byte // everything, over TCP
	total  int
	writes int
	// parse consumes complete items from the front of the buffer and returns
	// the rest; it logs what it finds.
	parse func(c *Conn, b []byte) []byte
}

func newConn(id int, log *Log, parse func(*Conn, []byte) []byte) *Conn {
	c := &Conn{id: id, log: log, parse: parse}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.yield {
		runtime.Gosched()
		defer runtime.Gosched()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.gated && !c.closed && c.wErr == nil {
		c.blocked++
		for c.gated && c.permits == 0 && !c.closed && c.wErr == nil {
			if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
				c.blocked--
				return 0, os.ErrDeadlineExceeded
			}
			c.cond.Wait()
		}
		c.blocked--
		if c.gated && c.permits > 0 && !c.closed && c.wErr == nil {
			c.permits--
		}
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.wErr != nil {
		n := min(c.wErrPart, len(p))
		c.wErrPart = 0
		c.accept(p[:n])
		return n, c.wErr
	}
	c.accept(p)
	return len(p), nil
}

func (c *Conn) accept(p []byte) {
	if len(p) == 0 {
		return
	}
	c.writes++
	c.total += len(p)
	c.out = append(c.out, p...)
	c.out = append([]byte(nil), c.parse(c, c.out)...)
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.log.add(Ev{"e": "closed", "c": c.id})
	c.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr("mem:0") }
func (c *Conn) RemoteAddr() net.Addr { return addr("mem:" + strconv.Itoa(c.id)) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) wake(t time.Time) {
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.wake(t)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	c.wake(t)
	return nil
}

// ---- the scenario's side ----

// feed makes segments available; before is called with the lock held, before
// the code under test can see any of it.
func (c *Conn) feed(before func(), segs ...[]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr != nil { // nothing follows the end of the stream
		return
	}
	if before != nil {
		before()
	}
	for _, s := range segs {
		if len(s) > 0 {
			c.in = append(c.in, s)
		}
	}
	c.cond.Broadcast()
}

func (c *Conn) fail(err error, e Ev) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr != nil {
		return
	}
	c.log.add(e)
	c.inErr = err
	c.cond.Broadcast()
}

func (c *Conn) setGate(on bool) {
	c.mu.Lock()
	c.gated = on
	c.permits = 0
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) permit(n int) {
	c.mu.Lock()
	c.permits += n
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) failWrites(part int, e Ev) {
	c.mu.Lock()
	c.log.add(e)
	if c.wErr == nil {
		c.wErr = errInjected
		c.wErrPart = part
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

type connState struct {
	blocked, part, unread int
	closed                bool
}

func (c *Conn) state() connState {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.in {
		n += len(s)
	}
	return connState{blocked: c.blocked, part: len(c.out), unread: n, closed: c.closed}
}

var resetErr = &net.OpError{Op: "read", Net: "mem", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

var _ = io.EOF

// quiesce waits until every other goroutine of the process is blocked, and
// reports whether that happened in time. The stack dump stops the world, so
// it is a consistent snapshot.
func quiesce(limit time.Duration) bool {
	start := time.Now()
	var asleep time.Time
	for i := 0; ; i++ {
		for j := 0; j < 4; j++ {
			runtime.Gosched()
		}
		b, sl := allBlocked()
		if b && !sl {
			return true
		}
		if !b {
			asleep = time.Time{}
		} else if asleep.IsZero() {
			asleep = time.Now()
		} else if time.Since(asleep) > sleepLimit {
			return true // whatever it is sleeping for does not concern anyone here
		}
		if i > 50 {
			time.Sleep(50 * time.Microsecond)
			if time.Since(start) > limit {
				return false
			}
		}
	}
}

// sleepLimit is how long a goroutine may sleep that still matters.
const sleepLimit = 3 * time.Second

var stackBuf = make([]byte, 1<<20)

// allBlocked tells whether every goroutine is blocked or, at least, asleep.
func allBlocked() (blocked, asleep bool) {
	var n int
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	s := string(stackBuf[:n])
	first := true
	for len(s) > 0 {
		i := strings.Index(s, "\n\n")
		var g string
		if i < 0 {
			g, s = s, ""
		} else {
			g, s = s[:i], s[i+2:]
		}
		if first { // the caller
			first = false
			continue
		}
		if strings.Contains(g, "vharness.watchdog(") {
			continue
		}
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			return false, false
		}
		st := g[a+1 : b]
		if k := strings.IndexAny(st, ",("); k >= 0 {
			st = strings.TrimSpace(st[:k])
		}
		switch st {
		case "chan receive", "chan send", "select", "sync.Cond.Wait", "sync.Mutex.Lock",
			"sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait",
			"select (no cases)", "chan receive (nil chan)", "chan send (nil chan)", "IO wait",
			"finalizer wait", "cleanup wait", "synctest.Run":
		case "sleep":
			asleep = true
		case "semacquire":
			// about to collect garbage, held up by the snapshot itself
			if !strings.Contains(g, ".runtime_Semacquire") {
				return false, false
			}
		default:
			return false, false
		}
	}
	return true, asleep
}
