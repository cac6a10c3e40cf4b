package vkit

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Fault and shape plan of one direction of a connection.
type DirPlan struct {
	Cap     int   `json:",omitempty"` // buffer capacity in bytes, 0 = unlimited
	Reads   []int `json:",omitempty"` // maximum sizes of successive reads (cyclic), 0 = all
	DelayUs []int `json:",omitempty"` // fake-time delay before successive reads return data (cyclic)
	CutAt   int   `json:",omitempty"` // >0: the connection breaks after CutAt bytes have been delivered
	Chunk   int   `json:",omitempty"` // >0: writes are moved into the buffer at most this many bytes at a time
}

type ConnPlan struct {
	Up, Down DirPlan // Up: dialer -> acceptor
}

var (
	errReset  = &net.OpError{Op: "io", Net: "fake", Err: syscall.ECONNRESET}
	errBroken = &net.OpError{Op: "write", Net: "fake", Err: syscall.EPIPE}
)

type half struct {
	mu      sync.Mutex
	plan    DirPlan
	buf     []byte
	wake    chan struct{}
	wclosed bool // writer closed: EOF after the buffer is drained
	rclosed bool // reader closed: writes fail
	reset   bool // broken: everything fails at once
	stalled bool // writes block as if the buffer were full
	frozen  bool // reads see nothing although data is there
	nread   int
	total   int // bytes delivered to the reader
	written int // bytes accepted from the writer
	tap     []byte
	tapOn   bool
	onRead  func(total int)
	wsem    chan struct{}
	writers int32
	maxWr   int32
	resetAt time.Time
}

func newHalf(p DirPlan) *half {
	return &half{plan: p, wake: make(chan struct{}), wsem: make(chan struct{}, 1), tapOn: true}
}

func (h *half) bump() { close(h.wake); h.wake = make(chan struct{}) }

type deadline struct {
	mu sync.Mutex
	t  time.Time
	ch chan struct{}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	d.t = t
	if d.ch != nil {
		close(d.ch)
	}
	d.ch = make(chan struct{})
	d.mu.Unlock()
}

func (d *deadline) get() (time.Time, chan struct{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.ch == nil {
		d.ch = make(chan struct{})
	}
	return d.t, d.ch
}

// Conn is one end of an in-memory connection.
type Conn struct {
	ID       int
	rd, wr   *half
	other    *Conn
	closed   chan struct{}
	once     sync.Once
	rdl, wdl deadline
	local    Addr
	remote   Addr
	CloseAt  time.Time
	closeN   int32
	lateWr   int32 // writes tried after the local close
	maxRead  int32
	OnClose  func()
	// hooks run before the operation, outside of every lock
	BeforeWrite func([]byte)
	BeforeRead  func()
}

type Addr string

func (a Addr) Network() string { return "fake" }
func (a Addr) String() string  { return string(a) }

// Pipe makes a connection; a is the dialing end.
func Pipe(id int, p ConnPlan) (a, b *Conn) {
	up, down := newHalf(p.Up), newHalf(p.Down)
	a = &Conn{ID: id, rd: down, wr: up, closed: make(chan struct{}), local: Addr(fmt.Sprintf("cli-%d", id)), remote: Addr(fmt.Sprintf("srv-%d", id))}
	b = &Conn{ID: id, rd: up, wr: down, closed: make(chan struct{}), local: a.remote, remote: a.local}
	a.other, b.other = b, a
	return a, b
}

func wait(wake, closed, dch chan struct{}, dl time.Time) (timeout bool) {
	if dl.IsZero() {
		select {
		case <-wake:
		case <-closed:
		case <-dch:
		}
		return false
	}
	d := time.Until(dl)
	if d <= 0 {
		return true
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-wake:
	case <-closed:
	case <-dch:
	case <-t.C:
		return true
	}
	return false
}

func (c *Conn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

func (c *Conn) Read(b []byte) (int, error) {
	if c.BeforeRead != nil {
		c.BeforeRead()
	}
	if n := int32(len(b)); n > atomic.LoadInt32(&c.maxRead) {
		atomic.StoreInt32(&c.maxRead, n)
	}
	h := c.rd
	delayed := false
	for {
		if c.isClosed() {
			return 0, net.ErrClosed
		}
		dl, dch := c.rdl.get()
		if !dl.IsZero() && !time.Now().Before(dl) {
			return 0, os.ErrDeadlineExceeded
		}
		h.mu.Lock()
		if h.reset {
			h.mu.Unlock()
			return 0, errReset
		}
		if len(b) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		if len(h.buf) > 0 && !h.frozen {
			if n := len(h.plan.DelayUs); n > 0 && !delayed {
				d := h.plan.DelayUs[h.nread%n]
				delayed = true
				if d > 0 {
					h.mu.Unlock()
					t := time.NewTimer(Us(d))
					select {
					case <-t.C:
					case <-c.closed:
						t.Stop()
					}
					continue
				}
			}
			n := len(b)
			if k := len(h.plan.Reads); k > 0 {
				if m := h.plan.Reads[h.nread%k]; m > 0 && m < n {
					n = m
				}
			}
			if h.plan.CutAt > 0 && h.total+n > h.plan.CutAt {
				n = h.plan.CutAt - h.total
			}
			if n > len(h.buf) {
				n = len(h.buf)
			}
			copy(b[:n], h.buf[:n])
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.nread++
			h.total += n
			cut := h.plan.CutAt > 0 && h.total >= h.plan.CutAt
			cb := h.onRead
			total := h.total
			h.bump()
			h.mu.Unlock()
			if cb != nil {
				cb(total)
			}
			if cut {
				c.Reset()
				if n == 0 {
					return 0, errReset
				}
			}
			return n, nil
		}
		if h.wclosed && !h.frozen {
			h.mu.Unlock()
			return 0, io.EOF
		}
		w := h.wake
		h.mu.Unlock()
		if wait(w, c.closed, dch, dl) {
			return 0, os.ErrDeadlineExceeded
		}
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.isClosed() {
		atomic.AddInt32(&c.lateWr, 1)
	}
	if c.BeforeWrite != nil {
		c.BeforeWrite(b)
	}
	h := c.wr
	n := atomic.AddInt32(&h.writers, 1)
	for {
		m := atomic.LoadInt32(&h.maxWr)
		if n <= m || atomic.CompareAndSwapInt32(&h.maxWr, m, n) {
			break
		}
	}
	defer atomic.AddInt32(&h.writers, -1)
	// like a socket, one Write at a time goes out as a whole
	for {
		dl, dch := c.wdl.get()
		ok := false
		select {
		case h.wsem <- struct{}{}:
			ok = true
		default:
		}
		if ok {
			break
		}
		if !dl.IsZero() {
			d := time.Until(dl)
			if d <= 0 {
				return 0, os.ErrDeadlineExceeded
			}
			t := time.NewTimer(d)
			select {
			case h.wsem <- struct{}{}:
				t.Stop()
				ok = true
			case <-t.C:
			case <-dch:
				t.Stop()
			case <-c.closed:
				t.Stop()
				return 0, net.ErrClosed
			}
		} else {
			select {
			case h.wsem <- struct{}{}:
				ok = true
			case <-dch:
			case <-c.closed:
				return 0, net.ErrClosed
			}
		}
		if ok {
			break
		}
	}
	defer func() { <-h.wsem }()
	done := 0
	for {
		if c.isClosed() {
			return done, net.ErrClosed
		}
		dl, dch := c.wdl.get()
		if !dl.IsZero() && !time.Now().Before(dl) {
			return done, os.ErrDeadlineExceeded
		}
		h.mu.Lock()
		if h.reset {
			h.mu.Unlock()
			return done, errReset
		}
		if h.rclosed {
			h.mu.Unlock()
			return done, errBroken
		}
		room := len(b) - done
		if h.stalled {
			room = 0
		} else if h.plan.Cap > 0 && room > h.plan.Cap-len(h.buf) {
			room = h.plan.Cap - len(h.buf)
		}
		if h.plan.Chunk > 0 && room > h.plan.Chunk {
			room = h.plan.Chunk
		}
		if room > 0 {
			h.buf = append(h.buf, b[done:done+room]...)
			if h.tapOn {
				h.tap = append(h.tap, b[done:done+room]...)
			}
			done += room
			h.written += room
			h.bump()
		}
		if done == len(b) {
			h.mu.Unlock()
			return done, nil
		}
		if room > 0 {
			h.mu.Unlock()
			continue
		}
		w := h.wake
		h.mu.Unlock()
		if wait(w, c.closed, dch, dl) {
			return done, os.ErrDeadlineExceeded
		}
	}
}

// Close closes this end: the peer reads EOF after the data in flight.
func (c *Conn) Close() error {
	atomic.AddInt32(&c.closeN, 1)
	err := error(net.ErrClosed)
	c.once.Do(func() {
		err = nil
		c.CloseAt = time.Now()
		close(c.closed)
		c.wr.mu.Lock()
		c.wr.wclosed = true
		c.wr.bump()
		c.wr.mu.Unlock()
		c.rd.mu.Lock()
		c.rd.rclosed = true
		c.rd.bump()
		c.rd.mu.Unlock()
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	return err
}

// CloseWrite ends this end's stream only (half close).
func (c *Conn) CloseWrite() {
	c.wr.mu.Lock()
	c.wr.wclosed = true
	c.wr.bump()
	c.wr.mu.Unlock()
}

// Reset breaks the connection for both ends at once; data in flight is lost.
func (c *Conn) Reset() {
	for _, h := range []*half{c.rd, c.wr} {
		h.mu.Lock()
		if !h.reset {
			h.resetAt = time.Now()
		}
		h.reset = true
		h.bump()
		h.mu.Unlock()
	}
}

// ResetAt tells when the connection was broken by Reset or a cut.
func (c *Conn) ResetAt() (time.Time, bool) {
	c.wr.mu.Lock()
	defer c.wr.mu.Unlock()
	return c.wr.resetAt, c.wr.reset
}

// StallWrites makes this end's writes block (the peer's window is full).
func (c *Conn) StallWrites(on bool) {
	c.wr.mu.Lock()
	c.wr.stalled = on
	c.wr.bump()
	c.wr.mu.Unlock()
}

// FreezeReads hides received data from this end's reads.
func (c *Conn) FreezeReads(on bool) {
	c.rd.mu.Lock()
	c.rd.frozen = on
	c.rd.bump()
	c.rd.mu.Unlock()
}

// LateWrites counts the writes that were tried after this end was closed locally.
func (c *Conn) LateWrites() int { return int(atomic.LoadInt32(&c.lateWr)) }

// Closed tells whether this end was closed locally.
func (c *Conn) Closed() bool { return c.isClosed() }

// CloseCh is closed when this end is closed locally.
func (c *Conn) CloseCh() chan struct{} { return c.closed }

// Sent returns a copy of all bytes this end has written so far.
func (c *Conn) Sent() []byte {
	c.wr.mu.Lock()
	defer c.wr.mu.Unlock()
	return append([]byte(nil), c.wr.tap...)
}

// SentLen returns how many bytes this end has written so far.
func (c *Conn) SentLen() int {
	c.wr.mu.Lock()
	defer c.wr.mu.Unlock()
	return c.wr.written
}

// MaxWriters returns the highest number of concurrent Write calls seen.
func (c *Conn) MaxWriters() int { return int(atomic.LoadInt32(&c.wr.maxWr)) }

// MaxRead returns the largest read asked for by this end.
func (c *Conn) MaxRead() int { return int(atomic.LoadInt32(&c.maxRead)) }

// Unread returns the number of bytes waiting for this end.
func (c *Conn) Unread() int {
	c.rd.mu.Lock()
	defer c.rd.mu.Unlock()
	return len(c.rd.buf)
}

func (c *Conn) Other() *Conn { return c.other }

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl.set(t)
	c.wdl.set(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl.set(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl.set(t); return nil }

// ---- listener / network ----

type tempErr struct{ temp, timeout bool }

func (e tempErr) Error() string   { return fmt.Sprintf("fake accept error (temporary=%v)", e.temp) }
func (e tempErr) Timeout() bool   { return e.timeout }
func (e tempErr) Temporary() bool { return e.temp }

// Net is an in-memory listener plus the dialer to reach it.
type Net struct {
	mu        sync.Mutex
	injected  int
	q         []acceptItem
	wake      chan struct{}
	closed    bool
	Conns     []*Conn // dialing ends, in dial order
	Plan      func(i int) ConnPlan
	DialErr   func(i int) error // non-nil error: the dial fails
	DialDelay func(i int) time.Duration
	OnConn    func(a, b *Conn)
	dials     int
	name      string
	Forget    bool // keep neither the connections nor their traffic
}

type acceptItem struct {
	c   net.Conn
	err error
}

func NewNet(name string) *Net {
	return &Net{wake: make(chan struct{}), name: name}
}

func (n *Net) bump() { close(n.wake); n.wake = make(chan struct{}) }

var ErrRefused = errors.New("fake: connection refused")

// Dials returns the number of dial attempts so far.
func (n *Net) Dials() int { n.mu.Lock(); defer n.mu.Unlock(); return n.dials }

// Dial connects to the listener.
func (n *Net) Dial() (net.Conn, error) {
	n.mu.Lock()
	i := n.dials
	n.dials++
	closed := n.closed
	n.mu.Unlock()
	if n.DialDelay != nil {
		if d := n.DialDelay(i); d > 0 {
			time.Sleep(d)
		}
	}
	if n.DialErr != nil {
		if err := n.DialErr(i); err != nil {
			return nil, err
		}
	}
	n.mu.Lock()
	closed = n.closed
	n.mu.Unlock()
	if closed {
		return nil, ErrRefused
	}
	var p ConnPlan
	if n.Plan != nil {
		p = n.Plan(i)
	}
	a, b := Pipe(i, p)
	if n.OnConn != nil {
		n.OnConn(a, b)
	}
	n.mu.Lock()
	if n.closed {
		// closed meanwhile: nobody would ever accept it
		n.mu.Unlock()
		return nil, ErrRefused
	}
	if n.Forget {
		a.rd.tapOn, a.wr.tapOn = false, false
	} else {
		n.Conns = append(n.Conns, a)
	}
	n.q = append(n.q, acceptItem{c: b})
	n.bump()
	n.mu.Unlock()
	return a, nil
}

// DialConn is Dial returning the concrete type.
func (n *Net) DialConn() *Conn {
	c, err := n.Dial()
	if err != nil {
		return nil
	}
	return c.(*Conn)
}

// InjectAcceptError queues an error for Accept; every second temporary one is
// also a timeout.
func (n *Net) InjectAcceptError(temporary bool) {
	n.mu.Lock()
	n.q = append(n.q, acceptItem{err: &net.OpError{Op: "accept", Net: "fake", Err: tempErr{temporary, temporary && n.injected%2 == 1}}})
	n.injected++
	n.bump()
	n.mu.Unlock()
}

func (n *Net) Accept() (net.Conn, error) {
	for {
		n.mu.Lock()
		if n.closed {
			n.mu.Unlock()
			return nil, net.ErrClosed
		}
		if len(n.q) > 0 {
			it := n.q[0]
			n.q = n.q[1:]
			n.mu.Unlock()
			return it.c, it.err
		}
		w := n.wake
		n.mu.Unlock()
		<-w
	}
}

func (n *Net) Close() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.closed {
		return net.ErrClosed
	}
	n.closed = true
	for _, it := range n.q {
		if it.c != nil {
			it.c.(*Conn).Reset()
			it.c.Close()
		}
	}
	n.q = nil
	n.bump()
	return nil
}

func (n *Net) IsClosed() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.closed }

func (n *Net) Addr() net.Addr { return Addr("fake:" + n.name) }
