package core

import (
	"context"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/listener"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C20, part sides: two arpc servers, each on one side of the split listener,
// are stopped and started one by one. A stopped side ends, the other one goes
// on; what comes in for a stopped side waits for its next server, or is closed
// with the listener.

type c20sop struct {
	K string // dial, leave, stop, shutdown, start
	S int    // side (or which connection leaves)
	N int
}

type c20scase struct {
	TCP bool
	Max int
	Ops []c20sop
}

func genC20s(rt *rapid.T) c20scase {
	c := c20scase{TCP: vkit.Chance(rt, 20, "tcp"), Max: vkit.Pick(rt, "max", 0, 1, 2, 3, 5)}
	for i := vkit.Int(rt, 1, 14, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, c20sop{K: vkit.Pick(rt, "k", "dial", "dial", "dial", "leave", "stop", "shutdown", "start", "start"), S: vkit.Int(rt, 0, 1, "s"), N: vkit.Int(rt, 0, 4, "n")})
	}
	return c
}

// signalListener tells when it is being accepted from
type signalListener struct {
	net.Listener
	once  sync.Once
	began chan struct{}
}

func (l *signalListener) Accept() (net.Conn, error) {
	l.once.Do(func() { close(l.began) })
	return l.Listener.Accept()
}

func runC20s(r *vkit.R, c c20scase) {
	network, addr := "unix", fmt.Sprintf("@verif-c20-%d-%d", os.Getpid(), atomic.AddInt64(&c20n, 1))
	if c.TCP {
		network, addr = "tcp", "127.0.0.1:0"
	}
	l, err := listener.Listen(network, addr, c.Max, "")
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	runDone := make(chan struct{})
	go func() { l.Run(); close(runDone) }()
	type peer struct {
		id   int
		conn net.Conn
	}
	type side struct {
		srv     *arpc.Server
		done    chan struct{}
		live    []peer
		pending []peer
		gone    int32
	}
	sides := []*side{{}, {}}
	start := func(s int) bool {
		x := sides[s]
		a, b := l.Listeners()
		ln := &signalListener{Listener: []net.Listener{a, b}[s], began: make(chan struct{})}
		x.srv = arpc.NewServer()
		x.done = make(chan struct{})
		x.srv.Handler.Handle("who", func(ctx *arpc.Context) { ctx.Write(fmt.Sprintf("%d:%s", s, ctx.Body())) })
		x.srv.Handler.HandleDisconnected(func(*arpc.Client) {
			if s == 0 {
				l.OfflineA()
			}
			atomic.AddInt32(&x.gone, 1)
		})
		go func() { x.srv.Serve(ln); close(x.done) }()
		select {
		case <-ln.began:
			return true
		case <-time.After(c20patience):
			r.Failf("server %d does not accept", s)
			return false
		}
	}
	ask := func(p peer) {
		p.conn.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(p.id), Method: "who", Data: []byte(fmt.Sprint(p.id))}.Encode())
	}
	answered := func(s int, p peer, what string) {
		p.conn.SetReadDeadline(time.Now().Add(c20patience))
		f, err := vkit.ReadFrame(p.conn)
		if err != nil || string(f.Data) != fmt.Sprintf("%d:%d", s, p.id) {
			r.Failf("%s: connection %d got the answer %q, %v, want one of side %d", what, p.id, f.Data, err, s)
		}
	}
	closed := func(p peer, what string) {
		p.conn.SetReadDeadline(time.Now().Add(c20patience))
		var x [1]byte
		if _, err := p.conn.Read(x[:]); err == nil {
			r.Failf("%s: connection %d got a byte", what, p.id)
		} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r.Failf("%s: connection %d is not closed", what, p.id)
		}
	}
	gone := func(s int, n int32, what string) {
		for t0 := time.Now(); atomic.LoadInt32(&sides[s].gone) < n; time.Sleep(100 * time.Microsecond) {
			if time.Since(t0) > c20patience {
				r.Failf("%s: %d connections of side %d have ended, want %d", what, atomic.LoadInt32(&sides[s].gone), s, n)
				return
			}
		}
	}
	onA, next := 0, 0
	wasStopped, waited := false, false
	// whether a connection for the stopped second side may not be assigned yet: no room is made on the first one then
	unsure := false
	start(0)
	start(1)
	for i, o := range c.Ops {
		if r.Failed() {
			break
		}
		what := fmt.Sprintf("op %d (%s %d)", i, o.K, o.S)
		x := sides[o.S]
		switch o.K {
		case "dial":
			for k := 0; k <= o.N && !r.Failed(); k++ {
				cn, err := net.Dial(network, l.Addr().String())
				if err != nil {
					r.Failf("%s: %v", what, err)
					break
				}
				next++
				p := peer{next, cn}
				s := 1
				if onA < c.Max {
					s = 0
					onA++
				}
				ask(p)
				if sides[s].srv != nil {
					answered(s, p, what)
					unsure = false
					sides[s].live = append(sides[s].live, p)
					if wasStopped {
						r.NonTrivial()
					}
				} else {
					sides[s].pending = append(sides[s].pending, p)
					waited = true
					unsure = unsure || s == 1
				}
			}
		case "leave":
			if len(x.live) == 0 || o.S == 0 && unsure {
				continue
			}
			k := o.N % len(x.live)
			n := atomic.LoadInt32(&x.gone) + 1
			x.live[k].conn.Close()
			x.live = append(x.live[:k], x.live[k+1:]...)
			gone(o.S, n, what)
			if o.S == 0 {
				onA--
			}
		case "stop", "shutdown":
			if x.srv == nil || o.S == 0 && unsure {
				continue
			}
			n := atomic.LoadInt32(&x.gone) + int32(len(x.live))
			if o.K == "stop" {
				x.srv.Stop()
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), c20patience)
				if err := x.srv.Shutdown(ctx); err != nil {
					r.Failf("%s: Shutdown: %v", what, err)
				}
				cancel()
			}
			select {
			case <-x.done:
			case <-time.After(c20patience):
				r.Failf("%s: Serve has not returned", what)
				continue
			}
			for _, p := range x.live {
				closed(p, what)
				p.conn.Close()
			}
			gone(o.S, n, what)
			if o.S == 0 {
				onA -= len(x.live)
			}
			x.live, x.srv = nil, nil
			wasStopped = true
		case "start":
			if x.srv != nil {
				continue
			}
			if !start(o.S) {
				continue
			}
			for _, p := range x.pending {
				answered(o.S, p, what)
				r.Class("waited-for-server")
				unsure = unsure && o.S == 0
			}
			x.live, x.pending = append(x.live, x.pending...), nil
		}
		for s, y := range sides {
			if y.srv == nil {
				continue
			}
			for _, p := range y.live {
				// the others are served as before
				if o.K != "dial" && !r.Failed() {
					ask(p)
					answered(s, p, what+", another connection")
				}
			}
		}
	}
	if waited {
		r.Class("dialed-while-stopped")
	}
	if wasStopped {
		r.Class("stopped")
	}
	l.Close()
	select {
	case <-runDone:
	case <-time.After(c20patience):
		r.Failf("Run has not returned after Close")
	}
	for s, x := range sides {
		for _, p := range x.pending {
			if !r.Failed() {
				closed(p, "after Close")
			}
			p.conn.Close()
		}
		if x.srv != nil {
			select {
			case <-x.done:
			case <-time.After(c20patience):
				r.Failf("server %d goes on after the listener was closed", s)
			}
			x.srv.Stop()
		}
		for _, p := range x.live {
			p.conn.Close()
		}
	}
}

func init() {
	vkit.Register("C20", "sides", vkit.Opts{Quick: 400, Rule: "a connection was served after a side had been stopped"}, genC20s, runC20s)
}

// C20, part storm: connections arrive and are reported offline at the same
// time, as fast as they can; no arrival and no departure may be miscounted.

type c20storm struct {
	Max   int
	Dials int // by each dialer
	Dlr   int
	Off   int // goroutines reporting departures
}

func genC20storm(rt *rapid.T) c20storm {
	return c20storm{Max: vkit.Pick(rt, "max", 1, 3, 20, 100), Dials: vkit.Int(rt, 100, 500, "dials"), Dlr: vkit.Int(rt, 1, 4, "dialers"), Off: vkit.Int(rt, 1, 3, "off")}
}

func runC20storm(r *vkit.R, c c20storm) {
	addr := fmt.Sprintf("@verif-c20-%d-%d", os.Getpid(), atomic.AddInt64(&c20n, 1))
	l, err := listener.Listen("unix", addr, c.Max, "")
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	go l.Run()
	a, b := l.Listeners()
	var mu sync.Mutex
	var rest []net.Conn
	defer func() {
		l.Close()
		mu.Lock()
		defer mu.Unlock()
		for _, cn := range rest {
			cn.Close()
		}
	}()
	leave := make(chan net.Conn, 1<<16)
	var nA, nB int32
	held := int32(0)
	storm := int32(1)
	var offs sync.WaitGroup
	for i := 0; i < c.Off; i++ {
		offs.Add(1)
		go func() {
			defer offs.Done()
			for cn := range leave {
				atomic.AddInt32(&held, -1)
				l.OfflineA()
				cn.Close()
			}
		}()
	}
	go func() {
		for {
			cn, err := a.Accept()
			if err != nil {
				return
			}
			if h := atomic.AddInt32(&held, 1); int(h) > c.Max {
				r.Failf("the first side holds %d connections, its maximum is %d", h, c.Max)
			}
			if atomic.LoadInt32(&storm) == 1 {
				leave <- cn
			} else {
				mu.Lock()
				rest = append(rest, cn)
				mu.Unlock()
			}
			atomic.AddInt32(&nA, 1)
		}
	}()
	go func() {
		for {
			cn, err := b.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			rest = append(rest, cn)
			mu.Unlock()
			if atomic.LoadInt32(&storm) == 1 {
				cn.Close()
			}
			atomic.AddInt32(&nB, 1)
		}
	}()
	sum := func(n int32) bool {
		for t0 := time.Now(); atomic.LoadInt32(&nA)+atomic.LoadInt32(&nB) < n; time.Sleep(50 * time.Microsecond) {
			if time.Since(t0) > c20patience {
				r.Failf("%d of %d connections came out", atomic.LoadInt32(&nA)+atomic.LoadInt32(&nB), n)
				return false
			}
		}
		return true
	}
	var wg sync.WaitGroup
	for i := 0; i < c.Dlr; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.Dials; k++ {
				cn, err := net.Dial("unix", addr)
				if err != nil {
					time.Sleep(100 * time.Microsecond) // the backlog is full
					k--
					continue
				}
				cn.Close()
			}
		}()
	}
	wg.Wait()
	total := int32(c.Dlr * c.Dials)
	if !sum(total) {
		close(leave)
		return
	}
	atomic.StoreInt32(&storm, 0)
	close(leave)
	offs.Wait()
	if nA > 1 && nB > 0 {
		r.Class("both")
	}
	if int(nA) > c.Max {
		r.NonTrivial()
	}
	// everybody has left: there is room for exactly the maximum again
	a0, b0 := atomic.LoadInt32(&nA), atomic.LoadInt32(&nB)
	for k := 0; k < c.Max+3; k++ {
		cn, err := net.Dial("unix", addr)
		if err != nil {
			r.Failf("dial: %v", err)
			break
		}
		mu.Lock()
		rest = append(rest, cn)
		mu.Unlock()
		if !sum(total + int32(k) + 1) {
			return
		}
	}
	if x, y := atomic.LoadInt32(&nA)-a0, atomic.LoadInt32(&nB)-b0; int(x) != c.Max || y != 3 {
		r.Failf("after %d connections had come and gone, %d of the next %d went to the first side (maximum %d) and %d to the second", total, x, c.Max+3, c.Max, y)
	}
}

func init() {
	vkit.Register("C20", "storm", vkit.Opts{Quick: 160, Rule: "more connections went to the first side than its maximum"}, genC20storm, runC20storm)
}
