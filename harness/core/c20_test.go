package core

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lesismal/arpc/extension/listener"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C20: the split listener over real sockets (abstract unix ones, or loopback
// TCP), against a model of the first side's occupancy.

type c20op struct {
	K string // dial, burst, offline, leave, mass (all of them go offline at once, each by its own goroutine)
	N int
}

type c20case struct {
	TCP   bool
	Max   int
	Ops   []c20op
	Keep  bool
	Par   int // concurrent dialers afterwards
	Last  int // connections nobody accepts any more before the listener is closed
	Wait  bool
	Drain bool // both sides are drained after closing
}

func genC20(rt *rapid.T) c20case {
	c := c20case{TCP: vkit.Chance(rt, 20, "tcp"), Max: vkit.Pick(rt, "max", 0, 1, 2, 3, 5, -1, 12)}
	for i := vkit.Int(rt, 1, 12, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, c20op{K: vkit.Pick(rt, "k", "dial", "dial", "burst", "offline", "offline", "leave", "mass"), N: vkit.Int(rt, 0, 6, "n")})
	}
	if vkit.Chance(rt, 3, "crowd") {
		c.TCP, c.Max = false, vkit.Int(rt, 16, 64, "crowdmax")
		c.Ops = nil
		for i := vkit.Int(rt, 1, 3, "crowds"); i > 0; i-- {
			c.Ops = append(c.Ops, c20op{K: "burst", N: c.Max}, c20op{K: "mass"})
		}
		c.Ops = append(c.Ops, c20op{K: "burst", N: c.Max})
	}
	if vkit.Chance(rt, 30, "par") {
		c.Par = vkit.Int(rt, 2, 5, "dialers")
	}
	if vkit.Chance(rt, 50, "tail") {
		c.Last = vkit.Int(rt, 1, 6, "last")
	}
	c.Keep = vkit.Bool(rt, "keep")
	c.Wait = vkit.Bool(rt, "wait")
	c.Drain = vkit.Bool(rt, "drain")
	return c
}

type c20got struct {
	side int
	id   uint32
	conn net.Conn
}

var c20n int64

const c20patience = 10 * time.Second

func runC20(r *vkit.R, c c20case) {
	network, addr := "unix", fmt.Sprintf("@verif-c20-%d-%d", os.Getpid(), atomic.AddInt64(&c20n, 1))
	if c.TCP {
		network, addr = "tcp", "127.0.0.1:0"
	}
	l, err := listener.Listen(network, addr, c.Max, "")
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	maxA := max(c.Max, 0)
	a, b := l.Listeners()
	for i, x := range []net.Listener{a, b} {
		if x.Addr().String() != l.Addr().String() {
			r.Failf("side %d has address %v, the listener %v", i, x.Addr(), l.Addr())
		}
	}
	runDone := make(chan struct{})
	go func() { l.Run(); close(runDone) }()
	got := make(chan c20got, 10000)
	var awg sync.WaitGroup
	accErr := make([]error, 2)
	held := int32(0) // delivered to the first side and not reported offline
	pause := make(chan struct{})
	for i, x := range []net.Listener{a, b} {
		awg.Add(1)
		go func() {
			defer awg.Done()
			for {
				select {
				case <-pause:
					return
				default:
				}
				cn, err := x.Accept()
				if err != nil {
					accErr[i] = err
					return
				}
				if i == 0 {
					if h := atomic.AddInt32(&held, 1); int(h) > maxA {
						r.Failf("the first side holds %d connections, its maximum is %d", h, maxA)
					}
				}
				var id [4]byte
				cn.SetReadDeadline(time.Now().Add(c20patience))
				if _, err := io.ReadFull(cn, id[:]); err != nil {
					r.Failf("side %d: a connection came without its bytes: %v", i, err)
				}
				cn.SetReadDeadline(time.Time{})
				got <- c20got{i, binary.BigEndian.Uint32(id[:]), cn}
			}
		}()
	}
	next := uint32(0)
	var dmu sync.Mutex
	peers := map[uint32]net.Conn{}
	dial := func() (uint32, bool) {
		cn, err := net.Dial(network, l.Addr().String())
		if err != nil {
			r.Failf("dial: %v", err)
			return 0, false
		}
		dmu.Lock()
		next++
		id := next
		peers[id] = cn
		dmu.Unlock()
		var x [4]byte
		binary.BigEndian.PutUint32(x[:], id)
		cn.Write(x[:])
		return id, true
	}
	seen := map[uint32]int{}
	take := func() (c20got, bool) {
		select {
		case g := <-got:
			if s, dup := seen[g.id]; dup {
				r.Failf("connection %d came out twice (sides %d and %d)", g.id, s, g.side)
			}
			seen[g.id] = g.side
			// unharmed: an answer arrives at the dialer of this very connection
			g.conn.Write([]byte{byte(g.id), 0xEE})
			dmu.Lock()
			p := peers[g.id]
			dmu.Unlock()
			if p == nil {
				r.Failf("connection with unknown bytes %d", g.id)
				return g, false
			}
			var x [2]byte
			p.SetReadDeadline(time.Now().Add(c20patience))
			if _, err := io.ReadFull(p, x[:]); err != nil || x[0] != byte(g.id) || x[1] != 0xEE {
				r.Failf("connection %d is damaged: %v %v", g.id, x, err)
			}
			return g, true
		case <-time.After(c20patience):
			r.Failf("a connection was never returned by either side")
			return c20got{}, false
		}
	}
	onA := 0
	var heldA []net.Conn
	var all []net.Conn
	useB, again := false, false
	burst := func(what string, n int) {
		var ids []uint32
		for i := 0; i < n; i++ {
			if id, ok := dial(); ok {
				ids = append(ids, id)
			}
		}
		var per [2][]uint32
		for range ids {
			g, ok := take()
			if !ok {
				break
			}
			per[g.side] = append(per[g.side], g.id)
			all = append(all, g.conn)
			if g.side == 0 {
				heldA = append(heldA, g.conn)
			}
		}
		if r.Failed() {
			return
		}
		room := min(maxA-onA, len(ids))
		wantA, wantB := ids[:room], ids[room:]
		if fmt.Sprint(per[0]) != fmt.Sprint(wantA) && !(len(wantA) == 0 && len(per[0]) == 0) {
			r.Failf("%s: the first side got %v, want %v (%d of %d online)", what, per[0], wantA, onA, maxA)
		}
		if fmt.Sprint(per[1]) != fmt.Sprint(wantB) && !(len(wantB) == 0 && len(per[1]) == 0) {
			r.Failf("%s: the second side got %v, want %v", what, per[1], wantB)
		}
		onA += len(per[0])
		useB = useB || len(wantB) > 0
		again = again || useB && len(wantA) > 0
	}
	for k, o := range c.Ops {
		if r.Failed() {
			break
		}
		switch o.K {
		case "dial":
			burst(fmt.Sprintf("op %d", k), 1)
		case "burst":
			burst(fmt.Sprintf("op %d", k), o.N+1)
		case "offline":
			if len(heldA) == 0 {
				continue
			}
			i := o.N % len(heldA)
			heldA[i].Close()
			heldA = append(heldA[:i], heldA[i+1:]...)
			atomic.AddInt32(&held, -1)
			l.OfflineA()
			onA--
		case "mass":
			for _, cn := range heldA {
				cn.Close()
				atomic.AddInt32(&held, -1)
			}
			var wg sync.WaitGroup
			ready, left := int32(0), int32(len(heldA))
			gs := int32(min(len(heldA), 6))
			for g := int32(0); g < gs; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					// all at the same instant
					for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < gs; {
						runtime.Gosched()
					}
					for atomic.AddInt32(&left, -1) >= 0 {
						l.OfflineA()
					}
				}()
			}
			wg.Wait()
			onA -= len(heldA)
			heldA = nil
		case "leave":
			// closed, but not (yet) reported: makes no room
			if len(heldA) == 0 {
				continue
			}
			heldA[o.N%len(heldA)].Close()
		}
	}
	if useB {
		r.Class("second-side")
	}
	if again {
		r.Class("room-again")
		r.NonTrivial()
	}
	if c.Par > 0 && !r.Failed() {
		// concurrently: connections come and (unless Keep) go
		was := onA
		var wg sync.WaitGroup
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 4; i++ {
					dial()
				}
			}()
		}
		for i := 0; i < c.Par*4 && !r.Failed(); i++ {
			g, ok := take()
			if !ok {
				break
			}
			all = append(all, g.conn)
			if g.side == 0 && c.Keep {
				onA++
				heldA = append(heldA, g.conn)
			} else if g.side == 0 {
				g.conn.Close()
				atomic.AddInt32(&held, -1)
				l.OfflineA()
			}
		}
		wg.Wait()
		if c.Keep && !r.Failed() && onA != min(maxA, was+c.Par*4) {
			r.Failf("%d connections at once: %d of %d were online on the first side before, %d after", c.Par*4, was, maxA, onA)
		}
		if !r.Failed() {
			burst("after the concurrent phase", maxA-onA+1)
		}
		r.Class("concurrent")
		r.NonTrivial()
	}
	// nobody accepts any more; the connections of the tail stay in the listener
	var tail []uint32
	if c.Last > 0 && !r.Failed() {
		close(pause)
		// each acceptor may be waiting in Accept and takes one more
		for i := 0; i < c.Last; i++ {
			if id, ok := dial(); ok {
				tail = append(tail, id)
			}
		}
		if c.Wait {
			time.Sleep(2 * time.Millisecond)
		}
		r.Class("undelivered-at-close")
		r.NonTrivial()
	}
	l.Close()
	select {
	case <-runDone:
	case <-time.After(c20patience):
		r.Failf("the listener was closed, but Run did not end")
	}
	ad := make(chan struct{})
	go func() { awg.Wait(); close(ad) }()
	select {
	case <-ad:
		if len(tail) == 0 {
			for i, e := range accErr {
				if !errors.Is(e, net.ErrClosed) {
					r.Failf("side %d: the waiting Accept returned %v", i, e)
				}
			}
		}
	case <-time.After(c20patience):
		r.Failf("an Accept call waiting while the listener was closed never returned")
	}
	// later Accept calls report the end
	later := func() {
		for i, x := range []net.Listener{a, b} {
			ch := make(chan error, 1)
			go func() {
				for {
					cn, err := x.Accept()
					if err != nil {
						ch <- err
						return
					}
					var id [4]byte
					cn.SetReadDeadline(time.Now().Add(c20patience))
					io.ReadFull(cn, id[:])
					got <- c20got{i, binary.BigEndian.Uint32(id[:]), cn}
				}
			}()
			select {
			case err := <-ch:
				if !errors.Is(err, net.ErrClosed) {
					r.Failf("side %d: Accept after closing: %v", i, err)
				}
			case <-time.After(c20patience):
				r.Failf("side %d: Accept still waits after closing", i)
			}
		}
	}
	if c.Drain {
		later()
	}
	// every connection of the tail was delivered or is closed
	delivered := map[uint32]bool{}
	for len(got) > 0 {
		g := <-got
		delivered[g.id] = true
		all = append(all, g.conn)
	}
	for _, id := range tail {
		if delivered[id] || r.Failed() {
			continue
		}
		p := peers[id]
		var x [1]byte
		p.SetReadDeadline(time.Now().Add(c20patience))
		_, err := p.Read(x[:])
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			r.Failf("connection %d, accepted but delivered to nobody, is left open after closing", id)
		}
	}
	if !c.Drain {
		later()
	}
	for _, cn := range all {
		cn.Close()
	}
	for _, p := range peers {
		p.Close()
	}
}

func init() {
	vkit.Register("C20", "split", vkit.Opts{Quick: 20000, Budget: 30 * time.Second, Rule: "room is made again after the second side was used, connections come and go concurrently, or some are undelivered when the listener is closed"}, genC20, runC20)
}
