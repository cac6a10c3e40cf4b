package core

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C33 run: Server.Run over real TCP on the loopback, real time. A wait of
// c33wait means "never".

const c33wait = 20 * time.Second

type c33turn struct {
	Clients int
	Calls   int
	Slow    int    // calls in progress at the stop
	How     string // stop, shutdown, shutdown-short
	Busy    bool   // the address is taken at first
	Bad     string // an address that is none, tried first
}

type c33run struct {
	S, C   vkit.EP
	Rounds []c33turn
}

func genC33run(rt *rapid.T) c33run {
	c := c33run{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c")}
	c.S.SyncResp, c.C.SyncResp = false, false
	for i := vkit.Int(rt, 1, 3, "rounds"); i > 0; i-- {
		c.Rounds = append(c.Rounds, c33turn{Clients: vkit.Int(rt, 0, 4, "clients"), Calls: vkit.Int(rt, 0, 4, "calls"), Slow: vkit.Int(rt, 0, 3, "slow"),
			How: vkit.Pick(rt, "how", "stop", "shutdown"), Busy: vkit.Chance(rt, 20, "busy"), Bad: vkit.Pick(rt, "bad", "", "", "", "nonsense", "127.0.0.1:99999")})
	}
	return c
}

var c33port int32

// c33conn counts the connections whose peer has ended them.
type c33conn struct {
	net.Conn
	n    *int32
	once sync.Once
}

func (c *c33conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if err != nil {
		c.once.Do(func() { atomic.AddInt32(c.n, 1) })
	}
	return n, err
}

func runC33run(r *vkit.R, c c33run) {
	s := arpc.NewServer()
	s.Handler = c.S.NewHandler()
	gate := make(chan struct{})
	s.Handler.Handle("echo", func(ctx *arpc.Context) {
		var x string
		ctx.Bind(&x)
		if x == "slow" {
			<-gate
		}
		ctx.Write(x)
	}, true)
	defer close(gate)
	addr := ""
	for k, x := range c.Rounds {
		if x.Bad != "" {
			ch := make(chan error, 1)
			go func() { ch <- s.Run(x.Bad) }()
			select {
			case err := <-ch:
				if err == nil {
					r.Failf("Run(%q) returned no error", x.Bad)
				}
			case <-time.After(c33wait):
				r.Failf("Run(%q) does not return", x.Bad)
				return
			}
			r.Class("bad address")
		}
		// a free port below the range of those handed out automatically
		var ch chan error
		for try := 0; ; try++ {
			if addr == "" {
				p := 10000 + (os.Getpid()*131+int(atomic.AddInt32(&c33port, 1))*17)%20000
				addr = fmt.Sprintf("127.0.0.1:%d", p)
			}
			if x.Busy && try == 0 {
				if ln, err := net.Listen("tcp", addr); err == nil {
					err := s.Run(addr)
					if !errors.Is(err, syscall.EADDRINUSE) {
						r.Failf("Run on an address in use returned %v", err)
					}
					ln.Close()
					r.Class("busy address")
				}
			}
			ch = make(chan error, 1)
			go func() { ch <- s.Run(addr) }()
			up := false
			for t0 := time.Now(); time.Since(t0) < c33wait; time.Sleep(time.Millisecond) {
				if cn, err := net.DialTimeout("tcp", addr, c33wait); err == nil {
					cn.Close()
					up = true
					break
				}
				select {
				case err := <-ch:
					if !errors.Is(err, syscall.EADDRINUSE) || try > 50 {
						r.Failf("round %d: Run ended by itself: %v", k, err)
						return
					}
					addr, ch = "", nil
				default:
				}
				if ch == nil {
					break
				}
			}
			if up {
				// is it this server that answers there?
				select {
				case <-ch:
					addr = ""
					continue
				case <-time.After(5 * time.Millisecond):
				}
				break
			}
			if ch != nil {
				r.Failf("round %d: nothing answers at the address of a running server", k)
				return
			}
		}
		var down int32
		dial := func() (net.Conn, error) {
			cn, err := net.DialTimeout("tcp", addr, c33wait)
			if err != nil {
				return nil, err
			}
			return &c33conn{Conn: cn, n: &down}, nil
		}
		var clis []*arpc.Client
		var wg sync.WaitGroup
		for i := 0; i < x.Clients; i++ {
			h := c.C.NewHandler()
			cl, err := arpc.NewClient(dial, h)
			if err != nil {
				r.Failf("round %d: dial: %v", k, err)
				break
			}
			clis = append(clis, cl)
			for j := 0; j < x.Calls; j++ {
				var rsp string
				req := fmt.Sprintf("%d/%d/%d", k, i, j)
				if err := cl.Call("echo", req, &rsp, c33wait); err != nil || rsp != req {
					r.Failf("round %d: call: %q, %v", k, rsp, err)
				}
			}
		}
		slow := make(chan error, 100)
		for i := 0; i < x.Slow && len(clis) > 0; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				slow <- clis[i%len(clis)].Call("echo", "slow", nil, 10*c33wait)
			}()
		}
		time.Sleep(2 * time.Millisecond)
		switch x.How {
		case "stop":
			s.Stop()
		case "shutdown":
			cx, cancel := context.WithTimeout(context.Background(), c33wait)
			if err := s.Shutdown(cx); err != nil {
				r.Failf("round %d: Shutdown: %v", k, err)
			}
			cancel()
		}
		select {
		case <-ch:
		case <-time.After(c33wait):
			r.Failf("round %d: Run does not return after %s", k, x.How)
			return
		}
		if cn, err := net.DialTimeout("tcp", addr, c33wait); err == nil {
			// somebody else may have taken the port
			cn.SetReadDeadline(time.Now().Add(c33wait))
			cn.Write(vkit.Frame{Cmd: 1, Seq: 7, Method: "echo", Data: []byte("x")}.Encode())
			if f, err := vkit.ReadFrame(cn); err == nil && f.Seq == 7 && string(f.Data) == "x" {
				r.Failf("round %d: the stopped server still answers", k)
			}
			cn.Close()
			addr = ""
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(c33wait):
			r.Failf("round %d: a call in progress did not end with the server's connections", k)
		}
		for len(slow) > 0 {
			if err := <-slow; err == nil {
				r.Failf("round %d: a call in progress succeeded although it was never answered", k)
			}
		}
		for t := time.Now(); int(atomic.LoadInt32(&down)) < len(clis); time.Sleep(time.Millisecond) {
			if time.Since(t) > c33wait {
				r.Failf("round %d: %d of %d connections were closed", k, down, len(clis))
				break
			}
		}
		for _, cl := range clis {
			cl.Stop()
		}
		if x.Clients > 0 {
			r.NonTrivial()
		}
		r.Class("%s slow=%v", x.How, x.Slow > 0)
		if r.Failed() {
			return
		}
	}
}

func init() {
	vkit.Register("C33", "run", vkit.Opts{Quick: 400, Thorough: 6000, Rule: "clients were connected to a running server"}, genC33run, runC33run)
}
