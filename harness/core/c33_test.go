package core

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C33: stopping a server ends its service and all of its connections.

type c33op struct {
	K   string // conn, call, temp, fatal, stop, shutdown
	At  int    // time units after the start of the round
	D   int    `json:",omitempty"` // units until the context of a shutdown ends, or a handler's time
	N   int    `json:",omitempty"`
	Own bool   `json:",omitempty"` // a client that dials, else raw bytes
}

type c33round struct {
	Ops  []c33op
	Hold []int // time the connected callback takes, per connection
}

type c33case struct {
	EP     vkit.EP
	Early  []string `json:",omitempty"` // stop or shutdown before it serves
	Rounds []c33round
}

func genC33(rt *rapid.T) c33case {
	c := c33case{EP: vkit.GenEP(rt, "ep")}
	if vkit.Chance(rt, 10, "early") {
		for i := vkit.Pick(rt, "earlies", 1, 1, 2); i > 0; i-- {
			c.Early = append(c.Early, vkit.Pick(rt, "how", "stop", "shutdown"))
		}
	}
	for k := vkit.Pick(rt, "rounds", 1, 1, 2, 3); k > 0; k-- {
		var d c33round
		for i := vkit.Int(rt, 0, 8, "ops"); i > 0; i-- {
			o := c33op{K: vkit.Pick(rt, "k", "conn", "conn", "conn", "call", "call", "call", "temp", "back", "back", "stuff"), At: vkit.Pick(rt, "at", 0, 1, 2, 3, 5, 8, 10, 10, 11, 12), D: vkit.Pick(rt, "d", 0, 0, 1, 3, 10, 40), N: vkit.Int(rt, 0, 5, "n"), Own: vkit.Bool(rt, "own")}
			d.Ops = append(d.Ops, o)
		}
		for i := vkit.Pick(rt, "stops", 1, 1, 2, 3); i > 0; i-- {
			o := c33op{K: vkit.Pick(rt, "how", "stop", "shutdown", "shutdown", "shutdown"), At: vkit.Pick(rt, "sat", 10, 10, 10, 11, 13, 30), D: vkit.Pick(rt, "sd", 0, 0, 1, 2, 5, 30, 100)}
			if vkit.Chance(rt, 10, "fatal") {
				o.K = "fatal"
			}
			d.Ops = append(d.Ops, o)
		}
		for i := vkit.Int(rt, 0, 4, "holds"); i > 0; i-- {
			d.Hold = append(d.Hold, vkit.Pick(rt, "hold", 0, 0, 1, 4, 20))
		}
		c.Rounds = append(c.Rounds, d)
	}
	return c
}

func runC33(r *vkit.R, c c33case) {
	r.Bubble(func() {
		var mu sync.Mutex
		up, down := map[*arpc.Client]int{}, map[*arpc.Client]int{}
		held := 0
		var hold []int
		var holding time.Time // end of the latest connected callback
		var busy int32
		h := c.EP.NewHandler()
		h.HandleConnected(func(cl *arpc.Client) {
			mu.Lock()
			up[cl]++
			d := 0
			if held < len(hold) {
				d = hold[held]
			}
			held++
			if d > 0 {
				holding = time.Now().Add(us(d))
			}
			mu.Unlock()
			time.Sleep(us(d))
		})
		h.HandleDisconnected(func(cl *arpc.Client) {
			mu.Lock()
			down[cl]++
			mu.Unlock()
		})
		h.Handle("think", func(ctx *arpc.Context) {
			n := 0
			ctx.Bind(&n)
			atomic.AddInt32(&busy, 1)
			time.Sleep(us(n))
			ctx.Write("done")
			atomic.AddInt32(&busy, -1)
		})
		srv := arpc.NewServer()
		srv.Handler = h
		for i, how := range c.Early {
			at := time.Now()
			var err error
			if how == "stop" {
				err = srv.Stop()
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), us(10))
				err = srv.Shutdown(ctx)
				cancel()
			}
			if d := time.Since(at); err != nil || d > 0 {
				r.Failf("%s %d before the server serves: %v after %v", how, i, err, d)
			}
			r.Class("stopped-before-serving")
		}
		for k, d := range c.Rounds {
			what := fmt.Sprintf("round %d", k)
			mu.Lock()
			hold, held, holding = d.Hold, 0, time.Time{}
			mu.Unlock()
			n := vkit.NewNet("s")
			served := make(chan struct{})
			var servedAt time.Time
			go func() { srv.Serve(n); servedAt = time.Now(); close(served) }()
			synctest.Wait()
			t0 := time.Now()
			var stopAt time.Time // the first stop
			var temps bool
			var raws []*vkit.Conn
			var clis []*arpc.Client
			var wg sync.WaitGroup
			calls, done := 0, 0
			var ends []time.Time // successful returns of Shutdown
			for i, o := range d.Ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(us(o.At) + time.Duration(i))
					name := fmt.Sprintf("%s, op %d (%s)", what, i, o.K)
					switch o.K {
					case "conn":
						if !o.Own {
							x := n.DialConn()
							mu.Lock()
							if x != nil {
								raws = append(raws, x)
							}
							mu.Unlock()
							return
						}
						ch := c.EP.NewHandler()
						ch.SetMaxReconnectTimes(1)
						ch.Handle("silent", func(*arpc.Context) {})
						cl, err := arpc.NewClient(n.Dial, ch)
						if err == nil {
							mu.Lock()
							clis = append(clis, cl)
							mu.Unlock()
						}
					case "call":
						mu.Lock()
						var cl *arpc.Client
						if len(clis) > 0 {
							cl = clis[o.N%len(clis)]
							calls++
						}
						mu.Unlock()
						if cl == nil {
							return
						}
						was := time.Now()
						rsp := ""
						err := cl.Call("think", o.D, &rsp, us(1000)+time.Minute)
						if err == nil && rsp != "done" {
							r.Failf("%s: answered %q", name, rsp)
						}
						mu.Lock()
						if err == nil {
							done++
						}
						if err == arpc.ErrTimeout || err == arpc.ErrClientTimeout {
							r.Failf("%s: made at %v, it waits until its timeout although the server was stopped", name, was.Sub(t0))
						}
						mu.Unlock()
					case "back": // the server calls its clients, which do not answer
						var cs []*arpc.Client
						srv.ForEach(func(cl *arpc.Client) { cs = append(cs, cl) })
						var cwg sync.WaitGroup
						for _, cl := range cs {
							cwg.Add(1)
							go func() {
								defer cwg.Done()
								var err error
								if o.Own {
									told := make(chan error, 9)
									err = cl.CallAsync("silent", o.D, func(_ *arpc.Context, e error) { told <- e }, us(1000)+time.Minute)
									if err == nil {
										err = <-told
									}
								} else {
									err = cl.Call("silent", o.D, nil, us(1000)+time.Minute)
								}
								if err == nil || err == arpc.ErrTimeout || err == arpc.ErrClientTimeout {
									r.Failf("%s: %v, although nobody answers and the server was stopped", name, err)
								}
							}()
							r.Class("server-calls")
						}
						cwg.Wait()
					case "stuff": // the peers stop reading and messages for them are queued
						var cs []*arpc.Client
						srv.ForEach(func(cl *arpc.Client) { cs = append(cs, cl) })
						for _, cl := range cs {
							if x, ok := cl.Conn.(*vkit.Conn); ok {
								x.StallWrites(true)
							}
							for k := 0; k < o.N; k++ {
								go cl.Notify("n", k, us(1000))
							}
							r.Class("stuffed")
						}
					case "temp":
						mu.Lock()
						temps = true
						mu.Unlock()
						n.InjectAcceptError(true)
					case "fatal":
						mu.Lock()
						if stopAt.IsZero() {
							stopAt = time.Now()
						}
						mu.Unlock()
						n.InjectAcceptError(false)
						time.Sleep(2)
						n.Close()
					case "stop", "shutdown":
						at := time.Now()
						mu.Lock()
						if stopAt.IsZero() {
							stopAt = at
						}
						mu.Unlock()
						if o.K == "stop" {
							srv.Stop()
							if d := time.Since(at); d > time.Second {
								r.Failf("%s: returned after %v", name, d)
							}
							if !n.IsClosed() {
								r.Failf("%s: the listener is open afterwards", name)
							}
							return
						}
						ctx, cancel := context.WithTimeout(context.Background(), us(o.D))
						defer cancel()
						err := srv.Shutdown(ctx)
						now := time.Now()
						if !n.IsClosed() {
							r.Failf("%s: the listener is open afterwards", name)
						}
						if now.After(at.Add(us(o.D))) {
							r.Failf("%s: returned after %v, its context ended after %v", name, now.Sub(at), us(o.D))
						}
						mu.Lock()
						defer mu.Unlock()
						switch {
						case err == nil && now.Before(holding):
							r.Failf("%s: returned success while the server still served a new connection", name)
						case err != nil && now != at.Add(us(o.D)):
							r.Failf("%s: %v after %v, its context ended after %v", name, err, now.Sub(at), us(o.D))
						}
						if err != nil && err != arpc.ErrTimeout {
							r.Failf("%s: %v", name, err)
						}
						if err != nil {
							r.Class("shutdown-timeout")
						} else {
							r.Class("shutdown-ok")
							ends = append(ends, now)
						}
					}
				}()
			}
			wg.Wait()
			time.Sleep(us(100) + time.Second)
			synctest.Wait()
			select {
			case <-served:
			default:
				r.Failf("%s: Serve has not returned", what)
				return
			}
			mu.Lock()
			limit := stopAt
			if holding.After(limit) {
				limit = holding
			}
			if temps {
				limit = limit.Add(time.Second / 20 * time.Duration(len(d.Ops)))
			}
			for _, e := range ends {
				if e.Before(servedAt) {
					r.Failf("%s: Shutdown reported success %v before the service ended", what, servedAt.Sub(e))
				}
			}
			if servedAt.After(limit) {
				r.Failf("%s: Serve returned %v after the stop, expected by %v", what, servedAt.Sub(stopAt), limit.Sub(stopAt))
			}
			if servedAt.Before(stopAt) {
				r.Failf("%s: Serve returned %v before the first stop", what, stopAt.Sub(servedAt))
			}
			mu.Unlock()
			if n.DialConn() != nil {
				r.Failf("%s: a connection was made after the stop", what)
			}
			for i, x := range raws {
				if !x.Other().Closed() {
					r.Failf("%s: connection %d is still open after the stop", what, i)
				}
			}
			if got := atomic.LoadInt64(&srv.CurrLoad); got != 0 {
				r.Failf("%s: the load is %d after the stop", what, got)
			}
			srv.ForEach(func(*arpc.Client) { r.Failf("%s: ForEach visits a client after the stop", what) })
			mu.Lock()
			for cl, k := range up {
				if k != 1 || down[cl] != 1 {
					r.Failf("%s: a connection was reported connected %d times and disconnected %d times", what, k, down[cl])
				}
			}
			if len(down) > len(up) {
				r.Failf("%s: %d connections were reported disconnected, %d connected", what, len(down), len(up))
			}
			if calls > done {
				r.Class("calls-cut")
			}
			if done > 0 {
				r.Class("calls-done")
			}
			if len(raws)+len(clis) > 0 {
				r.NonTrivial()
			}
			mu.Unlock()
			for _, cl := range clis {
				cl.Stop()
			}
			time.Sleep(5 * time.Second)
			for _, x := range raws {
				x.Close()
			}
			if r.Failed() {
				return
			}
		}
		// and once more: it serves like a new one
		mu.Lock()
		hold = nil
		mu.Unlock()
		n := vkit.NewNet("again")
		go srv.Serve(n)
		synctest.Wait()
		cl, err := arpc.NewClient(n.Dial, c.EP.NewHandler())
		if err != nil {
			r.Failf("dial to the server serving again: %v", err)
			return
		}
		rsp := ""
		if err := cl.Call("think", 1, &rsp, us(1000)); err != nil || rsp != "done" {
			r.Failf("call to the server serving again: %q, %v", rsp, err)
		}
		cl.Stop()
		srv.Stop()
	})
}

func init() {
	vkit.Register("C33", "stop", vkit.Opts{Quick: 20000, Units: true, Rule: "a connection was open or made when the server was stopped"}, genC33, runC33)
}
