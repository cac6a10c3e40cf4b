package core

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C09: a dialed client survives connection loss, within its reconnect budget.

type c09cycle struct {
	Up    int    // units from the connection being established to its loss
	K     string // how it is lost
	Fails int    // dial attempts that fail then; -1: all
	Delay int    // units each attempt takes
	Burst int    `json:",omitempty"` // notifications on their way when it is lost
}

type c09probe struct {
	S, U int // at S quarter seconds + U units
	K    string
}

type c09case struct {
	EP     vkit.EP
	Max    int
	Cycles []c09cycle
	Probes []c09probe
	Stop   *c09probe `json:",omitempty"`
	Greet  string    `json:",omitempty"` // what the connected callback does: call, slow
}

func (p c09probe) at() time.Duration { return time.Duration(p.S)*250*time.Millisecond + us(p.U) }

func genC09(rt *rapid.T) c09case {
	c := c09case{EP: vkit.GenEP(rt, "ep"), Max: vkit.Pick(rt, "max", 0, 0, 1, 2, 3, 5)}
	c.EP.Pool = vkit.Chance(rt, 20, "pool")
	n := vkit.Int(rt, 1, 4, "cycles")
	for i := 0; i < n; i++ {
		c.Cycles = append(c.Cycles, c09cycle{
			Up:    vkit.Pick(rt, "up", 0, 1, 3, 20, 100, 1000),
			K:     vkit.Pick(rt, "k", "close", "reset", "bad", "half"),
			Fails: vkit.Pick(rt, "fails", 0, 0, 1, 2, 3, 4, 7, -1),
			Delay: vkit.Pick(rt, "delay", 1, 1, 7, 100, 1500),
			Burst: vkit.Pick(rt, "burst", 0, 0, 0, 1, 3, 8, 20),
		})
	}
	pr := func(l string) c09probe {
		p := c09probe{S: vkit.Pick(rt, l+".s", 0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 20, 24, 33), U: vkit.Pick(rt, l+".u", 0, 1, 2, 4, 9, 21, 50, 101, 150, 1001, 1600)}
		return p
	}
	for i := vkit.Int(rt, 1, 12, "probes"); i > 0; i-- {
		p := pr("p")
		p.K = vkit.Pick(rt, "pk", "call", "call", "callctx", "async", "notify", "notifyctx", "push", "in", "in", "stream")
		c.Probes = append(c.Probes, p)
	}
	sort.SliceStable(c.Probes, func(i, j int) bool { return c.Probes[i].at() < c.Probes[j].at() })
	if vkit.Chance(rt, 40, "stops") {
		p := pr("stop")
		c.Stop = &p
	}
	c.Greet = vkit.Pick(rt, "greet", "", "", "call", "slow")
	return c
}

type c09dial struct {
	began, ended time.Duration
	ok           bool
}

func runC09(r *vkit.R, c c09case) {
	r.Bubble(func() {
		var (
			mu                      sync.Mutex
			start                   = time.Now()
			now                     = func() time.Duration { return time.Since(start) }
			dials                   []*c09dial
			conns                   []*vkit.Conn // the peer's ends
			losses                  []time.Duration
			fails                   int // consecutive failures since the last loss
			connected, disconnected int32
			inGot                   = map[uint64]int{}
			rsps                    = map[uint64]int{}
			stopAt                  = time.Duration(-1)
		)
		var cli *arpc.Client
		var theCli atomic.Pointer[arpc.Client]
		var err error
		n := vkit.NewNet("raw")
		serve := func(j int, raw *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(raw)
				if err != nil {
					return
				}
				switch f.Cmd {
				case vkit.CRequest:
					raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: append([]byte("re:"), f.Data...)}.Encode())
				case vkit.CResponse:
					mu.Lock()
					rsps[f.Seq]++
					mu.Unlock()
				}
			}
		}
		n.DialDelay = func(i int) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			dials = append(dials, &c09dial{began: now(), ended: -1})
			if i == 0 {
				return 0
			}
			return us(c.Cycles[len(conns)-1].Delay)
		}
		n.DialErr = func(i int) error {
			mu.Lock()
			defer mu.Unlock()
			d := dials[i]
			d.ended = now()
			if i > 0 {
				cy := c.Cycles[len(conns)-1]
				if cy.Fails < 0 || fails < cy.Fails {
					fails++
					return vkit.ErrRefused
				}
			}
			d.ok = true
			return nil
		}
		n.OnConn = func(a, b *vkit.Conn) {
			mu.Lock()
			j := len(conns)
			conns = append(conns, b)
			fails = 0
			mu.Unlock()
			go serve(j, b)
			if j < len(c.Cycles) {
				go func() {
					time.Sleep(us(c.Cycles[j].Up) + 100)
					if x := theCli.Load(); x != nil && c.Cycles[j].Burst > 0 {
						a.StallWrites(true)
						for k := 0; k < c.Cycles[j].Burst; k++ {
							go x.Notify("n", fmt.Sprintf("burst %d", k), time.Second)
						}
						time.Sleep(1)
						r.Class("burst")
					}
					mu.Lock()
					stopped := stopAt >= 0
					if !stopped {
						losses = append(losses, now())
					}
					mu.Unlock()
					if stopped {
						b.Close()
						return
					}
					switch c.Cycles[j].K {
					case "close":
						b.Close()
					case "reset":
						b.Reset()
					case "half":
						b.CloseWrite()
					case "bad":
						b.Write([]byte{0xff, 0xff, 0xff, 0xff, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 'x'})
					}
				}()
			}
		}
		cli, err = dial(n, c.EP, func(h arpc.Handler) {
			h.SetMaxReconnectTimes(c.Max)
			h.HandleConnected(func(cl *arpc.Client) {
				atomic.AddInt32(&connected, 1)
				switch c.Greet {
				case "call":
					mu.Lock()
					k := len(losses)
					mu.Unlock()
					t0, rsp := now(), ""
					err := cl.Call("hello", "x", &rsp, us(800))
					mu.Lock()
					defer mu.Unlock()
					if (err != nil || rsp != "re:x" || now() != t0) && k == len(losses) && stopAt < 0 {
						r.Failf("a call of the connected callback at %v returned %q, %v at %v on an established connection", t0, rsp, err, now())
					}
				case "slow":
					time.Sleep(us(800))
				}
			})
			h.HandleDisconnected(func(*arpc.Client) { atomic.AddInt32(&disconnected, 1) })
			h.Handle("in", func(ctx *arpc.Context) {
				mu.Lock()
				inGot[ctx.Message.Seq()]++
				mu.Unlock()
				ctx.Write("ok")
			})
		})
		if err != nil {
			r.Failf("NewClient: %v", err)
			return
		}
		theCli.Store(cli)
		sleepTo := func(t time.Duration) {
			if d := t - now(); d > 0 {
				time.Sleep(d)
			}
		}
		// the client's state now: up, outage, ending (the budget is used up, stop is due), stopped
		state := func() string {
			mu.Lock()
			defer mu.Unlock()
			if stopAt >= 0 {
				return "stopped"
			}
			if len(losses) < len(conns) {
				return "up"
			}
			cnt := 0
			var last time.Duration
			for _, d := range dials {
				if d.began >= losses[len(losses)-1] {
					if d.ended < 0 {
						return "outage"
					}
					cnt++
					last = d.ended
				}
			}
			if c.Max > 0 && cnt >= c.Max {
				if now() > last+10*time.Second {
					return "stopped"
				}
				return "ending"
			}
			return "outage"
		}
		type ev struct {
			at time.Duration
			p  *c09probe
			i  int
		}
		var evs []ev
		for i := range c.Probes {
			evs = append(evs, ev{c.Probes[i].at() + 333, &c.Probes[i], i})
		}
		if c.Stop != nil {
			evs = append(evs, ev{c.Stop.at() + 555, nil, 0})
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		seen := map[string]bool{}
		for _, e := range evs {
			sleepTo(e.at)
			synctest.Wait()
			if e.p == nil {
				mu.Lock()
				stopAt = now()
				mu.Unlock()
				cli.Stop()
				continue
			}
			st := state()
			seen[st] = true
			t0 := now()
			var err error
			rsp := ""
			want := ""
			switch e.p.K {
			case "call":
				want = fmt.Sprintf("re:q%d", e.i)
				err = cli.Call("m", fmt.Sprintf("q%d", e.i), &rsp, time.Hour)
			case "callctx":
				want = fmt.Sprintf("re:q%d", e.i)
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				err = cli.CallContext(ctx, "m", fmt.Sprintf("q%d", e.i), &rsp)
				cancel()
			case "async":
				want = fmt.Sprintf("re:q%d", e.i)
				ch := make(chan string, 1)
				err = cli.CallAsync("m", fmt.Sprintf("q%d", e.i), func(ctx *arpc.Context, e error) {
					s := ""
					if e == nil {
						ctx.Bind(&s)
					} else {
						s = e.Error()
					}
					ch <- s
				}, time.Hour)
				if err == nil {
					rsp = <-ch
				}
			case "notify":
				err = cli.Notify("n", "x", time.Hour)
			case "notifyctx":
				err = cli.NotifyContext(context.Background(), "n", "x")
			case "push":
				err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "n", "x"), time.Hour)
			case "stream":
				s := cli.NewStream("s")
				err = s.Send("x")
				s.CloseRecv()
				s.CloseSendContext(context.Background())
			case "in":
				if st != "up" {
					continue
				}
				mu.Lock()
				raw := conns[len(conns)-1]
				mu.Unlock()
				seq := uint64(1000 + e.i)
				raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: seq, Method: "in", Data: []byte("x")}.Encode())
				synctest.Wait()
				mu.Lock()
				a, b := inGot[seq], rsps[seq]
				mu.Unlock()
				if a != 1 || b != 1 {
					r.Failf("at %v: a request from the peer was handled %d times and answered %d times on an established connection (connection %d)", t0, a, b, len(conns))
				}
				continue
			}
			if d := now() - t0; d != 0 {
				r.Failf("at %v (%s): %s took %v", t0, st, e.p.K, d)
			}
			good := false
			switch st {
			case "up":
				good = err == nil && rsp == want
			case "outage":
				good = err == arpc.ErrClientReconnecting
			case "ending":
				good = isStopErr(err)
			case "stopped":
				good = err == arpc.ErrClientStopped
			}
			if !good {
				r.Failf("at %v (%s, %d losses): %s returned %q, %v", t0, st, len(losses), e.p.K, rsp, err)
			}
			if k := atomic.LoadInt32(&connected); st == "up" && int(k) != len(conns) {
				r.Failf("at %v: connected callback ran %d times for %d connections", t0, k, len(conns))
			}
			if k := atomic.LoadInt32(&disconnected); (st == "up" || st == "outage") && k != 0 {
				r.Failf("at %v (%s): disconnected callback ran %d times", t0, st, k)
			}
		}
		// let everything settle, then judge the dialing history
		for i := 0; i < 200; i++ {
			time.Sleep(us(1600) + time.Second)
			st := state()
			if st == "stopped" || (st == "up" && len(losses) == len(c.Cycles)) {
				break
			}
			if st == "outage" && c.Cycles[len(conns)-1].Fails < 0 && c.Max == 0 && i > 10 {
				break
			}
		}
		synctest.Wait()
		end := now()
		mu.Lock()
		li := 0
		cnt := 0
		last := time.Duration(0)
		for i, d := range dials {
			if i == 0 {
				continue
			}
			if stopAt >= 0 && d.began > stopAt {
				r.Failf("dial attempt at %v although the client was stopped at %v", d.began, stopAt)
			}
			if li >= len(losses) || d.began < losses[li] {
				r.Failf("dial attempt %d at %v although the connection is up (losses %v)", i, d.began, losses)
				break
			}
			if cnt == 0 {
				last = losses[li]
			}
			if d.began-last > 10*time.Second {
				r.Failf("no dial attempt between %v and %v", last, d.began)
			}
			cnt++
			if c.Max > 0 && cnt > c.Max {
				r.Failf("%d dial attempts for one loss, at most %d configured", cnt, c.Max)
			}
			last = d.ended
			if d.ok {
				li++
				cnt = 0
			}
		}
		// the last loss: were all attempts made?
		pending := li < len(losses)
		if pending && stopAt < 0 {
			if cnt == 0 {
				last = losses[li]
			}
			if (c.Max == 0 || cnt < c.Max) && end-last > 10*time.Second && !(len(dials) > 0 && dials[len(dials)-1].ended < 0) {
				r.Failf("lost at %v, %d attempts, the last ended at %v, none since, now %v", losses[li], cnt, last, end)
			}
		}
		mu.Unlock()
		st := state()
		if int(connected) != len(conns) && st == "up" {
			r.Failf("connected callback ran %d times for %d connections", connected, len(conns))
		}
		wantDis := int32(0)
		if st == "stopped" {
			wantDis = 1
			if e := cli.CheckState(); e != arpc.ErrClientStopped {
				r.Failf("after the end CheckState is %v", e)
			}
			time.Sleep(us(1600) + 2*time.Second)
			synctest.Wait()
		}
		if k := atomic.LoadInt32(&disconnected); k != wantDis && st != "ending" {
			r.Failf("disconnected callback ran %d times, state %s", k, st)
		}
		cli.Stop()
		time.Sleep(us(1600) + 2*time.Second)
		synctest.Wait()
		if k := atomic.LoadInt32(&disconnected); k != 1 {
			r.Failf("disconnected callback ran %d times in the end", k)
		}
		if len(losses) > 0 {
			r.NonTrivial()
		}
		for k := range seen {
			r.Class("probed-%s", k)
		}
		if len(conns) > 1 {
			r.Class("reconnected")
		}
		n.Close()
		mu.Lock()
		for _, b := range conns {
			b.Close()
		}
		mu.Unlock()
	})
}

func init() {
	vkit.Register("C09", "redial", vkit.Opts{Units: true, Quick: 40000, Rule: "the connection was lost at least once"}, genC09, runC09)
}
