package core

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C10, part restart: Restart ends what the client was doing, however busy it
// is, and starts afresh on one new connection.

type c10rs struct {
	K   string // restart, stop (Stop right before), lose (the connection is lost right before), fail (its dial fails), revive (from the disconnected callback), twice (two at once)
	At  int    // units since the one before
	Gap int    // units between the stop or loss and the restart
}

type c10rcase struct {
	EP     vkit.EP
	Ops    []c10op
	Rs     []c10rs
	Silent bool
	Think  int
	Stall  int // units until the first connection takes no more, -1 never
	Refuse int // redials after a loss that fail
	Delay  int // units a redial after a loss takes
}

func genC10r(rt *rapid.T) c10rcase {
	c := c10rcase{EP: vkit.GenEP(rt, "ep"), Silent: vkit.Bool(rt, "silent"), Think: vkit.Pick(rt, "think", 0, 0, 5, 30, 2000), Stall: -1,
		Refuse: vkit.Pick(rt, "refuse", 0, 0, 1, 3), Delay: vkit.Pick(rt, "delay", 0, 0, 1, 5, 50)}
	c.EP.Pool = vkit.Chance(rt, 20, "pool")
	c.EP.SendQ = vkit.Pick(rt, "sendq", 0, 1, 2)
	c.EP.StreamQ = vkit.Pick(rt, "streamq", 0, 1)
	if vkit.Chance(rt, 30, "stalls") {
		c.Stall = vkit.Int(rt, 0, 40, "stall")
	}
	for i := vkit.Int(rt, 0, 8, "nops"); i > 0; i-- {
		c.Ops = append(c.Ops, c10op{
			K:  vkit.Pick(rt, "k", "call", "callctx", "async", "async", "notify", "push", "pushforever", "streamrecv", "streamsend", "in-sync", "in-async", "in-async", "in-stream"),
			At: vkit.Int(rt, 0, 90, "at"), To: vkit.Pick(rt, "to", 10, 1000, 100000)})
	}
	for i := vkit.Int(rt, 1, 3, "nrs"); i > 0; i-- {
		c.Rs = append(c.Rs, c10rs{K: vkit.Pick(rt, "rk", "restart", "restart", "stop", "stop", "lose", "lose", "fail", "revive", "twice"), At: vkit.Int(rt, 1, 40, "rat"), Gap: vkit.Pick(rt, "gap", 0, 0, 0, 1, 5)})
	}
	return c
}

func runC10r(r *vkit.R, c c10rcase) {
	r.Bubble(func() {
		var (
			mu                      sync.Mutex
			connected, disconnected int32
			revive                  int32
			start                   = time.Now()
			now                     = func() time.Duration { return time.Since(start) }
			own, raws               []*vkit.Conn
			gen                     []int // restarts begun when the connection was made
			restarts                int
			inRestart               bool
			failNext                bool
			refused                 int
			opGen                   = map[int]int{}
			reqConn                 = map[uint64]int{} // connection of the peer's requests
			revived                 error
			twice                   bool
		)
		n := vkit.NewNet("raw")
		n.DialDelay = func(i int) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			if i == 0 || inRestart {
				return 0
			}
			return us(c.Delay)
		}
		n.DialErr = func(i int) error {
			mu.Lock()
			defer mu.Unlock()
			if i == 0 {
				return nil
			}
			if inRestart {
				if failNext {
					failNext = false
					return vkit.ErrRefused
				}
				return nil
			}
			if refused < c.Refuse {
				refused++
				return vkit.ErrRefused
			}
			return nil
		}
		serve := func(k int, raw *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(raw)
				if err != nil {
					return
				}
				data := string(f.Data)
				var op int
				mu.Lock()
				if _, err := fmt.Sscanf(data, "op %d.", &op); err == nil {
					if g := opGen[op]; g < gen[k] {
						r.Failf("the message %q of an operation (%s) started before Restart %d was sent on the connection made by it", data, c.Ops[op].K, gen[k])
					}
				}
				if f.Cmd == vkit.CResponse {
					if at, ok := reqConn[f.Seq]; ok && at != k {
						r.Failf("the response to request %d of connection %d was sent on connection %d", f.Seq, at, k)
					}
				}
				mu.Unlock()
				if f.Cmd == vkit.CRequest && (!c.Silent || f.Method == "probe") && f.Method != "hold" {
					raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: []byte("ok")}.Encode())
				}
			}
		}
		n.OnConn = func(a, b *vkit.Conn) {
			mu.Lock()
			k := len(own)
			own, raws, gen = append(own, a), append(raws, b), append(gen, restarts)
			mu.Unlock()
			go serve(k, b)
		}
		var cli *arpc.Client
		reviveDone := make(chan struct{}, 8)
		cli, err := dial(n, c.EP, func(h arpc.Handler) {
			think := func(ctx *arpc.Context) {
				time.Sleep(us(c.Think))
				ctx.Write("done")
			}
			h.Handle("in-sync", think, false)
			h.Handle("in-async", think, true)
			h.HandleStream("in-stream", func(s *arpc.Stream) {
				for v := ""; s.Recv(&v) == nil; {
				}
				s.CloseSendContext(context.Background())
			}, true)
			h.HandleConnected(func(*arpc.Client) { atomic.AddInt32(&connected, 1) })
			h.HandleDisconnected(func(cl *arpc.Client) {
				atomic.AddInt32(&disconnected, 1)
				if atomic.CompareAndSwapInt32(&revive, 1, 0) {
					err := cl.Restart()
					mu.Lock()
					revived = err
					mu.Unlock()
					reviveDone <- struct{}{}
				}
			})
		})
		if err != nil {
			r.Failf("NewClient: %v", err)
			return
		}
		type pend struct {
			o       c10op
			started bool
			done    bool
			cb      int
			acc     bool
		}
		var wg sync.WaitGroup
		var pends []*pend
		for i, o := range c.Ops {
			p := &pend{o: o}
			pends = append(pends, p)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { mu.Lock(); p.done = true; mu.Unlock() }()
				time.Sleep(us(o.At) + 100)
				body := fmt.Sprintf("op %d.", i)
				mu.Lock()
				p.started = true
				opGen[i] = restarts
				k := len(raws) - 1
				raw := raws[k]
				if strings.HasPrefix(o.K, "in-") {
					reqConn[uint64(500+i)] = k
				}
				mu.Unlock()
				var rsp string
				switch o.K {
				case "call":
					cli.Call("m", body, &rsp, us(o.To))
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(o.To))
					cli.CallContext(ctx, "m", body, &rsp)
					cancel()
				case "async":
					err := cli.CallAsync("m", body, func(*arpc.Context, error) { mu.Lock(); p.cb++; mu.Unlock() }, us(o.To))
					mu.Lock()
					p.acc = err == nil
					mu.Unlock()
				case "notify":
					cli.Notify("n", body, us(o.To))
				case "push":
					cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "n", body), us(o.To))
				case "pushforever":
					cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "n", body), -1)
				case "streamrecv":
					s := cli.NewStream("s")
					s.Send(body)
					for s.Recv(&rsp) == nil {
					}
				case "streamsend":
					s := cli.NewStream("s")
					for k := 0; k < 4; k++ {
						if s.Send(body) != nil {
							break
						}
						time.Sleep(us(7))
					}
					s.CloseSend()
					s.CloseRecv()
				case "in-sync", "in-async":
					raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(500 + i), Method: o.K}.Encode())
				case "in-stream":
					for k := 0; k < 3; k++ {
						raw.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(500 + i), Method: o.K, Data: []byte("v")}.Encode())
					}
				}
			}()
		}
		if c.Stall >= 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(c.Stall))
				own[0].StallWrites(true)
			}()
		}
		runs := 1
		at := 0
		for i, rs := range c.Rs {
			if at += rs.At; us(at)+200 < now() {
				at = int(now()/us(1)) + 1
			}
			time.Sleep(us(at) + 200 - now())
			mu.Lock()
			before := len(own)
			mu.Unlock()
			failed := false
			begin := func() {
				mu.Lock()
				restarts++
				inRestart = true
				mu.Unlock()
			}
			t0 := now()
			switch rs.K {
			case "stop":
				cli.Stop()
				time.Sleep(us(rs.Gap))
			case "lose":
				mu.Lock()
				refused = 0
				raw := raws[len(raws)-1]
				mu.Unlock()
				raw.Close()
				time.Sleep(us(rs.Gap))
			}
			var err error
			switch rs.K {
			case "revive":
				begin()
				atomic.StoreInt32(&revive, 1)
				cli.Stop()
				select {
				case <-reviveDone:
				case <-time.After(us(20*c.Think+1000) + 10*time.Second):
					r.Failf("the disconnected callback, calling Restart, has not returned %v after Stop", now()-t0)
				}
				mu.Lock()
				err = revived
				mu.Unlock()
			case "twice":
				begin()
				twice = true
				var w2 sync.WaitGroup
				var e2 error
				w2.Add(1)
				go func() { defer w2.Done(); e2 = cli.Restart() }()
				err = cli.Restart()
				w2.Wait()
				if err == nil {
					err = e2
				}
			case "fail":
				mu.Lock()
				failNext = true
				mu.Unlock()
				begin()
				err = cli.Restart()
				if err == nil {
					r.Failf("Restart %d reported success although its dial failed", i)
				} else {
					failed, err = true, nil
				}
			default:
				begin()
				err = cli.Restart()
			}
			if err != nil {
				r.Failf("Restart %d (%s): %v", i, rs.K, err)
			}
			// what the receiving loop is busy with, and the wait between two redials, may have to end first
			if took := now() - t0; took > us(c.Think*(1+len(c.Ops))+rs.Gap+c.Delay)+1100*time.Millisecond {
				r.Failf("Restart %d (%s) took %v", i, rs.K, took)
			}
			synctest.Wait()
			mu.Lock()
			inRestart = false
			open := 0
			for _, o := range own {
				if !o.Closed() {
					open++
				}
			}
			want := 1
			if failed {
				want = 0
			}
			if open != want {
				r.Failf("after Restart %d (%s) %d connections are open, want %d", i, rs.K, open, want)
			}
			if open == 1 && own[len(own)-1].Closed() {
				r.Failf("after Restart %d (%s) the open connection is not the last one", i, rs.K)
			}
			if len(own) < before+want {
				r.Failf("Restart %d (%s) made no connection", i, rs.K)
			}
			for k, p := range pends {
				if strings.HasPrefix(p.o.K, "in-") || !p.started || opGen[k] >= restarts {
					continue
				}
				if !p.done && p.o.K != "streamsend" { // which pauses between its values
					r.Failf("operation %d (%s, started at %v) still waits after Restart %d (%s, at %v)", k, p.o.K, us(p.o.At), i, rs.K, t0)
				}
				if p.o.K == "async" && p.acc && p.cb != 1 {
					r.Failf("the callback of async call %d ran %d times by the end of Restart %d (%s)", k, p.cb, i, rs.K)
				}
			}
			mu.Unlock()
			if failed {
				if err := cli.CheckState(); err != arpc.ErrClientStopped {
					r.Failf("CheckState after a failed Restart is %v", err)
				}
				mu.Lock()
				inRestart = true
				mu.Unlock()
				if err := cli.Restart(); err != nil {
					r.Failf("Restart after a failed one: %v", err)
				}
				synctest.Wait()
				mu.Lock()
				inRestart = false
				mu.Unlock()
			}
			runs++
			if err := cli.CheckState(); err != nil {
				r.Failf("CheckState after Restart %d (%s) is %v", i, rs.K, err)
			}
			if c.EP.SendQ == 0 || len(c.Ops) == 0 {
				rsp := ""
				if err := cli.Call("probe", "x", &rsp, us(400)); err != nil || rsp != "ok" {
					r.Failf("call after Restart %d (%s): %q, %v", i, rs.K, rsp, err)
				}
			}
			if k := atomic.LoadInt32(&disconnected); int(k) != runs-1 && !twice {
				r.Failf("after Restart %d (%s) the disconnected callback has run %d times, want %d", i, rs.K, k, runs-1)
			}
			r.Class("%s", rs.K)
			if r.Failed() {
				break
			}
		}
		if r.Failed() {
			cli.Stop()
			n.Close()
			for _, x := range raws {
				x.Close()
			}
			r.LeftOver = true
			time.Sleep(us(200000) + time.Hour)
			return
		}
		for now() < us(91) {
			time.Sleep(us(1))
		}
		// it is one client as before: a loss is followed by one new connection
		time.Sleep(us(2*c.Think*(1+len(c.Ops))) + 3*time.Second)
		synctest.Wait()
		mu.Lock()
		refused = c.Refuse
		dials, raw := n.Dials(), raws[len(raws)-1]
		mu.Unlock()
		before := atomic.LoadInt32(&connected)
		raw.Close()
		time.Sleep(us(c.Delay) + 2*time.Second)
		synctest.Wait()
		if k := n.Dials() - dials; k != 1 {
			r.Failf("%d dials after Restart and a loss, want 1", k)
		}
		if k := atomic.LoadInt32(&connected) - before; k != 1 {
			r.Failf("the connected callback ran %d times after Restart and a loss, want 1", k)
		}
		for i := 0; i < 3; i++ {
			rsp := ""
			if err := cli.Call("probe", "x", &rsp, us(1000)); err != nil || rsp != "ok" {
				r.Failf("call %d after Restart and a loss: %q, %v", i, rsp, err)
			}
		}
		cli.Stop()
		time.Sleep(us(2000) + 3*time.Second)
		synctest.Wait()
		if k := int(atomic.LoadInt32(&disconnected)); k != runs && !twice || twice && k < runs {
			r.Failf("the disconnected callback ran %d times for %d runs", k, runs)
		}
		mu.Lock()
		for i, o := range own {
			if !o.Closed() {
				r.Failf("connection %d of %d is still open after the end", i, len(own))
			}
		}
		for k, p := range pends {
			if !p.done {
				r.Failf("operation %d (%s) still waits after the end", k, p.o.K)
			}
			if p.o.K == "async" && p.acc && p.cb != 1 {
				r.Failf("the callback of async call %d ran %d times", k, p.cb)
			}
			if strings.HasPrefix(p.o.K, "in-") {
				continue
			}
			if len(c.Rs) > 0 && opGen[k] < restarts {
				r.NonTrivial()
			}
		}
		mu.Unlock()
		n.Close()
		for _, x := range raws {
			x.Close()
		}
		time.Sleep(us(100000) + 3*time.Second)
		synctest.Wait()
		if !waitOr(&wg, time.Second) {
			r.Failf("operations are left")
		}
	})
	if r.Leak != "" {
		r.Failf("goroutines are left after the client ended: %s", r.Leak)
	}
}

func init() {
	vkit.Register("C10", "restart", vkit.Opts{Units: true, Quick: 20000, Rule: "an operation of the user was started before a Restart"}, genC10r, runC10r)
}
