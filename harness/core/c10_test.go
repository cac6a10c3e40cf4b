package core

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C10: Stop is final and leaves nothing behind.

type c10op struct {
	K  string // operation that may be pending
	At int
	To int
}

type c10case struct {
	Role  string
	EP    vkit.EP
	Ops   []c10op
	Stall int    // units until the peer stops reading, -1 never
	Silen bool   // the peer does not answer requests
	Lose  int    // dial role: units until the connection is lost first, -1 never
	Fails int    // redials that fail, -1 all
	Delay int    // units a redial takes
	K     string // how it ends
	At    int    // when, in units
	Q     int    // extra quarter seconds (to hit the reconnect wait)
	Also  int    // further Stop calls
	Think int    // units a handler works
	Again bool   // dial role: restart it afterwards
	Disc  int    `json:",omitempty"` // units the disconnected callback takes
	Keep  int    `json:",omitempty"` // units between keepalive pings
}

func genC10(rt *rapid.T) c10case {
	c := c10case{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Lose: -1, Stall: -1}
	c.EP.Pool = vkit.Chance(rt, 20, "pool")
	c.EP.SendQ = vkit.Pick(rt, "sendq", 0, 1, 2)
	c.EP.StreamQ = vkit.Pick(rt, "streamq", 0, 1)
	c.Think = vkit.Pick(rt, "think", 0, 0, 5, 30, 2000)
	for i := vkit.Int(rt, 0, 6, "nops"); i > 0; i-- {
		c.Ops = append(c.Ops, c10op{
			K:  vkit.Pick(rt, "k", "call", "callctx", "async", "notify", "notifyctx", "push", "pushforever", "streamrecv", "streamsend", "in-sync", "in-async", "in-stream", "sync-call-in-handler"),
			At: vkit.Int(rt, 0, 60, "at"), To: vkit.Pick(rt, "to", 10, 1000, 100000)})
	}
	if vkit.Chance(rt, 35, "stalls") {
		c.Stall = vkit.Int(rt, 0, 40, "stall")
	}
	c.Silen = vkit.Bool(rt, "silent")
	if vkit.Chance(rt, 15, "slowdisc") {
		c.Disc = 300000
	}
	if c.Stall < 0 && vkit.Chance(rt, 20, "keepalive") {
		c.Keep = vkit.Pick(rt, "keep", 7, 50, 3000)
	}
	unread := false
	if vkit.Chance(rt, 15, "unread") {
		// values of a stream nobody reads fill its queue
		unread = true
		c.EP.StreamQ = vkit.Pick(rt, "unreadq", 1, 1, 2, 5)
		for i := vkit.Int(rt, 1, 2, "nunread"); i > 0; i-- {
			c.Ops = append(c.Ops, c10op{K: vkit.Pick(rt, "unreadk", "in-unread", "own-unread", "in-syncread"), At: vkit.Int(rt, 0, 60, "at"), To: 10})
		}
	}
	c.At = vkit.Int(rt, 0, 80, "end")
	c.Also = vkit.Pick(rt, "also", 0, 0, 1, 3)
	if c.Role == "dial" {
		if vkit.Chance(rt, 50, "loses") && !unread {
			c.Lose = vkit.Int(rt, 0, 70, "lose")
			c.Fails = vkit.Pick(rt, "fails", 0, 0, 1, 2, -1)
			c.Delay = vkit.Pick(rt, "delay", 1, 5, 20, 50)
			c.Q = vkit.Pick(rt, "q", 0, 0, 0, 1, 3, 4, 5, 9)
		}
		c.K = vkit.Pick(rt, "endk", "stop", "stop", "stop", "handler", "callback", "connected")
		c.Again = vkit.Chance(rt, 50, "again")
	} else {
		c.K = vkit.Pick(rt, "endk", "stop", "stop", "handler", "callback", "peerclose", "peerreset", "bad", "badcmd", "server", "connected")
		if unread && (c.K == "peerclose" || c.K == "peerreset" || c.K == "bad" || c.K == "badcmd") {
			c.K = "server" // what is behind the values nobody reads is not seen
		}
		if c.K == "bad" || c.K == "badcmd" {
			// a handler waiting for room in the queue keeps the endpoint from seeing the bad bytes
			c.Stall = -1
		}
	}
	return c
}

func runC10(r *vkit.R, c c10case) {
	var leaked []string
	ended := false
	r.Bubble(func() {
		var (
			mu                      sync.Mutex
			connected, disconnected int32
			start                   = time.Now()
			now                     = func() time.Duration { return time.Since(start) }
			own                     []*vkit.Conn
			raws                    []*vkit.Conn
			lost                    bool
			streamed                = map[string]int{}
		)
		serve := func(raw *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(raw)
				if err != nil {
					return
				}
				if f.Cmd == vkit.CRequest && (!c.Silen || f.Method == "probe") && f.Method != "hold" {
					raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: []byte("ok")}.Encode())
				}
			}
		}
		stopInConnected := c.K == "connected"
		setup := func(h arpc.Handler) {
			h.HandleDisconnected(func(*arpc.Client) {
				atomic.AddInt32(&disconnected, 1)
				if c.Disc > 0 {
					time.Sleep(us(c.Disc))
				}
			})
			think := func(ctx *arpc.Context) {
				time.Sleep(us(c.Think))
				ctx.Write("done")
			}
			h.Handle("in-sync", think, false)
			h.Handle("in-async", think, true)
			h.Handle("stopme", func(ctx *arpc.Context) { ctx.Client.Stop() }, false)
			h.Handle("call-in-handler", func(ctx *arpc.Context) {
				// a synchronous handler that calls back and so waits on its own receiving loop
				ctx.Client.Call("m", "x", nil, us(40))
			}, false)
			h.HandleStream("in-stream", func(s *arpc.Stream) {
				for {
					v := ""
					if s.Recv(&v) != nil {
						break
					}
					mu.Lock()
					streamed[v]++
					mu.Unlock()
				}
				s.CloseSendContext(context.Background())
			}, true)
			h.HandleStream("in-unread", func(s *arpc.Stream) {}, true)
			h.HandleStream("in-syncread", func(s *arpc.Stream) {
				// waits for values which it keeps from being received itself
				for v := ""; ; {
					if c.Also > 0 {
						if s.RecvContext(context.Background(), &v) != nil {
							return
						}
					} else if s.Recv(&v) != nil {
						return
					}
				}
			}, false)
		}
		var cli *arpc.Client
		var srv *server
		var n *vkit.Net
		if c.Role == "accept" {
			got := make(chan *arpc.Client, 1)
			srv = newServer(c.EP, setup)
			srv.srv.Handler.HandleConnected(func(cl *arpc.Client) {
				atomic.AddInt32(&connected, 1)
				if stopInConnected {
					cl.Stop()
				}
				got <- cl
			})
			srv.start()
			n = srv.net
			n.OnConn = func(a, b *vkit.Conn) { own, raws = append(own, b), append(raws, a); go serve(a) }
			n.DialConn()
			cli = <-got
		} else {
			n = vkit.NewNet("raw")
			attempts := 0
			n.DialDelay = func(i int) time.Duration {
				if i == 0 {
					return 0
				}
				return us(c.Delay) + 3
			}
			n.DialErr = func(i int) error {
				mu.Lock()
				defer mu.Unlock()
				if i > 0 && !ended {
					attempts++
					if c.Fails < 0 || attempts <= c.Fails {
						return vkit.ErrRefused
					}
				}
				return nil
			}
			n.OnConn = func(a, b *vkit.Conn) {
				mu.Lock()
				own, raws = append(own, a), append(raws, b)
				mu.Unlock()
				go serve(b)
			}
			var err error
			cli, err = dial(n, c.EP, func(h arpc.Handler) {
				setup(h)
				h.HandleConnected(func(cl *arpc.Client) {
					if k := atomic.AddInt32(&connected, 1); stopInConnected && k == 1 {
						cl.Stop()
					}
				})
			})
			if err != nil {
				r.Failf("NewClient: %v", err)
				return
			}
		}
		if c.Keep > 0 {
			cli.Keepalive(us(c.Keep))
		}
		var wg sync.WaitGroup
		type pend struct {
			o    c10op
			done bool
			cb   int
			acc  bool
		}
		var pends []*pend
		raw0 := raws[0]
		for i, o := range c.Ops {
			p := &pend{o: o}
			pends = append(pends, p)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { mu.Lock(); p.done = true; mu.Unlock() }()
				time.Sleep(us(o.At) + 100)
				var rsp string
				switch o.K {
				case "call":
					cli.Call("m", "x", &rsp, us(o.To))
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(o.To))
					cli.CallContext(ctx, "m", "x", &rsp)
					cancel()
				case "async":
					err := cli.CallAsync("m", "x", func(*arpc.Context, error) { mu.Lock(); p.cb++; mu.Unlock() }, us(o.To))
					mu.Lock()
					p.acc = err == nil
					mu.Unlock()
				case "notify":
					cli.Notify("n", "x", us(o.To))
				case "notifyctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(o.To))
					cli.NotifyContext(ctx, "n", "x")
					cancel()
				case "push":
					cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "n", "x"), us(o.To))
				case "pushforever":
					cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "n", "x"), -1)
				case "streamrecv":
					s := cli.NewStream("s")
					s.Send("x")
					for s.Recv(&rsp) == nil {
					}
				case "streamsend":
					s := cli.NewStream("s")
					for k := 0; k < 4; k++ {
						if s.Send("x") != nil {
							break
						}
					}
					s.CloseSend()
					s.CloseRecv()
				case "in-sync", "in-async":
					raw0.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(500 + i), Method: o.K}.Encode())
				case "sync-call-in-handler":
					raw0.Write(vkit.Frame{Cmd: vkit.CNotify, Seq: uint64(500 + i), Method: "call-in-handler"}.Encode())
				case "in-unread", "in-syncread":
					r.Class("unread-stream")
					for k := 0; k < 9; k++ {
						raw0.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(500 + i), Method: o.K, Data: []byte("v")}.Encode())
					}
				case "own-unread":
					r.Class("unread-stream")
					st := cli.NewStream("own")
					for k := 0; k < 9; k++ {
						raw0.Write(vkit.Frame{Cmd: vkit.CStream, Seq: st.Id(), Method: "own", Data: []byte("v")}.Encode())
					}
				case "in-stream":
					for k := 0; k < 3; k++ {
						raw0.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(500 + i), Method: o.K, Data: []byte("v")}.Encode())
					}
				}
			}()
		}
		if c.Stall >= 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(c.Stall))
				mu.Lock()
				defer mu.Unlock()
				own[0].StallWrites(true)
			}()
		}
		if c.Lose >= 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(c.Lose) + 50)
				mu.Lock()
				lost = true
				mu.Unlock()
				raw0.Close()
			}()
		}
		time.Sleep(us(c.At) + time.Duration(c.Q)*250*time.Millisecond + 200)
		stopRet := time.Duration(-1)
		byCaller := false
		switch c.K {
		case "stop", "connected":
			t0 := now()
			cli.Stop()
			stopRet = now() - t0
			byCaller = true
		case "handler":
			mu.Lock()
			raw := raws[len(raws)-1]
			mu.Unlock()
			raw.Write(vkit.Frame{Cmd: vkit.CNotify, Seq: 900, Method: "stopme"}.Encode())
			time.Sleep(us(2*c.Think+400) + time.Second)
			cli.Stop() // in case it was reconnecting
		case "callback":
			go func() {
				if cli.CallAsync("m", "x", func(*arpc.Context, error) { cli.Stop() }, us(5)) != nil {
					cli.Stop()
				}
			}()
			time.Sleep(us(10) + time.Second)
			cli.Stop()
		case "peerclose":
			raw0.Close()
		case "peerreset":
			raw0.Reset()
		case "bad":
			raw0.Write([]byte{0xff, 0xff, 0xff, 0xff, 0, 1, 0, 1})
		case "badcmd":
			raw0.Write(vkit.Frame{Cmd: 77, Seq: 900, Method: "x"}.Encode())
		case "server":
			srv.srv.Stop()
		}
		if stopRet > 0 {
			r.Failf("Stop took %v", stopRet)
		}
		if byCaller {
			if err := cli.CheckState(); err != arpc.ErrClientStopped {
				r.Failf("CheckState right after Stop is %v", err)
			}
			if err := cli.Call("m", "x", nil, time.Hour); err != arpc.ErrClientStopped {
				r.Failf("Call right after Stop: %v", err)
			}
			if err := cli.Notify("m", "x", time.Hour); err != arpc.ErrClientStopped {
				r.Failf("Notify right after Stop: %v", err)
			}
		}
		for i := 0; i < c.Also; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(us(i) + 100); cli.Stop() }()
		}
		// handlers finish, a reconnect in progress notices
		time.Sleep(us(2*c.Think*(1+len(c.Ops))+400*(1+len(c.Ops))) + 3*time.Second)
		synctest.Wait()
		mu.Lock()
		for i, p := range pends {
			if !p.done {
				r.Failf("operation %d (%s, started at %v) still waits long after the client ended (%s at %v)", i, p.o.K, us(p.o.At), c.K, us(c.At))
			}
			if p.o.K == "async" && p.acc && p.cb != 1 {
				r.Failf("async call %d was accepted and its callback ran %d times by the end of the client", i, p.cb)
			}
		}
		for i, o := range own {
			if !o.Closed() {
				r.Failf("connection %d of %d is still open after the client ended (%s)", i, len(own), c.K)
			}
		}
		ended = true
		mu.Unlock()
		if k := atomic.LoadInt32(&disconnected); k != 1 {
			r.Failf("the disconnected callback ran %d times (%s)", k, c.K)
		}
		if err := cli.CheckState(); err != arpc.ErrClientStopped {
			r.Failf("CheckState after the end is %v", err)
		}
		if c.Disc > 0 {
			time.Sleep(us(c.Disc))
		}
		if c.Keep > 0 {
			time.Sleep(us(c.Keep) + time.Second)
			r.Class("keepalive")
		}
		synctest.Wait()
		mu.Lock()
		late := make([]int, len(own))
		for i, o := range own {
			late[i] = o.LateWrites()
		}
		mu.Unlock()
		dials := n.Dials()
		time.Sleep(us(10000))
		synctest.Wait()
		for i := range late {
			if k := own[i].LateWrites(); k > late[i] {
				r.Failf("%d writes were tried on the closed connection %d long after the end (%s)", k-late[i], i, c.K)
			}
		}
		if c.Again && !r.Failed() {
			if err := cli.Restart(); err != nil {
				r.Failf("Restart: %v", err)
			} else {
				synctest.Wait()
				// calls that nobody answers wait for their own timeouts, whatever is left of former calls
				t0, told := now(), 0
				for k := 0; k < len(c.Ops)+2; k++ {
					err := cli.CallAsync("hold", "x", func(_ *arpc.Context, err error) {
						mu.Lock()
						defer mu.Unlock()
						if told++; c.Keep == 0 && (err != arpc.ErrTimeout || now()-t0 != us(150000)) {
							r.Failf("an unanswered call after Restart was told %v after %v, its timeout is %v", err, now()-t0, us(150000))
						}
					}, us(150000))
					if err != nil {
						r.Failf("CallAsync after Restart: %v", err)
					}
				}
				if c.Keep == 0 {
					time.Sleep(us(150001))
					synctest.Wait()
					mu.Lock()
					if told != len(c.Ops)+2 {
						r.Failf("%d of %d unanswered calls after Restart were told of their timeouts", told, len(c.Ops)+2)
					}
					mu.Unlock()
				}
				before := atomic.LoadInt32(&connected)
				rsp := ""
				for i := 0; i < 2; i++ {
					if err := cli.Call("probe", "x", &rsp, us(1000)); err != nil || rsp != "ok" {
						r.Failf("call %d after Restart: %q, %v", i, rsp, err)
					}
					// streams opened by the peer are new ones, whatever their numbers
					mu.Lock()
					raw := raws[len(raws)-1]
					mu.Unlock()
					for k := 0; k <= len(c.Ops); k++ {
						raw.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(500 + k), Method: "in-stream", Data: []byte(fmt.Sprintf("again %d.%d", i, k))}.Encode())
					}
					time.Sleep(us(10))
					synctest.Wait()
					mu.Lock()
					for k := 0; k <= len(c.Ops); k++ {
						if streamed[fmt.Sprintf("again %d.%d", i, k)] != 1 {
							r.Failf("after Restart (connection %d) the peer's new stream %d was not handled", i, 500+k)
						}
					}
					mu.Unlock()
					if i == 0 {
						// it survives a lost connection like a new one
						raw.Close()
						time.Sleep(us(c.Delay) + time.Second + 100)
						synctest.Wait()
					}
				}
				s := cli.NewStream("s")
				if err := s.Send("x"); err != nil {
					r.Failf("stream send after Restart: %v", err)
				}
				s.CloseRecv()
				s.CloseSendContext(context.Background())
				if k := atomic.LoadInt32(&connected); k != before+1 {
					r.Failf("after Restart and a reconnect the connected callback ran %d more times, want 1", k-before)
				}
				if n.Dials() != dials+2 {
					r.Failf("%d dials after Restart and one loss", n.Dials()-dials)
				}
				cli.Stop()
				time.Sleep(us(100+c.Disc) + 2*time.Second)
				synctest.Wait()
				if k := atomic.LoadInt32(&disconnected); k != 2 {
					r.Failf("the disconnected callback ran %d times after the second end", k)
				}
				if err := cli.CheckState(); err != arpc.ErrClientStopped {
					r.Failf("CheckState after the second end is %v", err)
				}
				for i, o := range own {
					if !o.Closed() {
						r.Failf("connection %d of %d is still open after the second end", i, len(own))
					}
				}
				r.Class("restarted")
			}
		}
		if srv != nil {
			if c.K != "server" {
				srv.srv.Stop()
			}
			<-srv.done
		} else {
			n.Close()
		}
		for _, x := range raws {
			x.Close()
		}
		time.Sleep(us(100000+c.Disc) + 3*time.Second) // timers of pending async calls
		synctest.Wait()
		if !waitOr(&wg, time.Second) {
			leaked = append(leaked, "operations")
		}
		if len(c.Ops) > 0 || c.Lose >= 0 {
			r.NonTrivial()
		}
		r.Class("%s-%s", c.Role, c.K)
		if lost {
			r.Class("lost-before")
		}
	})
	if r.Leak != "" {
		r.Failf("goroutines are left after the client ended (%s): %s", c.K, r.Leak)
	}
	if len(leaked) > 0 {
		r.Failf("left: %v", fmt.Sprint(leaked))
	}
}

func init() {
	vkit.Register("C10", "stop", vkit.Opts{Units: true, Quick: 40000, Rule: "operations, handlers or a reconnect were in progress when the client ended"}, genC10, runC10)
}
