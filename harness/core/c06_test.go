package core

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C06: notifications and synchronous handlers: exactly once, in order, never answered.

type c06op struct {
	G     int    // sender goroutine
	K     string // notify0, notify, notifyctx, notifywith, push, async, call (fire and wait in its own goroutine is not ordered: only async)
	M     int
	Gap   int // us the sender sleeps before
	Think int
	N     int
	Resp  string // what a notified handler tries: "", write, writeto, error
}

type c06case struct {
	Dir   int
	S, C  vkit.EP
	Plan  vkit.ConnPlan
	Async []bool
	Late  bool `json:",omitempty"` // middleware is added after the routes
	Clone bool `json:",omitempty"` // the endpoints use clones of the configured handlers
	Ops   []c06op
}

func genC06(rt *rapid.T) c06case {
	c := c06case{Dir: vkit.Int(rt, 0, 1, "dir"), S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c")}
	c.S.Pool, c.C.Pool = vkit.Chance(rt, 25, "spool"), vkit.Chance(rt, 25, "cpool")
	if vkit.Chance(rt, 40, "shape") {
		c.Plan = vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
		if c.S.SyncWrite || c.C.SyncWrite {
			c.Plan.Up.Cap, c.Plan.Down.Cap = 0, 0
		}
	}
	nm := vkit.Int(rt, 1, 4, "methods")
	for i := 0; i < nm; i++ {
		c.Async = append(c.Async, vkit.Chance(rt, 35, "async"))
	}
	c.Late, c.Clone = vkit.Chance(rt, 20, "late"), vkit.Chance(rt, 20, "clone")
	gs := vkit.Pick(rt, "senders", 1, 1, 1, 2, 3)
	n := vkit.Int(rt, 2, 20, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, c06op{G: vkit.Int(rt, 0, gs-1, "g"), K: vkit.Pick(rt, "k", "notify", "notify0", "notifyctx", "notifywith", "push", "async"),
			M: vkit.Int(rt, 0, nm-1, "m"), Gap: vkit.Pick(rt, "gap", 0, 0, 0, 2, 20), Think: vkit.Pick(rt, "think", 0, 0, 1, 5, 50),
			N: vkit.Size(rt, 5000, "n"), Resp: vkit.Pick(rt, "resp", "", "write", "writeto", "error", "errstr")})
	}
	return c
}

func runC06(r *vkit.R, c c06case) {
	overl := false
	r.Bubble(func() {
		type ev struct {
			i          int
			start, end time.Duration
		}
		var mu sync.Mutex
		var evs []ev
		busy := 0
		start := time.Now()
		cbs := map[int]int{}
		setup := func(h arpc.Handler) {
			for m, async := range c.Async {
				h.Handle(fmt.Sprintf("m%d", m), func(ctx *arpc.Context) {
					var i int
					body := string(ctx.Body())
					fmt.Sscanf(body, "%d|", &i)
					o := c.Ops[i]
					if body != fmt.Sprintf("%d|%s", i, vkit.Blob{N: o.N, S: i}.String()) {
						r.Failf("message %d arrived altered: %s", i, vkit.Short(body))
					}
					if o.M != m {
						r.Failf("message %d for m%d was handled by m%d", i, o.M, m)
					}
					mu.Lock()
					k := len(evs)
					evs = append(evs, ev{i: i, start: time.Since(start), end: -1})
					if !async {
						busy++
						if busy > 1 {
							r.Failf("message %d: two synchronous handlers of one connection run at the same time", i)
						}
					}
					mu.Unlock()
					if o.Think > 0 {
						time.Sleep(us(o.Think))
					}
					if o.K == "async" {
						if err := ctx.Write(fmt.Sprintf("re-%d", i)); err != nil {
							r.Failf("reply to %d: %v", i, err)
						}
					} else if o.Resp != "" {
						var err error
						switch o.Resp {
						case "write":
							err = ctx.Write("no")
						case "writeto":
							err = ctx.WriteWithTimeout("no", vkit.Tail(time.Second))
						case "error":
							err = ctx.Error(errors.New("no"))
						case "errstr":
							err = ctx.Error("no")
						}
						if err != arpc.ErrContextResponseToNotify {
							r.Failf("responding to notification %d (%s): %v, want ErrContextResponseToNotify", i, o.Resp, err)
						}
					}
					mu.Lock()
					evs[k].end = time.Since(start)
					if !async {
						busy--
					}
					mu.Unlock()
				}, async)
			}
			if c.Late {
				h.Use(func(ctx *arpc.Context) { ctx.Next() })
			}
		}
		s := newServer(c.S, setup)
		if c.Clone {
			s.srv.Handler = s.srv.Handler.Clone()
		}
		s.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		s.start()
		defer s.stop()
		ch := c.C.NewHandler()
		setup(ch)
		if c.Clone {
			ch = ch.Clone()
		}
		cli, err := arpc.NewClient(s.net.Dial, ch)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		defer cli.Stop()
		synctest.Wait()
		from := cli
		if c.Dir == 1 {
			from = s.client(0)
		}
		sent := make([]time.Duration, len(c.Ops))
		var wg sync.WaitGroup
		gs := map[int][]int{}
		for i, o := range c.Ops {
			gs[o.G] = append(gs[o.G], i)
		}
		start = time.Now()
		for _, list := range gs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range list {
					o := c.Ops[i]
					if o.Gap > 0 {
						time.Sleep(us(o.Gap))
					}
					m := fmt.Sprintf("m%d", o.M)
					body := fmt.Sprintf("%d|%s", i, vkit.Blob{N: o.N, S: i}.String())
					var err error
					switch o.K {
					case "notify":
						err = from.Notify(m, body, long())
					case "notify0":
						err = from.Notify(m, body, 0)
					case "notifyctx":
						err = from.NotifyContext(context.Background(), m, body)
					case "notifywith":
						err = from.NotifyWith(context.Background(), m, body)
					case "push":
						err = from.PushMsg(from.NewMessage(arpc.CmdNotify, m, body), long())
					case "async":
						err = from.CallAsync(m, body, func(ctx *arpc.Context, e error) {
							if e != nil {
								r.Failf("async call %d: %v", i, e)
							}
							mu.Lock()
							cbs[i]++
							mu.Unlock()
						}, long())
					}
					if err != nil {
						r.Failf("sending %d (%s) failed on a healthy connection: %v", i, o.K, err)
						return
					}
					sent[i] = time.Since(start)
				}
			}()
		}
		if !waitOr(&wg, long()/2) {
			r.Failf("a sender hangs")
			return
		}
		time.Sleep(vkit.Tail(time.Minute))
		synctest.Wait()
		if r.Failed() {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		seen := map[int]int{}
		for _, e := range evs {
			seen[e.i]++
			if e.end < 0 {
				r.Failf("the handler of message %d never finished", e.i)
				return
			}
		}
		for i := range c.Ops {
			if seen[i] != 1 {
				r.Failf("message %d was handled %d times", i, seen[i])
				return
			}
			if c.Ops[i].K == "async" && cbs[i] != 1 {
				r.Failf("callback of async call %d ran %d times", i, cbs[i])
				return
			}
		}
		// order of the synchronous messages per sender
		lastOf := map[int]int{}
		var prev *ev
		for x := range evs {
			e := evs[x]
			o := c.Ops[e.i]
			if c.Async[o.M] {
				continue
			}
			if l, ok := lastOf[o.G]; ok && l > e.i {
				r.Failf("message %d was handled before message %d of the same sender", l, e.i)
				return
			}
			lastOf[o.G] = e.i
			if prev != nil && e.start < prev.end {
				r.Failf("messages %d and %d overlap", prev.i, e.i)
				return
			}
			p := e
			prev = &p
		}
		// exact start times when the transport adds no delay and there is one sender
		plain := len(c.Plan.Up.DelayUs) == 0 && len(c.Plan.Down.DelayUs) == 0 && c.Plan.Up.Cap == 0 && c.Plan.Down.Cap == 0
		if plain && len(gs) == 1 {
			by := map[int]ev{}
			for _, e := range evs {
				by[e.i] = e
			}
			var free time.Duration // when the receiving loop is free again
			for i, o := range c.Ops {
				want := sent[i]
				if free > want {
					want = free
					overl = true
				}
				e := by[i]
				if e.start != want {
					r.Failf("message %d (handler async=%v) started at %v, want %v: sent at %v, synchronous handlers before it ended at %v",
						i, c.Async[o.M], e.start, want, sent[i], free)
					return
				}
				if !c.Async[o.M] {
					free = e.end
				}
			}
		} else {
			overl = true
		}
		// nothing but the replies to the calls went the other way
		back := s.net.Conns[0].Other()
		if c.Dir == 1 {
			back = s.net.Conns[0]
		}
		fs, err := vkit.DecodeFrames(back.Sent())
		if err != nil {
			r.Failf("bytes of the receiving side: %v", err)
			return
		}
		calls := 0
		for _, o := range c.Ops {
			if o.K == "async" {
				calls++
			}
		}
		if len(fs) != calls {
			r.Failf("the receiving side sent %d frames for %d calls: a notification was answered", len(fs), calls)
		}
	})
	if overl {
		r.NonTrivial()
	}
	na := 0
	for _, a := range c.Async {
		if a {
			na++
		}
	}
	r.Class("async-methods=%d/%d", na, len(c.Async))
}

func init() {
	vkit.Register("C06", "order", vkit.Opts{Units: true, Quick: 100000, Rule: "a message had to wait for a synchronous handler before it, or the transport or sender set was not plain"}, genC06, runC06)
}
