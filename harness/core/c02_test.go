package core

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C02: every call completes with the response to that very request.

// ---- mesh: both ends are the library, calls in both directions ----

type c02call struct {
	C     int // client index
	Dir   int // 0: client -> server, 1: server -> client
	K     string
	M     int // method index
	At    int // us
	Think int // us the handler takes
	N     int // payload size
	Mar   int `json:",omitempty"` // units spent marshalling the reply
}

type c02mesh struct {
	S, C    vkit.EP
	Plan    vkit.ConnPlan
	Clients int
	Async   []bool // per method: asynchronous handler
	Calls   []c02call
}

func genC02mesh(rt *rapid.T) c02mesh {
	c := c02mesh{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), Clients: vkit.Int(rt, 1, 3, "clients")}
	c.Plan = vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
	c.S.Pool = vkit.Chance(rt, 25, "spool")
	c.C.Pool = vkit.Chance(rt, 25, "cpool")
	if vkit.Chance(rt, 25, "smallq") {
		c.S.SendQ = vkit.Int(rt, 1, 4, "sq")
		c.C.SendQ = vkit.Int(rt, 1, 4, "cq")
	}
	nm := vkit.Int(rt, 1, 3, "methods")
	for i := 0; i < nm; i++ {
		c.Async = append(c.Async, vkit.Bool(rt, "async"))
	}
	if c.S.SyncWrite || c.C.SyncWrite || c.S.SendQ > 0 {
		// synchronous handlers that block in a write while the peer's do the same
		// wait for each other by design: bounded windows only with room in the queues
		c.Plan.Up.Cap, c.Plan.Down.Cap = 0, 0
	}
	n := vkit.Int(rt, 2, 24, "calls")
	for i := 0; i < n; i++ {
		c.Calls = append(c.Calls, c02call{
			C: vkit.Int(rt, 0, c.Clients-1, "c"), Dir: vkit.Int(rt, 0, 1, "dir"),
			K: vkit.Pick(rt, "k", "call", "callctx", "async"), M: vkit.Int(rt, 0, nm-1, "m"),
			At: vkit.Pick(rt, "at", 0, 0, 0, 1, 5, 50), Think: vkit.Pick(rt, "think", 0, 0, 1, 3, 7, 100),
			N: vkit.Size(rt, 9000, "n"),
		})
	}
	return c
}

func runC02mesh(r *vkit.R, c c02mesh) {
	overlap := false
	r.Bubble(func() {
		var mu sync.Mutex
		ran := map[string]int{}
		setup := func(h arpc.Handler) {
			for i, async := range c.Async {
				h.Handle(fmt.Sprintf("m%d", i), func(ctx *arpc.Context) {
					req := string(ctx.Body())
					// id|think|padding
					p := strings.SplitN(req, "|", 3)
					mu.Lock()
					ran[p[0]]++
					mu.Unlock()
					var think int
					fmt.Sscanf(p[1], "%d", &think)
					if think > 0 {
						time.Sleep(us(think))
					}
					ctx.Write("re:" + ctx.Message.Method() + ":" + req)
				}, async)
			}
		}
		s := newServer(c.S, setup)
		s.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		s.start()
		defer s.stop()
		var cs []*arpc.Client
		for i := 0; i < c.Clients; i++ {
			cli, err := dial(s.net, c.C, setup)
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			cs = append(cs, cli)
			synctest.Wait()
			defer cli.Stop()
		}
		var wg sync.WaitGroup
		cb := make([]int, len(c.Calls))
		for i, k := range c.Calls {
			from := cs[k.C]
			if k.Dir == 1 {
				from = s.client(k.C)
			}
			if from == nil {
				r.Failf("server has no client %d", k.C)
				return
			}
			req := fmt.Sprintf("%d.%d.%d|%d|%s", i, k.C, k.Dir, k.Think, vkit.Blob{N: k.N, S: i}.String())
			m := fmt.Sprintf("m%d", k.M)
			want := "re:" + m + ":" + req
			wg.Add(1)
			go func() {
				if k.At > 0 {
					time.Sleep(us(k.At))
				}
				var rsp string
				var err error
				switch k.K {
				case "call":
					err = from.Call(m, req, &rsp, long())
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), long())
					err = from.CallContext(ctx, m, req, &rsp)
					cancel()
				case "async":
					err = from.CallAsync(m, req, func(ctx *arpc.Context, e error) {
						mu.Lock()
						cb[i]++
						n := cb[i]
						mu.Unlock()
						if n > 1 {
							r.Failf("call %d: callback invoked %d times", i, n)
							return
						}
						defer wg.Done()
						if e != nil {
							r.Failf("async call %d failed on a healthy connection: %v", i, e)
							return
						}
						var got string
						if e := ctx.Bind(&got); e != nil {
							r.Failf("async call %d: Bind: %v", i, e)
						} else if got != want {
							r.Failf("async call %d completed with %s, want %s", i, vkit.Short(got), vkit.Short(want))
						}
					}, long())
					if err != nil {
						r.Failf("CallAsync %d refused on a healthy connection: %v", i, err)
						wg.Done()
					}
					return
				}
				defer wg.Done()
				if err != nil {
					r.Failf("call %d failed on a healthy connection: %v", i, err)
				} else if rsp != want {
					r.Failf("call %d completed with %s, want %s", i, vkit.Short(rsp), vkit.Short(want))
				}
			}()
		}
		ok := waitOr(&wg, 4*long())
		synctest.Wait()
		if !ok {
			r.Failf("some calls never completed")
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for i, k := range c.Calls {
			id := fmt.Sprintf("%d.%d.%d", i, k.C, k.Dir)
			if ran[id] != 1 {
				r.Failf("the handler ran %d times for call %d", ran[id], i)
				return
			}
		}
		overlap = true
	})
	dirs := map[int]bool{}
	for _, k := range c.Calls {
		dirs[k.Dir] = true
	}
	if overlap && len(c.Calls) >= 3 {
		r.NonTrivial()
	}
	if len(dirs) == 2 {
		r.Class("both-directions")
	}
	r.Class("clients=%d", c.Clients)
	if c.S.SyncWrite || c.C.SyncWrite {
		r.Class("sync-write")
	}
}

// ---- rogue: the peer answers out of order, twice, late, or what nobody asked ----

type c02ans struct {
	To    int    // index of the call (mod), or -1: unsolicited
	At    int    // us after the request of that call was seen (or of the start)
	Copy  int    // number of copies, >=1
	Wrong string // "", "async" (flipped async flag), "seq" (foreign sequence)
	Err   bool
}

type c02rogue struct {
	Role  string
	EP    vkit.EP
	Calls []c02rcall
	Ans   []c02ans
}

type c02rcall struct {
	K  string
	At int
	To int // timeout us
}

func genC02rogue(rt *rapid.T) c02rogue {
	c := c02rogue{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep")}
	c.EP.Pool = vkit.Chance(rt, 20, "pool")
	n := vkit.Int(rt, 1, 6, "calls")
	for i := 0; i < n; i++ {
		c.Calls = append(c.Calls, c02rcall{K: vkit.Pick(rt, "k", "call", "callctx", "async"), At: vkit.Int(rt, 0, 3, "at") * 10, To: vkit.Pick(rt, "to", 5, 25, 45, 105)})
	}
	m := vkit.Int(rt, 1, 10, "answers")
	for i := 0; i < m; i++ {
		a := c02ans{To: vkit.Int(rt, -1, n-1, "to"), At: vkit.Int(rt, 0, 6, "at") * 10, Copy: 1}
		if vkit.Chance(rt, 40, "dup") {
			a.Copy = vkit.Int(rt, 2, 5, "copies")
		}
		if vkit.Chance(rt, 25, "wrong") {
			a.Wrong = vkit.Pick(rt, "wrongk", "async", "seq")
		}
		a.Err = vkit.Chance(rt, 20, "err")
		c.Ans = append(c.Ans, a)
	}
	return c
}

func runC02rogue(r *vkit.R, c c02rogue) {
	dup, late := false, false
	r.Bubble(func() {
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, nil)
		defer e.stop()
		start := time.Now()
		type seen struct {
			f  vkit.Frame
			at time.Duration
		}
		var mu sync.Mutex
		first := map[int]seen{} // call index -> request
		// first proper answer delivered to each call
		type ans struct {
			at  time.Duration
			txt string
			err bool
		}
		answers := map[int][]ans{}
		reqCh := make([]chan struct{}, len(c.Calls))
		for i := range reqCh {
			reqCh[i] = make(chan struct{})
		}
		final := make(chan vkit.Frame, 1)
		go func() {
			for {
				f, err := vkit.ReadFrame(e.raw)
				if err != nil {
					return
				}
				if f.Method == "final" {
					final <- f
					continue
				}
				var i int
				if _, err := fmt.Sscanf(string(f.Data), "req-%d", &i); err != nil || i >= len(c.Calls) {
					r.Failf("unexpected frame %v", f)
					return
				}
				mu.Lock()
				if _, again := first[i]; again {
					r.Failf("request %d was sent twice", i)
				} else {
					first[i] = seen{f, time.Since(start)}
					close(reqCh[i])
				}
				mu.Unlock()
			}
		}()
		for ai, a := range c.Ans {
			go func() {
				var f vkit.Frame
				if a.To >= 0 {
					select {
					case <-reqCh[a.To]:
					case <-time.After(vkit.Tail(time.Second)):
						return
					}
					mu.Lock()
					f = first[a.To].f
					mu.Unlock()
				} else {
					f = vkit.Frame{Method: "nobody", Seq: uint64(1000000 + ai)}
				}
				if a.At > 0 {
					time.Sleep(us(a.At))
				}
				rsp := vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method}
				if a.Err {
					rsp.Flag |= vkit.FlagError
				}
				switch a.Wrong {
				case "async":
					rsp.Flag ^= vkit.FlagAsync
				case "seq":
					rsp.Seq += 1 << 40
				}
				for k := 0; k < a.Copy; k++ {
					rsp.Data = []byte(fmt.Sprintf("ans-%d-%d", ai, k))
					mu.Lock()
					if a.To >= 0 && a.Wrong == "" {
						answers[a.To] = append(answers[a.To], ans{time.Since(start), string(rsp.Data), a.Err})
					}
					_, werr := e.raw.Write(rsp.Encode())
					mu.Unlock()
					if werr != nil {
						r.Failf("the endpoint dropped the connection because of a response: %v", werr)
						return
					}
				}
			}()
		}
		check := func(i int, began, ended time.Duration, got string, err error) {
			mu.Lock()
			defer mu.Unlock()
			dl := began + us(c.Calls[i].To)
			switch {
			case err == nil || strings.HasPrefix(err.Error(), "ans-"):
				txt := got
				if err != nil {
					txt = err.Error()
				}
				if ended > dl {
					r.Failf("call %d completed after its deadline", i)
				}
				l := answers[i]
				if len(l) == 0 {
					r.Failf("call %d completed with %q although nothing was answered to it", i, txt)
					return
				}
				// the first answer sent to it (answers sent at the same instant are
				// ordered by the lock held while writing)
				if l[0].txt != txt || l[0].err != (err != nil) {
					r.Failf("call %d completed with %q (err=%v), the first answer to it was %q (err=%v)", i, txt, err != nil, l[0].txt, l[0].err)
				}
			case err == arpc.ErrClientTimeout || err == arpc.ErrTimeout:
				if ended != dl {
					r.Failf("call %d timed out at %v, its deadline was %v", i, ended, dl)
				}
				if l := answers[i]; len(l) > 0 && l[0].at < dl {
					r.Failf("call %d timed out at %v although its answer was sent at %v", i, dl, l[0].at)
				}
			default:
				r.Failf("call %d failed on a healthy connection: %v", i, err)
			}
		}
		var wg sync.WaitGroup
		cbs := make([]int, len(c.Calls))
		for i, k := range c.Calls {
			wg.Add(1)
			go func() {
				time.Sleep(us(k.At))
				began := time.Since(start)
				req := fmt.Sprintf("req-%d", i)
				var rsp string
				var err error
				switch k.K {
				case "call":
					err = e.cli.Call("m", req, &rsp, us(k.To))
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(k.To))
					err = e.cli.CallContext(ctx, "m", req, &rsp)
					cancel()
				case "async":
					if err := e.cli.CallAsync("m", req, func(ctx *arpc.Context, e error) {
						mu.Lock()
						cbs[i]++
						n := cbs[i]
						mu.Unlock()
						if n > 1 {
							r.Failf("async call %d: callback invoked %d times", i, n)
							return
						}
						var got string
						if e == nil {
							ctx.Bind(&got)
						}
						check(i, began, time.Since(start), got, e)
						wg.Done()
					}, us(k.To)); err != nil {
						r.Failf("CallAsync: %v", err)
						wg.Done()
					}
					return
				}
				check(i, began, time.Since(start), rsp, err)
				wg.Done()
			}()
		}
		if !waitOr(&wg, vkit.Tail(time.Minute)) {
			r.Failf("a call never completed")
			return
		}
		time.Sleep(vkit.Tail(time.Second))
		synctest.Wait()
		// later calls and the connection are undisturbed
		fin := make(chan error, 1)
		go func() {
			var got string
			err := e.cli.Call("final", "x", &got, vkit.Tail(time.Second))
			if err == nil && got != "fin" {
				err = fmt.Errorf("final call completed with %q", got)
			}
			fin <- err
		}()
		select {
		case f := <-final:
			e.raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: []byte("fin")}.Encode())
		case <-time.After(vkit.Tail(time.Minute)):
			r.Failf("a later call was never sent")
			return
		}
		if err := <-fin; err != nil {
			r.Failf("a later call failed: %v", err)
		}
		mu.Lock()
		for i := range c.Calls {
			l := answers[i]
			if len(l) > 1 {
				dup = true
			}
			if len(l) > 0 && l[0].at > us(c.Calls[i].At+c.Calls[i].To) {
				late = true
			}
		}
		mu.Unlock()
	})
	if dup || late {
		r.NonTrivial()
	}
	if dup {
		r.Class("duplicate-answers")
	}
	if late {
		r.Class("late-answer")
	}
	r.Class("role=%s", c.Role)
}

func init() {
	vkit.Register("C02", "mesh", vkit.Opts{Units: true, Quick: 16000, Rule: "at least three calls completed and were compared"}, genC02mesh, runC02mesh)
	vkit.Register("C02", "rogue", vkit.Opts{Units: true, Quick: 24000, Rule: "a call got duplicate answers or an answer after its deadline"}, genC02rogue, runC02rogue)
}
