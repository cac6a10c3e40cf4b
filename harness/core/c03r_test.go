package core

import (
	"context"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C03, C04: calls that were outstanding at a loss are tried again at once, by
// whoever learned of the loss: those calls fail at once too.

type retryCase struct {
	Role   string // dial, accept
	EP     vkit.EP
	Inline bool // callbacks run on the receiving loop
	How    string
	At     int
	Slow   bool // the redial succeeds later (else never)
	Async  int
	Sync   int
	Again  []string // what is tried, one after the other: call, callctx, async, notify, stream
}

func genRetry(async bool) func(rt *rapid.T) retryCase {
	return func(rt *rapid.T) retryCase {
		c := retryCase{Role: "dial", EP: vkit.GenEP(rt, "ep"), How: vkit.Pick(rt, "how", "close", "reset", "reset", "stop"), At: vkit.Int(rt, 1, 30, "at"), Slow: vkit.Bool(rt, "slow")}
		c.EP.Pool = vkit.Chance(rt, 20, "pool")
		c.Inline = vkit.Chance(rt, 40, "inline")
		c.Async = vkit.Pick(rt, "async", 1, 2, 5, 20, 60)
		c.Sync = vkit.Pick(rt, "sync", 0, 1, 4)
		kinds := []string{"async"}
		if async {
			c.Role = vkit.Pick(rt, "role", "dial", "dial", "accept")
		} else {
			kinds = []string{"call", "callctx", "async", "notify", "stream"}
			if vkit.Chance(rt, 40, "accept") {
				c.Role = "accept"
				c.Async = vkit.Pick(rt, "async2", 0, 1, 6)
				c.Sync = vkit.Pick(rt, "sync2", 1, 3, 12)
				kinds = []string{"call", "callctx", "notify"}
			}
		}
		for i := vkit.Int(rt, 1, 3, "again"); i > 0; i-- {
			c.Again = append(c.Again, rapid.SampledFrom(kinds).Draw(rt, "kind"))
		}
		return c
	}
}

func runRetry(r *vkit.R, c retryCase) {
	type try struct {
		k          string
		start, end time.Duration
		err        error
		done       bool
		cbs        int
	}
	var mu sync.Mutex
	var tries []*try
	r.Bubble(func() {
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			if c.Inline {
				h.SetAsyncExecutor(func(f func()) { f() })
			}
		})
		begin := time.Now()
		now := func() time.Duration { return time.Since(begin) }
		go func() {
			for {
				if _, err := vkit.ReadFrame(e.raw); err != nil {
					return
				}
			}
		}()
		if c.Role == "dial" {
			e.net.DialDelay = func(i int) time.Duration { return us(200) }
			e.net.DialErr = func(i int) error {
				if c.Slow {
					return nil
				}
				return vkit.ErrRefused
			}
			e.net.OnConn = func(a, b *vkit.Conn) {
				go func() {
					for {
						if _, err := vkit.ReadFrame(b); err != nil {
							return
						}
					}
				}()
			}
		}
		lost := us(c.At)
		first, cbs := 0, make([]int, c.Async)
		again := func() {
			for _, k := range c.Again {
				t := &try{k: k, start: now()}
				mu.Lock()
				tries = append(tries, t)
				mu.Unlock()
				var err error
				rsp := ""
				switch k {
				case "call":
					err = e.cli.Call("m", "again", &rsp, us(1000))
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(1000))
					err = e.cli.CallContext(ctx, "m", "again", &rsp)
					cancel()
				case "notify":
					err = e.cli.Notify("m", "again", us(1000))
				case "stream":
					err = e.cli.NewStream("st").Send("again")
				case "async":
					err = e.cli.CallAsync("m", "again", func(_ *arpc.Context, err error) {
						mu.Lock()
						t.cbs++
						t.end, t.err, t.done = now(), err, true
						mu.Unlock()
					}, us(1000))
					if err == nil {
						continue // the callback tells
					}
				}
				mu.Lock()
				t.end, t.err, t.done = now(), err, true
				mu.Unlock()
			}
		}
		for i := 0; i < c.Async; i++ {
			if err := e.cli.CallAsync("m", "x", func(_ *arpc.Context, err error) {
				mu.Lock()
				cbs[i]++
				first++
				mu.Unlock()
				if err == nil {
					r.Failf("async call %d succeeded", i)
					return
				}
				if now() != lost {
					r.Failf("async call %d was told of the loss at %v instead of %v (%v)", i, now(), lost, err)
					return
				}
				again()
			}, us(5000)); err != nil {
				r.Failf("CallAsync on a healthy connection: %v", err)
				return
			}
		}
		var wg sync.WaitGroup
		for i := 0; i < c.Sync; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := e.cli.Call("m", "x", nil, us(5000))
				if err == nil || now() != lost {
					r.Failf("call %d: %v at %v, the connection was lost at %v", i, err, now(), lost)
					return
				}
				again()
			}()
		}
		time.Sleep(us(c.At))
		switch c.How {
		case "close":
			e.raw.Close()
		case "reset":
			e.raw.Reset()
		case "stop":
			e.cli.Stop()
		}
		if !waitOr(&wg, us(6000)+time.Minute) {
			r.Failf("a call hangs")
		}
		time.Sleep(us(6000) + time.Minute)
		synctest.Wait()
		e.stop()
		time.Sleep(us(6000) + time.Minute)
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		for i, n := range cbs {
			if n != 1 {
				r.Failf("the callback of async call %d ran %d times", i, n)
			}
		}
		for _, t := range tries {
			switch {
			case !t.done:
				r.Failf("%s tried again right at the loss never ended", t.k)
			case t.cbs > 1:
				r.Failf("%s tried again right at the loss: callback ran %d times", t.k, t.cbs)
			case t.end != t.start:
				r.Failf("%s tried again at %v, when the connection was lost and down, ended only at %v with %v", t.k, t.start, t.end, t.err)
			case t.err == nil:
				r.Failf("%s tried again right at the loss succeeded", t.k)
			case t.k != "stream" && !isStopErr(t.err):
				r.Failf("%s tried again right at the loss ended with %v", t.k, t.err)
			}
		}
		if len(tries) > 0 {
			r.NonTrivial()
		}
		r.Class("%s-%s", c.Role, c.How)
		if c.Inline {
			r.Class("inline-executor")
		}
	})
}

func init() {
	o := vkit.Opts{Units: true, Quick: 8000, Rule: "a call was tried again at the moment of the loss"}
	vkit.Register("C03", "retry", o, genRetry(false), runRetry)
	vkit.Register("C04", "retry", o, genRetry(true), runRetry)
}
