package core

import (
	"fmt"
	"sync"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C04 executor: callbacks of asynchronous calls run by an executor which takes its time to
// accept each of them (a worker pool without a free worker): whenever the connection is lost,
// deadlines pass while the callbacks are handed over, and each still runs once.

type execCall struct {
	At, To, Reply int // us; Reply -1: never
}

type execCase struct {
	Role  string
	EP    vkit.EP
	Calls []execCall
	Take  []int // us the executor takes, cyclic
	Own   bool  // it runs the function in the caller's goroutine
	Lose  int   // us
	K     string
}

func genExec(rt *rapid.T) execCase {
	c := execCase{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Own: vkit.Bool(rt, "own"), Lose: vkit.Int(rt, 0, 9, "lose")*10 + 3, K: vkit.Pick(rt, "k", "close", "reset", "stop")}
	for i := vkit.Int(rt, 2, 8, "n"); i > 0; i-- {
		k := execCall{At: vkit.Int(rt, 0, 6, "at") * 10, To: vkit.Int(rt, 1, 20, "to")*10 + 5, Reply: -1}
		if vkit.Chance(rt, 30, "answered") {
			k.Reply = vkit.Int(rt, 0, 8, "reply") * 10
		}
		c.Calls = append(c.Calls, k)
	}
	c.Take = rapid.SliceOfN(rapid.SampledFrom([]int{0, 7, 20, 60, 300}), 1, 4).Draw(rt, "take")
	return c
}

func runExec(r *vkit.R, c execCase) {
	r.Bubble(func() {
		var mu sync.Mutex
		n := 0
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.SetAsyncExecutor(func(f func()) {
				mu.Lock()
				d := us(c.Take[n%len(c.Take)])
				n++
				mu.Unlock()
				time.Sleep(d)
				if c.Own {
					f()
				} else {
					go f()
				}
			})
		})
		if c.Role == "dial" {
			e.net.DialErr = func(i int) error { return vkit.ErrRefused }
		}
		go func() {
			for {
				f, err := vkit.ReadFrame(e.raw)
				if err != nil {
					return
				}
				var i int
				if _, err := fmt.Sscanf(string(f.Data), "%d", &i); err == nil && i < len(c.Calls) && c.Calls[i].Reply >= 0 {
					time.AfterFunc(us(c.Calls[i].Reply), func() {
						e.raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: f.Data}.Encode())
					})
				}
			}
		}()
		cbs, accepted := make([]int, len(c.Calls)), make([]bool, len(c.Calls))
		lost := 0
		var wg sync.WaitGroup
		for i, k := range c.Calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(k.At))
				err := e.cli.CallAsync("m", fmt.Sprint(i), func(ctx *arpc.Context, err error) {
					mu.Lock()
					defer mu.Unlock()
					cbs[i]++
					if err == nil && string(ctx.Body()) != fmt.Sprint(i) {
						r.Failf("call %d: response %q", i, ctx.Body())
					}
					if err != nil && err != arpc.ErrTimeout {
						lost++
					}
				}, us(k.To))
				mu.Lock()
				accepted[i] = err == nil
				mu.Unlock()
			}()
		}
		time.Sleep(us(c.Lose))
		switch c.K {
		case "close":
			e.raw.Close()
		case "reset":
			e.raw.Reset()
		case "stop":
			e.cli.Stop()
		}
		if !waitOr(&wg, time.Hour) {
			r.Failf("a CallAsync never returned")
			return
		}
		time.Sleep(us(100000) + time.Minute)
		mu.Lock()
		for i, k := range c.Calls {
			want := 0
			if accepted[i] {
				want = 1
			}
			if cbs[i] > 1 || cbs[i] < want {
				r.Failf("call %d (at %d, timeout %d us, reply %d, connection lost at %d): accepted %v, callback ran %d times", i, k.At, k.To, k.Reply, c.Lose, accepted[i], cbs[i])
			}
		}
		if lost > 1 {
			r.NonTrivial()
		}
		mu.Unlock()
		e.stop()
		time.Sleep(time.Minute)
	})
}

func init() {
	vkit.Register("C04", "executor", vkit.Opts{Units: true, Quick: 6000, Rule: "two calls or more were told of the loss"}, genExec, runExec)
}
