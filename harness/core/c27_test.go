package core

import (
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C27: requests of any duration around one or more shutdowns.

type c27req struct {
	At  int
	C   int
	K   string // call, async, notify, missing
	D   int    // handler duration in ms
	R   string // ok, err, panic
	Syn bool
}

type c27case struct {
	S, C  vkit.EP
	N     int
	Pre   []string // middlewares before graceful
	Post  []string
	Reqs  []c27req
	Downs []int // times of Shutdown calls in ms
	Stop  bool  // stop the server as soon as the first Shutdown returned
	Burst int   // notifications arriving at the moment of the first shutdown
}

func genC27(rt *rapid.T) c27case {
	c := c27case{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "n"), Stop: vkit.Bool(rt, "stop")}
	mw := func(l string) (out []string) {
		for i := vkit.Int(rt, 0, 2, l); i > 0; i-- {
			out = append(out, vkit.Pick(rt, l+"m", "recover", "logger", "plain", "next"))
		}
		return
	}
	if vkit.Chance(rt, 30, "pre") {
		c.Pre = mw("pre")
	}
	c.Post = mw("post")
	for i := vkit.Int(rt, 1, 12, "reqs"); i > 0; i-- {
		c.Reqs = append(c.Reqs, c27req{At: vkit.Int(rt, 0, 40, "at"), C: vkit.Int(rt, 0, c.N-1, "c"), K: vkit.Pick(rt, "k", "call", "call", "call", "async", "notify", "missing"),
			D: vkit.Pick(rt, "d", 0, 0, 1, 10, 30, 99, 100, 101, 150, 300), R: vkit.Pick(rt, "r", "ok", "ok", "ok", "err", "panic"), Syn: vkit.Chance(rt, 40, "syn")})
	}
	for i := vkit.Pick(rt, "downs", 1, 1, 1, 2, 3); i > 0; i-- {
		c.Downs = append(c.Downs, vkit.Int(rt, 0, 40, "down"))
	}
	if vkit.Chance(rt, 30, "burst") {
		c.Burst = vkit.Int(rt, 1, 30, "bn")
	}
	return c
}

func runC27(r *vkit.R, c c27case) {
	r.Bubble(func() {
		g := &router.Graceful{}
		var mu sync.Mutex
		start := time.Now()
		running := 0
		down := time.Hour // time the first Shutdown was called
		returned := false
		begun := make([]time.Duration, len(c.Reqs))
		ended := make([]bool, len(c.Reqs))
		for i := range begun {
			begun[i] = -1
		}
		enter := func(what string) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			now := time.Since(start)
			running++
			if now > down {
				r.Failf("%s began at %v, after the shutdown of %v", what, now, down)
			}
			if returned {
				r.Failf("%s began after the shutdown had returned", what)
			}
			return now
		}
		leave := func() {
			mu.Lock()
			running--
			mu.Unlock()
		}
		use := func(h arpc.Handler, names []string) {
			for _, n := range names {
				switch n {
				case "recover":
					h.Use(router.Recover())
				case "logger":
					h.Use(router.Logger())
				case "plain":
					h.Use(func(ctx *arpc.Context) {})
				case "next":
					h.Use(func(ctx *arpc.Context) { ctx.Next() })
				}
			}
		}
		s := newServer(c.S, func(h arpc.Handler) {
			use(h, c.Pre)
			h.Use(g.Handler())
			use(h, c.Post)
			for i, q := range c.Reqs {
				if q.K == "missing" {
					continue
				}
				h.Handle(fmt.Sprintf("m%d", i), func(ctx *arpc.Context) {
					t := enter(fmt.Sprintf("the handler of request %d", i))
					mu.Lock()
					if begun[i] >= 0 {
						r.Failf("request %d handled twice", i)
					}
					begun[i] = t
					mu.Unlock()
					defer leave()
					if q.D > 0 {
						time.Sleep(time.Duration(q.D) * time.Millisecond)
					}
					switch q.R {
					case "panic":
						panic("of the handler")
					case "err":
						ctx.Error(fmt.Errorf("failure %d", i))
					default:
						ctx.Write(fmt.Sprintf("answer %d", i))
					}
				}, !q.Syn)
			}
			for i := 0; i < 4; i++ {
				h.Handle(fmt.Sprintf("b%d", i), func(ctx *arpc.Context) {
					enter("the handler of a burst")
					time.Sleep(time.Duration(50*i) * time.Millisecond)
					leave()
				}, true)
			}
		}).start()
		var clis []*arpc.Client
		for i := 0; i < c.N; i++ {
			cl, err := dial(s.net, c.C, nil)
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			clis = append(clis, cl)
		}
		synctest.Wait()
		start = time.Now()
		var wg sync.WaitGroup
		var rejected, normal int
		result := func(i int, err error, rsp string) {
			q := c.Reqs[i]
			mu.Lock()
			defer mu.Unlock()
			ended[i] = true
			now := time.Since(start)
			if err != nil && err.Error() == router.ErrShutdown.Error() {
				rejected++
				if now < down {
					r.Failf("request %d was refused at %v, before the shutdown", i, now)
				}
				if begun[i] >= 0 {
					r.Failf("request %d was answered with %q but its handler ran", i, err)
				}
				return
			}
			normal++
			if q.K == "missing" {
				if err == nil || err.Error() != arpc.ErrMethodNotFound.Error() {
					r.Failf("request %d of an unknown method: %v", i, err)
				} else if ms(q.At) > down && !(c.Stop && returned) {
					r.Failf("request %d, sent at %v after the shutdown of %v: %v", i, ms(q.At), down, err)
				}
				return
			}
			if c.Stop && returned && begun[i] < 0 {
				return // the server is gone
			}
			if begun[i] < 0 {
				r.Failf("request %d: %q %v without its handler having run", i, rsp, err)
				return
			}
			switch q.R {
			case "panic":
				if !c.Stop && err != arpc.ErrTimeout && err != arpc.ErrClientTimeout {
					r.Failf("request %d whose handler panics: %q %v", i, rsp, err)
				}
			case "err":
				if err == nil || err.Error() != fmt.Sprintf("failure %d", i) {
					r.Failf("request %d: error %v", i, err)
				}
			default:
				if err != nil || rsp != fmt.Sprintf("answer %d", i) {
					r.Failf("request %d: %q %v", i, rsp, err)
				}
			}
		}
		for i, q := range c.Reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(q.At))
				cl := clis[q.C]
				m := fmt.Sprintf("m%d", i)
				switch q.K {
				case "call", "missing":
					var rsp string
					err := cl.Call(m, "x", &rsp, time.Minute)
					result(i, err, rsp)
				case "async":
					ch := make(chan struct{})
					err := cl.CallAsync(m, "x", func(ctx *arpc.Context, err error) {
						var rsp string
						if err == nil {
							err = ctx.Bind(&rsp)
						}
						result(i, err, rsp)
						close(ch)
					}, time.Minute)
					if err != nil {
						result(i, err, "")
						return
					}
					<-ch
				case "notify":
					cl.Notify(m, "x", time.Minute)
					mu.Lock()
					ended[i] = true
					mu.Unlock()
				}
			}()
		}
		first := ms(c.Downs[0])
		for _, d := range c.Downs {
			if ms(d) < first {
				first = ms(d)
			}
		}
		for i := 0; i < c.Burst; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(first)
				clis[i%len(clis)].Notify(fmt.Sprintf("b%d", i%4), "x", time.Minute)
			}()
		}
		var dwg sync.WaitGroup
		var inflight int
		for k, d := range c.Downs {
			wg.Add(1)
			dwg.Add(1)
			go func() {
				defer wg.Done()
				defer dwg.Done()
				time.Sleep(ms(d))
				mu.Lock()
				if n := time.Since(start); n < down {
					down = n
				}
				if running > inflight {
					inflight = running
				}
				mu.Unlock()
				g.Shutdown()
				mu.Lock()
				defer mu.Unlock()
				if running > 0 {
					r.Failf("shutdown %d returned at %v while %d requests are being handled", k, time.Since(start), running)
				}
				for i, b := range begun {
					if b >= 0 && !ended[i] && c.Reqs[i].R != "panic" {
						r.Failf("shutdown %d returned at %v but request %d, whose handler began at %v, has no answer", k, time.Since(start), i, b)
					}
				}
				returned = true
				if c.Stop {
					go s.srv.Stop()
				}
			}()
		}
		if !waitOr(&dwg, time.Hour) {
			r.Failf("a shutdown never returned")
		} else if !waitOr(&wg, time.Hour) {
			r.Failf("a request never ended")
		}
		for i, q := range c.Reqs {
			if q.K == "notify" && ms(q.At) < down && begun[i] < 0 && !c.hasSlowSync(q) {
				r.Failf("notification %d, sent before the shutdown, was not handled", i)
			}
		}
		if inflight > 0 {
			r.Class("inflight")
			if rejected > 0 {
				r.NonTrivial()
			}
		}
		if rejected > 0 {
			r.Class("rejected")
		}
		for _, cl := range clis {
			cl.Stop()
		}
		s.stop()
		time.Sleep(time.Second)
	})
}

// hasSlowSync: some request on the same connection may delay q
func (c c27case) hasSlowSync(q c27req) bool {
	for _, o := range c.Reqs {
		if o.C == q.C && o.Syn {
			return true
		}
	}
	return false
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

var _ = errors.New

func init() {
	vkit.Register("C27", "shutdown", vkit.Opts{Quick: 15000, Rule: "requests in flight at the shutdown and requests refused by it"}, genC27, runC27)
}
