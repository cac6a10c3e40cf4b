package core

import (
	"context"
	"fmt"
	"math"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C07: the send queue never loses an accepted message nor sends a refused one.

type c07op struct {
	Op string // push, stall, resume, sleep
	K  string // push: pushmsg, notify, notifyctx, async, stream
	To int    // us; pushmsg: 0 and <0 allowed; notify: 0 allowed; ctx: <0 = no deadline
	N  int
}

type c07case struct {
	Role string
	EP   vkit.EP
	Q    int
	Ops  []c07op
	Stop bool // stop the client in the end while stalled, else resume
}

func genC07(rt *rapid.T) c07case {
	c := c07case{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Q: vkit.Pick(rt, "q", 1, 1, 2, 3, 5, 8)}
	c.EP.SyncWrite = false
	c.EP.Pool = vkit.Chance(rt, 30, "pool")
	c.EP.SendQ = c.Q
	bigPct := 0
	if vkit.Chance(rt, 4, "bigcase") {
		bigPct = 60
	}
	n := vkit.Int(rt, 2, 18, "ops")
	for i := 0; i < n; i++ {
		var o c07op
		switch vkit.Pick(rt, "op", "push", "push", "push", "push", "push", "stall", "resume", "sleep") {
		case "push":
			o = c07op{Op: "push", K: vkit.Pick(rt, "k", "pushmsg", "notify", "notifyctx", "async", "stream"), N: vkit.Size(rt, 4000, "n")}
			if vkit.Chance(rt, bigPct, "big") {
				o.N = vkit.Pick(rt, "bign", 30000, 65000, 66000, 130000, 300000)
			}
			o.To = vkit.Pick(rt, "to", 0, 0, 0, 3, 13, 53, -1, -2, -3, -4)
			if o.K == "async" && o.To <= 0 {
				o.To = 53
			}
			if o.K == "notify" && o.To < 0 {
				o.To = 0
			}
		case "stall":
			o = c07op{Op: "stall"}
		case "resume":
			o = c07op{Op: "resume"}
		case "sleep":
			o = c07op{Op: "sleep", To: vkit.Pick(rt, "ms", 10, 20, 40, 100)}
		}
		c.Ops = append(c.Ops, o)
	}
	if vkit.Chance(rt, 60, "stallfirst") {
		c.Ops = append([]c07op{{Op: "stall"}}, c.Ops...)
	}
	c.Stop = vkit.Chance(rt, 15, "stop")
	return c
}

type c07res struct {
	op         c07op
	began, end time.Duration
	bseq, eseq int // order of begin and end events
	err        error
	done       bool
	blocked    bool
	deadline   time.Duration // <0: none
	overs      int
}

func runC07(r *vkit.R, c c07case) {
	full, waited := 0, 0
	r.Bubble(func() {
		var mu sync.Mutex
		overs := map[string]int{}
		res := []*c07res{}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.HandleOverstock(func(cl *arpc.Client, m *arpc.Message) {
				mu.Lock()
				overs[string(m.Data())]++
				mu.Unlock()
			})
		})
		stopped := false
		defer func() {
			e.own.StallWrites(false)
			e.stop()
		}()
		stream := e.cli.NewStream("st")
		start := time.Now()
		body := func(i int) string { return fmt.Sprintf("%d|%s", i, vkit.Blob{N: c.Ops[i].N, S: i}.String()) }
		evn := 0
		stalled := false
		inflight := false
		queued := 0
		var waiting []*c07res // blocked pushers, in the order of their begin
		settle := func() {
			synctest.Wait()
			now := time.Since(start)
			// pushers whose deadline has passed
			w := waiting[:0:0]
			for _, p := range waiting {
				if p.deadline >= 0 && p.deadline <= now {
					continue
				}
				w = append(w, p)
			}
			waiting = w
		}
		for i, o := range c.Ops {
			switch o.Op {
			case "stall":
				e.own.StallWrites(true)
				stalled = true
			case "resume":
				e.own.StallWrites(false)
				stalled = false
				inflight, queued = false, 0
				waiting = nil
				settle()
			case "sleep":
				time.Sleep(us(o.To))
				settle()
			case "push":
				p := &c07res{op: o, began: time.Since(start), deadline: -1}
				mu.Lock()
				evn++
				p.bseq = evn
				mu.Unlock()
				res = append(res, p)
				isFull := stalled && inflight && queued >= c.Q
				idx := i
				go func() {
					var err error
					b := body(idx)
					switch o.K {
					case "pushmsg":
						to := us(o.To)
						if o.To < 0 {
							to = [...]time.Duration{-time.Second, -1, math.MinInt64, -time.Millisecond}[-1-o.To]
						}
						err = e.cli.PushMsg(e.cli.NewMessage(arpc.CmdNotify, "m", b), to)
					case "notify":
						err = e.cli.Notify("m", b, us(o.To))
					case "notifyctx", "stream":
						ctx, cancel := context.Background(), context.CancelFunc(func() {})
						if o.To >= 0 {
							ctx, cancel = context.WithTimeout(ctx, us(o.To))
						}
						if o.K == "stream" {
							err = stream.SendContext(ctx, b)
						} else {
							err = e.cli.NotifyContext(ctx, "m", b)
						}
						cancel()
					case "async":
						err = e.cli.CallAsync("m", b, func(*arpc.Context, error) {}, us(o.To))
					}
					mu.Lock()
					evn++
					p.err, p.done, p.end, p.eseq = err, true, time.Since(start), evn
					mu.Unlock()
				}()
				synctest.Wait()
				mu.Lock()
				done, err := p.done, p.err
				mu.Unlock()
				zero := o.To == 0 && (o.K == "pushmsg" || o.K == "notify")
				ctxZero := o.To == 0 && !zero
				switch {
				case isFull && zero:
					full++
					if !done || err != arpc.ErrClientOverstock {
						r.Failf("op %d: zero-timeout %s on a full queue (capacity %d): returned=%v err=%v, want ErrClientOverstock at once", i, o.K, c.Q, done, err)
						return
					}
				case isFull && ctxZero:
					// an expired context against a full queue: must end at once with an error
					if !done || err == nil {
						r.Failf("op %d: %s with an expired context on a full queue: returned=%v err=%v", i, o.K, done, err)
						return
					}
				case isFull:
					waited++
					p.blocked = true
					if done {
						r.Failf("op %d: %s (timeout %dus) on a full queue returned at once with %v", i, o.K, o.To, err)
						return
					}
					if o.To >= 0 {
						p.deadline = p.began + us(o.To)
					}
					waiting = append(waiting, p)
				case ctxZero:
					// room in the queue, context already over: either outcome
					if !done {
						r.Failf("op %d: %s with an expired context hangs", i, o.K)
						return
					}
					if err == nil && stalled {
						if inflight {
							queued++
						}
						inflight = true
					}
				default:
					if !done || err != nil {
						r.Failf("op %d: %s (timeout %dus) with room in the queue (%d of %d used, write in progress: %v): returned=%v err=%v", i, o.K, o.To, queued, c.Q, inflight, done, err)
						return
					}
					if stalled {
						if inflight {
							queued++
						}
						inflight = true
					}
				}
			}
			settle()
			// every pusher whose deadline has passed must have returned, exactly then
			mu.Lock()
			for _, p := range res {
				if p.blocked && p.deadline >= 0 && p.done && p.err != nil && p.end != p.deadline {
					r.Failf("%s with timeout %dus began at %v and ended at %v with %v", p.op.K, p.op.To, p.began, p.end, p.err)
				}
				if p.blocked && p.deadline >= 0 && !p.done && time.Since(start) > p.deadline {
					r.Failf("%s with timeout %dus began at %v and still waits at %v", p.op.K, p.op.To, p.began, time.Since(start))
				}
			}
			mu.Unlock()
			if r.Failed() {
				return
			}
		}
		if c.Stop {
			e.cli.Stop()
			stopped = true
		} else {
			e.own.StallWrites(false)
		}
		end := time.Since(start)
		time.Sleep(vkit.Tail(time.Second))
		synctest.Wait()
		fs, err := vkit.DecodeFrames(e.own.Sent())
		if err != nil && !stopped {
			r.Failf("bytes on the wire: %v", err)
			return
		}
		pos := map[string]int{}
		for k, f := range fs {
			d := string(f.Data)
			if _, dup := pos[d]; dup {
				r.Failf("message %s was sent twice", vkit.Short(d))
				return
			}
			pos[d] = k
		}
		mu.Lock()
		defer mu.Unlock()
		i := -1
		type acc struct{ b, e, pos int }
		var accs []acc
		for oi, o := range c.Ops {
			if o.Op != "push" {
				continue
			}
			i++
			p := res[i]
			b := body(oi)
			if !p.done {
				r.Failf("op %d: %s never returned (client stopped: %v)", oi, o.K, stopped)
				return
			}
			if p.blocked && p.err == nil && p.deadline >= 0 && p.end > p.deadline {
				r.Failf("op %d: %s was accepted at %v, after its deadline %v", oi, o.K, p.end, p.deadline)
				return
			}
			if p.blocked && p.err != nil {
				switch {
				case p.deadline >= 0 && p.end == p.deadline && (p.err == arpc.ErrClientTimeout || p.err == arpc.ErrTimeout):
				case stopped && p.err == arpc.ErrClientStopped && p.end == end:
				default:
					r.Failf("op %d: %s (deadline %v) ended at %v with %v", oi, o.K, p.deadline, p.end, p.err)
					return
				}
			}
			k, delivered := pos[b]
			if p.err != nil && delivered {
				r.Failf("op %d: %s was refused (%v) but its message was sent", oi, o.K, p.err)
				return
			}
			if p.err == nil && !delivered && !stopped {
				r.Failf("op %d: %s was accepted but its message was never sent", oi, o.K)
				return
			}
			wantOver := 0
			if p.err == arpc.ErrClientOverstock {
				wantOver = 1
			}
			if overs[b] != wantOver {
				r.Failf("op %d: %s ended with %v; the overstock callback ran %d times for it", oi, o.K, p.err, overs[b])
				return
			}
			if p.err == nil && delivered {
				accs = append(accs, acc{p.bseq, p.eseq, k})
			}
		}
		for _, a := range accs {
			for _, b := range accs {
				if a.e < b.b && a.pos > b.pos {
					r.Failf("a message accepted earlier was sent after one pushed later (positions %d, %d)", a.pos, b.pos)
					return
				}
			}
		}
		if len(fs) > len(accs) {
			r.Failf("%d frames on the wire for %d accepted messages", len(fs), len(accs))
		}
	})
	if full > 0 || waited > 0 {
		r.NonTrivial()
	}
	if full > 0 {
		r.Class("overstock")
	}
	if waited > 0 {
		r.Class("waited")
	}
	if c.Stop {
		r.Class("stopped")
	}
}

// ---- race: concurrent pushers against a slow peer ----

type c07push struct {
	G, N int
	K    string
	To   int
	Gap  int
}

type c07race struct {
	Role string
	EP   vkit.EP
	Dir  vkit.DirPlan
	P    []c07push
}

func genC07race(rt *rapid.T) c07race {
	c := c07race{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep")}
	c.EP.SyncWrite = false
	c.EP.Pool = vkit.Chance(rt, 30, "pool")
	c.EP.SendQ = vkit.Int(rt, 1, 4, "q")
	c.Dir = vkit.DirPlan{Cap: vkit.Pick(rt, "cap", 1, 20, 64, 200), Reads: []int{vkit.Pick(rt, "rd", 1, 7, 50, 300)}, DelayUs: []int{vkit.Pick(rt, "dl", 0, 1, 4)}}
	n := vkit.Int(rt, 3, 24, "n")
	sizes := []int{0, 5, 40, 120}
	if vkit.Chance(rt, 2, "big") {
		sizes = []int{5, 30000, 70000, 140000}
		c.Dir = vkit.DirPlan{Cap: vkit.Pick(rt, "bcap", 1000, 50000, 200000), DelayUs: []int{vkit.Pick(rt, "bdl", 0, 1)}}
	}
	for i := 0; i < n; i++ {
		p := c07push{G: vkit.Int(rt, 0, 3, "g"), N: vkit.Pick(rt, "sz", sizes...), K: vkit.Pick(rt, "k", "pushmsg", "notify", "notifyctx"),
			To: vkit.Pick(rt, "to", 0, 0, 5, 30, 1000, -1), Gap: vkit.Pick(rt, "gap", 0, 0, 1, 9)}
		if p.K == "notify" && p.To < 0 {
			p.To = 0
		}
		c.P = append(c.P, p)
	}
	return c
}

func runC07race(r *vkit.R, c c07race) {
	refused, accepted := 0, 0
	r.Bubble(func() {
		var mu sync.Mutex
		overs := map[string]int{}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{Up: c.Dir}, func(h arpc.Handler) {
			h.HandleOverstock(func(cl *arpc.Client, m *arpc.Message) {
				mu.Lock()
				overs[string(m.Data())]++
				mu.Unlock()
			})
		})
		defer e.stop()
		var got []string
		rd := make(chan struct{})
		go func() {
			defer close(rd)
			for {
				f, err := vkit.ReadFrame(e.raw)
				if err != nil {
					return
				}
				mu.Lock()
				got = append(got, string(f.Data))
				mu.Unlock()
			}
		}()
		type out struct {
			err  error
			b, e int
		}
		outs := make([]out, len(c.P))
		evn := 0
		var wg sync.WaitGroup
		body := func(i int) string { return fmt.Sprintf("%d|%s", i, vkit.Blob{N: c.P[i].N, S: i}.String()) }
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, p := range c.P {
					if p.G != g {
						continue
					}
					if p.Gap > 0 {
						time.Sleep(us(p.Gap))
					}
					began := time.Now()
					mu.Lock()
					evn++
					outs[i].b = evn
					mu.Unlock()
					var err error
					limit := time.Duration(-1)
					switch p.K {
					case "pushmsg":
						to := us(p.To)
						err = e.cli.PushMsg(e.cli.NewMessage(arpc.CmdNotify, "m", body(i)), to)
						limit = to
					case "notify":
						err = e.cli.Notify("m", body(i), us(p.To))
						limit = us(p.To)
					default:
						ctx, cancel := context.Background(), context.CancelFunc(func() {})
						if p.To >= 0 {
							ctx, cancel = context.WithTimeout(ctx, us(p.To))
							limit = us(p.To)
						}
						err = e.cli.NotifyContext(ctx, "m", body(i))
						cancel()
					}
					took := time.Since(began)
					if limit >= 0 && took > limit {
						r.Failf("push %d %+v took %v", i, p, took)
					}
					if err != nil && limit > 0 && took != limit {
						r.Failf("push %d %+v was refused after %v (%v)", i, p, took, err)
					}
					if err != nil && p.To < 0 {
						r.Failf("push %d %+v without limit was refused: %v", i, p, err)
					}
					mu.Lock()
					evn++
					outs[i].e, outs[i].err = evn, err
					mu.Unlock()
				}
			}()
		}
		if !waitOr(&wg, long()) {
			r.Failf("a pusher hangs")
			return
		}
		time.Sleep(vkit.Tail(time.Minute))
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		pos := map[string]int{}
		for k, b := range got {
			if _, dup := pos[b]; dup {
				r.Failf("message %s delivered twice", vkit.Short(b))
				return
			}
			pos[b] = k
		}
		for i := range c.P {
			_, ok := pos[body(i)]
			if ok != (outs[i].err == nil) {
				r.Failf("push %d %+v ended with %v, delivered=%v", i, c.P[i], outs[i].err, ok)
				return
			}
			if ok {
				accepted++
			} else {
				refused++
			}
			want := 0
			if outs[i].err == arpc.ErrClientOverstock {
				want = 1
			}
			if overs[body(i)] != want {
				r.Failf("push %d %+v ended with %v; overstock callback ran %d times for it", i, c.P[i], outs[i].err, overs[body(i)])
				return
			}
			for j := range c.P {
				if outs[i].err == nil && outs[j].err == nil && outs[i].e < outs[j].b && pos[body(i)] > pos[body(j)] {
					r.Failf("push %d was accepted before push %d began but delivered after it", i, j)
					return
				}
			}
		}
		if len(got) != accepted {
			r.Failf("%d messages delivered, %d accepted", len(got), accepted)
		}
	})
	if refused > 0 && accepted > 0 {
		r.NonTrivial()
	}
}

func init() {
	vkit.Register("C07", "stall", vkit.Opts{Units: true, Quick: 80000, Rule: "at least one push met a full queue"}, genC07, runC07)
	vkit.Register("C07", "race", vkit.Opts{Units: true, Quick: 40000, Rule: "some pushes were accepted and some refused"}, genC07race, runC07race)
}
