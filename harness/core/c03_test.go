package core

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C03 and C04: completion of calls whatever the peer and the network do.
// Everything happens on a fake clock, so points in time are exact.

type scall struct {
	K     string // call, callctx, cancel (context cancelled instead of a deadline), async
	At    int    // us
	To    int    // us
	Reply int    // us after the request was seen; -1 never
	Mar   int    `json:",omitempty"` // us spent marshalling the argument
	N     int
	Err   bool `json:",omitempty"`
}

type sfault struct {
	K     string // "", close, reset, cutup, cutdown, stop, stall, halfclose
	At    int    // us, or bytes for cuts
	Until int    `json:",omitempty"` // stall: us
}

type script struct {
	Role   string
	EP     vkit.EP
	Redial string // "never", "ok", "slow"
	Calls  []scall
	Fault  sfault
}

func genScript(rt *rapid.T, async bool) script {
	c := script{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep")}
	c.EP.Pool = vkit.Chance(rt, 15, "pool")
	c.Redial = vkit.Pick(rt, "redial", "never", "ok", "slow")
	kinds := []string{"call", "callctx", "cancel"}
	if async {
		kinds = []string{"async", "async", "async", "call"}
	}
	c.Fault.K = vkit.Pick(rt, "fault", "", "close", "reset", "cutup", "cutdown", "stop", "stall", "stall")
	if vkit.Chance(rt, 35, "smallq") {
		c.EP.SendQ = vkit.Int(rt, 1, 3, "q")
	}
	if c.Fault.K == "stall" {
		c.EP.SyncWrite = false
	}
	grid := 10
	n := vkit.Int(rt, 1, 8, "calls")
	for i := 0; i < n; i++ {
		k := scall{K: rapid.SampledFrom(kinds).Draw(rt, "k"), At: vkit.Int(rt, 0, 6, "at") * grid, To: vkit.Int(rt, 0, 8, "to")*grid + 5, N: vkit.Size(rt, 3000, "n")}
		if vkit.Chance(rt, 70, "answered") {
			k.Reply = vkit.Int(rt, 0, 8, "reply") * grid
		} else {
			k.Reply = -1
		}
		if vkit.Chance(rt, 30, "slowmarshal") && k.To > 2*grid {
			k.Mar = vkit.Int(rt, 1, k.To/grid-1, "mar") * grid
		}
		k.Err = vkit.Chance(rt, 15, "err")
		c.Calls = append(c.Calls, k)
	}
	switch c.Fault.K {
	case "cutup", "cutdown":
		c.Fault.At = vkit.Int(rt, 1, 400, "cut")
	case "stall":
		c.Fault.At = vkit.Int(rt, 0, 5, "fat")*grid + 3
		c.Fault.Until = c.Fault.At + vkit.Int(rt, 1, 9, "funtil")*grid
	default:
		c.Fault.At = vkit.Int(rt, 0, 9, "fat")*grid + 3
	}
	return c
}

// slowCodec sleeps (fake time) while marshalling.
type slowCodec struct{}

type slowReq struct {
	ID  int
	Mar int
	N   int
}

func (slowCodec) Marshal(v interface{}) ([]byte, error) {
	if s, ok := v.(*slowReq); ok {
		if s.Mar > 0 {
			time.Sleep(us(s.Mar))
		}
		return []byte(fmt.Sprintf("req-%d|%s", s.ID, vkit.Blob{N: s.N, S: s.ID}.String())), nil
	}
	return json.Marshal(v)
}
func (slowCodec) Unmarshal(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

type sresult struct {
	began, ended time.Duration
	got          string
	err          error
	cbs          int
	accepted     bool
	refuse       error
	finished     bool
}

// runScript executes a script and returns the history.
type shistory struct {
	res    []*sresult
	seen   map[int]time.Duration // request seen by the peer
	reply  map[int]time.Duration // reply written
	lost   time.Duration         // point of loss, -1 none
	redial time.Duration         // point of the first successful redial, -1 none
}

func runScript(r *vkit.R, c script, drop bool) *shistory {
	h := &shistory{seen: map[int]time.Duration{}, reply: map[int]time.Duration{}, lost: -1, redial: -1}
	r.Bubble(func() {
		var plan vkit.ConnPlan
		if c.Fault.K == "cutup" {
			plan.Up.CutAt = c.Fault.At
		}
		if c.Fault.K == "cutdown" {
			plan.Down.CutAt = c.Fault.At
		}
		e := newEndpoint(c.Role, c.EP, plan, nil)
		e.cli.Codec = slowCodec{}
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		var mu sync.Mutex
		serveRaw := func(raw *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(raw)
				if err != nil {
					return
				}
				var i int
				if _, err := fmt.Sscanf(string(f.Data), "req-%d|", &i); err != nil || i >= len(c.Calls) {
					r.Failf("unexpected frame %v", f)
					return
				}
				mu.Lock()
				if _, dup := h.seen[i]; dup {
					r.Failf("request %d sent twice", i)
				}
				h.seen[i] = now()
				mu.Unlock()
				if d := c.Calls[i].Reply; d >= 0 {
					go func() {
						if d > 0 {
							time.Sleep(us(d))
						}
						rsp := vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: []byte(fmt.Sprintf("ans-%d", i))}
						if c.Calls[i].Err {
							rsp.Flag |= vkit.FlagError
						}
						mu.Lock()
						if _, err := raw.Write(rsp.Encode()); err == nil {
							h.reply[i] = now()
						}
						mu.Unlock()
					}()
				}
			}
		}
		go serveRaw(e.raw)
		if c.Role == "dial" {
			redial := c.Redial
			e.net.DialDelay = func(i int) time.Duration {
				if i > 0 && redial == "slow" {
					return us(27)
				}
				return 0
			}
			e.net.DialErr = func(i int) error {
				if i > 0 && redial == "never" {
					return vkit.ErrRefused
				}
				return nil
			}
			e.net.OnConn = func(a, b *vkit.Conn) {
				mu.Lock()
				if h.redial < 0 {
					h.redial = now()
				}
				mu.Unlock()
				go serveRaw(b)
			}
		}
		switch c.Fault.K {
		case "close", "reset", "stop":
			go func() {
				time.Sleep(us(c.Fault.At))
				mu.Lock()
				h.lost = now()
				mu.Unlock()
				switch c.Fault.K {
				case "close":
					e.raw.Close()
				case "reset":
					e.raw.Reset()
				case "stop":
					e.cli.Stop()
				}
			}()
		case "stall":
			go func() {
				time.Sleep(us(c.Fault.At))
				e.own.StallWrites(true)
				time.Sleep(us(c.Fault.Until - c.Fault.At))
				e.own.StallWrites(false)
			}()
		}
		var wg sync.WaitGroup
		for i, k := range c.Calls {
			res := &sresult{}
			h.res = append(h.res, res)
			wg.Add(1)
			go func() {
				time.Sleep(us(k.At))
				req := &slowReq{ID: i, Mar: k.Mar, N: k.N}
				res.began = now()
				switch k.K {
				case "call":
					res.err = e.cli.Call("m", req, &res.got, us(k.To))
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), us(k.To))
					res.err = e.cli.CallContext(ctx, "m", req, &res.got)
					cancel()
				case "cancel":
					ctx, cancel := context.WithCancel(context.Background())
					go func() { time.Sleep(us(k.To)); cancel() }()
					res.err = e.cli.CallWith(ctx, "m", req, &res.got)
				case "async":
					err := e.cli.CallAsync("m", req, func(ctx *arpc.Context, e error) {
						var got string
						if e == nil {
							if be := ctx.Bind(&got); be != nil {
								r.Failf("async call %d: Bind failed: %v", i, be)
							}
						}
						mu.Lock()
						res.cbs++
						if res.cbs == 1 {
							res.ended, res.got, res.err = now(), got, e
						}
						mu.Unlock()
					}, us(k.To))
					mu.Lock()
					res.accepted = err == nil
					res.refuse = err
					res.finished = true
					mu.Unlock()
					wg.Done()
					return
				}
				mu.Lock()
				res.ended = now()
				res.finished = true
				mu.Unlock()
				wg.Done()
			}()
		}
		if !waitOr(&wg, us(1000)+time.Minute) {
			mu.Lock()
			for i, res := range h.res {
				if !res.finished {
					r.Failf("call %d (%s) had not returned long after its deadline", i, c.Calls[i].K)
				}
			}
			mu.Unlock()
		}
		time.Sleep(us(200) + time.Minute)
		synctest.Wait()
		mu.Lock()
		if at, ok := e.own.ResetAt(); ok && h.lost < 0 {
			h.lost = at.Sub(start)
		}
		mu.Unlock()
		e.stop()
		time.Sleep(us(200) + time.Minute)
		synctest.Wait()
	})
	return h
}

func checkScriptSync(r *vkit.R, c script, h *shistory) {
	if r.Failed() {
		return
	}
	for i, k := range c.Calls {
		if k.K == "async" {
			continue
		}
		x := h.res[i]
		dl := x.began + us(k.To)
		if x.ended > dl {
			r.Failf("call %d returned at %v, its deadline was %v", i, x.ended, dl)
			return
		}
		rep, replied := h.reply[i]
		lost := h.lost
		ready := x.began + us(k.Mar) // when the request is handed over
		switch {
		case lost < 0 || lost > dl || (replied && rep < lost && lost > x.began):
			// the connection was healthy until the call ended
			if replied && rep < dl && rep >= x.began && (lost < 0 || rep < lost) {
				if k.Err {
					if x.err == nil || x.err.Error() != fmt.Sprintf("ans-%d", i) {
						r.Failf("call %d: answered in time with an error text, got %q, %v", i, x.got, x.err)
					}
				} else if x.err != nil || x.got != fmt.Sprintf("ans-%d", i) {
					r.Failf("call %d: answered at %v before its deadline %v, got %q, %v", i, rep, dl, x.got, x.err)
				}
			} else if !replied || rep > dl {
				if x.err != arpc.ErrClientTimeout || x.ended != dl {
					r.Failf("call %d: not answered, returned %v at %v, want a timeout at %v", i, x.err, x.ended, dl)
				}
			}
		case x.began < lost && lost < dl && (!replied || rep > lost):
			// lost while the call was outstanding
			if ready < lost {
				if x.ended != lost {
					r.Failf("call %d: connection lost at %v, returned %v only at %v (deadline %v)", i, lost, x.err, x.ended, dl)
				} else if !isStopErr(x.err) && !(c.EP.SyncWrite && x.err != nil && x.err != arpc.ErrClientTimeout) {
					r.Failf("call %d: connection lost, returned %v", i, x.err)
				}
			} else if ready > lost && (h.redial < 0 || c.Role == "accept" || h.redial > ready) {
				// the loss came while the argument was being marshalled
				if x.err == nil || x.err == arpc.ErrClientTimeout || x.ended != ready {
					r.Failf("call %d: connection lost at %v while marshalling (until %v), returned %v at %v", i, lost, ready, x.err, x.ended)
				}
			}
		}
	}
}

func runC03(r *vkit.R, c script) {
	h := runScript(r, c, false)
	checkScriptSync(r, c, h)
	scriptClasses(r, c, h)
}

func scriptClasses(r *vkit.R, c script, h *shistory) {
	r.Class("fault=%s", c.Fault.K)
	r.Class("role=%s", c.Role)
	if r.Failed() {
		return
	}
	hit := false
	for i, k := range c.Calls {
		x := h.res[i]
		if h.lost >= 0 && x.began <= h.lost && h.lost <= x.began+us(k.To) {
			hit = true
			r.Class("loss-during-a-call")
			if k.Mar > 0 && x.began+us(k.Mar) >= h.lost {
				r.Class("loss-while-marshalling")
			}
		}
		if _, ok := h.seen[i]; !ok && c.Fault.K == "stall" {
			r.Class("request-stuck-in-queue")
			hit = true
		}
		if x.err == arpc.ErrClientTimeout || x.err == arpc.ErrTimeout {
			hit = true
			r.Class("timeout")
		}
	}
	if hit {
		r.NonTrivial()
	}
}

// ---- C04 ----

func runC04(r *vkit.R, c script) {
	h := runScript(r, c, true)
	scriptClasses(r, c, h)
	if r.Failed() {
		return
	}
	for i, k := range c.Calls {
		if k.K != "async" {
			continue
		}
		x := h.res[i]
		if x.cbs > 1 {
			r.Failf("async call %d: callback invoked %d times", i, x.cbs)
			return
		}
		if !x.accepted {
			continue
		}
		dl := x.began + us(k.Mar) + us(k.To) // the timer starts when the request is handed over
		if x.cbs == 0 {
			r.Failf("async call %d was accepted but its callback was never invoked (began %v, deadline %v, lost %v, redial %v)", i, x.began, dl, h.lost, h.redial)
			return
		}
		if x.ended > dl {
			r.Failf("async call %d: callback at %v, deadline %v", i, x.ended, dl)
			return
		}
		rep, replied := h.reply[i]
		want := fmt.Sprintf("ans-%d", i)
		switch {
		case x.err == nil:
			if x.got != want || !replied || k.Err {
				r.Failf("async call %d completed with %q", i, x.got)
			}
		case x.err.Error() == want:
			if !replied || !k.Err {
				r.Failf("async call %d completed with error %v", i, x.err)
			}
		case x.err == arpc.ErrTimeout || x.err == arpc.ErrClientTimeout:
			if x.ended != dl {
				r.Failf("async call %d: timeout reported at %v, deadline %v", i, x.ended, dl)
			}
			if replied && rep < dl && (h.lost < 0 || rep < h.lost) {
				r.Failf("async call %d: answered at %v but timed out at %v", i, rep, dl)
			}
			if h.lost >= 0 && x.began+us(k.Mar) < h.lost && h.lost < dl {
				r.Failf("async call %d: connection lost at %v, but told only at its deadline %v", i, h.lost, dl)
			}
		default:
			if h.lost < 0 || x.ended < h.lost {
				r.Failf("async call %d failed with %v although the connection was not lost", i, x.err)
			}
			if replied && rep < h.lost && rep < dl {
				r.Failf("async call %d: answered at %v, failed with %v at %v", i, rep, x.err, x.ended)
			}
		}
	}
}

func init() {
	vkit.Register("C03", "script", vkit.Opts{Units: true, Quick: 40000, Rule: "a call timed out, was outstanding when the connection was lost, or was stuck behind a full queue"},
		func(rt *rapid.T) script { return genScript(rt, false) }, runC03)
	vkit.Register("C04", "script", vkit.Opts{Units: true, Quick: 40000, Rule: "a call timed out, was outstanding when the connection was lost, or was stuck behind a full queue"},
		func(rt *rapid.T) script { return genScript(rt, true) }, runC04)
}
