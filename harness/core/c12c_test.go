package core

import (
	"errors"
	"fmt"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C12: a panic of a handler or of the callback of an asynchronous call is
// contained to that message, whatever made the callback run.

type c12cop struct {
	K   string // async, call: made by the endpoint; in-sync, in-async, in-stream, in-astream: made by its peer
	At  int
	Out string // async, call: ok, err, never
	D   int    // until the answer
	P   string `json:",omitempty"` // panics with: text, error, nil (a nil dereference); none
}

type c12ccase struct {
	Role string
	EP   vkit.EP
	Ops  []c12cop
	Lose int // -1: never
}

func genC12C(rt *rapid.T) c12ccase {
	c := c12ccase{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Lose: -1}
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	for i := vkit.Int(rt, 1, 10, "ops"); i > 0; i-- {
		o := c12cop{K: vkit.Pick(rt, "k", "async", "async", "async", "call", "in-sync", "in-async", "in-stream", "in-astream"), At: vkit.Int(rt, 0, 12, "at") * 10}
		o.Out = vkit.Pick(rt, "out", "ok", "ok", "err", "never")
		o.D = vkit.Pick(rt, "d", 0, 3, 27)
		if o.K != "call" {
			o.P = vkit.Pick(rt, "p", "", "text", "error", "nil")
		}
		c.Ops = append(c.Ops, o)
	}
	if vkit.Chance(rt, 30, "lose") {
		c.Lose = vkit.Int(rt, 0, 14, "loseat")*10 + 5
	}
	return c
}

func boom(p string) {
	switch p {
	case "text":
		panic("boom")
	case "error":
		panic(errors.New("boom"))
	case "nil":
		var ctx *arpc.Context
		ctx.Bind(new(string))
	}
}

func runC12C(r *vkit.R, c c12ccase) {
	r.LeftOver = true
	r.Bubble(func() {
		var mu sync.Mutex
		ran := make([]int, len(c.Ops))
		enter := func(b []byte) string {
			i, err := strconv.Atoi(string(b))
			if err != nil || i < 0 || i >= len(c.Ops) {
				return ""
			}
			mu.Lock()
			ran[i]++
			mu.Unlock()
			return c.Ops[i].P
		}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			f := func(ctx *arpc.Context) {
				boom(enter(ctx.Body()))
				ctx.Write("done")
			}
			h.Handle("in-sync", f, false)
			h.Handle("in-async", f, true)
			g := func(s *arpc.Stream) {
				v := ""
				if s.Recv(&v) == nil {
					boom(enter([]byte(v)))
				}
			}
			h.HandleStream("in-stream", g, false)
			h.HandleStream("in-astream", g, true)
		})
		answers := map[uint64]int{}
		serve := func(raw *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(raw)
				if err != nil {
					return
				}
				switch f.Cmd {
				case vkit.CResponse:
					mu.Lock()
					answers[f.Seq]++
					mu.Unlock()
				case vkit.CRequest:
					i, err := strconv.Atoi(string(f.Data))
					if err != nil || i < 0 || i >= len(c.Ops) || c.Ops[i].Out == "never" {
						continue
					}
					go func() {
						time.Sleep(us(c.Ops[i].D))
						rsp := vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: []byte("done")}
						if c.Ops[i].Out == "err" {
							rsp.Flag |= vkit.FlagError
						}
						mu.Lock()
						raw.Write(rsp.Encode())
						mu.Unlock()
					}()
				}
			}
		}
		go serve(e.raw)
		if c.Role == "dial" {
			e.net.OnConn = func(a, b *vkit.Conn) {
				mu.Lock()
				e.raw = b
				mu.Unlock()
				go serve(b)
			}
		}
		var wg sync.WaitGroup
		acc := make([]bool, len(c.Ops))
		for i, o := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(o.At) + time.Duration(i))
				arg := strconv.Itoa(i)
				safe := c.Lose < 0 // the connection is not lost at all
				switch o.K {
				case "async":
					err := e.cli.CallAsync("m", arg, func(ctx *arpc.Context, err error) {
						mu.Lock()
						ran[i]++
						mu.Unlock()
						boom(o.P)
					}, us(100))
					acc[i] = err == nil
					if err != nil && safe {
						r.Failf("op %d: CallAsync: %v", i, err)
					}
				case "call":
					rsp := ""
					err := e.cli.Call("m", arg, &rsp, us(100))
					if !safe {
						return
					}
					if o.Out == "ok" && (err != nil || rsp != "done") || o.Out == "err" && (err == nil || err.Error() != "done") || o.Out == "never" && err != arpc.ErrClientTimeout {
						r.Failf("op %d: call answered %q, %v (%s)", i, rsp, err, o.Out)
					}
				case "in-sync", "in-async":
					f := vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(1000 + i), Method: o.K, Data: []byte(arg)}
					mu.Lock()
					_, err := e.raw.Write(f.Encode())
					mu.Unlock()
					acc[i] = err == nil && safe
				default:
					f := vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(1000 + i), Method: o.K, Data: []byte(arg)}
					mu.Lock()
					_, err := e.raw.Write(f.Encode())
					mu.Unlock()
					acc[i] = err == nil && safe
				}
			}()
		}
		if c.Lose >= 0 {
			time.Sleep(us(c.Lose) + 100)
			mu.Lock()
			raw := e.raw
			mu.Unlock()
			raw.Close()
		}
		wg.Wait()
		time.Sleep(us(400) + 3*time.Second)
		synctest.Wait()
		mu.Lock()
		for i, o := range c.Ops {
			if o.K == "call" {
				continue
			}
			what := fmt.Sprintf("op %d (%s)", i, o.K)
			if ran[i] > 1 {
				r.Failf("%s ran %d times", what, ran[i])
			}
			if acc[i] && ran[i] == 0 {
				r.Failf("%s never ran", what)
			}
			if (o.K == "in-sync" || o.K == "in-async") && acc[i] {
				if n := answers[uint64(1000+i)]; o.P == "" && n != 1 {
					r.Failf("%s: %d answers", what, n)
				}
			}
			if o.P != "" && ran[i] == 1 {
				r.NonTrivial()
				r.Class("panic-%s-%s", o.K, o.Out)
				if c.Lose >= 0 {
					r.Class("panic-and-loss")
				}
			}
		}
		mu.Unlock()
		// and the endpoint goes on serving
		if c.Lose < 0 || c.Role == "dial" {
			for _, k := range []string{"in-sync", "in-async"} {
				mu.Lock()
				answers[5000] = 0
				e.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: 5000, Method: k, Data: []byte("x")}.Encode())
				mu.Unlock()
				time.Sleep(us(100))
				mu.Lock()
				if answers[5000] != 1 {
					r.Failf("a request (%s) after the panics got %d answers", k, answers[5000])
				}
				mu.Unlock()
			}
		}
		e.stop()
		time.Sleep(us(200) + time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C12", "panics", vkit.Opts{Units: true, Quick: 12000, Rule: "a handler or callback panicked"}, genC12C, runC12C)
}
