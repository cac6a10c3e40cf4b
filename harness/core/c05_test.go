package core

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C05: replies, error texts and argument errors reach the caller unchanged.

type c05call struct {
	Dir  int
	K    string // call, callctx, callwith, async
	M    int    // method index, or -1: a method nobody registered
	Req  vkit.Value
	How  string // write, writeto, error, errstr, writeerr, errnil, twice
	Rep  vkit.Value
	Rsp  string // kind of the response variable: like, str, bytes, nil
	Vals bool   // pass a values map
}

type c05reply struct {
	S, C     vkit.EP
	Methods  []vkit.Blob
	Async    []bool
	NoRoutes bool
	NotFound bool // a not-found handler is registered
	Unknown  vkit.Blob
	Calls    []c05call
}

func genMethod(rt *rapid.T, label string) vkit.Blob {
	return vkit.Blob{N: vkit.Pick(rt, label+".n", 1, 2, 5, 8, 20, 126, 127), S: vkit.Int(rt, 0, 999, label+".s")}
}

func genC05reply(rt *rapid.T) c05reply {
	c := c05reply{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c")}
	c.S.Pool, c.C.Pool = vkit.Chance(rt, 25, "spool"), vkit.Chance(rt, 25, "cpool")
	nm := vkit.Int(rt, 1, 3, "methods")
	seen := map[string]bool{}
	for i := 0; i < nm; i++ {
		m := genMethod(rt, "m")
		for seen[m.String()] {
			m.N++
			if m.N > 127 {
				m.N, m.S = 3, m.S+1
			}
		}
		seen[m.String()] = true
		c.Methods = append(c.Methods, m)
		c.Async = append(c.Async, vkit.Bool(rt, "async"))
	}
	c.Unknown = genMethod(rt, "unknown")
	for seen[c.Unknown.String()] {
		c.Unknown.S++
		if c.Unknown.N < 3 {
			c.Unknown.N = 9
		}
	}
	c.NotFound = vkit.Chance(rt, 20, "notfound")
	c.NoRoutes = !c.NotFound && vkit.Chance(rt, 15, "noroutes")
	n := vkit.Int(rt, 1, 8, "calls")
	for i := 0; i < n; i++ {
		k := c05call{Dir: vkit.Int(rt, 0, 1, "dir"), K: vkit.Pick(rt, "k", "call", "callctx", "callwith", "async"),
			M: vkit.Int(rt, 0, nm-1, "m"), Req: vkit.GenValue(rt, 20000, "req"), Rep: vkit.GenValue(rt, 20000, "rep"),
			How:  vkit.Pick(rt, "how", "write", "write", "write", "writeto", "error", "errstr", "writeerr", "errnil"),
			Rsp:  vkit.Pick(rt, "rsp", "like", "like", "str", "bytes", "nil"),
			Vals: vkit.Chance(rt, 15, "vals")}
		if c.NoRoutes || vkit.Chance(rt, 20, "unk") {
			k.M = -1
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

type c05want struct {
	err   string
	isErr bool
	v     vkit.Value
}

func (k c05call) want() c05want {
	switch k.How {
	case "error", "errstr", "writeerr":
		return c05want{err: string(k.Rep.B.Bytes()), isErr: true}
	case "errnil":
		return c05want{v: vkit.Value{K: "bytes", B: vkit.Blob{}}}
	}
	return c05want{v: k.Rep}
}

func runC05reply(r *vkit.R, c c05reply) {
	good := false
	r.Bubble(func() {
		var mu sync.Mutex
		cur := map[string]c05call{}
		ran := map[string]int{}
		do := func(ctx *arpc.Context) {
			// the request payload is looked up by the order key in its first bytes
			raw := string(ctx.Body())
			mu.Lock()
			k, ok := cur[raw]
			ran[raw]++
			mu.Unlock()
			if !ok {
				r.Failf("a handler got a request nobody made: %s", vkit.Short(raw))
				return
			}
			want := k.Req
			if err := want.Check(ctx.Bind); err != nil {
				r.Failf("request: %v", err)
			}
			var err error
			switch k.How {
			case "write":
				err = ctx.Write(k.Rep.Go())
			case "writeto":
				err = ctx.WriteWithTimeout(k.Rep.Go(), time.Second)
			case "error":
				err = ctx.Error(errors.New(k.Rep.B.String()))
			case "errstr":
				err = ctx.Error(k.Rep.B.String())
			case "writeerr":
				err = ctx.Write(errors.New(k.Rep.B.String()))
			case "errnil":
				err = ctx.Error(nil)
			}
			if err != nil {
				r.Failf("writing a reply failed on a healthy connection: %v", err)
			}
		}
		setup := func(h arpc.Handler) {
			if c.NoRoutes {
				return
			}
			for i, m := range c.Methods {
				h.Handle(m.String(), do, c.Async[i])
			}
			if c.NotFound {
				h.HandleNotFound(func(ctx *arpc.Context) { ctx.Write("nf:" + ctx.Message.Method()) })
			}
		}
		s := newServer(c.S, setup)
		s.start()
		defer s.stop()
		cli, err := dial(s.net, c.C, setup)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		defer cli.Stop()
		synctest.Wait()
		// what a caller was given stays as it was, whatever happens later
		type kept struct {
			i    int
			err  error
			got  *string
			want string
		}
		var keep []kept
		for i, k := range c.Calls {
			if r.Failed() {
				return
			}
			from := cli
			if k.Dir == 1 {
				from = s.client(0)
			}
			m := c.Unknown.String()
			if k.M >= 0 {
				m = c.Methods[k.M].String()
			}
			wire := string(k.Req.Wire())
			mu.Lock()
			cur = map[string]c05call{wire: k}
			ran = map[string]int{}
			mu.Unlock()
			var args []interface{}
			if k.Vals {
				args = append(args, map[interface{}]interface{}{"a": i})
			}
			want := k.want()
			if k.M < 0 {
				if c.NotFound {
					want = c05want{v: vkit.Value{K: "raw"}}
				} else {
					want = c05want{isErr: true, err: arpc.ErrMethodNotFound.Error()}
				}
			}
			wantWire := string(want.v.Wire())
			if want.v.K == "raw" {
				wantWire = "nf:" + m
			}
			call := func(rsp interface{}) error {
				switch k.K {
				case "call":
					return from.Call(m, k.Req.Go(), rsp, long(), args...)
				case "callctx", "callwith":
					cx, cancel := context.WithTimeout(context.Background(), long())
					defer cancel()
					if k.K == "callctx" {
						return from.CallContext(cx, m, k.Req.Go(), rsp, args...)
					}
					return from.CallWith(cx, m, k.Req.Go(), rsp, args...)
				}
				ch := make(chan error, 1)
				if err := from.CallAsync(m, k.Req.Go(), func(cx *arpc.Context, e error) {
					if e != nil {
						ch <- e
						return
					}
					if rsp == nil {
						ch <- nil
						return
					}
					// Bind hands out the message's own memory for byte slices
					e = cx.Bind(rsp)
					if p, ok := rsp.(*[]byte); ok && e == nil {
						*p = append([]byte(nil), *p...)
					}
					ch <- e
				}, long(), args...); err != nil {
					return err
				}
				return <-ch
			}
			if want.isErr {
				var rsp = "untouched"
				err := call(&rsp)
				if err == nil {
					r.Failf("call %d (%s, %s): no error, want %s", i, k.K, k.How, vkit.Short(want.err))
				} else if err.Error() != want.err {
					r.Failf("call %d (%s, %s): error %s, want %s", i, k.K, k.How, vkit.Short(err.Error()), vkit.Short(want.err))
				}
				keep = append(keep, kept{i, err, nil, want.err})
			} else {
				var err error
				switch {
				case k.Rsp == "nil":
					err = call(nil)
				case k.Rsp == "str":
					s := "untouched"
					err = call(&s)
					if err == nil && s != wantWire {
						err = fmt.Errorf("got string %s, want %s", vkit.Short(s), vkit.Short(wantWire))
					}
					keep = append(keep, kept{i, nil, &s, wantWire})
				case k.Rsp == "bytes" || want.v.K == "raw" || k.How == "errnil":
					b := append(make([]byte, 0, 64), "untouched"...)
					was := b
					err = call(&b)
					if string(was) != "untouched" {
						r.Failf("call %d: the reply was written over what the response variable held before", i)
					}
					if err == nil && string(b) != wantWire {
						err = fmt.Errorf("got bytes %s, want %s", vkit.Short(string(b)), vkit.Short(wantWire))
					}
				default:
					err = want.v.Check(call)
				}
				if err != nil {
					r.Failf("call %d (%s, %s, rsp %s): %v", i, k.K, k.How, k.Rsp, err)
				}
			}
			synctest.Wait()
			mu.Lock()
			if k.M >= 0 && ran[wire] != 1 {
				r.Failf("call %d: the handler ran %d times", i, ran[wire])
			}
			if k.M < 0 && ran[wire] != 0 {
				r.Failf("call %d: a handler ran for a method nobody registered", i)
			}
			mu.Unlock()
			good = true
			r.Class("how=%s", k.How)
			if k.M < 0 {
				r.Class("unknown-method")
			}
		}
		for _, k := range keep {
			got := ""
			if k.got != nil {
				got = *k.got
			} else if k.err != nil {
				got = k.err.Error()
			}
			if got != k.want {
				r.Failf("the result of call %d, kept until the end, has become %s, it was %s", k.i, vkit.Short(got), vkit.Short(k.want))
			}
		}
	})
	if good {
		r.NonTrivial()
	}
}

// ---- argument checks: refused operations send nothing ----

type c05op struct {
	K  string // call, callctx, callwith, async, notify, notifyctx, notifywith
	ML int    // method length
	To int    // us; may be 0 or negative
	CB bool   // async: with callback
}

type c05args struct {
	Role string
	EP   vkit.EP
	Ops  []c05op
}

func genC05args(rt *rapid.T) c05args {
	c := c05args{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep")}
	n := vkit.Int(rt, 1, 12, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, c05op{K: vkit.Pick(rt, "k", "call", "callctx", "callwith", "async", "notify", "notifyctx", "notifywith"),
			ML: vkit.Pick(rt, "ml", 5, 1, 127, 0, 128, 129, 255, 256, 261, 400, 65536+5),
			To: vkit.Pick(rt, "to", 10, 1000, 0, -1, -1000000), CB: vkit.Chance(rt, 80, "cb")})
	}
	return c
}

func runC05args(r *vkit.R, c c05args) {
	bad := 0
	r.Bubble(func() {
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, nil)
		defer e.stop()
		var want []string
		for i, o := range c.Ops {
			m := strings.Repeat("m", o.ML)
			body := fmt.Sprintf("op-%d", i)
			hasTo := o.K == "call" || o.K == "async" || o.K == "notify"
			var allowed []error
			methodBad := o.ML == 0 || o.ML > arpc.MaxMethodLen
			if hasTo && o.To < 0 {
				allowed = append(allowed, arpc.ErrClientInvalidTimeoutLessThanZero)
			}
			if hasTo && o.To == 0 && o.K != "notify" {
				allowed = append(allowed, arpc.ErrClientInvalidTimeoutZero)
			}
			if o.K == "async" && !o.CB {
				allowed = append(allowed, arpc.ErrClientInvalidAsyncHandler)
			}
			refuse := methodBad || len(allowed) > 0
			to := time.Duration(o.To) * time.Microsecond
			began := time.Now()
			var err error
			cb := arpc.AsyncHandlerFunc(nil)
			calls := 0
			var mu sync.Mutex
			if o.CB {
				cb = func(*arpc.Context, error) { mu.Lock(); calls++; mu.Unlock() }
			}
			ctx, cancel := context.WithTimeout(context.Background(), us(10))
			switch o.K {
			case "call":
				err = e.cli.Call(m, body, nil, to)
			case "callctx":
				err = e.cli.CallContext(ctx, m, body, nil)
			case "callwith":
				err = e.cli.CallWith(ctx, m, body, nil)
			case "async":
				err = e.cli.CallAsync(m, body, cb, to)
			case "notify":
				err = e.cli.Notify(m, body, to)
			case "notifyctx":
				err = e.cli.NotifyContext(ctx, m, body)
			case "notifywith":
				err = e.cli.NotifyWith(ctx, m, body)
			}
			took := time.Since(began)
			cancel()
			synctest.Wait()
			if refuse {
				bad++
				if err == nil {
					r.Failf("op %d %+v was accepted", i, o)
					return
				}
				ok := false
				for _, a := range allowed {
					ok = ok || err == a
				}
				if methodBad {
					ok = ok || strings.Contains(err.Error(), "invalid method length")
				}
				if !ok {
					r.Failf("op %d %+v: refused with %q, want %v (method bad: %v)", i, o, err, allowed, methodBad)
					return
				}
				if took != 0 {
					r.Failf("op %d %+v: the refusal took %v", i, o, took)
					return
				}
				if o.To > 0 {
					time.Sleep(to)
				}
				synctest.Wait()
				mu.Lock()
				n := calls
				mu.Unlock()
				if n != 0 {
					r.Failf("op %d %+v: refused, yet its callback ran", i, o)
					return
				}
				continue
			}
			want = append(want, body)
			if o.K == "notify" || o.K == "notifyctx" || o.K == "notifywith" || o.K == "async" {
				if err != nil {
					r.Failf("op %d %+v: refused: %v", i, o, err)
					return
				}
			} else if err != arpc.ErrClientTimeout {
				// nobody answers
				r.Failf("op %d %+v: %v, want a timeout", i, o, err)
				return
			}
		}
		time.Sleep(time.Second)
		synctest.Wait()
		fs, err := vkit.DecodeFrames(e.own.Sent())
		if err != nil {
			r.Failf("bytes on the wire: %v", err)
			return
		}
		var got []string
		for _, f := range fs {
			got = append(got, string(f.Data))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Failf("on the wire: %v, want exactly the accepted operations %v", got, want)
		}
	})
	if bad > 0 && bad < len(c.Ops) {
		r.NonTrivial()
	}
	r.Class("role=%s", c.Role)
}

func init() {
	vkit.Register("C05", "reply", vkit.Opts{Quick: 60000, Rule: "at least one call ran to its end and its reply or error text was compared"}, genC05reply, runC05reply)
	vkit.Register("C05", "args", vkit.Opts{Quick: 60000, Rule: "refused and accepted operations are mixed"}, genC05args, runC05args)
}
