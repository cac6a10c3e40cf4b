package core

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C08: streams deliver every value once, in order, then EOF, in isolation.

// half-duplex script of one direction of one stream
type c08half struct {
	V      []vkit.Value // values to send
	Gap    []int        // us before each send (cyclic)
	Ctx    bool         // use the context variants for sending
	Close  string       // "", closesend, closesendctx, sendclose, sendclosectx
	Recv   string       // recv, recvctx, recvwith: variant used by the receiver
	Slow   int          // us the receiver takes per value
	Early  int          // >0: the receiver closes its receiving side after so many values
	CloseA int          // us before the close
}

type c08stream struct {
	Conn int
	Dir  int // 0: opened by the dialing side, 1: by the accepting side
	M    int
	At   int
	A, B c08half // A: opener -> acceptor, B: acceptor -> opener
}

type c08fault struct {
	K    string // "", cut, stop, peerstop
	At   int
	Conn int
}

type c08case struct {
	S, C    vkit.EP
	Plan    vkit.ConnPlan
	Conns   int
	Async   []bool
	Streams []c08stream
	Calls   int // unrelated calls going on
	Fault   c08fault
}

func genC08half(rt *rapid.T, label string, fault bool) c08half {
	h := c08half{Ctx: vkit.Bool(rt, label+".ctx"), Recv: vkit.Pick(rt, label+".recv", "recv", "recvctx", "recvwith"),
		Slow: vkit.Pick(rt, label+".slow", 0, 0, 3, 20), Gap: []int{vkit.Pick(rt, label+".gap", 0, 0, 1, 10)},
		CloseA: vkit.Pick(rt, label+".closea", 0, 0, 15)}
	n := vkit.Pick(rt, label+".n", 0, 1, 1, 2, 3, 5, 9)
	for i := 0; i < n; i++ {
		v := vkit.GenValue(rt, 3000, label+".v")
		if v.K != "obj" && v.B.N == 0 {
			v.B.N = 1
		}
		h.V = append(h.V, v)
	}
	h.Close = vkit.Pick(rt, label+".close", "closesend", "closesendctx", "sendclose", "sendclosectx", "closesend")
	if fault && vkit.Chance(rt, 50, label+".open") {
		h.Close = ""
	}
	if vkit.Chance(rt, 12, label+".earlyp") {
		h.Early = vkit.Int(rt, 1, 3, label+".early")
	}
	return h
}

func genC08(fault bool) func(rt *rapid.T) c08case {
	return func(rt *rapid.T) c08case {
		c := c08case{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), Conns: vkit.Pick(rt, "conns", 1, 1, 2)}
		c.S.Pool, c.C.Pool = vkit.Chance(rt, 25, "spool"), vkit.Chance(rt, 25, "cpool")
		c.S.StreamQ = vkit.Pick(rt, "sq", 0, -1, 1, 2, 5)
		c.C.StreamQ = vkit.Pick(rt, "cq", 0, -1, 1, 2, 5)
		if vkit.Chance(rt, 30, "shape") {
			c.Plan = vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
			c.Plan.Up.Cap, c.Plan.Down.Cap = 0, 0
		}
		nm := vkit.Int(rt, 1, 2, "methods")
		for i := 0; i < nm; i++ {
			c.Async = append(c.Async, vkit.Chance(rt, 70, "async"))
		}
		n := vkit.Int(rt, 1, 5, "streams")
		for i := 0; i < n; i++ {
			c.Streams = append(c.Streams, c08stream{Conn: vkit.Int(rt, 0, c.Conns-1, "conn"), Dir: vkit.Int(rt, 0, 1, "dir"), M: vkit.Int(rt, 0, nm-1, "m"),
				At: vkit.Pick(rt, "at", 0, 0, 1, 30), A: genC08half(rt, "a", fault), B: genC08half(rt, "b", fault)})
		}
		c.Calls = vkit.Pick(rt, "calls", 0, 0, 2, 5)
		if fault {
			c.Fault = c08fault{K: vkit.Pick(rt, "fk", "cut", "stop", "peerstop"), At: vkit.Pick(rt, "fat", 0, 1, 5, 12, 31, 80), Conn: vkit.Int(rt, 0, c.Conns-1, "fconn")}
		}
		return c
	}
}

// one direction as observed
type c08obs struct {
	mu       sync.Mutex
	accepted []bool // send results, in order
	sendErr  error
	got      int
	recvEnd  error
	recvAt   time.Duration
	ended    bool
	sendDone bool
}

func runC08(r *vkit.R, c c08case) {
	vals := 0
	fault := c.Fault.K != ""
	r.Bubble(func() {
		start := time.Now()
		var mu sync.Mutex
		ran := make([]int, len(c.Streams))
		ghosts := 0
		obs := make([][2]*c08obs, len(c.Streams))
		for i := range obs {
			obs[i] = [2]*c08obs{{}, {}}
		}
		var wg sync.WaitGroup
		// the first value of the A direction identifies the stream: its index is
		// known through the wire bytes
		send := func(st *arpc.Stream, i int, h c08half, o *c08obs, n int) {
			defer wg.Done()
			defer func() { o.mu.Lock(); o.sendDone = true; o.mu.Unlock() }()
			ctx := context.Background()
			last := len(h.V)
			if h.Close == "sendclose" || h.Close == "sendclosectx" {
				last--
			}
			for j := 0; j < last; j++ {
				if g := h.Gap[j%len(h.Gap)]; g > 0 {
					time.Sleep(us(g))
				}
				var err error
				v := h.V[j].Go()
				if h.Ctx {
					if j%2 == 0 {
						err = st.SendContext(ctx, v)
					} else {
						err = st.SendWith(ctx, v)
					}
				} else {
					err = st.Send(v)
				}
				if err != nil {
					o.mu.Lock()
					o.sendErr = err
					o.mu.Unlock()
					if !fault {
						r.Failf("stream %d direction %d: send of value %d failed on a healthy connection: %v", i, n, j, err)
					}
					return
				}
				o.mu.Lock()
				o.accepted = append(o.accepted, true)
				o.mu.Unlock()
			}
			if h.CloseA > 0 {
				time.Sleep(us(h.CloseA))
			}
			var err error
			switch h.Close {
			case "closesend":
				st.CloseSend()
			case "closesendctx":
				st.CloseSendContext(ctx)
			case "sendclose", "sendclosectx":
				var v interface{} = []byte{}
				if last >= 0 {
					v = h.V[last].Go()
				}
				if h.Close == "sendclose" {
					err = st.SendAndClose(v)
				} else if last%2 == 0 {
					err = st.SendAndCloseContext(ctx, v)
				} else {
					err = st.SendAndCloseWith(ctx, v)
				}
				if err == nil && last >= 0 {
					o.mu.Lock()
					o.accepted = append(o.accepted, true)
					o.mu.Unlock()
				}
			case "":
				return
			}
			if err != nil && !fault {
				r.Failf("stream %d direction %d: %s failed on a healthy connection: %v", i, n, h.Close, err)
				return
			}
			if err != nil {
				return
			}
			time.Sleep(us(1)) // CloseSend works in the background
			if err := st.Send("late"); err == nil {
				r.Failf("stream %d direction %d: a send after %s succeeded", i, n, h.Close)
			} else if !fault && err != arpc.ErrStreamClosedSend {
				r.Failf("stream %d direction %d: a send after %s failed with %v", i, n, h.Close, err)
			}
			if err := st.SendAndClose("late"); err == nil {
				r.Failf("stream %d direction %d: SendAndClose after %s succeeded", i, n, h.Close)
			}
		}
		recv := func(st *arpc.Stream, i int, h c08half, o *c08obs, n int) {
			defer wg.Done()
			one := func(v interface{}) error {
				switch h.Recv {
				case "recvctx":
					return st.RecvContext(context.Background(), v)
				case "recvwith":
					return st.RecvWith(context.Background(), v)
				}
				return st.Recv(v)
			}
			for {
				if h.Early > 0 && o.got >= h.Early {
					if h.Recv == "recvctx" {
						st.CloseRecvContext(context.Background())
					} else {
						st.CloseRecv()
					}
					// whatever was queued may still come, then the end
					for k := 0; ; k++ {
						var b []byte
						if err := one(&b); err != nil {
							o.mu.Lock()
							o.recvEnd, o.ended, o.recvAt = io.EOF, true, time.Since(start)
							o.mu.Unlock()
							return
						}
						if o.got < len(h.V) {
							if string(b) != string(h.V[o.got].Wire()) {
								r.Failf("stream %d direction %d: after CloseRecv value %d is %s", i, n, o.got, vkit.Short(string(b)))
							}
							o.mu.Lock()
							o.got++
							o.mu.Unlock()
						} else {
							r.Failf("stream %d direction %d: more values than sent", i, n)
							return
						}
					}
				}
				var err error
				if o.got < len(h.V) {
					var e2 error
					e2 = h.V[o.got].Check(func(v interface{}) error {
						err = one(v)
						return err
					})
					if err == nil && e2 != nil {
						r.Failf("stream %d direction %d: value %d: %v", i, n, o.got, e2)
						return
					}
				} else {
					var s string
					err = one(&s)
					if err == nil {
						r.Failf("stream %d direction %d: an extra value %s after the %d sent", i, n, vkit.Short(s), len(h.V))
						return
					}
				}
				if err != nil {
					o.mu.Lock()
					o.recvEnd, o.ended, o.recvAt = err, true, time.Since(start)
					o.mu.Unlock()
					// later receives end too, at once
					t0 := time.Now()
					var s string
					for _, f := range []func() error{func() error { return st.Recv(&s) }, func() error { return st.RecvContext(context.Background(), &s) }} {
						if e2 := f(); e2 == nil {
							if fault {
								continue // queued values may still come out after the loss was reported
							}
							r.Failf("stream %d direction %d: a value %s after the end (%v)", i, n, vkit.Short(s), err)
							return
						} else if err == io.EOF && !fault && e2 != io.EOF {
							r.Failf("stream %d direction %d: receive after EOF: %v", i, n, e2)
							return
						}
					}
					if time.Since(t0) != 0 {
						r.Failf("stream %d direction %d: a receive after the end waited %v", i, n, time.Since(t0))
					}
					return
				}
				o.mu.Lock()
				o.got++
				o.mu.Unlock()
				if h.Slow > 0 {
					time.Sleep(us(h.Slow))
				}
			}
		}
		ids := make([]map[uint64]int, 0) // per (conn, dir): stream id -> index
		for i := 0; i < c.Conns*2; i++ {
			ids = append(ids, map[uint64]int{})
		}
		var s *server
		var cs []*arpc.Client
		setupFor := func(side int) func(h arpc.Handler) {
			return func(h arpc.Handler) {
				for mc := 0; mc < len(c.Async)*c.Conns; mc++ {
					m, cn := mc%len(c.Async), mc/len(c.Async)
					async := c.Async[m]
					// a stream does not tell its connection: each connection has its own methods
					h.HandleStream(fmt.Sprintf("st%d.%d", m, cn), func(st *arpc.Stream) {
						// a stream handled by side was opened by the other one
						mu.Lock()
						idx := -1
						if k, ok := ids[cn*2+1-side][st.Id()]; ok && c.Streams[k].M == m {
							idx = k
						}
						if idx < 0 {
							ghosts++
							mu.Unlock()
							r.Failf("a stream handler of side %d ran for stream id %d of st%d, which nobody opened", side, st.Id(), m)
							return
						}
						ran[idx]++
						mu.Unlock()
						k := c.Streams[idx]
						wg.Add(2)
						go send(st, idx, k.B, obs[idx][1], 1)
						if async {
							recv(st, idx, k.A, obs[idx][0], 0)
						} else {
							go recv(st, idx, k.A, obs[idx][0], 0)
						}
					}, async)
				}
				h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			}
		}
		s = newServer(c.S, setupFor(1))
		s.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		s.net.DialDelay = func(i int) time.Duration {
			if i < c.Conns {
				return 0
			}
			return 1500 // what is queued at the instant of the loss is dropped meanwhile
		}
		s.start()
		defer s.stop()
		for i := 0; i < c.Conns; i++ {
			cl, err := dial(s.net, c.C, setupFor(0))
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			cs = append(cs, cl)
			defer cl.Stop()
			synctest.Wait()
		}
		start = time.Now()
		for i, k := range c.Streams {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k.At > 0 {
					time.Sleep(us(k.At))
				}
				from := cs[k.Conn]
				if k.Dir == 1 {
					from = s.client(k.Conn)
				}
				mu.Lock()
				st := from.NewStream(fmt.Sprintf("st%d.%d", k.M, k.Conn))
				ids[k.Conn*2+k.Dir][st.Id()] = i
				mu.Unlock()
				wg.Add(2)
				go send(st, i, k.A, obs[i][0], 0)
				go recv(st, i, k.B, obs[i][1], 1)
			}()
		}
		for i := 0; i < c.Calls; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var rsp string
				req := fmt.Sprintf("call-%d", i)
				cn := i % c.Conns
				err := cs[cn].Call("echo", req, &rsp, long())
				if fault && c.Fault.Conn == cn {
					return
				}
				if err != nil || rsp != req {
					r.Failf("call beside the streams: %q %v", rsp, err)
				}
			}()
		}
		if fault {
			// never at the very instant of another operation: what is queued at the instant
			// of the loss may go either way
			time.Sleep(us(c.Fault.At) + 500)
			switch c.Fault.K {
			case "cut":
				s.net.Conns[c.Fault.Conn].Reset()
			case "stop":
				cs[c.Fault.Conn].Stop()
			case "peerstop":
				s.client(c.Fault.Conn).Stop()
			}
			at := time.Since(start)
			// let everything that can end, end; streams of other connections that are
			// never closed are ended by stopping their clients afterwards
			time.Sleep(vkit.Tail(time.Minute))
			synctest.Wait()
			for i, k := range c.Streams {
				// a stream opened at or after the loss may live on the next connection
				if k.Conn != c.Fault.Conn || k.At >= c.Fault.At || r.Failed() {
					continue
				}
				for d := range []c08half{k.A, k.B} {
					o := obs[i][d]
					o.mu.Lock()
					recvStarted := d == 1 || ran[i] > 0
					if recvStarted && !o.ended {
						r.Failf("stream %d direction %d: a receive still waits after the connection was lost (%s at %v)", i, d, c.Fault.K, at)
					}
					o.mu.Unlock()
				}
			}
			if r.Failed() {
				return
			}
			for i := range cs {
				cs[i].Stop()
			}
			s.srv.Stop()
			for i := 0; i < c.Conns; i++ {
				if x := s.client(i); x != nil {
					x.Stop()
				}
			}
		}
		if !waitOr(&wg, long()/4) {
			r.Failf("a stream operation hangs")
			return
		}
		synctest.Wait()
		if r.Failed() {
			return
		}
		for i, k := range c.Streams {
			if fault {
				if ran[i] > 1 {
					r.Failf("the handler of stream %d ran %d times", i, ran[i])
				}
				continue
			}
			if ran[i] != 1 {
				r.Failf("the handler of stream %d ran %d times", i, ran[i])
				return
			}
			for d, h := range []c08half{k.A, k.B} {
				o := obs[i][d]
				if o.got != len(h.V) && h.Early == 0 {
					r.Failf("stream %d direction %d: %d of %d values arrived (end: %v)", i, d, o.got, len(h.V), o.recvEnd)
					return
				}
				if o.recvEnd != io.EOF {
					r.Failf("stream %d direction %d: the receiver ended with %v, want EOF", i, d, o.recvEnd)
					return
				}
				vals += o.got
			}
		}
		// every stream frame on the wire carries the method of its stream
		for cn, cc := range s.net.Conns {
			for side, b := range [][]byte{cc.Sent(), cc.Other().Sent()} {
				fs, err := vkit.DecodeFrames(b)
				if err != nil {
					if !fault {
						r.Failf("bytes on the wire: %v", err)
					}
					continue
				}
				for _, f := range fs {
					if f.Cmd&^(vkit.StreamLocal|vkit.StreamEOF) != vkit.CStream {
						continue
					}
					opener := side
					if f.Cmd&vkit.StreamLocal == 0 {
						opener = 1 - side
					}
					if cn >= c.Conns {
						k, ok := ids[c.Fault.Conn*2+opener][f.Seq]
						if !ok || c.Streams[k].At < c.Fault.At {
							r.Failf("a stream frame %v of the lost connection was sent on the new connection", f)
						}
						continue
					}
					k, ok := ids[cn*2+opener][f.Seq]
					if !ok {
						r.Failf("a stream frame %v of a stream nobody opened", f)
						return
					}
					if want := fmt.Sprintf("st%d.%d", c.Streams[k].M, cn); f.Method != want {
						r.Failf("stream frame %v carries method %q, want %q", f, f.Method, want)
						return
					}
				}
			}
		}
	})
	if vals >= 2 || (fault && len(c.Streams) > 0) {
		r.NonTrivial()
	}
	if fault {
		r.Class("fault=%s", c.Fault.K)
	}
	r.Class("streams=%d", len(c.Streams))
}

// ---- receive with a deadline ----

type c08ctx struct {
	Role  string
	EP    vkit.EP
	Local bool
	Vals  []int // us at which the peer sends values
	Recvs []int // us each receive waits at most
	EOFAt int   // us, 0: never
}

func genC08ctx(rt *rapid.T) c08ctx {
	c := c08ctx{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Local: vkit.Bool(rt, "local")}
	n := vkit.Int(rt, 0, 4, "vals")
	t := 0
	for i := 0; i < n; i++ {
		t += vkit.Pick(rt, "dt", 0, 4, 10)
		c.Vals = append(c.Vals, t)
	}
	if vkit.Chance(rt, 60, "eof") {
		c.EOFAt = t + vkit.Pick(rt, "eofdt", 2, 20)
	}
	m := vkit.Int(rt, 1, 6, "recvs")
	for i := 0; i < m; i++ {
		c.Recvs = append(c.Recvs, vkit.Pick(rt, "rd", 1, 3, 9, 21))
	}
	return c
}

func runC08ctx(r *vkit.R, c c08ctx) {
	timeouts, eofs := 0, 0
	r.Bubble(func() {
		got := make(chan *arpc.Stream, 4)
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.HandleStream("st", func(s *arpc.Stream) { got <- s })
		})
		defer e.stop()
		var st *arpc.Stream
		id := uint64(77)
		if c.Local {
			st = e.cli.NewStream("st")
			id = st.Id()
		}
		frame := func(data string, eof bool) []byte {
			f := vkit.Frame{Cmd: vkit.CStream, Method: "st", Seq: id, Data: []byte(data)}
			if !c.Local {
				f.Cmd |= vkit.StreamLocal
			}
			if eof {
				f.Cmd |= vkit.StreamEOF
			}
			return f.Encode()
		}
		if !c.Local {
			e.raw.Write(frame("hello", false))
			st = <-got
			var s string
			if err := st.Recv(&s); err != nil || s != "hello" {
				r.Failf("first value: %q %v", s, err)
				return
			}
		}
		start := time.Now()
		done := make(chan struct{})
		defer close(done)
		go func() {
			for i, v := range c.Vals {
				time.Sleep(time.Until(start.Add(us(2 * v))))
				e.raw.Write(frame(fmt.Sprintf("v%d", i), false))
			}
			if c.EOFAt > 0 {
				time.Sleep(time.Until(start.Add(us(2 * c.EOFAt))))
				e.raw.Write(frame("", true))
			}
		}()
		next := 0
		for i, d := range c.Recvs {
			now := time.Since(start)
			// receive deadlines fall on odd microseconds... avoid ties with arrivals
			dl := now + us(2*d)
			if (dl/us(1))%2 == 0 {
				dl += us(1)
			}
			ctx, cancel := context.WithDeadline(context.Background(), start.Add(dl))
			var s string
			err := st.RecvContext(ctx, &s)
			cancel()
			at := time.Since(start)
			arr := time.Duration(-1)
			if next < len(c.Vals) {
				arr = us(2 * c.Vals[next])
			}
			switch {
			case arr >= 0 && arr <= dl:
				want := arr
				if now > want {
					want = now
				}
				if err != nil || s != fmt.Sprintf("v%d", next) || at != want {
					r.Failf("receive %d: %q %v at %v, want v%d at %v", i, s, err, at, next, want)
					return
				}
				next++
			case arr < 0 && c.EOFAt > 0 && us(2*c.EOFAt) <= dl:
				want := us(2 * c.EOFAt)
				if now > want {
					want = now
				}
				if err != io.EOF || at != want {
					r.Failf("receive %d: %q %v at %v, want EOF at %v", i, s, err, at, want)
					return
				}
				eofs++
			default:
				if err != arpc.ErrTimeout || at != dl {
					r.Failf("receive %d: %q %v at %v, want a timeout at %v", i, s, err, at, dl)
					return
				}
				timeouts++
			}
		}
	})
	if timeouts > 0 || eofs > 0 {
		r.NonTrivial()
	}
}

func init() {
	vkit.Register("C08", "duplex", vkit.Opts{Units: true, Quick: 40000, Rule: "at least two values crossed the streams of the case"}, genC08(false), runC08)
	vkit.Register("C08", "fault", vkit.Opts{Units: true, Quick: 40000, Rule: "a connection with streams was lost or stopped"}, genC08(true), runC08)
	vkit.Register("C08", "deadline", vkit.Opts{Units: true, Quick: 20000, Rule: "a receive ended by its deadline or by EOF"}, genC08ctx, runC08ctx)
}
