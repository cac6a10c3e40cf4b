package core

import (
	"context"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C02, long histories: one connection carries many thousands of calls, notifications
// and streams, so that whatever is counted, numbered or reused is so many times.

type c02lw struct {
	Dir int      // 0: client -> server, 1: server -> client
	Ks  []string // what it does in turn: call, callctx, async, notify, stream
}

type c02long struct {
	S, C vkit.EP
	N    int // operations of all workers
	Ws   []c02lw
}

func genC02long(rt *rapid.T) c02long {
	c := c02long{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c")}
	c.S.Pool = vkit.Chance(rt, 25, "spool")
	c.C.Pool = vkit.Chance(rt, 25, "cpool")
	c.N = vkit.Pick(rt, "n", 300, 2000, 10000, 70000)
	for i := vkit.Int(rt, 1, 5, "ws"); i > 0; i-- {
		w := c02lw{Dir: vkit.Int(rt, 0, 1, "dir")}
		for j := vkit.Int(rt, 1, 5, "ks"); j > 0; j-- {
			w.Ks = append(w.Ks, vkit.Pick(rt, "k", "call", "call", "callctx", "async", "notify", "stream"))
		}
		c.Ws = append(c.Ws, w)
	}
	return c
}

func runC02long(r *vkit.R, c c02long) {
	var done int64
	r.Bubble(func() {
		var notes, streams int64
		setup := func(h arpc.Handler) {
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write("re:" + string(ctx.Body())) }, false)
			h.Handle("note", func(ctx *arpc.Context) { atomic.AddInt64(&notes, 1) }, false)
			h.HandleStream("st", func(s *arpc.Stream) {
				atomic.AddInt64(&streams, 1)
				var v, last string
				for s.Recv(&v) == nil {
					last = v
				}
				s.SendAndClose("re:" + last)
				s.CloseRecv()
			}, true)
		}
		s := newServer(c.S, setup)
		s.start()
		defer s.stop()
		cli, err := dial(s.net, c.C, setup)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		defer cli.Stop()
		synctest.Wait()
		var wg sync.WaitGroup
		var sentNotes, sentStreams int64
		var bad int32
		for wi, w := range c.Ws {
			from := cli
			if w.Dir == 1 {
				from = s.client(0)
			}
			if from == nil {
				r.Failf("server has no client")
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < c.N/len(c.Ws) && atomic.LoadInt32(&bad) == 0; i++ {
					req := fmt.Sprintf("%d.%d", wi, i)
					want := "re:" + req
					var rsp string
					var err error
					k := w.Ks[i%len(w.Ks)]
					switch k {
					case "call":
						err = from.Call("echo", req, &rsp, long())
					case "callctx":
						err = from.CallContext(context.Background(), "echo", req, &rsp)
					case "async":
						ch := make(chan string, 2)
						err = from.CallAsync("echo", req, func(ctx *arpc.Context, e error) {
							if e != nil {
								ch <- "error " + e.Error()
								return
							}
							ch <- string(ctx.Body())
						}, long())
						if err == nil {
							rsp = <-ch
						}
					case "notify":
						if err = from.Notify("note", req, long()); err == nil {
							atomic.AddInt64(&sentNotes, 1)
						}
						rsp = want
					case "stream":
						st := from.NewStream("st")
						if err = st.Send("x"); err == nil {
							err = st.SendAndClose(req)
						}
						if err == nil {
							atomic.AddInt64(&sentStreams, 1)
							if err = st.Recv(&rsp); err == nil {
								var v string
								if e := st.Recv(&v); e != io.EOF {
									err = fmt.Errorf("after the last value Recv gave %q, %v", v, e)
								}
							}
						}
						st.CloseRecv()
					}
					if err != nil || rsp != want {
						if atomic.AddInt32(&bad, 1) == 1 {
							r.Failf("operation %d of worker %d (%s) on a healthy connection: got %s, %v; want %s", i, wi, k, vkit.Short(rsp), err, want)
						}
						return
					}
					atomic.AddInt64(&done, 1)
				}
			}()
		}
		if !waitOr(&wg, 4*long()) {
			r.Failf("some operations never completed")
			return
		}
		if atomic.LoadInt32(&bad) != 0 {
			return
		}
		synctest.Wait()
		if a, b := atomic.LoadInt64(&notes), atomic.LoadInt64(&sentNotes); a != b {
			r.Failf("%d notifications were sent, %d were handled", b, a)
		}
		if a, b := atomic.LoadInt64(&streams), atomic.LoadInt64(&sentStreams); a != b {
			r.Failf("%d streams were opened, %d handlers ran", b, a)
		}
	})
	if done >= 1000 {
		r.NonTrivial()
	}
	r.Class("operations>=%d", map[bool]int{true: 65537, false: 1}[done > 65536])
}

func init() {
	vkit.Register("C02", "long", vkit.Opts{Quick: 48, Rule: "a thousand operations or more on one connection"}, genC02long, runC02long)
}
