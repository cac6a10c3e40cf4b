package core

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// ---- parallel: many goroutines open streams and call at once ----

type c08par struct {
	EP   vkit.EP
	G    int   // goroutines
	N    int   // rounds of each
	Mix  []int // what a round does, cyclic: 0 stream, 1 call, 2 async call, 3 notify
	Echo int   // every so many streams are used for an echo, 0 none
}

func genC08par(rt *rapid.T) c08par {
	c := c08par{EP: vkit.GenEP(rt, "ep"), G: vkit.Int(rt, 2, 8, "g"), N: vkit.Pick(rt, "n", 20, 60, 150), Echo: vkit.Pick(rt, "echo", 0, 10, 30)}
	c.Mix = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}), 1, 12).Draw(rt, "mix")
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	c.EP.StreamQ = vkit.Pick(rt, "sq", 0, 1)
	return c
}

func runC08par(r *vkit.R, c c08par) {
	r.Bubble(func() {
		s := newServer(c.EP, func(h arpc.Handler) {
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			h.HandleStream("st", func(st *arpc.Stream) {
				defer st.CloseRecv()
				v := ""
				for st.Recv(&v) == nil {
					st.Send("re:" + v)
				}
				st.CloseSendContext(context.Background())
			}, true)
		}).start()
		cli, err := dial(s.net, vkit.EP{}, nil)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		var mu sync.Mutex
		ids := map[uint64]string{}
		bad := func(format string, a ...interface{}) { mu.Lock(); r.Failf(format, a...); mu.Unlock() }
		ready, streams := int32(0), 0
		var wg, cbs sync.WaitGroup
		for g := 0; g < c.G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				mine := map[uint64]string{}
				var sts []*arpc.Stream
				for i := 0; i < c.N; i++ {
					what := fmt.Sprintf("%d.%d", g, i)
					switch c.Mix[(i+g)%len(c.Mix)] {
					case 0:
						st := cli.NewStream("st")
						if o, dup := mine[st.Id()]; dup {
							bad("streams %s and %s of one connection share the id %d", o, what, st.Id())
						}
						mine[st.Id()] = what
						if c.Echo > 0 && i%c.Echo == 0 {
							sts = append(sts, st)
						}
					case 1:
						rsp := ""
						if err := cli.Call("echo", what, &rsp, time.Hour); err != nil || rsp != what {
							bad("call %s: %q, %v", what, rsp, err)
						}
					case 2:
						cbs.Add(1)
						if err := cli.CallAsync("echo", what, func(ctx *arpc.Context, err error) {
							rsp := ""
							if err == nil {
								err = ctx.Bind(&rsp)
							}
							if err != nil || rsp != what {
								bad("async call %s: %q, %v", what, rsp, err)
							}
							cbs.Done()
						}, time.Hour); err != nil {
							cbs.Done()
							bad("async call %s: %v", what, err)
						}
					case 3:
						cli.Notify("echo", what, time.Hour)
					}
				}
				for k, st := range sts {
					v := ""
					want := fmt.Sprintf("%d/%d", g, k)
					if err := st.Send(want); err != nil {
						bad("send on stream %d: %v", st.Id(), err)
						continue
					}
					if err := st.Recv(&v); err != nil || v != "re:"+want {
						bad("stream %d: got %q (%v), want %q", st.Id(), v, err, "re:"+want)
					}
					st.CloseSend()
					st.CloseRecv()
				}
				mu.Lock()
				for id, what := range mine {
					if o, dup := ids[id]; dup {
						r.Failf("streams %s and %s of one connection share the id %d", o, what, id)
					}
					ids[id] = what
				}
				streams += len(mine)
				mu.Unlock()
			}()
		}
		if !waitOr(&wg, 24*time.Hour) || !waitOr(&cbs, 24*time.Hour) {
			bad("some operation hangs")
		}
		synctest.Wait()
		if streams >= 2 {
			r.NonTrivial()
		}
		cli.Stop()
		s.stop()
		time.Sleep(time.Hour)
	})
}

// ---- fullq: sends against a peer that has stopped reading ----

type c08send struct {
	K  string // send, sendctx, sendwith, closectx (SendAndCloseContext), closewith, eofctx (CloseSendContext)
	At int
	To int  // units the context lasts (ctx kinds)
	Ca bool // cancelled instead of a deadline
}

type c08full struct {
	Role  string
	EP    vkit.EP
	Until int // units after which the peer reads again
	Stop  bool
	S     []c08send
}

func genC08full(rt *rapid.T) c08full {
	c := c08full{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Until: vkit.Int(rt, 1, 12, "until")*10 + 7, Stop: vkit.Chance(rt, 25, "stop")}
	c.EP.SyncWrite = false
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	c.EP.SendQ = vkit.Pick(rt, "q", 1, 1, 2)
	for i := vkit.Int(rt, 2, 9, "n"); i > 0; i-- {
		c.S = append(c.S, c08send{K: vkit.Pick(rt, "k", "send", "sendctx", "sendctx", "sendwith", "closectx", "closectx", "closewith", "eofctx", "eof", "sendclose"), At: vkit.Int(rt, 0, 9, "at") * 10, To: vkit.Int(rt, 0, 9, "to")*10 + 3, Ca: vkit.Chance(rt, 25, "cancel")})
	}
	return c
}

func runC08full(r *vkit.R, c c08full) {
	waited := 0
	r.Bubble(func() {
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, nil)
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		var mu sync.Mutex
		got := map[string]int{}
		eofs := map[uint64]int{}
		sts := make([]*arpc.Stream, len(c.S))
		go func() {
			for {
				f, err := vkit.ReadFrame(e.raw)
				if err != nil {
					return
				}
				mu.Lock()
				if len(f.Data) > 0 {
					got[string(f.Data)]++
					if eofs[f.Seq] > 0 {
						r.Failf("a value came after the end of the stream")
					}
				}
				if f.Cmd&vkit.StreamEOF != 0 {
					eofs[f.Seq]++
				}
				mu.Unlock()
			}
		}()
		e.own.StallWrites(true)
		var wg sync.WaitGroup
		type res struct {
			b, e time.Duration
			err  error
			done bool
		}
		out := make([]res, len(c.S))
		for i, s := range c.S {
			wg.Add(1)
			go func() {
				defer wg.Done()
				st := e.cli.NewStream("st")
				sts[i] = st
				time.Sleep(us(s.At))
				ctx, cancel := context.Background(), context.CancelFunc(func() {})
				if s.Ca {
					ctx, cancel = context.WithCancel(ctx)
					go func() { time.Sleep(us(s.To)); cancel() }()
				} else {
					ctx, cancel = context.WithTimeout(ctx, us(s.To))
				}
				v := fmt.Sprintf("v%d", i)
				b := now()
				var err error
				switch s.K {
				case "send":
					err = st.Send(v)
				case "sendctx":
					err = st.SendContext(ctx, v)
				case "sendwith":
					err = st.SendWith(ctx, v)
				case "closectx":
					err = st.SendAndCloseContext(ctx, v)
				case "closewith":
					err = st.SendAndCloseWith(ctx, v)
				case "eofctx":
					st.CloseSendContext(ctx)
				case "eof":
					st.CloseSend()
				case "sendclose":
					err = st.SendAndClose(v)
				}
				mu.Lock()
				out[i] = res{b, now(), err, true}
				mu.Unlock()
				cancel()
			}()
		}
		time.Sleep(us(c.Until))
		end := now()
		if c.Stop {
			e.cli.Stop()
		} else {
			e.own.StallWrites(false)
		}
		waitOr(&wg, us(10000)+time.Minute)
		time.Sleep(us(1000) + time.Second)
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		for i, s := range c.S {
			o := out[i]
			lim := time.Duration(-1)
			switch s.K {
			case "send", "sendclose":
			case "eof":
				lim = o.b // does not wait
			default:
				lim = o.b + us(s.To)
			}
			v := fmt.Sprintf("v%d", i)
			switch {
			case !o.done:
				r.Failf("%s %d never returned", s.K, i)
			case lim >= 0 && o.e > lim:
				r.Failf("%s %d began at %v, its context ended at %v, it returned at %v (%v)", s.K, i, o.b, lim, o.e, o.err)
			case o.err != nil && got[v] > 0:
				r.Failf("%s %d was refused (%v) but its value was sent", s.K, i, o.err)
			case o.err == nil && got[v] != 1 && !c.Stop && s.K != "eofctx" && s.K != "eof":
				r.Failf("%s %d was accepted, its value arrived %d times", s.K, i, got[v])
			case o.err != nil && o.e != lim && !(c.Stop && o.e >= end):
				r.Failf("%s %d failed with %v at %v: context end %v, stop %v", s.K, i, o.err, o.e, lim, c.Stop)
			case o.e > end && !c.Stop && o.b < end:
				r.Failf("%s %d returned at %v, the peer had resumed reading at %v", s.K, i, o.e, end)
			}
			if n := eofs[sts[i].Id()]; (s.K == "eof" || s.K == "sendclose" && o.err == nil) && n != 1 && !c.Stop {
				r.Failf("%s %d: the peer was told of the end of the stream %d times", s.K, i, n)
			}
			if o.e > o.b {
				waited++
			}
		}
		if !c.Stop && !r.Failed() {
			// whatever became of them: a stream whose sending side is closed has told
			// the peer so, and one that is open can be closed
			for i, st := range sts {
				v := fmt.Sprintf("w%d", i)
				mu.Unlock()
				err := st.Send(v)
				synctest.Wait()
				mu.Lock()
				switch n := eofs[st.Id()]; {
				case err == nil && (got[v] != 1 || n != 0):
					r.Failf("%s %d ended with %v; a later value was accepted and arrived %d times, end of stream %d times", c.S[i].K, i, out[i].err, got[v], n)
				case err != nil && n != 1:
					r.Failf("%s %d ended with %v; sending now fails (%v), but the peer was told of the end %d times", c.S[i].K, i, out[i].err, err, n)
				}
				mu.Unlock()
				st.CloseSend()
				synctest.Wait()
				err = st.Send(v)
				synctest.Wait()
				mu.Lock()
				if n := eofs[st.Id()]; n != 1 || err != arpc.ErrStreamClosedSend {
					r.Failf("%s %d ended with %v; closed again, the peer was told of the end %d times and a further send returned %v", c.S[i].K, i, out[i].err, n, err)
				}
			}
		}
		e.own.StallWrites(false)
		e.stop()
	})
	if waited > 0 {
		r.NonTrivial()
	}
}

func init() {
	vkit.Register("C08", "parallel", vkit.Opts{Quick: 1200, Rule: "at least two streams were opened on one connection"}, genC08par, runC08par)
	vkit.Register("C08", "fullq", vkit.Opts{Units: true, Quick: 12000, Rule: "a send had to wait for room in the queue"}, genC08full, runC08full)
}
