package core

import (
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C02, part reconnect: a connection is lost and replaced while calls in both
// directions are in progress. A call completes with its own response or fails.

type c02rc struct {
	S, C  vkit.EP
	Async []bool
	Calls []c02call
	Lose  []int // absolute units, growing
	K     string
	Fast  bool `json:",omitempty"` // a redial takes no time
}

// lateCodec spends time marshalling replies.
type lateCodec struct{}

type lateReply struct {
	s   string
	mar int
}

func (lateCodec) Marshal(v interface{}) ([]byte, error) {
	x := v.(*lateReply)
	time.Sleep(us(x.mar))
	return []byte(x.s), nil
}
func (lateCodec) Unmarshal(b []byte, v interface{}) error { return fmt.Errorf("not used") }

func genC02rc(rt *rapid.T) c02rc {
	c := c02rc{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), K: vkit.Pick(rt, "k", "close", "reset")}
	c.S.Pool = vkit.Chance(rt, 25, "spool")
	c.C.Pool = vkit.Chance(rt, 25, "cpool")
	nm := vkit.Int(rt, 1, 2, "methods")
	for i := 0; i < nm; i++ {
		c.Async = append(c.Async, vkit.Chance(rt, 80, "async"))
	}
	c.Fast = vkit.Chance(rt, 40, "fast")
	t := 0
	for i := vkit.Int(rt, 1, 3, "losses"); i > 0; i-- {
		t += vkit.Int(rt, 2, 30, "lose")
		c.Lose = append(c.Lose, t)
	}
	for i := vkit.Int(rt, 2, 14, "calls"); i > 0; i-- {
		c.Calls = append(c.Calls, c02call{
			Dir: vkit.Pick(rt, "dir", 0, 1, 1), K: vkit.Pick(rt, "k", "call", "callctx", "async"), M: vkit.Int(rt, 0, nm-1, "m"),
			At: vkit.Int(rt, 0, t+15, "at"), Think: vkit.Pick(rt, "think", 0, 1, 5, 10, 20, 40), N: vkit.Int(rt, 0, 40, "n"),
			Mar: vkit.Pick(rt, "mar", 0, 0, 0, 1, 4, 9),
		})
	}
	return c
}

func runC02rc(r *vkit.R, c c02rc) {
	r.Bubble(func() {
		var mu sync.Mutex
		ran := map[string]int{}
		late := 0
		setup := func(h arpc.Handler) {
			for i, async := range c.Async {
				h.Handle(fmt.Sprintf("m%d", i), func(ctx *arpc.Context) {
					req := string(ctx.Body())
					p := strings.SplitN(req, "|", 4)
					mu.Lock()
					ran[p[0]]++
					mu.Unlock()
					var think int
					fmt.Sscanf(p[1], "%d", &think)
					time.Sleep(us(think) + 300)
					var mar int
					fmt.Sscanf(p[2], "%d", &mar)
					var reply interface{} = "re:" + ctx.Message.Method() + ":" + req
					if mar > 0 {
						reply = &lateReply{reply.(string), mar}
					}
					if ctx.Write(reply) != nil {
						mu.Lock()
						late++
						mu.Unlock()
					}
				}, async)
			}
		}
		s := newServer(c.S, setup)
		s.net.DialDelay = func(i int) time.Duration {
			if i == 0 || c.Fast {
				return 0
			}
			return us(1) + 500
		}
		var conns []*vkit.Conn
		s.net.OnConn = func(a, b *vkit.Conn) { mu.Lock(); conns = append(conns, b); mu.Unlock() }
		s.srv.Codec = lateCodec{}
		s.start()
		cli, err := dial(s.net, c.C, setup)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		cli.Codec = lateCodec{}
		synctest.Wait()
		var wg sync.WaitGroup
		start := time.Now()
		ok := 0
		for i, k := range c.Calls {
			wg.Add(1)
			go func() {
				time.Sleep(us(k.At))
				from := cli
				if k.Dir == 1 {
					s.mu.Lock()
					from = s.clients[len(s.clients)-1]
					s.mu.Unlock()
				}
				req := fmt.Sprintf("%d|%d|%d|%s", i, k.Think, k.Mar, vkit.Blob{N: k.N, S: i}.String())
				m := fmt.Sprintf("m%d", k.M)
				want := "re:" + m + ":" + req
				judge := func(got string, err error) {
					if err == nil && got != want {
						r.Failf("call %d (direction %d, at %v) completed with %s, want %s", i, k.Dir, us(k.At), vkit.Short(got), vkit.Short(want))
					}
					if err == nil {
						mu.Lock()
						ok++
						mu.Unlock()
					}
				}
				if k.K != "async" {
					rsp := ""
					err := from.Call(m, req, &rsp, us(500))
					judge(rsp, err)
					wg.Done()
					return
				}
				n := 0
				if err := from.CallAsync(m, req, func(ctx *arpc.Context, e error) {
					mu.Lock()
					n++
					x := n
					mu.Unlock()
					if x > 1 {
						r.Failf("call %d: callback invoked %d times", i, x)
						return
					}
					got := ""
					if e == nil {
						e = ctx.Bind(&got)
					}
					judge(got, e)
					wg.Done()
				}, us(500)); err != nil {
					wg.Done()
				}
			}()
		}
		for _, at := range c.Lose {
			time.Sleep(time.Until(start.Add(us(at) + 700)))
			mu.Lock()
			b := conns[len(conns)-1]
			mu.Unlock()
			if c.K == "close" {
				b.Close()
			} else {
				b.Reset()
			}
		}
		if !waitOr(&wg, us(2000)) {
			r.Failf("some calls never completed")
		}
		time.Sleep(us(600))
		synctest.Wait()
		// the last connection works
		var rsp string
		want := "re:m0:x|0|0|"
		if err := cli.Call("m0", "x|0|0|", &rsp, us(500)); err != nil || rsp != want {
			r.Failf("call on the last connection: %q, %v", rsp, err)
		}
		rsp = ""
		if err := s.clients[len(s.clients)-1].Call("m0", "x|0|0|", &rsp, us(500)); err != nil || rsp != want {
			r.Failf("server's call on the last connection: %q, %v", rsp, err)
		}
		mu.Lock()
		delete(ran, "x")
		for id, n := range ran {
			if n > 1 {
				r.Failf("the handler ran %d times for call %s", n, id)
			}
		}
		if late > 0 {
			r.NonTrivial()
			r.Class("late-response")
		}
		if ok > 0 {
			r.Class("some-completed")
		}
		mu.Unlock()
		cli.Stop()
		s.stop()
	})
}

func init() {
	vkit.Register("C02", "reconnect", vkit.Opts{Units: true, Quick: 40000, Rule: "a handler answered after the connection of its request was gone"}, genC02rc, runC02rc)
}
