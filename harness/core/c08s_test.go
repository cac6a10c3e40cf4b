package core

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C08, part stale: the connection is lost, and perhaps back again, while a
// value is being marshalled. A stream ends with its connection: such a value
// is refused, and nothing of it is put on the next connection.

type c08sop struct {
	K   string // local, remote, localclose, remoteclose, notify, notifyctx
	At  int
	Mar int
}

type c08stale struct {
	EP   vkit.EP
	Lose int
	Down int
	How  string
	Ops  []c08sop
}

func genC08stale(rt *rapid.T) c08stale {
	c := c08stale{EP: vkit.GenEP(rt, "ep"), Lose: vkit.Int(rt, 2, 30, "lose"), Down: vkit.Int(rt, 1, 20, "down"), How: vkit.Pick(rt, "how", "close", "reset")}
	for i := vkit.Int(rt, 1, 6, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, c08sop{K: vkit.Pick(rt, "k", "local", "local", "remote", "localclose", "remoteclose", "notify", "notifyctx"), At: vkit.Int(rt, 0, 50, "at"), Mar: vkit.Int(rt, 0, 40, "mar")})
	}
	return c
}

func runC08stale(r *vkit.R, c c08stale) {
	r.Bubble(func() {
		type res struct {
			err        error
			start, end time.Duration
			done       bool
		}
		out := make([]res, len(c.Ops))
		var mu sync.Mutex
		begin := time.Now()
		now := func() time.Duration { return time.Since(begin) }
		lost := us(c.Lose) + 300
		back := lost + us(c.Down) + 300
		var wg sync.WaitGroup
		do := func(i int, st *arpc.Stream, cli *arpc.Client) {
			defer wg.Done()
			o := c.Ops[i]
			time.Sleep(begin.Add(us(o.At)).Sub(time.Now()))
			v := &lateReply{fmt.Sprintf("op%d", i), o.Mar}
			x := res{start: now()}
			switch o.K {
			case "local", "remote":
				x.err = st.Send(v)
			case "localclose", "remoteclose":
				x.err = st.SendAndClose(v)
			case "notify":
				x.err = cli.Notify(fmt.Sprintf("n%d", i), v, arpc.TimeForever)
			case "notifyctx":
				x.err = cli.NotifyContext(context.Background(), fmt.Sprintf("n%d", i), v)
			}
			x.end, x.done = now(), true
			mu.Lock()
			out[i] = x
			mu.Unlock()
		}
		e := newEndpoint("dial", c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			for i := range c.Ops {
				h.HandleStream(fmt.Sprintf("r%d", i), func(st *arpc.Stream) { do(i, st, nil) }, true)
			}
		})
		e.cli.Codec = lateCodec{}
		begin = time.Now()
		seen := []map[string]int{{}, {}} // per connection
		watch := func(k int, conn *vkit.Conn) {
			for {
				f, err := vkit.ReadFrame(conn)
				if err != nil {
					return
				}
				mu.Lock()
				seen[k][string(f.Data)]++
				if k == 1 && strings.HasPrefix(f.Method, "r") || k == 1 && strings.HasPrefix(f.Method, "l") {
					r.Failf("the next connection got %v, of a stream of the connection before", f)
				}
				mu.Unlock()
			}
		}
		go watch(0, e.raw)
		e.net.DialDelay = func(int) time.Duration { return us(c.Down) + 300 }
		e.net.OnConn = func(a, b *vkit.Conn) { go watch(1, b) }
		for i, o := range c.Ops {
			wg.Add(1)
			switch o.K {
			case "local", "localclose":
				go do(i, e.cli.NewStream(fmt.Sprintf("l%d", i)), nil)
			case "remote", "remoteclose":
				e.raw.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(1000 + i), Method: fmt.Sprintf("r%d", i), Data: []byte("hello")}.Encode())
			default:
				go do(i, nil, e.cli)
			}
		}
		time.Sleep(lost - now())
		if c.How == "close" {
			e.raw.Close()
		} else {
			e.raw.Reset()
		}
		if !waitOr(&wg, us(1000)+time.Minute) {
			r.Failf("a send hangs")
		}
		time.Sleep(us(1000))
		synctest.Wait()
		mu.Lock()
		for i, x := range out {
			o := c.Ops[i]
			ready := x.start + us(o.Mar)
			id := fmt.Sprintf("op%d", i)
			stream := o.K != "notify" && o.K != "notifyctx"
			n0, n1 := seen[0][id], seen[1][id]
			if n0+n1 > 1 {
				r.Failf("op %d (%s) was put on the wire %d times", i, o.K, n0+n1)
			}
			if x.err != nil && n0+n1 > 0 {
				r.Failf("op %d (%s) was refused (%v) and put on the wire", i, o.K, x.err)
			}
			if x.end > ready {
				r.Failf("op %d (%s) waited %v after its value was ready", i, o.K, x.end-ready)
			}
			switch {
			case ready < lost:
				if x.err != nil || n0 != 1 {
					r.Failf("op %d (%s): %v, %d times on the wire, before anything was lost", i, o.K, x.err, n0)
				}
			case stream:
				if x.err == nil && x.start > lost {
					r.Failf("op %d (%s): a value of a stream of the lost connection was accepted", i, o.K)
				}
				if x.start < lost {
					r.NonTrivial()
					r.Class("lost-while-marshalling")
				}
			case x.start > lost && x.start < back:
				if x.err == nil {
					r.Failf("op %d (%s): accepted while there was no connection", i, o.K)
				}
			case ready > back:
				if x.err != nil || n1 != 1 {
					r.Failf("op %d (%s): %v, %d times on the wire, with a new connection", i, o.K, x.err, n1)
				}
				r.Class("sent-on-the-next")
			}
		}
		mu.Unlock()
		e.stop()
		time.Sleep(time.Minute)
	})
}

func init() {
	vkit.Register("C08", "stale", vkit.Opts{Units: true, Quick: 16000, Rule: "the connection was lost while a value of a stream was being marshalled"}, genC08stale, runC08stale)
}
