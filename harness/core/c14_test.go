package core

import (
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C14: the server's load and its set of clients are exact.

type c14op struct {
	K    string
	N    int `json:",omitempty"`
	Pick int `json:",omitempty"`
	How  string
	Gap  int  `json:",omitempty"` // time units until the next operation; 0: at once, without settling
	Look bool // compare with the model afterwards
}

type c14case struct {
	EP  vkit.EP
	Max int
	Ops []c14op
}

func genC14(rt *rapid.T) c14case {
	c := c14case{EP: vkit.GenEP(rt, "ep"), Max: vkit.Pick(rt, "max", 0, 0, -1, 1, 1, 2, 3, 5)}
	for i := vkit.Int(rt, 2, 24, "ops"); i > 0; i-- {
		o := c14op{K: vkit.Pick(rt, "k", "conn", "conn", "conn", "conn", "end", "end", "end", "req", "req", "temp", "fatal", "stop", "dead", "end2"),
			N: vkit.Int(rt, 1, 4, "n"), Pick: vkit.Int(rt, 0, 9, "pick"), Gap: vkit.Pick(rt, "gap", 0, 0, 1, 3, 30), Look: vkit.Bool(rt, "look")}
		if (o.K == "fatal" || o.K == "stop") && !vkit.Chance(rt, 40, "really") {
			o.K = "conn"
		}
		o.How = vkit.Pick(rt, "how", "close", "reset", "stop", "oversize", "handlerstop", "badcmd")
		c.Ops = append(c.Ops, o)
	}
	return c
}

type c14conn struct {
	raw  *vkit.Conn
	got  atomic.Int32 // responses seen
	gone atomic.Bool  // the library's end was seen closed
	dead bool         // the model considers it ended
	cli  *arpc.Client
}

func runC14(r *vkit.R, c c14case) {
	r.Bubble(func() {
		var mu sync.Mutex
		var busy, handled int32
		up, down := map[*arpc.Client]int{}, map[*arpc.Client]int{}
		conns := []*c14conn{}
		max := c.Max
		h := c.EP.NewHandler()
		h.SetMaxBodyLen(1000)
		h.HandleConnected(func(cl *arpc.Client) {
			mu.Lock()
			up[cl]++
			mu.Unlock()
		})
		h.HandleDisconnected(func(cl *arpc.Client) {
			mu.Lock()
			down[cl]++
			mu.Unlock()
		})
		h.Handle("slow", func(ctx *arpc.Context) {
			atomic.AddInt32(&busy, 1)
			atomic.AddInt32(&handled, 1)
			time.Sleep(us(10))
			ctx.Write("ok")
			atomic.AddInt32(&busy, -1)
		}, false)
		h.Handle("quick", func(ctx *arpc.Context) { atomic.AddInt32(&handled, 1); ctx.Write("ok") }, false)
		h.Handle("stop", func(ctx *arpc.Context) { ctx.Client.Stop(); ctx.Client.Stop() }, false)
		srv := arpc.NewServer()
		srv.Handler = h
		srv.MaxLoad = int64(max)
		var n *vkit.Net
		served := make(chan error, 8)
		start := func() {
			n = vkit.NewNet("s")
			ln := n
			go func() { served <- srv.Serve(ln) }()
			synctest.Wait()
		}
		start()
		seq := 0
		dialed := 0
		open := func(dead bool) *c14conn {
			x := &c14conn{raw: n.DialConn()}
			if x.raw == nil {
				return nil
			}
			dialed++
			if dead {
				x.dead = true
				x.raw.Reset()
			}
			conns = append(conns, x)
			go func() {
				for {
					f, err := vkit.ReadFrame(x.raw)
					if err != nil {
						x.gone.Store(true)
						return
					}
					if f.Cmd == vkit.CResponse && string(f.Data) == "ok" {
						x.got.Add(1)
					}
				}
			}()
			return x
		}
		send := func(x *c14conn, m string) {
			seq++
			x.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(seq), Method: m, Data: []byte("x")}.Encode())
		}
		// the client object of a connection, by its connection
		client := func(x *c14conn) (cl *arpc.Client) {
			srv.ForEach(func(y *arpc.Client) {
				if y.Conn == x.raw.Other() {
					cl = y
				}
			})
			return
		}
		live := func() (xs []*c14conn) {
			for _, x := range conns {
				if !x.dead && !x.raw.Other().Closed() {
					xs = append(xs, x)
				}
			}
			return
		}
		look := func(when string) bool {
			time.Sleep(us(200))
			time.Sleep(time.Second)
			synctest.Wait()
			set := map[interface{}]int{}
			for _, x := range live() {
				set[x.raw.Other()] = 0
			}
			// a function which panics, its caller recovers
			for _, f := range []func(){
				func() { srv.ForEach(func(*arpc.Client) { panic("foreach") }) },
				func() { srv.ForEachWithFilter(func(*arpc.Client) { panic("foreach") }, nil) },
				func() { srv.ForEachWithFilter(func(*arpc.Client) {}, func(*arpc.Client) bool { panic("filter") }) },
				func() { srv.BroadcastWithFilter("b", "x", func(*arpc.Client) bool { panic("filter") }) },
			} {
				func() {
					defer func() { recover() }()
					f()
				}()
			}
			k := 0
			srv.ForEach(func(y *arpc.Client) {
				k++
				if _, ok := set[y.Conn]; !ok {
					r.Failf("%s: ForEach visits a client whose connection has ended", when)
				}
				set[y.Conn]++
			})
			srv.ForEachWithFilter(func(y *arpc.Client) { set[y.Conn] += 10 }, func(y *arpc.Client) bool { set[y.Conn] += 100; return set[y.Conn] > 0 })
			srv.ForEachWithFilter(func(y *arpc.Client) { set[y.Conn] += 1000 }, nil)
			srv.ForEachWithFilter(func(y *arpc.Client) { set[y.Conn] += 10000 }, func(*arpc.Client) bool { return false })
			for _, v := range set {
				if v != 1111 {
					r.Failf("%s: a live connection was visited %d times (ones: ForEach, tens: with filter, hundreds: by the filter, thousands: nil filter)", when, v)
				}
			}
			if got := atomic.LoadInt64(&srv.CurrLoad); got != int64(len(set)) {
				r.Failf("%s: CurrLoad is %d with %d live connections", when, got, len(set))
			}
			if max > 0 && len(set) > max {
				r.Failf("%s: %d live connections, the maximum is %d", when, len(set), max)
			}
			mu.Lock()
			if int(srv.Accepted) != len(up) {
				r.Failf("%s: Accepted is %d, %d connections were reported", when, srv.Accepted, len(up))
			}
			ended := 0
			for cl, n := range up {
				if n != 1 {
					r.Failf("%s: a connection was reported connected %d times", when, n)
				}
				w := 1
				if _, ok := set[cl.Conn]; ok {
					w = 0
				} else {
					ended++
				}
				if down[cl] != w {
					r.Failf("%s: a connection was reported disconnected %d times, want %d", when, down[cl], w)
				}
			}
			for cl := range down {
				if up[cl] == 0 {
					r.Failf("%s: a connection was reported disconnected but never connected", when)
				}
			}
			mu.Unlock()
			r.Class("look")
			if len(set) > 0 {
				r.Class("live")
			}
			return !r.Failed()
		}
		settled := true // nothing is going on, so the outcome of a connect is exact
		refused := 0
		for i, o := range c.Ops {
			when := fmt.Sprintf("op %d (%s %s)", i, o.K, o.How)
			switch o.K {
			case "conn", "dead":
				was := len(live())
				var mine []*c14conn
				for k := 0; k < o.N; k++ {
					x := open(o.K == "dead")
					if x == nil {
						continue
					}
					mine = append(mine, x)
					if o.K == "conn" {
						send(x, "quick")
					}
				}
				if settled && o.K == "conn" {
					synctest.Wait()
					ok := 0
					for _, x := range mine {
						if !x.raw.Other().Closed() {
							ok++
							if x.got.Load() != 1 {
								r.Failf("%s: an accepted connection answered its request %d times", when, x.got.Load())
							}
						} else {
							refused++
							if x.got.Load() != 0 || x.raw.Other().SentLen() != 0 {
								r.Failf("%s: a refused connection was served", when)
							}
						}
					}
					want := len(mine)
					if max > 0 && was+want > max {
						want = max - was
					}
					if ok != want {
						r.Failf("%s: %d of %d new connections were accepted with %d live and a maximum of %d, want %d", when, ok, len(mine), was, max, want)
					}
					if r.Failed() {
						return
					}
					r.Class("exact-accept")
				}
				if o.K == "dead" {
					settled = false
					r.Class("dead-on-arrival")
				}
			case "end", "end2":
				xs := live()
				if len(xs) == 0 {
					continue
				}
				for k := 0; k < map[string]int{"end": 1, "end2": 2}[o.K] && k < len(xs); k++ {
					x := xs[(o.Pick+k)%len(xs)]
					cl := client(x)
					switch o.How {
					case "close":
						x.raw.Close()
						x.dead = true
					case "reset":
						x.raw.Reset()
						x.dead = true
					case "stop":
						if cl != nil {
							cl.Stop()
							go cl.Stop()
							x.dead = true
						}
					case "oversize":
						x.raw.Write([]byte{0xff, 0xff, 0xff, 0x7f})
						x.dead = true
					case "handlerstop":
						send(x, "stop")
						x.dead = true
					case "badcmd":
						x.raw.Write(vkit.Frame{Cmd: 77, Seq: 1, Method: "m"}.Encode())
						x.dead = true
					}
				}
				settled = false
			case "req":
				for _, x := range live() {
					send(x, "slow")
				}
				settled = false
			case "temp":
				n.InjectAcceptError(true)
				settled = false
			case "fatal", "stop":
				if o.K == "fatal" {
					n.InjectAcceptError(false)
				} else if err := srv.Stop(); err != nil {
					r.Failf("%s: %v", when, err)
					return
				}
				time.Sleep(us(200) + time.Second)
				synctest.Wait()
				select {
				case <-served:
				default:
					r.Failf("%s: the server is still running", when)
					return
				}
				for _, x := range conns {
					x.dead = true
				}
				if !look(when + ", afterwards") {
					return
				}
				n.Close()
				start()
				settled = true
				continue
			}
			if o.Gap > 0 {
				time.Sleep(us(o.Gap))
				synctest.Wait()
			}
			if o.Look {
				if !look(when) {
					return
				}
				settled = true
			}
		}
		if !look("in the end") {
			return
		}
		// still serving
		if max <= 0 || len(live()) < max {
			x := open(false)
			send(x, "quick")
			time.Sleep(time.Second)
			synctest.Wait()
			if x.got.Load() != 1 {
				r.Failf("a new connection is not served in the end")
			}
		}
		if refused > 0 {
			r.Class("refused")
		}
		if dialed > 2 {
			r.NonTrivial()
		}
		srv.Stop()
		for _, x := range conns {
			x.dead = true
		}
		look("after the stop")
		for _, x := range conns {
			if !x.raw.Other().Closed() {
				r.Failf("after the stop a connection is still open")
			}
			x.raw.Close()
		}
	})
}

var _ = io.EOF

func init() {
	vkit.Register("C14", "load", vkit.Opts{Quick: 30000, Units: true, Rule: "more than two connections were made"}, genC14, runC14)
}
