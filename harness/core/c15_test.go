package core

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C15: a broadcast reaches each selected live client exactly once, intact.

type c15cast struct {
	At     int
	M      int // method
	V      vkit.Value
	Filter int // -1: Broadcast, -2: nil filter, else bit mask of the clients selected
	Tag    string
	Reuse  bool // the caller overwrites its byte slice afterwards
	Panic  bool `json:",omitempty"` // after one whose filter panicked (which the caller recovers)
}

type c15cli struct {
	EP    vkit.EP
	Plan  vkit.ConnPlan
	Join  int // time unit at which it connects
	Leave int // >0: when it goes
	How   string
	Stall [2]int // the server's writes to it stall in this interval
	Calls []int  // times at which it makes a call
	Push  []int  // times at which the server notifies it alone
}

type c15case struct {
	S     vkit.EP
	Over  bool // an overstock callback is registered
	Clis  []c15cli
	Casts []c15cast
}

var c15coders = [][]string{nil, nil, nil, {"xor"}, {"pad"}, {"add", "xor"}, {"gzip0"}, {"gzip100"}, {"append"}, {"msgpack"}, {"append", "gzip0"}, {"msgpack", "xor"}, {"pad", "gzip0", "add"}}

func genC15(rt *rapid.T) c15case {
	c := c15case{S: vkit.GenEP(rt, "s"), Over: vkit.Bool(rt, "over")}
	c.S.Pool = vkit.Chance(rt, 50, "pool")
	c.S.SendQ = vkit.Pick(rt, "q", 0, 0, 1, 2, 5)
	coders := c15coders[vkit.Int(rt, 0, len(c15coders)-1, "coders")]
	c.S.Coders = coders
	n := vkit.Int(rt, 0, 6, "clients")
	if vkit.Chance(rt, 5, "many") {
		n = vkit.Int(rt, 10, 40, "nmany")
	}
	for i := 0; i < n; i++ {
		k := c15cli{EP: vkit.GenEP(rt, "c")}
		k.EP.Pool = vkit.Bool(rt, "cpool")
		k.EP.Coders = coders
		k.Plan.Up, k.Plan.Down = vkit.GenDir(rt, "up"), vkit.GenDir(rt, "down")
		k.Plan.Up.Cap, k.Plan.Down.Cap = 0, 0
		if vkit.Chance(rt, 20, "late") {
			k.Join = vkit.Int(rt, 1, 12, "join")
		}
		if vkit.Chance(rt, 20, "leaves") {
			k.Leave = vkit.Int(rt, 1, 12, "leave")
			k.How = vkit.Pick(rt, "how", "stop", "reset", "srvstop", "busystop", "busystop")
		}
		// a synchronous write blocks with the server's lock held: not on a fake clock
		if !c.S.SyncWrite && vkit.Chance(rt, 25, "stalls") {
			k.Stall[0] = vkit.Int(rt, 1, 8, "s0")
			k.Stall[1] = k.Stall[0] + vkit.Int(rt, 1, 8, "s1")
		}
		if vkit.Chance(rt, 50, "calls") {
			k.Calls = rapid.SliceOfN(rapid.IntRange(0, 10), 0, 4).Draw(rt, "callat")
			k.Push = rapid.SliceOfN(rapid.IntRange(0, 10), 0, 3).Draw(rt, "pushat")
		}
		c.Clis = append(c.Clis, k)
	}
	for i := vkit.Int(rt, 1, 10, "casts"); i > 0; i-- {
		b := c15cast{At: vkit.Int(rt, 0, 10, "at"), M: vkit.Int(rt, 0, 2, "m"), V: vkit.GenValue(rt, 3000, "v"), Filter: vkit.Pick(rt, "filter", -1, -1, -1, -2, 0)}
		if b.Filter == 0 {
			b.Filter = vkit.Int(rt, 0, 1<<uint(len(c.Clis)%20)-1, "mask")
		}
		for _, k := range coders {
			if k == "append" || k == "msgpack" {
				b.Tag = vkit.Pick(rt, "tag", "", "v1", "a longer value that is attached to the message")
			}
		}
		b.Reuse = vkit.Bool(rt, "reuse")
		b.Panic = vkit.Chance(rt, 10, "panic")
		c.Casts = append(c.Casts, b)
	}
	return c
}

var c15methods = []string{"b0", "a-rather-long-method-name-for-a-broadcast", "x"}

func runC15(r *vkit.R, c c15case) {
	r.Bubble(func() {
		type got struct {
			n   int
			bad string
		}
		var mu sync.Mutex
		nc := len(c.Clis)
		recv := make([][]got, nc) // per client and broadcast
		push := make([][]int, nc)
		extra := make([]string, nc)
		want := make([]map[string]int, 3) // method -> wire -> broadcast
		for i := range want {
			want[i] = map[string]int{}
		}
		for i := range c.Casts {
			// unique payloads
			c.Casts[i].V.B.S = c.Casts[i].V.B.S/64*64 + i
			if c.Casts[i].V.B.N < 8 {
				c.Casts[i].V.B.N = 8 + i
			}
			want[c.Casts[i].M][string(c.Casts[i].V.Wire())] = i
		}
		for i := range recv {
			recv[i] = make([]got, len(c.Casts))
			push[i] = make([]int, len(c.Clis[i].Push))
		}
		over := map[*arpc.Client]int{}
		byConn := map[*vkit.Conn]int{}
		s := newServer(c.S, func(h arpc.Handler) {
			if c.Over {
				h.HandleOverstock(func(cl *arpc.Client, m *arpc.Message) {
					mu.Lock()
					over[cl]++
					mu.Unlock()
				})
			}
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write("re:" + string(ctx.Body())) })
			h.Handle("busy", func(ctx *arpc.Context) { time.Sleep(us(900)) }, false)
		})
		s.start()
		idx := func(cl *arpc.Client) int {
			mu.Lock()
			defer mu.Unlock()
			if i, ok := byConn[cl.Conn.(*vkit.Conn)]; ok {
				return i
			}
			return -1
		}
		clis := make([]*arpc.Client, nc)
		scli := make([]*arpc.Client, nc)
		var wg sync.WaitGroup
		start := time.Now()
		at := func(t int) { time.Sleep(time.Until(start.Add(us(100 * t)))) }
		var joinMu sync.Mutex
		join := func(i int) {
			joinMu.Lock()
			defer joinMu.Unlock()
			k := c.Clis[i]
			s.net.Plan = func(int) vkit.ConnPlan { return k.Plan }
			s.net.OnConn = func(a, b *vkit.Conn) { mu.Lock(); byConn[b] = i; mu.Unlock() }
			h := k.EP.NewHandler()
			h.SetMaxReconnectTimes(1)
			for mi, m := range c15methods {
				mi := mi
				h.Handle(m, func(ctx *arpc.Context) {
					b := string(ctx.Body())
					mu.Lock()
					defer mu.Unlock()
					j, ok := want[mi][b]
					if !ok {
						extra[i] = fmt.Sprintf("a broadcast nobody made: method %d, %s", mi, vkit.Short(b))
						return
					}
					recv[i][j].n++
					if tag := c.Casts[j].Tag; tag != "" {
						if v, _ := ctx.Get(appendKey); v != tag {
							recv[i][j].bad = fmt.Sprintf("attached value %v, want %q", v, tag)
						}
					}
				}, mi == 2)
			}
			h.Handle("push", func(ctx *arpc.Context) {
				var a, b int
				fmt.Sscanf(string(ctx.Body()), "%d.%d", &a, &b)
				mu.Lock()
				if a != i {
					extra[i] = fmt.Sprintf("the notification of client %d", a)
				} else {
					push[i][b]++
				}
				mu.Unlock()
			})
			h.HandleNotFound(func(ctx *arpc.Context) {
				mu.Lock()
				extra[i] = "method " + ctx.Message.Method()
				mu.Unlock()
			})
			cl, err := arpc.NewClient(s.net.Dial, h)
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			clis[i] = cl
		}
		for i := range c.Clis {
			if c.Clis[i].Join == 0 {
				join(i)
			}
		}
		synctest.Wait()
		attach := func() {
			s.srv.ForEach(func(cl *arpc.Client) {
				if i := idx(cl); i >= 0 {
					mu.Lock()
					scli[i] = cl
					mu.Unlock()
				}
			})
		}
		attach()
		start = time.Now().Add(us(100))
		for i := range c.Clis {
			i, k := i, c.Clis[i]
			if k.Join > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					at(k.Join)
					join(i)
				}()
			}
			if k.Leave > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					at(k.Leave)
					time.Sleep(us(50))
					cl := clis[i]
					if cl == nil {
						return
					}
					switch k.How {
					case "stop":
						cl.Stop()
					case "reset":
						cl.Handler.SetMaxReconnectTimes(1)
						s.net.DialErr = nil
						cl.Conn.(*vkit.Conn).Reset()
						cl.Stop()
					case "srvstop", "busystop":
						attach()
						if k.How == "busystop" {
							// the stopped client's receiving loop is in a handler for a while
							cl.Notify("busy", "", long())
							time.Sleep(us(1))
						}
						mu.Lock()
						sc := scli[i]
						mu.Unlock()
						if sc != nil {
							cl.Stop()
							sc.Stop()
						}
					}
				}()
			}
			if k.Stall[0] > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					at(k.Stall[0])
					time.Sleep(us(30))
					if cl := clis[i]; cl != nil {
						b := cl.Conn.(*vkit.Conn).Other()
						b.StallWrites(true)
						at(k.Stall[1])
						time.Sleep(us(30))
						b.StallWrites(false)
					}
				}()
			}
			for _, t := range k.Calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					at(t)
					cl := clis[i]
					if cl == nil {
						return
					}
					rsp, req := "", fmt.Sprintf("call %d %d", i, t)
					err := cl.Call("echo", req, &rsp, long())
					if k.Leave == 0 && (err != nil || rsp != "re:"+req) {
						r.Failf("client %d: a call among the broadcasts: %s, %v", i, vkit.Short(rsp), err)
					}
				}()
			}
			for j, t := range k.Push {
				wg.Add(1)
				go func() {
					defer wg.Done()
					at(t)
					time.Sleep(us(10))
					attach()
					mu.Lock()
					sc := scli[i]
					mu.Unlock()
					if sc == nil {
						mu.Lock()
						push[i][j] = 1
						mu.Unlock()
						return
					}
					if err := sc.Notify("push", fmt.Sprintf("%d.%d", i, j), long()); err != nil {
						if k.Leave == 0 {
							r.Failf("client %d: notify: %v", i, err)
						}
						mu.Lock()
						push[i][j] = 1
						mu.Unlock()
					}
				}()
			}
		}
		for _, b := range c.Casts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				at(b.At)
				v := b.V.Go()
				var args []interface{}
				if b.Tag != "" {
					args = append(args, map[interface{}]interface{}{appendKey: b.Tag})
				}
				if b.Panic {
					func() {
						defer func() { recover() }()
						s.srv.BroadcastWithFilter("no", v, func(*arpc.Client) bool { panic("filter") }, args...)
					}()
				}
				switch b.Filter {
				case -1:
					s.srv.Broadcast(c15methods[b.M], v, args...)
				case -2:
					s.srv.BroadcastWithFilter(c15methods[b.M], v, nil, args...)
				default:
					s.srv.BroadcastWithFilter(c15methods[b.M], v, func(cl *arpc.Client) bool {
						i := idx(cl)
						return i >= 0 && b.Filter>>uint(i%20)&1 == 1
					}, args...)
				}
				if bs, ok := v.([]byte); ok && b.Reuse {
					for i := range bs {
						bs[i] = 'R'
					}
				}
			}()
		}
		if !waitOr(&wg, vkit.Tail(30*time.Minute)) {
			r.Failf("a broadcast or its surroundings never finished")
		}
		time.Sleep(vkit.Tail(10 * time.Second))
		synctest.Wait()

		var delivered int32
		mu.Lock()
		attachedOver := make([]int, nc)
		for cl, n := range over {
			if i, ok := byConn[cl.Conn.(*vkit.Conn)]; ok {
				attachedOver[i] = n
			}
		}
		mu.Unlock()
		total := len(c.Casts)
		for _, k := range c.Clis {
			total += len(k.Calls) + len(k.Push)
		}
		for i, k := range c.Clis {
			mu.Lock()
			if extra[i] != "" {
				r.Failf("client %d received %s", i, extra[i])
			}
			missing := 0
			for j, b := range c.Casts {
				g := recv[i][j]
				sel := b.Filter < 0 || b.Filter>>uint(i%20)&1 == 1
				atomic.AddInt32(&delivered, int32(g.n))
				if g.bad != "" {
					r.Failf("broadcast %d at client %d: %s", j, i, g.bad)
				}
				if g.n > 1 || (g.n == 1 && !sel) || (g.n == 1 && b.At < k.Join) {
					r.Failf("client %d received broadcast %d %d times (selected: %v, broadcast at %d, connected since %d)", i, j, g.n, sel, b.At, k.Join)
				}
				if sel && (k.Join == 0 || k.Join < b.At) && (k.Leave == 0 || b.At <= k.Leave) && g.n == 0 {
					missing++
					room := k.Stall[0] == 0 && (c.S.SendQ == 0) || c.S.SyncWrite || c.S.SendQ == 0
					if room && k.Leave == 0 {
						r.Failf("client %d did not receive broadcast %d although its queue had room", i, j)
					}
				}
			}
			if c.Over && k.Leave == 0 && k.Join == 0 && missing != attachedOver[i] {
				r.Failf("client %d missed %d broadcasts, the overstock callback ran %d times", i, missing, attachedOver[i])
			}
			for j, n := range push[i] {
				if n != 1 && (k.Leave == 0 || n > 1) {
					r.Failf("client %d received notification %d %d times", i, j, n)
				}
			}
			mu.Unlock()
		}
		if delivered > 1 {
			r.NonTrivial()
		}
		if len(c.S.Coders) > 0 {
			r.Class("coders")
		}
		if c.S.Pool {
			r.Class("pool")
		}
		r.Class("clients=%d", min(nc, 10))
		for _, cl := range clis {
			if cl != nil {
				cl.Stop()
			}
		}
		s.stop()
	})
}

func init() {
	vkit.Register("C15", "cast", vkit.Opts{Quick: 15000, Units: true, Rule: "at least two broadcast deliveries"}, genC15, runC15)
}
