package core

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C17: client pools against a model of which clients are up.

type c17op struct {
	K string // pick, par, stop, drop, up, get, call
	N int
	G int
}

type c17case struct {
	From    bool // NewClientPoolFromDialers
	Size    int
	FailAt  int // >=0: that dial fails
	EP      vkit.EP
	Handler bool
	Late    int // delay of each dial
	Ops     []c17op
}

func genC17(rt *rapid.T) c17case {
	c := c17case{From: vkit.Bool(rt, "from"), Size: vkit.Pick(rt, "size", 1, 2, 3, 4, 5, 7, 8), FailAt: -1, EP: vkit.GenEP(rt, "ep"), Handler: vkit.Chance(rt, 70, "handler")}
	if c.From && vkit.Chance(rt, 3, "none") {
		c.Size = 0
		return c
	}
	if vkit.Chance(rt, 15, "fail") {
		c.FailAt = vkit.Int(rt, 0, c.Size-1, "failat")
	}
	for i := vkit.Int(rt, 1, 14, "ops"); i > 0; i-- {
		o := c17op{K: vkit.Pick(rt, "k", "pick", "pick", "par", "par", "stop", "drop", "drop", "up", "get", "call"), N: vkit.Int(rt, 0, 12, "n"), G: vkit.Int(rt, 2, 6, "g")}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC17(r *vkit.R, c c17case) {
	r.Bubble(func() {
		s := newServer(vkit.EP{Coders: c.EP.Coders}, func(h arpc.Handler) {
			h.Handle("who", func(ctx *arpc.Context) { ctx.Write(ctx.Client.Conn.RemoteAddr().String()) })
		}).start()
		boom := errors.New("no such host")
		var mu sync.Mutex
		conns := map[int][]*vkit.Conn{} // per slot
		refuse := map[int]bool{}
		dials := 0
		dialer := func(slot int) arpc.DialerFunc {
			return func() (net.Conn, error) {
				mu.Lock()
				i := slot
				if i < 0 {
					i = dials
				}
				dials++
				no := refuse[i] || i == c.FailAt
				mu.Unlock()
				if no {
					return nil, boom
				}
				cn, err := s.net.Dial()
				if err != nil {
					return nil, err
				}
				mu.Lock()
				conns[i] = append(conns[i], cn.(*vkit.Conn))
				mu.Unlock()
				return cn, nil
			}
		}
		if !c.From {
			// one dialer for all: which slot redials cannot be told apart
			refuse = map[int]bool{}
		}
		var args []interface{}
		if c.Handler {
			args = append(args, c.EP.NewHandler())
		}
		var pool *arpc.ClientPool
		var err error
		if c.From {
			var ds []arpc.DialerFunc
			for i := 0; i < c.Size; i++ {
				ds = append(ds, dialer(i))
			}
			pool, err = arpc.NewClientPoolFromDialers(ds, args...)
		} else {
			pool, err = arpc.NewClientPool(dialer(-1), c.Size, args...)
		}
		if c.Size == 0 {
			if err == nil || pool != nil {
				r.Failf("no dialers: pool %v, error %v", pool != nil, err)
			}
			s.stop()
			return
		}
		if c.FailAt >= 0 {
			if err != boom || pool != nil {
				r.Failf("dial %d failed: pool %v, error %v", c.FailAt, pool != nil, err)
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			mu.Lock()
			for i := 0; i < c.FailAt; i++ {
				if len(conns[i]) != 1 {
					r.Failf("slot %d was dialed %d times", i, len(conns[i]))
				}
				for _, cn := range conns[i] {
					if !cn.Closed() {
						r.Failf("dial %d failed, but connection %d was left open", c.FailAt, i)
					}
				}
			}
			if dials != c.FailAt+1 {
				r.Failf("dial %d failed, %d dials were made", c.FailAt, dials)
			}
			mu.Unlock()
			r.Class("rollback")
			if c.FailAt > 0 {
				r.NonTrivial()
			}
			s.stop()
			return
		}
		if err != nil {
			r.Failf("pool: %v", err)
			return
		}
		if pool.Size() != c.Size {
			r.Failf("size %d, want %d", pool.Size(), c.Size)
		}
		idx := map[*arpc.Client]int{}
		clis := make([]*arpc.Client, c.Size)
		for i := 0; i < c.Size; i++ {
			clis[i] = pool.Get(i)
			if j, dup := idx[clis[i]]; dup {
				r.Failf("Get(%d) and Get(%d) return the same client", i, j)
			}
			idx[clis[i]] = i
			if !c.Handler && clis[i].Handler == arpc.DefaultHandler {
				r.Failf("client %d uses the default handler itself", i)
			}
			if c.Handler && clis[i].Handler != args[0] {
				r.Failf("client %d does not use the given handler", i)
			}
		}
		mu.Lock()
		for i := 0; i < c.Size; i++ {
			if len(conns[i]) != 1 {
				r.Failf("slot %d was dialed %d times", i, len(conns[i]))
			} else if clis[i].Conn != net.Conn(conns[i][0]) {
				r.Failf("client %d is not on the connection of its own dialer", i)
			}
		}
		mu.Unlock()
		synctest.Wait()
		up := make([]bool, c.Size)
		dead := make([]bool, c.Size)
		for i := range up {
			up[i] = true
		}
		nup := func() int {
			n := 0
			for _, u := range up {
				if u {
					n++
				}
			}
			return n
		}
		check := func(k int, cl *arpc.Client) int {
			if cl == nil {
				r.Failf("op %d: no client", k)
				return -1
			}
			i, ok := idx[cl]
			if !ok {
				r.Failf("op %d: a client that is not of the pool", k)
				return -1
			}
			if !up[i] && nup() > 0 {
				r.Failf("op %d: client %d is down, yet picked while %d of %d are up", k, i, nup(), c.Size)
			}
			return i
		}
		for k, o := range c.Ops {
			if r.Failed() {
				break
			}
			switch o.K {
			case "pick", "par":
				all := nup() == c.Size
				n := o.N + 1
				if all {
					n = c.Size * (o.N%3 + 1)
				}
				g := 1
				if o.K == "par" {
					g = o.G
					n *= 5
				}
				cnt := make([]int, c.Size)
				var cm sync.Mutex
				var wg sync.WaitGroup
				for x := 0; x < g; x++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for y := 0; y < n; y++ {
							i := check(k, pool.Next())
							if i >= 0 {
								cm.Lock()
								cnt[i]++
								cm.Unlock()
							}
						}
					}()
				}
				wg.Wait()
				if all {
					for i, x := range cnt {
						if x != n*g/c.Size {
							r.Failf("op %d: %d picks by %d goroutines visited client %d %d times, want %d (%v)", k, n*g, g, i, x, n*g/c.Size, cnt)
						}
					}
					if c.Size > 1 {
						r.Class("even-%s", o.K)
					}
				} else if nup() > 0 {
					r.Class("some-down-%s", o.K)
					r.NonTrivial()
				} else {
					r.Class("all-down")
				}
				if g > 1 && c.Size > 1 {
					r.NonTrivial()
				}
			case "get":
				for i := 0; i < c.Size; i++ {
					if pool.Get(i) != clis[i] || pool.Get(i+c.Size*o.N) != clis[i] {
						r.Failf("op %d: Get(%d) changed", k, i)
					}
				}
			case "stop":
				i := o.N % c.Size
				clis[i].Stop()
				up[i], dead[i] = false, true
				time.Sleep(15 * time.Second) // let a redial pause end: the stop is complete
				synctest.Wait()
			case "drop":
				i := o.N % c.Size
				if !c.From || dead[i] || !up[i] {
					continue
				}
				mu.Lock()
				refuse[i] = true
				cn := conns[i][len(conns[i])-1]
				mu.Unlock()
				cn.Reset()
				synctest.Wait()
				up[i] = false
			case "up":
				i := o.N % c.Size
				if up[i] {
					continue
				}
				mu.Lock()
				refuse[i] = false
				mu.Unlock()
				if dead[i] {
					if err := clis[i].Restart(); err != nil {
						r.Failf("op %d: restart: %v", k, err)
					}
					dead[i] = false
					r.Class("restarted")
				}
				time.Sleep(15 * time.Second)
				synctest.Wait()
				up[i] = true
				r.Class("up-again")
			case "call":
				if nup() == 0 {
					continue
				}
				cl := pool.Next()
				i := check(k, cl)
				if i < 0 {
					continue
				}
				var who string
				if err := cl.Call("who", nil, &who, time.Minute); err != nil {
					r.Failf("op %d: call on picked client %d: %v", k, i, err)
				}
				if pool.Handler() != clis[0].Handler {
					r.Failf("op %d: the pool's handler is not its clients'", k)
				}
			}
		}
		mu.Lock()
		for i := range refuse {
			refuse[i] = false
		}
		mu.Unlock()
		pool.Stop()
		time.Sleep(time.Minute)
		synctest.Wait()
		mu.Lock()
		for i, cs := range conns {
			for _, cn := range cs {
				if !cn.Closed() {
					r.Failf("after the pool's Stop a connection of client %d is still open", i)
				}
			}
		}
		mu.Unlock()
		s.stop()
	})
}

var _ = fmt.Sprint

func init() {
	vkit.Register("C17", "pool", vkit.Opts{Quick: 20000, Rule: "some client is down at a pick, concurrent picks of more than one client, or a failing dial after others succeeded"}, genC17, runC17)
}
