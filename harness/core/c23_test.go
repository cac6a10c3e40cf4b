package core

import (
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C23: histories of registrations, removals and node failures against a model
// of what is registered and reachable.

type c23op struct {
	K  string // add, del, up, down, break, slow, query, settle, sleep, bad
	S  int    // service
	A  int    // node
	W  string // weight as given
	D  int    // ms
	N  int
	Go bool // do not wait for it
}

type c23case struct {
	Up  []bool // nodes reachable at the beginning
	Ops []c23op
}

func genC23(rt *rapid.T) c23case {
	c := c23case{}
	nodes := vkit.Int(rt, 1, 4, "nodes")
	for i := 0; i < nodes; i++ {
		c.Up = append(c.Up, vkit.Chance(rt, 65, "up"))
	}
	for i := vkit.Int(rt, 1, 18, "ops"); i > 0; i-- {
		o := c23op{K: vkit.Pick(rt, "k", "add", "add", "add", "add", "del", "del", "up", "up", "down", "break", "slow", "query", "query", "settle", "sleep", "sleep", "bad"),
			S: vkit.Pick(rt, "s", 0, 0, 0, 1), A: vkit.Int(rt, 0, nodes-1, "a"), Go: vkit.Chance(rt, 25, "go")}
		switch o.K {
		case "add":
			o.W = vkit.Pick(rt, "w", "1", "1", "2", "3", "7", "0", "-2", "", "x", "12", "33", "007", "9x")
		case "sleep", "slow":
			o.D = vkit.Pick(rt, "d", 0, 1, 5, 10, 11, 300, 900, 989, 990, 999, 1000, 1001, 1005, 1010, 1011, 1100, 2500, 4000, 12000)
		case "query", "settle":
			o.N = vkit.Int(rt, 1, 8, "n")
		case "bad":
			o.W = vkit.Pick(rt, "bad", "", "app", "app/svc0", "svc0", "/", "app/svc9")
			o.D = vkit.Int(rt, 0, 1, "bd")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (o c23op) weight() int {
	n, err := strconv.Atoi(o.W)
	if err != nil || n <= 0 {
		return 1
	}
	return n
}

// addresses and names of which one is a part of another
var c23addrs = [4]string{"10.0.0.1:888", "10.0.0.1:88", "0.0.1:8888", "10.0.0.1:8888"}

func c23name(s int) string {
	if s < 4 {
		return [4]string{"svc", "svc1", "vc", "Svc"}[s]
	}
	return fmt.Sprintf("svc%d", s)
}

type c23node struct {
	addr  string
	net   *vkit.Net // current listener, nil when down
	srv   *server
	nets  []*vkit.Net
	delay time.Duration
	up    bool
	since time.Duration // last change of reachability
	dials int
	busy  int // dials in progress
	ver   int // number of changes of reachability
}

type c23reg struct {
	in, maybe bool // registered; or not known because of racing operations
	w         []int
	alt       []int // every weight ever given
	at        time.Duration
	fresh     bool // registered by an Add during all of which the node was up
	pending   int
	ver       int
	amb       bool // the weight depends on how racing operations ended
}

const c23calm = 30 * time.Second

func runC23(r *vkit.R, c c23case) {
	r.Bubble(func() {
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		var mu sync.Mutex
		nodes := make([]*c23node, len(c.Up))
		regs := map[[2]int]*c23reg{}
		reg := func(s, a int) *c23reg {
			k := [2]int{s, a}
			if regs[k] == nil {
				regs[k] = &c23reg{}
			}
			return regs[k]
		}
		bring := func(n *c23node) {
			if n.up {
				return
			}
			s := newServer(vkit.EP{}, func(h arpc.Handler) {
				h.Handle("who", func(ctx *arpc.Context) { ctx.Write(n.addr) })
			})
			s.start()
			mu.Lock()
			n.srv, n.net, n.up, n.since = s, s.net, true, now()
			n.ver++
			n.nets = append(n.nets, s.net)
			mu.Unlock()
		}
		take := func(n *c23node) {
			if !n.up {
				return
			}
			mu.Lock()
			s := n.srv
			n.srv, n.net, n.up, n.since = nil, nil, false, now()
			n.ver++
			mu.Unlock()
			s.net.Close()
			for _, x := range s.net.Conns {
				x.Reset()
			}
			s.stop()
			synctest.Wait()
		}
		for i, up := range c.Up {
			nodes[i] = &c23node{addr: c23addrs[i%4], since: -time.Hour}
			if up {
				bring(nodes[i])
				nodes[i].since = -time.Hour
			}
		}
		m := micro.NewServiceManager(func(addr string) (net.Conn, error) {
			for _, n := range nodes {
				if n.addr != addr {
					continue
				}
				mu.Lock()
				n.dials++
				n.busy++
				d := n.delay
				mu.Unlock()
				if d > 0 {
					time.Sleep(d)
				}
				mu.Lock()
				n.busy--
				x := n.net
				mu.Unlock()
				if x == nil {
					return nil, vkit.ErrRefused
				}
				return x.Dial()
			}
			r.Failf("asked to dial %q, no node has that address", addr)
			return nil, vkit.ErrRefused
		})
		path := func(s, a int) string { return fmt.Sprintf("app/%s/%s", c23name(s), nodes[a].addr) }

		// sure: has node a been up (down) long enough for everybody to know?
		calm := func(n *c23node) bool { return now()-n.since >= c23calm+5*n.delay }
		// upFor: a client of this registration has to be connected
		mustUp := func(s, a int) bool {
			g, n := reg(s, a), nodes[a]
			if !g.in || g.maybe || g.pending > 0 || !n.up {
				return false
			}
			if g.fresh && n.ver == g.ver {
				return true
			}
			return calm(n) && now()-g.at >= c23calm+5*n.delay
		}
		query := func(s int) int {
			cl, err := m.ClientBy(c23name(s))
			mu.Lock()
			defer mu.Unlock()
			any, sure := false, false
			for a := range nodes {
				g := reg(s, a)
				if g.in || g.maybe || g.pending > 0 {
					any = true
				}
				if g.in && !g.maybe && g.pending == 0 {
					sure = true
				}
			}
			switch {
			case err == micro.ErrServiceNotFound:
				if sure {
					r.Failf("svc%d has registered nodes but is reported as not found", s)
				}
			case err == micro.ErrServiceUnreachable:
				if !any {
					r.Failf("svc%d has no node but is reported as unreachable instead of not found", s)
				}
				for a, n := range nodes {
					if mustUp(s, a) {
						r.Failf("svc%d is reported as unreachable although node %s is registered and up", s, n.addr)
					}
				}
			case err != nil:
				r.Failf("svc%d: unexpected error %v", s, err)
			case cl == nil:
				r.Failf("svc%d: neither client nor error", s)
			default:
				conn, _ := cl.Conn.(*vkit.Conn)
				for a, n := range nodes {
					for _, x := range n.nets {
						for _, y := range x.Conns {
							if y != conn {
								continue
							}
							g := reg(s, a)
							if !g.in && !g.maybe && g.pending == 0 {
								r.Failf("svc%d: the client handed out is of node %s, which is not registered for it", s, n.addr)
							}
							if !n.up && now() > n.since {
								r.Failf("svc%d: the client handed out is of node %s, which has been down since %v (now %v)", s, n.addr, n.since, now())
							}
							return a
						}
					}
				}
				r.Failf("svc%d: the client handed out has an unknown connection", s)
			}
			return -1
		}
		settle := func(o c23op) {
			for i := 0; i < 40; i++ {
				time.Sleep(c23calm + 5*12*time.Second)
				synctest.Wait()
				idle := true
				mu.Lock()
				for _, g := range regs {
					if g.pending > 0 {
						idle = false
					}
				}
				mu.Unlock()
				if idle {
					break
				}
			}
			before := make([]int, len(nodes))
			mu.Lock()
			for a, n := range nodes {
				before[a] = n.dials
			}
			mu.Unlock()
			time.Sleep(c23calm)
			synctest.Wait()
			par := 1
			if o.Go {
				par = o.N
			}
			for s := 0; s < 2; s++ {
				total, in, known := 0, 0, true
				for a := range nodes {
					g := reg(s, a)
					if g.pending > 0 {
						r.Failf("adding or deleting node %s of svc%d does not return", nodes[a].addr, s)
						return
					}
					if g.maybe || g.amb {
						known = false
					}
					if g.in || g.maybe {
						in++
						x := 1
						for _, w := range g.w {
							x = max(x, w)
						}
						if g.maybe || g.amb {
							for _, w := range g.alt {
								x = max(x, w)
							}
						}
						total += x
					}
				}
				if in == 0 {
					if query(s) >= 0 {
						return
					}
					continue
				}
				n := total * 2
				got := make([]int, len(nodes))
				var wg sync.WaitGroup
				var gmu sync.Mutex
				next := 0
				for p := 0; p < par; p++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							gmu.Lock()
							if next >= n {
								gmu.Unlock()
								return
							}
							next++
							gmu.Unlock()
							if a := query(s); a >= 0 {
								gmu.Lock()
								got[a]++
								gmu.Unlock()
							}
						}
					}()
				}
				wg.Wait()
				all := known
				for a, n := range nodes {
					g := reg(s, a)
					if g.maybe {
						// which of the racing operations came last
						if n.up {
							g.in = got[a] > 0
							g.maybe = false
							if !g.in {
								g.w = nil
							}
						} else {
							all = false
						}
					}
					if g.in && !n.up {
						all = false
					}
					if g.in && n.up && got[a] == 0 {
						r.Failf("svc%d: node %s is registered and up but none of %d queries returned it (%v)", s, n.addr, next, got)
					}
				}
				if all {
					for a := range nodes {
						g := reg(s, a)
						if g.in && got[a] != 2*g.w[0] {
							r.Failf("svc%d: %d queries over total weight %d were distributed as %v; node %s of weight %d got %d", s, n, total, got, nodes[a].addr, g.w[0], got[a])
						}
					}
					r.Class("weighted nodes=%d", in)
				}
				// a client that is handed out works
				for a := range nodes {
					if !mustUp(s, a) || got[a] == 0 {
						continue
					}
					for i := 0; i < 8*total; i++ {
						if query(s) == a {
							break
						}
					}
					cl, err := m.ClientBy(c23name(s))
					if err == nil {
						var who string
						if err := cl.Call("who", "", &who, time.Second); err != nil || !strings.Contains(who, "0.0.1:88") {
							r.Failf("svc%d: a call over the client handed out failed: %q, %v", s, who, err)
						}
					}
				}
			}
			// connections
			for a, n := range nodes {
				want, maybe := 0, false
				for s := 0; s < 2; s++ {
					g := reg(s, a)
					if g.maybe {
						maybe = true
					} else if g.in {
						want++
					}
				}
				open := 0
				for _, x := range n.nets {
					for _, y := range x.Conns {
						_, reset := y.ResetAt()
						if !y.Closed() && !reset {
							open++
						}
					}
				}
				if !n.up {
					want = 0
				}
				if !maybe && open != want {
					r.Failf("node %s: %d connections are open, %d services have it registered (up=%v)", n.addr, open, want, n.up)
				}
				mu.Lock()
				d := n.dials - before[a]
				mu.Unlock()
				if want == 0 && !maybe && n.up && d > 0 {
					r.Failf("node %s is registered nowhere but was dialed %d times in %v", n.addr, d, c23calm)
				}
				if !n.up && !maybe && d > 0 {
					none := true
					for s := 0; s < 2; s++ {
						if reg(s, a).in {
							none = false
						}
					}
					if none {
						r.Failf("node %s is registered nowhere but is still dialed (%d times in %v)", n.addr, d, c23calm)
					}
				}
			}
		}

		for _, o := range c.Ops {
			n := nodes[o.A]
			switch o.K {
			case "add", "del":
				mu.Lock()
				g := reg(o.S, o.A)
				racing := g.pending > 0
				g.pending++
				wasUp, ver, dialing := n.up, n.ver, n.busy
				if o.K == "add" {
					g.alt = append(g.alt, o.weight())
					if racing {
						g.w = append(g.w, o.weight())
					} else if !g.in && !g.maybe {
						g.w = []int{o.weight()}
						g.amb = false
						g.fresh = false
						r.Class("add up=%v slow=%v", n.up, n.delay > 0)
					} else {
						if g.maybe {
							g.w = append(g.w, o.weight())
						}
						r.Class("add again up=%v", n.up)
					}
				} else {
					r.Class("del in=%v up=%v dialing=%v", g.in, n.up, dialing > 0)
				}
				if racing {
					r.Class("racing")
					r.NonTrivial()
				}
				mu.Unlock()
				body := func() {
					if o.K == "add" {
						m.AddServiceNodes(path(o.S, o.A), o.W)
					} else {
						m.DeleteServiceNodes(path(o.S, o.A))
					}
					mu.Lock()
					defer mu.Unlock()
					g.pending--
					if racing || g.pending > 0 {
						// a racing pair of different operations may end either way
						g.maybe = true
						g.fresh = false
						g.amb = true
						g.at = now()
						return
					}
					if o.K == "add" {
						if !g.in || g.maybe {
							g.fresh = wasUp && n.ver == ver && !g.maybe
							g.ver = ver
							g.at = now()
						}
						g.in, g.maybe = true, false
					} else {
						g.in, g.maybe, g.w, g.fresh = false, false, nil, false
						g.at = now()
					}
				}
				if o.Go {
					go body()
					synctest.Wait()
				} else {
					body()
				}
			case "up":
				bring(n)
				r.NonTrivial()
			case "down":
				take(n)
				r.NonTrivial()
			case "break":
				if n.up {
					for _, x := range n.net.Conns {
						x.Reset()
					}
					mu.Lock()
					n.since = now()
					n.ver++
					mu.Unlock()
					synctest.Wait()
					r.NonTrivial()
				}
			case "slow":
				mu.Lock()
				n.delay = time.Duration(o.D) * time.Millisecond
				mu.Unlock()
			case "sleep":
				time.Sleep(time.Duration(o.D) * time.Millisecond)
				synctest.Wait()
			case "query":
				for i := 0; i < o.N; i++ {
					query(o.S)
				}
				if _, err := m.ClientBy("nobody"); err != micro.ErrServiceNotFound {
					r.Failf("a service never registered: %v", err)
				}
			case "settle":
				settle(o)
			case "bad":
				if o.D == 0 {
					m.AddServiceNodes(o.W, "1")
				} else {
					m.DeleteServiceNodes(o.W)
				}
				if _, err := m.ClientBy("svc9"); err != micro.ErrServiceNotFound {
					r.Failf("a malformed path registered something: %v", err)
				}
			}
			if r.Failed() {
				break
			}
		}
		if !r.Failed() {
			settle(c23op{N: 1})
		}
		// everything removed, nothing left
		if !r.Failed() {
			keys := make([][2]int, 0)
			for k := range regs {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			for _, k := range keys {
				m.DeleteServiceNodes(path(k[0], k[1]))
				g := regs[k]
				g.in, g.maybe, g.w, g.at = false, false, nil, now()
			}
			settle(c23op{N: 1})
		}
		for _, n := range nodes {
			take(n)
		}
		if len(c.Ops) > 2 {
			r.NonTrivial()
		}
	})
}

// parallel: many askers at once, nodes fixed.

type c23par struct {
	Up []bool
	W  []int
	G  int
	N  int
}

func genC23par(rt *rapid.T) c23par {
	c := c23par{G: vkit.Int(rt, 2, 8, "g"), N: vkit.Int(rt, 1, 40, "n")}
	for i := vkit.Int(rt, 1, 6, "nodes"); i > 0; i-- {
		c.Up = append(c.Up, vkit.Chance(rt, 40, "up"))
		c.W = append(c.W, vkit.Int(rt, 1, 4, "w"))
	}
	return c
}

func runC23par(r *vkit.R, c c23par) {
	r.Bubble(func() {
		var srvs []*server
		byAddr := map[string]int{}
		total, up := 0, 0
		for i := range c.Up {
			s := newServer(vkit.EP{}, nil)
			s.start()
			if !c.Up[i] {
				s.net.Close()
			} else {
				up++
			}
			total += c.W[i]
			srvs = append(srvs, s)
			byAddr[fmt.Sprintf("n%d", i)] = i
		}
		m := micro.NewServiceManager(func(addr string) (net.Conn, error) { return srvs[byAddr[addr]].net.Dial() })
		for i := range c.Up {
			m.AddServiceNodes(fmt.Sprintf("app/svc/n%d", i), fmt.Sprint(c.W[i]))
		}
		conns := map[net.Conn]int{}
		for i, s := range srvs {
			for _, x := range s.net.Conns {
				conns[x] = i
			}
		}
		got := make([]int, len(srvs))
		var mu sync.Mutex
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < c.G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := make([]int, len(srvs))
				<-gate
				for i := 0; i < c.N*total; i++ {
					cl, err := m.ClientBy("svc")
					switch {
					case err == micro.ErrServiceUnreachable && up == 0:
					case err != nil:
						r.Failf("%d of %d nodes are up, but a query failed with %v", up, len(srvs), err)
						return
					default:
						k, ok := conns[cl.Conn]
						if !ok {
							r.Failf("unknown client")
							return
						}
						mine[k]++
					}
				}
				mu.Lock()
				for k, n := range mine {
					got[k] += n
				}
				mu.Unlock()
			}()
		}
		synctest.Wait()
		close(gate)
		wg.Wait()
		if !r.Failed() && up == len(srvs) {
			for k := range got {
				if got[k] != c.G*c.N*c.W[k] {
					r.Failf("%d queries from %d goroutines over weights %v were distributed as %v", c.G*c.N*total, c.G, c.W, got)
				}
			}
		}
		for i := range c.Up {
			m.DeleteServiceNodes(fmt.Sprintf("app/svc/n%d", i))
		}
		for _, s := range srvs {
			s.stop()
		}
		if len(srvs) > 1 && up > 0 {
			r.NonTrivial()
		}
		r.Class("up=%d of %d", up, len(srvs))
	})
}

func init() {
	vkit.Register("C23", "histories", vkit.Opts{Quick: 20000, Rule: "three or more operations, or nodes going up or down"}, genC23, runC23)
	vkit.Register("C23", "parallel", vkit.Opts{Quick: 6000, Rule: "two or more nodes, at least one reachable"}, genC23par, runC23par)
}
