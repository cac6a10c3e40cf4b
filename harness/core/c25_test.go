package core

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C25: payloads are taken at call time, received data belongs to the receiver.

// c25val is a value in the caller's own, larger memory.
type c25val struct {
	K         string // bytes, pbytes, pstr, obj, objv, err, perr, map
	N, S      int
	Pre, Post int // bytes of the caller's memory around the payload
}

type c25err struct{ text string }

func (e *c25err) Error() string { return e.text }

type c25held struct {
	v        interface{}
	wire     string
	same     func() bool // the memory is as it was when handed over (or scrambled)
	scramble func()
}

func (v c25val) make() *c25held {
	body := vkit.Blob{N: v.N, S: v.S}.Bytes()
	h := &c25held{wire: string(body), same: func() bool { return true }, scramble: func() {}}
	arena := make([]byte, v.Pre+v.N+v.Post)
	for i := range arena {
		arena[i] = 0x5A
	}
	copy(arena[v.Pre:], body)
	want := append([]byte(nil), arena...)
	b := arena[v.Pre : v.Pre+v.N]
	useArena := func() {
		h.same = func() bool { return bytes.Equal(arena, want) }
		h.scramble = func() {
			for i := range arena {
				arena[i], want[i] = 0xAA, 0xAA
			}
		}
	}
	switch v.K {
	case "bytes":
		h.v = b
		useArena()
	case "pbytes":
		h.v = &b
		useArena()
	case "pstr":
		s := string(body)
		h.v = &s
		cur := s
		h.same = func() bool { return s == cur }
		h.scramble = func() { s, cur = "scrambled", "scrambled" }
	case "obj", "objv", "map":
		o := vkit.Obj{A: fmt.Sprint(v.S), N: int64(v.N), L: b, M: map[string]int{"a": v.S}}
		w, _ := json.Marshal(&o)
		h.wire = string(w)
		useArena()
		fill := h.scramble
		h.v = &o
		if v.K == "objv" {
			h.v = o
		} else if v.K == "map" {
			m := map[string]interface{}{"b": b, "n": v.S}
			w, _ := json.Marshal(m)
			h.wire = string(w)
			h.v = m
			h.scramble = func() { fill(); m["n"] = "scrambled"; delete(m, "b") }
			return h
		}
		h.scramble = func() { fill(); o.A = "scrambled"; o.M["a"] = -1; o.M["b"] = 2 }
	case "err", "perr":
		e := &c25err{string(body)}
		h.v = e
		if v.K == "perr" {
			var x error = e
			h.v = &x
		}
		h.scramble = func() { e.text = "scrambled" }
	}
	return h
}

func genC25val(rt *rapid.T, reply bool) c25val {
	v := c25val{K: vkit.Pick(rt, "k", "bytes", "bytes", "bytes", "pbytes", "pstr", "obj", "objv", "map", "err"), N: vkit.Size(rt, 3000, "n"), S: vkit.Int(rt, 0, 9999, "s"),
		Pre: vkit.Pick(rt, "pre", 0, 0, 1, 16, 40), Post: vkit.Pick(rt, "post", 0, 0, 1, 16, 100, 3000)}
	return v
}

type c25op struct {
	K     string // call, callctx, async, notify, push, stream, bcast, raw
	Back  bool
	V     []c25val // several for a stream
	R     c25val   // reply, or stream values back
	Into  string   // bytes, str, obj: kind of the response variable
	Short bool     // gives up early
	Del   int      // the caller waits that long before reusing its memory
	Slow  int      // the handler takes that long
}

type c25worker struct {
	C   int
	At  int
	Ops []c25op
}

type c25case struct {
	S, C   vkit.EP
	N      int
	Plans  []vkit.ConnPlan
	Stall  []int // per client: units during which nothing is transmitted at the start
	W      []c25worker
	Poison bool
}

func genC25(rt *rapid.T) c25case {
	c := c25case{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 2, "n"), Poison: vkit.Chance(rt, 30, "poison")}
	c.S.Pool, c.C.Pool = vkit.Chance(rt, 40, "sp"), vkit.Chance(rt, 40, "cp")
	if c.Poison {
		c.S.Pool, c.C.Pool = true, true
	}
	c.S.Coders = c16coders[vkit.Int(rt, 0, len(c16coders)-1, "coders")]
	c.C.Coders = c.S.Coders
	for i := 0; i < c.N; i++ {
		p := vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
		p.Up.Cap, p.Down.Cap = 0, 0
		c.Plans = append(c.Plans, p)
		c.Stall = append(c.Stall, vkit.Pick(rt, "stall", 0, 0, 10, 40))
		if c.S.SyncWrite { // a broadcast would block with the lock of the server held
			c.Stall[i] = 0
		}
	}
	for i := vkit.Int(rt, 1, 4, "workers"); i > 0; i-- {
		w := c25worker{C: vkit.Int(rt, 0, c.N-1, "c"), At: vkit.Int(rt, 0, 3, "at")}
		for k := vkit.Int(rt, 1, 5, "ops"); k > 0; k-- {
			o := c25op{K: vkit.Pick(rt, "kind", "call", "call", "callctx", "async", "notify", "notifyctx", "push", "stream", "stream", "bcast"), Back: vkit.Chance(rt, 30, "back"), R: genC25val(rt, true),
				Into: vkit.Pick(rt, "into", "bytes", "bytes", "str", "obj"), Short: vkit.Chance(rt, 15, "short"), Del: vkit.Pick(rt, "del", 0, 0, 0, 3), Slow: vkit.Pick(rt, "slow", 0, 0, 5)}
			n := 1
			if o.K == "stream" {
				n = vkit.Int(rt, 1, 4, "vals")
			}
			for ; n > 0; n-- {
				o.V = append(o.V, genC25val(rt, false))
			}
			if o.K == "stream" { // an empty value is no value of a stream
				for j := range o.V {
					o.V[j].N++
				}
				o.R.N++
			}
			if o.Into == "obj" {
				o.R.K = vkit.Pick(rt, "rk", "obj", "objv", "map")
			}
			w.Ops = append(w.Ops, o)
		}
		c.W = append(c.W, w)
	}
	return c
}

// c25var is a response variable used again and again; what was stored in it
// before belongs to its owner.
type c25var struct {
	into string
	b    []byte
	s    string
	o    map[string]interface{}
	kept []func() bool
}

func (v *c25var) ptr(into string) interface{} {
	switch into {
	case "bytes":
		return &v.b
	case "str":
		return &v.s
	}
	v.o = nil
	return &v.o
}

// got returns the content just stored and keeps it
func (v *c25var) got(into string, scramble bool) string {
	switch into {
	case "bytes":
		b := v.b
		out := string(b)
		want := []byte(out)
		if scramble {
			for i := range b {
				b[i], want[i] = 0x33, 0x33
			}
			// the variable may be grown by its owner
			x := b[:cap(b)]
			for i := len(b); i < len(x); i++ {
				x[i] = 0x33
			}
		}
		v.kept = append(v.kept, func() bool { return bytes.Equal(b, want) })
		return out
	case "str":
		s := v.s
		want := string(append([]byte(nil), s...))
		v.kept = append(v.kept, func() bool { return s == want })
		return want
	}
	m := v.o
	w, _ := json.Marshal(m)
	v.kept = append(v.kept, func() bool { g, _ := json.Marshal(m); return bytes.Equal(g, w) })
	return string(w)
}

// norm makes an object reply comparable
func (v c25val) into(into, wire string) string {
	if into != "obj" {
		return wire
	}
	var m map[string]interface{}
	if json.Unmarshal([]byte(wire), &m) != nil {
		return wire
	}
	w, _ := json.Marshal(m)
	return string(w)
}

func runC25(r *vkit.R, c c25case) {
	r.Bubble(func() {
		var po *vkit.Poison
		if c.Poison {
			po = vkit.NewPoison()
			arpc.DefaultAllocator = po
		} else {
			arpc.DefaultAllocator = arpc.New(64, 64)
		}
		defer func() { arpc.DefaultAllocator = arpc.New(64, 64) }()
		type state struct {
			wires   []string
			handled int32
		}
		var all []*c25held
		var allMu sync.Mutex
		hold := func(v c25val) *c25held {
			h := v.make()
			allMu.Lock()
			all = append(all, h)
			allMu.Unlock()
			return h
		}
		var early, late int32 // memory reused before / after the message was handled
		states := map[string]*state{}
		key := func(w, k int) string { return fmt.Sprintf("w%d.%d", w, k) }
		for w := range c.W {
			for k, o := range c.W[w].Ops {
				st := &state{}
				for _, v := range o.V {
					st.wires = append(st.wires, v.make().wire)
				}
				states[key(w, k)] = st
			}
		}
		reuse := func(what string, h *c25held, st *state, del int, want int32) {
			if !h.same() {
				r.Failf("%s: the library wrote into the caller's memory", what)
			}
			if del > 0 {
				time.Sleep(us(del))
				if !h.same() {
					r.Failf("%s: the library wrote into the caller's memory later on", what)
				}
			}
			h.scramble()
			if atomic.LoadInt32(&st.handled) < want {
				atomic.AddInt32(&early, 1)
			} else {
				atomic.AddInt32(&late, 1)
			}
		}
		setup := func(h arpc.Handler, client bool) {
			for w := range c.W {
				for k, o := range c.W[w].Ops {
					at := o.Back || o.K == "bcast"
					if at != client {
						continue
					}
					m, st := key(w, k), states[key(w, k)]
					if o.K == "stream" {
						h.HandleStream(m, func(s *arpc.Stream) {
							v := &c25var{}
							for j := range o.V {
								into := []string{"bytes", "str"}[j%2]
								if err := s.Recv(v.ptr(into)); err != nil {
									r.Failf("%s: stream value %d: %v", m, j, err)
									return
								}
								if got := v.got(into, true); got != st.wires[j] {
									r.Failf("%s: stream value %d is %s, want %s", m, j, vkit.Short(got), vkit.Short(st.wires[j]))
								}
								atomic.AddInt32(&st.handled, 1)
								if o.Slow > 0 {
									time.Sleep(us(o.Slow))
								}
								x := hold(o.R)
								if err := s.Send(x.v); err != nil {
									r.Failf("%s: stream send %d back: %v", m, j, err)
								}
								reuse(fmt.Sprintf("%s: stream value %d back", m, j), x, st, 0, 0)
							}
							s.CloseSendContext(context.Background())
							s.CloseRecv()
							for _, f := range v.kept {
								if !f() {
									r.Failf("%s: a stream value held by the receiver changed", m)
								}
							}
						}, true)
						continue
					}
					h.Handle(m, func(ctx *arpc.Context) {
						if got := string(ctx.Body()); got != st.wires[0] {
							r.Failf("%s (%s): the handler got %s, want %s", m, o.K, vkit.Short(got), vkit.Short(st.wires[0]))
						}
						atomic.AddInt32(&st.handled, 1)
						if o.Slow > 0 {
							time.Sleep(us(o.Slow))
							if got := string(ctx.Body()); got != st.wires[0] {
								r.Failf("%s (%s): the request changed while its handler ran: %s", m, o.K, vkit.Short(got))
							}
						}
						x := hold(o.R)
						ctx.Write(x.v)
						reuse(m+": reply", x, st, 0, 0)
					}, o.Slow%2 == 0)
				}
			}
		}
		s := newServer(c.S, func(h arpc.Handler) { setup(h, false) })
		s.net.Plan = func(i int) vkit.ConnPlan { return c.Plans[i%len(c.Plans)] }
		s.start()
		var clis, srvs []*arpc.Client
		for i := 0; i < c.N; i++ {
			cl, err := dial(s.net, c.C, func(h arpc.Handler) { setup(h, true) })
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			synctest.Wait()
			clis, srvs = append(clis, cl), append(srvs, s.client(i))
		}
		for i, n := range c.Stall {
			if n > 0 {
				a, b := s.net.Conns[i], s.net.Conns[i].Other()
				a.StallWrites(true)
				b.StallWrites(true)
				time.AfterFunc(us(n), func() { a.StallWrites(false); b.StallWrites(false) })
			}
		}
		var wg sync.WaitGroup
		vars := make([]*c25var, len(c.W))
		for w := range c.W {
			vars[w] = &c25var{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(c.W[w].At))
				v := vars[w]
				for k, o := range c.W[w].Ops {
					m, st := key(w, k), states[key(w, k)]
					cl := clis[c.W[w].C]
					if o.Back {
						cl = srvs[c.W[w].C]
					}
					to := long()
					if o.Short {
						to = us(2) + 1
					}
					wantR := o.R.into(o.Into, o.R.make().wire)
					isErr := o.R.K == "err"
					switch o.K {
					case "call", "callctx":
						x := hold(o.V[0])
						var err error
						if o.K == "call" {
							err = cl.Call(m, x.v, v.ptr(o.Into), to)
						} else {
							ctx, cancel := context.WithTimeout(context.Background(), to)
							err = cl.CallWith(ctx, m, x.v, v.ptr(o.Into))
							cancel()
						}
						switch {
						case o.Short && (err == arpc.ErrClientTimeout || err == arpc.ErrTimeout):
						case isErr:
							if err == nil || err.Error() != o.R.make().wire {
								r.Failf("%s (%s): error %v, want %s", m, o.K, err, vkit.Short(o.R.make().wire))
							}
						case err != nil:
							r.Failf("%s (%s): %v", m, o.K, err)
						default:
							if got := v.got(o.Into, k%2 == 0); got != wantR {
								r.Failf("%s (%s): reply %s, want %s", m, o.K, vkit.Short(got), vkit.Short(wantR))
							}
						}
						reuse(m, x, st, o.Del, 1)
					case "async":
						x := hold(o.V[0])
						ch := make(chan struct{})
						err := cl.CallAsync(m, x.v, func(ctx *arpc.Context, err error) {
							defer close(ch)
							w := o.R.make().wire
							switch {
							case err == nil:
								if got := string(ctx.Body()); got != w || isErr {
									r.Failf("%s (async): reply %s, want %s", m, vkit.Short(got), vkit.Short(w))
								}
							case isErr && err.Error() == w:
							case !o.Short:
								r.Failf("%s (async): %v", m, err)
							}
						}, to)
						reuse(m, x, st, o.Del, 1)
						if err == nil {
							<-ch
						} else if !o.Short {
							r.Failf("%s (async): %v", m, err)
						}
					case "notify", "notifyctx":
						x := hold(o.V[0])
						var err error
						if o.K == "notify" {
							err = cl.Notify(m, x.v, to)
						} else {
							ctx, cancel := context.WithTimeout(context.Background(), to)
							err = cl.NotifyContext(ctx, m, x.v)
							cancel()
						}
						if err != nil && !o.Short {
							r.Failf("%s (%s): %v", m, o.K, err)
						}
						reuse(m, x, st, o.Del, 1)
					case "push":
						x := hold(o.V[0])
						msg := cl.NewMessage(arpc.CmdNotify, m, x.v)
						reuse(m+": new message", x, st, 0, 1)
						if err := cl.PushMsg(msg, long()); err != nil {
							r.Failf("%s (push): %v", m, err)
						}
					case "bcast":
						x := hold(o.V[0])
						s.srv.Broadcast(m, x.v)
						reuse(m, x, st, o.Del, int32(c.N))
					case "stream":
						str := cl.NewStream(m)
						for j, val := range o.V {
							x := hold(val)
							if err := str.Send(x.v); err != nil {
								r.Failf("%s: stream send %d: %v", m, j, err)
							}
							reuse(fmt.Sprintf("%s: stream value %d", m, j), x, st, o.Del, int32(j+1))
						}
						str.CloseSendContext(context.Background())
						w := o.R.make().wire
						for j := range o.V {
							into := []string{"str", "bytes"}[j%2]
							if err := str.Recv(v.ptr(into)); err != nil {
								r.Failf("%s: stream value %d back: %v", m, j, err)
								break
							}
							if got := v.got(into, true); got != w {
								r.Failf("%s: stream value %d back is %s, want %s", m, j, vkit.Short(got), vkit.Short(w))
							}
						}
						str.CloseRecv()
					}
				}
			}()
		}
		if !waitOr(&wg, 2*long()) {
			r.Failf("an operation never ended")
			return
		}
		time.Sleep(long())
		synctest.Wait()
		for _, cl := range clis {
			cl.Stop()
		}
		s.stop()
		time.Sleep(long())
		synctest.Wait()
		for w, v := range vars {
			for _, f := range v.kept {
				if !f() {
					r.Failf("worker %d: data it received changed afterwards", w)
				}
			}
		}
		for _, h := range all {
			if !h.same() {
				r.Failf("the library wrote into memory its caller had already reused")
			}
		}
		if po != nil {
			if e := po.Check(); e != "" {
				r.Failf("%s", e)
			}
		}
		if early > 0 {
			r.NonTrivial()
			r.Class("reused-before-handled")
		}
		if late > 0 {
			r.Class("reused-after-handled")
		}
	})
}

// C25 publish: the same for publications.

type c25pub struct {
	At   int
	From int // -1: the server
	One  bool
	V    c25val
	Del  int
}

type c25pubcase struct {
	S, C   vkit.EP
	N      int
	Stall  []int
	Topics []string
	Pubs   []c25pub
}

func genC25pub(rt *rapid.T) c25pubcase {
	c := c25pubcase{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "n"), Topics: []string{"t", "topic/ü", string(bytes.Repeat([]byte("L"), 300))}}
	c.S.SyncWrite, c.C.SyncWrite = false, false
	c.S.Pool, c.C.Pool = vkit.Chance(rt, 40, "sp"), vkit.Chance(rt, 40, "cp")
	c.S.Coders = c16coders[vkit.Int(rt, 0, len(c16coders)-1, "coders")]
	c.C.Coders = c.S.Coders
	for i := 0; i < c.N; i++ {
		c.Stall = append(c.Stall, vkit.Pick(rt, "stall", 0, 0, 10, 40))
	}
	for i := vkit.Int(rt, 1, 8, "pubs"); i > 0; i-- {
		c.Pubs = append(c.Pubs, c25pub{At: vkit.Int(rt, 0, 5, "at"), From: vkit.Int(rt, -1, c.N-1, "from"), One: vkit.Chance(rt, 25, "one"), V: genC25val(rt, false), Del: vkit.Pick(rt, "del", 0, 0, 3)})
	}
	return c
}

func runC25pub(r *vkit.R, c c25pubcase) {
	r.Bubble(func() {
		s := pubsub.NewServer()
		c.S.Apply(s.Handler)
		s.Password = "pw"
		n := vkit.NewNet("ps")
		var handled int32
		var clis []*pubsub.Client
		go s.Serve(n)
		synctest.Wait()
		wires := make([]string, len(c.Pubs))
		helds := make([]*c25held, len(c.Pubs))
		for i, p := range c.Pubs {
			helds[i] = p.V.make()
			wires[i] = helds[i].wire
		}
		got := make([]int32, len(c.Pubs))
		for i := 0; i < c.N; i++ {
			cl, err := pubsub.NewClient(n.Dial, c.C.NewHandler())
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			cl.Password = "pw"
			clis = append(clis, cl)
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			for t := range c.Topics {
				if err := cl.Subscribe(c.Topics[t], func(tp *pubsub.Topic) {
					atomic.AddInt32(&handled, 1)
					data := string(tp.Data)
					for k, p := range c.Pubs {
						if k%len(c.Topics) == t && wires[k] == data {
							_ = p
							atomic.AddInt32(&got[k], 1)
							return
						}
					}
					r.Failf("client %d got a publication on %q that nobody made: %s", i, tp.Name[:1], vkit.Short(data))
				}, long()); err != nil {
					r.Failf("subscribe: %v", err)
					return
				}
			}
		}
		for i, d := range c.Stall {
			if d > 0 {
				a, b := n.Conns[i], n.Conns[i].Other()
				a.StallWrites(true)
				b.StallWrites(true)
				time.AfterFunc(us(d), func() { a.StallWrites(false); b.StallWrites(false) })
			}
		}
		var wg sync.WaitGroup
		for k, p := range c.Pubs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(p.At))
				h := helds[k]
				t := c.Topics[k%len(c.Topics)]
				var err error
				switch {
				case p.From < 0 && p.One:
					err = s.PublishToOne(t, h.v)
				case p.From < 0:
					err = s.Publish(t, h.v)
				case p.One:
					err = clis[p.From].PublishToOne(t, h.v, long())
				default:
					err = clis[p.From].Publish(t, h.v, long())
				}
				if err != nil {
					r.Failf("publish %d: %v", k, err)
				}
				if !h.same() {
					r.Failf("publication %d changed its caller's memory", k)
				}
				time.Sleep(us(p.Del))
				if !h.same() {
					r.Failf("publication %d changed its caller's memory later on", k)
				}
				h.scramble()
				if atomic.LoadInt32(&handled) < int32(c.N*len(c.Pubs)) {
					r.NonTrivial()
				}
			}()
		}
		if !waitOr(&wg, 2*long()) {
			r.Failf("a publication never ended")
			return
		}
		time.Sleep(long())
		synctest.Wait()
		// each publication reaches its subscribers (equal payloads are counted together)
		for k, p := range c.Pubs {
			want, have := int32(0), int32(0)
			for j, q := range c.Pubs {
				if wires[j] == wires[k] && j%len(c.Topics) == k%len(c.Topics) {
					have += got[j]
					if q.One {
						want++
					} else {
						want += int32(c.N)
					}
				}
			}
			if have != want {
				r.Failf("publication %d (from %d): %d deliveries with its payload, want %d", k, p.From, have, want)
			}
		}
		for _, cl := range clis {
			cl.Stop()
		}
		s.Stop()
		time.Sleep(long())
		synctest.Wait()
		for k, h := range helds {
			if !h.same() {
				r.Failf("the library wrote into the memory of publication %d after its caller had reused it", k)
			}
		}
	})
}

var _ = errors.New

func init() {
	vkit.Register("C25", "own", vkit.Opts{Quick: 15000, Rule: "a caller reused its memory before its message was handled"}, genC25, runC25)
	vkit.Register("C25", "publish", vkit.Opts{Quick: 10000, Rule: "a publisher reused its memory before its publication was handled"}, genC25pub, runC25pub)
}

// C25 values: the map of attached values, too, is taken at call time.

type c25vop struct {
	K    string // call, async, notify, push, bcast, reply
	Tag  int
	Back bool
	Sets int // how often the owner changes the map afterwards
}

type c25vals struct {
	S, C  vkit.EP
	Stall int
	Ops   []c25vop
}

func genC25vals(rt *rapid.T) c25vals {
	c := c25vals{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), Stall: vkit.Pick(rt, "stall", 0, 0, 20)}
	c.S.Coders = []string{vkit.Pick(rt, "coder", "append", "msgpack", "msgpack")}
	c.C.Coders = c.S.Coders
	c.S.Pool, c.C.Pool = vkit.Bool(rt, "sp"), vkit.Bool(rt, "cp")
	if c.S.SyncWrite {
		c.Stall = 0
	}
	for i := vkit.Int(rt, 1, 6, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, c25vop{K: vkit.Pick(rt, "k", "call", "async", "notify", "push", "bcast", "reply", "reply"), Tag: vkit.Int(rt, 1, 9, "tag"), Back: vkit.Chance(rt, 30, "back"), Sets: vkit.Pick(rt, "sets", 1, 10, 300)})
	}
	return c
}

func runC25vals(r *vkit.R, c c25vals) {
	r.Bubble(func() {
		tag := func(i int) string { return fmt.Sprintf("tag %d of %d", c.Ops[i].Tag, i) }
		var mu sync.Mutex
		seen := make([]int, len(c.Ops))
		change := func(n int, set func(k string, v interface{})) {
			for k := 0; k < n; k++ {
				set(fmt.Sprintf("k%d", k%20), k)
				set(appendKey, "changed")
			}
		}
		setup := func(h arpc.Handler, client bool) {
			for i, o := range c.Ops {
				if (o.Back || o.K == "bcast") != client {
					continue
				}
				h.Handle(fmt.Sprintf("m%d", i), func(ctx *arpc.Context) {
					if v, _ := ctx.Get(appendKey); v != tag(i) {
						r.Failf("op %d (%s): attached value %v, want %q", i, o.K, v, tag(i))
					}
					mu.Lock()
					seen[i]++
					mu.Unlock()
					ctx.Write("ok")
					if o.K == "reply" {
						change(o.Sets, func(k string, v interface{}) { ctx.Set(k, v) })
					}
				})
			}
		}
		s := newServer(c.S, func(h arpc.Handler) { setup(h, false) }).start()
		cli, err := dial(s.net, c.C, func(h arpc.Handler) { setup(h, true) })
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		synctest.Wait()
		srv := s.client(0)
		if c.Stall > 0 {
			a, b := s.net.Conns[0], s.net.Conns[0].Other()
			a.StallWrites(true)
			b.StallWrites(true)
			time.AfterFunc(us(c.Stall), func() { a.StallWrites(false); b.StallWrites(false) })
			r.NonTrivial()
		}
		var wg sync.WaitGroup
		for i, o := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl := cli
				if o.Back {
					cl = srv
				}
				m := fmt.Sprintf("m%d", i)
				vals := map[interface{}]interface{}{appendKey: tag(i)}
				done := make(chan struct{})
				var err error
				switch o.K {
				case "call":
					err = cl.Call(m, "x", nil, long(), vals)
					close(done)
				case "async", "reply":
					err = cl.CallAsync(m, "x", func(ctx *arpc.Context, err error) {
						if v, _ := ctx.Get(appendKey); v != tag(i) {
							r.Failf("op %d (%s): the response carries %v, want %q", i, o.K, v, tag(i))
						}
						close(done)
					}, long(), vals)
				case "notify":
					err = cl.Notify(m, "x", long(), vals)
					close(done)
				case "push":
					err = cl.PushMsg(cl.NewMessage(arpc.CmdNotify, m, "x", vals), long())
					close(done)
				case "bcast":
					s.srv.Broadcast(m, "x", vals)
					close(done)
				}
				if err != nil {
					r.Failf("op %d (%s): %v", i, o.K, err)
					return
				}
				change(o.Sets, func(k string, v interface{}) { vals[k] = v })
				<-done
			}()
		}
		if !waitOr(&wg, 2*long()) {
			r.Failf("an operation never ended")
		}
		time.Sleep(long())
		synctest.Wait()
		for i, n := range seen {
			if n != 1 {
				r.Failf("op %d (%s) was handled %d times", i, c.Ops[i].K, n)
			}
		}
		cli.Stop()
		s.stop()
		time.Sleep(time.Second)
	})
}

func init() {
	vkit.Register("C25", "values", vkit.Opts{Quick: 8000, Rule: "the maps were changed before their messages could be encoded"}, genC25vals, runC25vals)
}
