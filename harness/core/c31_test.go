package core

import (
	"context"
	"fmt"
	"net"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"time"
	"weak"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C31: what has ended is let go. Everything a finished operation was given or
// made (callbacks, results, contexts, streams, messages, connection objects) is
// watched through a weak pointer; when all is over, and while client and server
// go on working, the garbage collector must be able to take it. Things that
// came and went are counted per kind: a few may be held by loops that still
// have their last message in hand, more are a leak.

type c31obj struct {
	next *c31obj
	pad  [6]uint64
}

type c31track struct {
	mu  sync.Mutex
	m   map[string][]func() bool
	off bool
}

func track[T any](t *c31track, kind string, p *T) *T {
	if t.off {
		return p
	}
	w := weak.Make(p)
	t.mu.Lock()
	t.m[kind] = append(t.m[kind], func() bool { return w.Value() != nil })
	t.mu.Unlock()
	return p
}

func (t *c31track) obj(kind string) *c31obj { return track(t, kind, &c31obj{}) }

// judge collects garbage and reports the kinds of which more than a few stay.
func (t *c31track) judge(r *vkit.R, allow func(kind string) int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	var kinds []string
	for k := range t.m {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		n := 0
		for _, alive := range t.m[k] {
			if alive() {
				n++
			}
		}
		if n > allow(k) {
			r.Failf("%d of %d %s are still held after they ended", n, len(t.m[k]), k)
		}
		if len(t.m[k]) > allow(k) {
			r.Class("%s", k)
			r.NonTrivial()
		}
	}
}

// c31coder sees every message on its way out and in.
type c31coder struct {
	t   *c31track
	who string
}

func (c c31coder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	return track(c.t, c.who+" messages sent", m)
}
func (c c31coder) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	return track(c.t, c.who+" messages received", m)
}

type c31op struct {
	K   string // call, callctx, async, notify, notifyctx, stream, conn
	Out string
	Srv bool `json:",omitempty"` // the server's side starts it
	N   int
	Par bool `json:",omitempty"`
	V   int  // values on a stream, bytes of a request
}

type c31case struct {
	S, C  vkit.EP
	Coder bool
	Ops   []c31op
}

func genC31(rt *rapid.T) c31case {
	c := c31case{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), Coder: vkit.Chance(rt, 60, "coder")}
	c.S.Pool, c.C.Pool = vkit.Chance(rt, 25, "spool"), vkit.Chance(rt, 25, "cpool")
	c.C.SendQ = vkit.Pick(rt, "sendq", 0, 0, 0, 1, 4)
	for i := vkit.Int(rt, 1, 4, "ops"); i > 0; i-- {
		o := c31op{K: vkit.Pick(rt, "k", "call", "callctx", "async", "async", "notify", "notifyctx", "stream", "stream", "conn"), Srv: vkit.Chance(rt, 35, "srv"), N: vkit.Int(rt, 8, 16, "n"), Par: vkit.Bool(rt, "par"), V: vkit.Size(rt, 200, "v")}
		switch o.K {
		case "call", "async":
			o.Out = vkit.Pick(rt, "out", "ok", "ok", "err", "none", "never", "late", "loss", "panic", "full")
		case "callctx":
			o.Out = vkit.Pick(rt, "out", "ok", "ok", "err", "none", "never", "late", "loss", "cancel", "full")
		case "notify", "notifyctx":
			o.Out = vkit.Pick(rt, "out", "ok", "none", "full")
		case "stream":
			o.Out = vkit.Pick(rt, "out", "client-first", "server-first", "both", "unread", "ignored", "loss", "none")
			o.V = vkit.Int(rt, 1, 4, "values")
		case "conn":
			o.Out = vkit.Pick(rt, "out", "stop", "loss", "server-stop", "bad", "idle", "busy", "streaming")
		}
		if o.Out == "full" && (c.S.SyncWrite || c.C.SyncWrite) {
			// a synchronous write waits for the connection
			o.Out = "none"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type c31key struct{}

type c31world struct {
	r    *vkit.R
	c    c31case
	t    c31track
	net  *vkit.Net
	srv  *arpc.Server
	cli  *arpc.Client
	mu   sync.Mutex
	conn *arpc.Client // the server's side of cli
	own  *vkit.Conn
}

// setup registers the routes, on either side.
func (w *c31world) setup(h arpc.Handler, who string) {
	t := &w.t
	note := func(ctx *arpc.Context) {
		ctx.Set("k", t.obj(who+" context values"))
	}
	h.Handle("ok", func(ctx *arpc.Context) { note(ctx); ctx.Write(&psObj{ID: 1, S: ctx.Body()}) })
	h.Handle("err", func(ctx *arpc.Context) { note(ctx); ctx.Error("no") }, false)
	h.Handle("never", func(ctx *arpc.Context) { note(ctx) }, true)
	h.Handle("late", func(ctx *arpc.Context) { note(ctx); time.Sleep(us(100)); ctx.Write("late") }, true)
	h.Handle("panic", func(ctx *arpc.Context) { note(ctx); panic("a handler's panic") }, false)
	if w.c.Coder {
		h.UseCoder(c31coder{t, who})
	}
	h.HandleStream("stream", func(s *arpc.Stream) {
		track(t, who+" handler streams", s)
		var v []byte
		for s.Recv(&v) == nil {
			s.Send(v)
		}
		s.SendAndClose([]byte("end"))
	}, true)
	h.HandleStream("first", func(s *arpc.Stream) {
		track(t, who+" handler streams", s)
		s.SendAndClose([]byte("end"))
		var v []byte
		for s.Recv(&v) == nil {
		}
	}, true)
	h.HandleStream("ignore", func(s *arpc.Stream) {
		track(t, who+" handler streams", s)
		s.CloseRecv()
		s.CloseSend()
	}, true)
}

func (w *c31world) side(srv bool) *arpc.Client {
	w.mu.Lock()
	defer w.mu.Unlock()
	if srv {
		return w.conn
	}
	return w.cli
}

func (w *c31world) one(o c31op, i int) {
	t := &w.t
	cl := w.side(o.Srv)
	who := "client"
	if o.Srv {
		who = "server"
	}
	name := func(what string) string { return fmt.Sprintf("%s %s of %s (%s)", who, what, o.K, o.Out) }
	method := o.Out
	switch o.Out {
	case "loss", "cancel", "full":
		method = "never"
	}
	timeout := us(50)
	req := track(t, name("arguments"), &psObj{ID: i, S: vkit.Blob{N: o.V, S: i}.Bytes()})
	switch o.K {
	case "call":
		rsp := track(t, name("results"), &psObj{})
		var v interface{} = rsp
		cl.Call(method, req, v, timeout)
	case "callctx":
		rsp := track(t, name("results"), &psObj{})
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), c31key{}, t.obj(name("contexts"))))
		switch o.Out {
		case "never", "late", "full", "loss":
			ctx, cancel = context.WithTimeout(ctx, timeout)
		case "cancel":
			go func() { time.Sleep(us(10)); cancel() }()
		}
		cl.CallContext(ctx, method, req, rsp)
		if i%2 == 0 {
			cancel()
		}
		_ = cancel
	case "async":
		x := t.obj(name("callbacks"))
		cl.CallAsync(method, req, func(ctx *arpc.Context, err error) {
			x.pad[0]++
			if ctx != nil && err == nil {
				ctx.Set("k", t.obj(who+" callback context values"))
			}
		}, timeout)
	case "notify":
		cl.Notify(method, req, timeout)
	case "notifyctx":
		ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), c31key{}, t.obj(name("contexts"))), timeout)
		cl.NotifyContext(ctx, method, req)
		cancel()
	case "stream":
		m := "stream"
		switch o.Out {
		case "server-first":
			m = "first"
		case "ignored":
			m = "ignore"
		case "none":
			m = "none"
		}
		s := track(t, name("streams"), cl.NewStream(m))
		ctx, cancel := context.WithTimeout(context.Background(), us(200))
		defer cancel()
		for k := 0; k < o.V; k++ {
			s.SendContext(ctx, []byte(fmt.Sprintf("value %d", k)))
		}
		var v []byte
		switch o.Out {
		case "client-first", "server-first":
			s.CloseSendContext(ctx)
			for s.RecvContext(ctx, &v) == nil {
			}
			s.CloseRecv()
		case "both":
			s.RecvContext(ctx, &v)
			s.SendAndCloseContext(ctx, []byte("bye"))
			s.CloseRecv()
		case "unread", "ignored":
			s.CloseSendContext(ctx)
			time.Sleep(us(20))
			s.CloseRecv()
		case "none":
			s.CloseSendContext(ctx)
			s.CloseRecv()
		case "loss":
			for s.RecvContext(ctx, &v) == nil {
			}
		}
	case "conn":
		h := w.c.C.NewHandler()
		w.setup(h, "guest")
		n := w.net
		var own *vkit.Conn
		g, err := arpc.NewClient(func() (net.Conn, error) {
			if own != nil {
				return nil, fmt.Errorf("no more")
			}
			c, err := n.Dial()
			if err == nil {
				own = c.(*vkit.Conn)
			}
			return c, err
		}, h)
		if err != nil {
			w.r.Failf("connect: %v", err)
			return
		}
		track(t, "guests ("+o.Out+")", g)
		g.Set("k", t.obj("guest values ("+o.Out+")"))
		switch o.Out {
		case "busy":
			for k := 0; k < 3; k++ {
				g.CallAsync("late", "x", func(*arpc.Context, error) {}, us(200)+time.Duration(k)*24*time.Hour)
				g.Notify("never", "x", us(10))
			}
			// the server asks too, and is prepared to wait
			w.srv.ForEach(func(x *arpc.Client) {
				if x.Conn == own.Other() {
					held := t.obj("callbacks of a server's calls to guests")
					go x.CallAsync("late", "x", func(*arpc.Context, error) { runtime.KeepAlive(held) }, 24*time.Hour)
				}
			})
		case "streaming":
			s := track(t, "guest streams", g.NewStream("stream"))
			s.SendContext(context.Background(), []byte("x"))
		case "idle":
		default:
			g.Call("ok", req, nil, us(100))
		}
		time.Sleep(us(2))
		switch o.Out {
		case "loss":
			own.Reset()
		case "bad":
			own.Write(make([]byte, 16))
			time.Sleep(us(5))
			own.Reset()
		case "server-stop":
			w.srv.ForEach(func(x *arpc.Client) {
				if x.Conn == own.Other() {
					go x.Stop()
				}
			})
			time.Sleep(us(5))
			own.Reset()
		}
		time.Sleep(us(10))
		g.Stop()
	}
}

// start connects a client to a new server.
func (w *c31world) start() bool {
	r, c := w.r, w.c
	w.srv = arpc.NewServer()
	w.srv.Handler = c.S.NewHandler()
	w.setup(w.srv.Handler, "server")
	w.srv.Handler.HandleConnected(func(cl *arpc.Client) {
		track(&w.t, "connections of the server", cl)
		cl.Set("k", w.t.obj("values of server connections"))
		w.mu.Lock()
		if cl.Conn == w.own.Other() {
			w.conn = cl
		}
		w.mu.Unlock()
	})
	w.net = vkit.NewNet("s")
	w.net.Forget = true
	go w.srv.Serve(w.net)
	synctest.Wait()
	h := c.C.NewHandler()
	w.setup(h, "client")
	var err error
	w.cli, err = arpc.NewClient(func() (net.Conn, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		cn, err := w.net.Dial()
		if err == nil {
			w.own = cn.(*vkit.Conn)
		}
		return cn, err
	}, h)
	if err != nil {
		r.Failf("connect: %v", err)
		return false
	}
	w.settle()
	return true
}

func (w *c31world) stop() {
	w.cli.Stop()
	w.srv.Stop()
	w.own.Reset()
	time.Sleep(time.Minute)
	synctest.Wait()
}

func (w *c31world) settle() { time.Sleep(us(1000) + time.Minute); synctest.Wait() }

// round runs every operation of the case.
func (w *c31world) round() bool {
	for _, o := range w.c.Ops {
		if o.Out == "full" {
			w.own.StallWrites(true)
			w.own.Other().StallWrites(true)
		}
		var wg sync.WaitGroup
		for i := 0; i < o.N; i++ {
			if o.Par || o.Out == "loss" && o.K != "conn" {
				wg.Add(1)
				go func() { defer wg.Done(); w.one(o, i) }()
			} else {
				w.one(o, i)
			}
		}
		synctest.Wait()
		if o.Out == "loss" && o.K != "conn" {
			w.own.Reset()
		}
		if !waitOr(&wg, us(100000)+time.Hour) {
			w.r.Failf("%s (%s): an operation never ended", o.K, o.Out)
			return false
		}
		if o.Out == "full" {
			w.own.StallWrites(false)
			w.own.Other().StallWrites(false)
		}
		w.settle()
	}
	// still in working order, and with nothing old in hand
	for k := 0; k < 3; k++ {
		for _, srv := range []bool{false, true} {
			var rsp psObj
			if err := w.side(srv).Call("ok", "probe", &rsp, us(100)+time.Second); err != nil {
				w.r.Failf("probe (server: %v): %v", srv, err)
				return false
			}
			s := w.side(srv).NewStream("stream")
			s.SendAndClose([]byte("probe"))
			var v []byte
			for s.Recv(&v) == nil {
			}
			s.CloseRecv()
		}
	}
	w.settle()
	return true
}

func runC31(r *vkit.R, c c31case) {
	w := &c31world{r: r, c: c, t: c31track{m: map[string][]func() bool{}}}
	r.Bubble(func() {
		if !w.start() {
			return
		}
		if w.round() {
			w.t.judge(r, func(k string) int { return 2 })
		}
		runtime.KeepAlive(w)
		w.stop()
	})
}

// ---- growth: the same history again and again needs no more memory ----

func genC31g(rt *rapid.T) c31case {
	c := genC31(rt)
	c.Coder = false
	c.Ops = c.Ops[:1]
	c.Ops[0].N = vkit.Int(rt, 100, 150, "many")
	return c
}

const c31rounds = 12

func heap() (objects, bytes int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapObjects), int(m.HeapAlloc)
}

func runC31g(r *vkit.R, c c31case) {
	w := &c31world{r: r, c: c, t: c31track{off: true}}
	r.Bubble(func() {
		if !w.start() {
			return
		}
		ok := w.round() && w.round()
		n := c31rounds * c.Ops[0].N
		o0, b0 := heap()
		grown := ""
		// the runtime's own caches grow too, but not for ever
		for try := 0; try < 4 && ok; try++ {
			for i := 0; i < c31rounds && ok; i++ {
				ok = w.round()
			}
			o1, b1 := heap()
			if o1-o0 <= n/2 && b1-b0 <= 40*n {
				grown = ""
				break
			}
			grown = fmt.Sprintf("%d more operations of the same kind left %d objects (%d bytes) behind", n, o1-o0, b1-b0)
			o0, b0 = o1, b1
		}
		runtime.KeepAlive(w)
		w.stop()
		if grown != "" && ok {
			r.Failf("%s", grown)
		}
		r.Class("%s-%s", c.Ops[0].K, c.Ops[0].Out)
		r.NonTrivial()
	})
}

// ---- publish/subscribe ----

type c31ps struct {
	S, C  vkit.EP
	N     int
	Sub   []int // subscribe requests of each subscriber
	Unsub []int
	End   []string // stop, drop, drop-during, stay
	Pub   int
	Slow  int `json:",omitempty"` // what decoding a subscribe request takes
}

// c31slow takes its time to decode a subscribe request.
type c31slow struct{ d time.Duration }

func (c c31slow) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message { return m }
func (c c31slow) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	if m.Cmd() == arpc.CmdRequest && m.Method() == "in_S" {
		time.Sleep(c.d)
	}
	return m
}

func genC31ps(rt *rapid.T) c31ps {
	c := c31ps{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 8, 14, "n"), Pub: vkit.Int(rt, 0, 3, "pub")}
	c.S.Pool = vkit.Chance(rt, 25, "pool")
	c.Slow = vkit.Pick(rt, "slow", 0, 0, 1, 3)
	end := vkit.Pick(rt, "end", "stop", "drop", "during", "sdrop")
	for i := 0; i < c.N; i++ {
		c.Sub = append(c.Sub, vkit.Int(rt, 1, 4, "subs"))
		c.Unsub = append(c.Unsub, vkit.Int(rt, 0, 4, "unsubs"))
		c.End = append(c.End, vkit.Pick(rt, "end1", end, end, end, "stay"))
	}
	return c
}

func runC31ps(r *vkit.R, c c31ps) {
	t := &c31track{m: map[string][]func() bool{}}
	r.Bubble(func() {
		s := pubsub.NewServer()
		s.Password = "pw"
		c.S.Apply(s.Handler)
		if c.Slow > 0 {
			s.Handler.UseCoder(c31slow{us(c.Slow)})
		}
		var mu sync.Mutex
		stay := map[net.Conn]bool{}
		s.Handler.HandleConnected(func(cl *arpc.Client) {
			mu.Lock()
			defer mu.Unlock()
			if !stay[cl.Conn] {
				track(t, "subscriber connections", cl)
			}
		})
		n := vkit.NewNet("ps")
		n.Forget = true
		go s.Serve(n)
		synctest.Wait()
		var keep []*pubsub.Client
		var conns []*vkit.Conn
		one := func(i int) {
			var own *vkit.Conn
			again := false
			cl, err := pubsub.NewClient(func() (net.Conn, error) {
				if again {
					return nil, fmt.Errorf("no more")
				}
				again = true
				mu.Lock()
				defer mu.Unlock()
				own = n.DialConn()
				conns = append(conns, own)
				stay[own.Other()] = c.End[i] == "stay"
				return own, nil
			}, c.C.NewHandler())
			if err != nil {
				r.Failf("connect: %v", err)
				return
			}
			cl.Password = "pw"
			if c.End[i] != "stay" {
				track(t, "subscribers", cl.Client)
			}
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			for k := 0; k < c.Sub[i]; k++ {
				name := fmt.Sprintf("t%d", k)
				kind := "topic callbacks"
				if c.End[i] == "stay" && k >= c.Unsub[i] {
					kind = "kept topic callbacks"
				}
				x := t.obj(kind)
				h := func(*pubsub.Topic) { x.pad[0]++ }
				if c.End[i] == "during" && k == c.Sub[i]-1 {
					go cl.Subscribe(name, h, us(100))
					time.Sleep(us(i % 2))
					continue
				}
				if err := cl.Subscribe(name, h, us(100)+time.Second); err != nil {
					r.Failf("subscribe: %v", err)
				}
			}
			if c.End[i] != "during" {
				for k := 0; k < c.Unsub[i]; k++ {
					if err := cl.Unsubscribe(fmt.Sprintf("t%d", k), us(100)+time.Second); err != nil {
						r.Failf("unsubscribe: %v", err)
					}
				}
			}
			switch c.End[i] {
			case "stay":
				mu.Lock()
				keep = append(keep, cl)
				mu.Unlock()
				return
			case "drop":
				own.Reset()
			case "sdrop", "during":
				var other *arpc.Client
				s.ForEach(func(x *arpc.Client) {
					if x.Conn == own.Other() {
						other = x
					}
				})
				if other != nil {
					other.Stop()
				}
				time.Sleep(us(10))
				own.Reset()
			}
			time.Sleep(us(10))
			cl.Stop()
		}
		var wg sync.WaitGroup
		for i := 0; i < c.N; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); one(i) }()
		}
		for k := 0; k < c.Pub; k++ {
			s.Publish(fmt.Sprintf("t%d", k), "x")
			time.Sleep(us(1))
		}
		if !waitOr(&wg, us(100000)+time.Hour) {
			r.Failf("an operation never ended")
			return
		}
		time.Sleep(us(1000) + 3*time.Minute)
		s.Publish("t0", "probe")
		synctest.Wait()
		if !r.Failed() {
			t.judge(r, func(k string) int {
				if k == "kept topic callbacks" {
					return 1000
				}
				return 0
			})
		}
		runtime.KeepAlive(s)
		for _, cl := range keep {
			cl.Stop()
		}
		s.Stop()
		for _, cn := range conns {
			cn.Reset()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C31", "let-go", vkit.Opts{Quick: 4000, Units: true, Rule: "more things of one kind came and went than the few that may stay"}, genC31, runC31)
	vkit.Register("C31", "growth", vkit.Opts{Quick: 500, Units: true, Rule: "always"}, genC31g, runC31g)
	vkit.Register("C31", "subscribers", vkit.Opts{Quick: 3000, Units: true, Rule: "more things of one kind came and went than the few that may stay"}, genC31ps, runC31ps)
}
