package core

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C12: registration order, aborts, panics, and independence of clones.

// ---- route: random registrations on a family of handlers, then messages ----

type c12op struct {
	K string
	H int
	M int `json:",omitempty"` // method index, option index
	N int `json:",omitempty"`
	A int `json:",omitempty"` // 0: default, 1: sync, 2: async
}

type c12msg struct {
	M    int // method index
	Note bool
	Acts string // directives, e.g. "a3 p5 n2"
}

type c12route struct {
	Ops  []c12op
	Role []string
	Msgs []c12msg
}

var c12methods = []string{"a", "bb", "/x/y", strings.Repeat("m", 127), "A", "a\x00", "", strings.Repeat("m", 128), strings.Repeat("z", 300)}

func genC12route(rt *rapid.T) c12route {
	var c c12route
	big := vkit.Chance(rt, 8, "big")
	for i := vkit.Int(rt, 1, 22, "ops"); i > 0; i-- {
		o := c12op{K: vkit.Pick(rt, "k", "clone", "clone", "server", "client", "new", "use", "use", "use", "use", "usenil", "handle", "handle", "handle", "handle", "notfound", "stream", "coder", "coder", "opt", "opt", "executor", "cancel"), H: vkit.Int(rt, 0, 7, "h")}
		switch o.K {
		case "use":
			o.N = vkit.Int(rt, 1, 3, "n")
			if big {
				o.N = vkit.Pick(rt, "nbig", 1, 60, 126, 127, 128, 129, 140)
			}
		case "coder":
			o.N = vkit.Int(rt, 1, 3, "ncod")
		case "handle", "stream":
			o.M = vkit.Int(rt, 0, len(c12methods)-1, "m")
			o.A = vkit.Int(rt, 0, 2, "a")
		case "opt":
			o.M = vkit.Int(rt, 0, 12, "opt")
			o.N = vkit.Int(rt, 0, 3, "v")
		}
		c.Ops = append(c.Ops, o)
	}
	for i := 0; i < 8; i++ {
		c.Role = append(c.Role, vkit.Pick(rt, "role", "accept", "dial"))
	}
	for i := vkit.Int(rt, 1, 8, "msgs"); i > 0; i-- {
		m := c12msg{M: vkit.Int(rt, 0, 5, "mm"), Note: vkit.Chance(rt, 20, "note")}
		var as []string
		for j := vkit.Pick(rt, "acts", 0, 1, 1, 2, 3); j > 0; j-- {
			// directives name a position in the route's list
			as = append(as, fmt.Sprintf("%s%d", vkit.Pick(rt, "act", "a", "a", "p", "n", "n"), vkit.Pick(rt, "pos", 0, 1, 2, 3, 4, 5, 6, 60, 100, 125, 126, 127, 128, 130)))
		}
		m.Acts = strings.Join(as, " ")
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

type c12entry struct {
	id   int
	kind byte // 'm' middleware, 'h' route handler, 'd' built-in not-found
}

type c12model struct {
	h       arpc.Handler
	srv     *arpc.Server
	middles []c12entry
	routes  map[string][]c12entry
	async   map[string]bool
	streams map[string]int
	strAsyn map[string]bool
	coders  []int
	opts    [13]int64
	exec    int
	dead    bool // context cancelled
}

func (m *c12model) clone(h arpc.Handler) *c12model {
	x := *m
	x.h = h
	x.srv = nil
	x.dead = false
	x.middles = append([]c12entry(nil), m.middles...)
	x.coders = append([]int(nil), m.coders...)
	x.routes, x.async, x.streams, x.strAsyn = map[string][]c12entry{}, map[string]bool{}, map[string]int{}, map[string]bool{}
	for k, v := range m.routes {
		x.routes[k] = append([]c12entry(nil), v...)
		x.async[k] = m.async[k]
	}
	for k, v := range m.streams {
		x.streams[k] = v
		x.strAsyn[k] = m.strAsyn[k]
	}
	return &x
}

var c12optNames = []string{"MaxReconnectTimes", "BatchRecv", "BatchSend", "AsyncWrite", "AsyncResponse", "RecvBufferSize", "SendBufferSize", "ReadTimeout", "WriteTimeout", "SendQueueSize", "StreamQueueSize", "MaxBodyLen", "LogTag"}

func c12get(h arpc.Handler) (o [13]int64) {
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	o[0] = int64(h.MaxReconnectTimes())
	o[1], o[2], o[3], o[4] = b(h.BatchRecv()), b(h.BatchSend()), b(h.AsyncWrite()), b(h.AsyncResponse())
	o[5], o[6] = int64(h.RecvBufferSize()), int64(h.SendBufferSize())
	o[7], o[8] = int64(h.ReadTimeout()), int64(h.WriteTimeout())
	o[9], o[10], o[11] = int64(h.SendQueueSize()), int64(h.StreamQueueSize()), int64(h.MaxBodyLen())
	fmt.Sscanf(h.LogTag(), "tag%d", &o[12])
	return
}

// c12pkg reaches the default handler by the package's functions.
type c12pkg struct{ arpc.Handler }

func (c12pkg) SetLogTag(s string)                                       { arpc.SetLogTag(s) }
func (c12pkg) HandleConnected(f func(*arpc.Client))                     { arpc.HandleConnected(f) }
func (c12pkg) HandleDisconnected(f func(*arpc.Client))                  { arpc.HandleDisconnected(f) }
func (c12pkg) HandleOverstock(f func(*arpc.Client, *arpc.Message))      { arpc.HandleOverstock(f) }
func (c12pkg) HandleMessageDropped(f func(*arpc.Client, *arpc.Message)) { arpc.HandleMessageDropped(f) }
func (c12pkg) HandleSessionMiss(f func(*arpc.Client, *arpc.Message))    { arpc.HandleSessionMiss(f) }
func (c12pkg) BeforeRecv(f func(net.Conn) error)                        { arpc.BeforeRecv(f) }
func (c12pkg) BeforeSend(f func(net.Conn) error)                        { arpc.BeforeSend(f) }
func (c12pkg) BatchRecv() bool                                          { return arpc.BatchRecv() }
func (c12pkg) SetBatchRecv(b bool)                                      { arpc.SetBatchRecv(b) }
func (c12pkg) BatchSend() bool                                          { return arpc.BatchSend() }
func (c12pkg) SetBatchSend(b bool)                                      { arpc.SetBatchSend(b) }
func (c12pkg) AsyncResponse() bool                                      { return arpc.AsyncResponse() }
func (c12pkg) SetAsyncResponse(b bool)                                  { arpc.SetAsyncResponse(b) }
func (c12pkg) SetReaderWrapper(f func(net.Conn) io.Reader)              { arpc.SetReaderWrapper(f) }
func (c12pkg) RecvBufferSize() int                                      { return arpc.RecvBufferSize() }
func (c12pkg) SetRecvBufferSize(n int)                                  { arpc.SetRecvBufferSize(n) }
func (c12pkg) SendBufferSize() int                                      { return arpc.SendBufferSize() }
func (c12pkg) SetSendBufferSize(n int)                                  { arpc.SetSendBufferSize(n) }
func (c12pkg) ReadTimeout() time.Duration                               { return arpc.ReadTimeout() }
func (c12pkg) SetReadTimeout(d time.Duration)                           { arpc.SetReadTimeout(d) }
func (c12pkg) WriteTimeout() time.Duration                              { return arpc.WriteTimeout() }
func (c12pkg) SetWriteTimeout(d time.Duration)                          { arpc.SetWriteTimeout(d) }
func (c12pkg) SendQueueSize() int                                       { return arpc.SendQueueSize() }
func (c12pkg) SetSendQueueSize(n int)                                   { arpc.SetSendQueueSize(n) }
func (c12pkg) StreamQueueSize() int                                     { return arpc.StreamQueueSize() }
func (c12pkg) SetStreamQueueSize(n int)                                 { arpc.SetStreamQueueSize(n) }
func (c12pkg) MaxBodyLen() int                                          { return arpc.MaxBodyLen() }
func (c12pkg) SetMaxBodyLen(n int)                                      { arpc.SetMaxBodyLen(n) }
func (c12pkg) HandleMalloc(f func(int) []byte)                          { arpc.HandleMalloc(f) }
func (c12pkg) HandleFree(f func([]byte))                                { arpc.HandleFree(f) }
func (c12pkg) EnablePool(on bool)                                       { arpc.EnablePool(on) }
func (c12pkg) SetAsyncExecutor(f func(func()))                          { arpc.SetAsyncExecutor(f) }
func (c12pkg) AsyncExecute(f func())                                    { arpc.AsyncExecute(f) }

// c12via is h, or the package's functions where h is the default handler.
func c12via(h arpc.Handler) arpc.Handler {
	if h == arpc.DefaultHandler {
		return c12pkg{h}
	}
	return h
}

func (m *c12model) setOpt(i, v int) {
	h := c12via(m.h)
	n := int64(0)
	switch i {
	case 0:
		n = int64(v)
		h.SetMaxReconnectTimes(v)
	case 1, 2, 3, 4:
		n = int64(v % 2)
		f := []func(bool){h.SetBatchRecv, h.SetBatchSend, h.SetAsyncWrite, h.SetAsyncResponse}[i-1]
		f(n == 1)
	case 5:
		n = int64(16 + 100*v)
		h.SetRecvBufferSize(int(n))
	case 6:
		n = int64(1000 * v)
		h.SetSendBufferSize(int(n))
	case 7:
		n = int64(time.Duration(v) * 1000 * time.Hour)
		h.SetReadTimeout(time.Duration(n))
	case 8:
		n = int64(time.Duration(v) * 1001 * time.Hour)
		h.SetWriteTimeout(time.Duration(n))
	case 9:
		n = int64(50 + 50*v)
		h.SetSendQueueSize(int(n))
	case 10:
		n = int64(1 + v)
		h.SetStreamQueueSize(int(n))
	case 11:
		n = int64(1000 + v)
		h.SetMaxBodyLen(int(n))
	case 12:
		n = int64(1 + v)
		h.SetLogTag(fmt.Sprintf("tag%d", n))
	}
	m.opts[i] = n
}

type c12log struct {
	mu  sync.Mutex
	ev  []string
	enc []string
}

func (l *c12log) add(f string, a ...interface{}) {
	l.mu.Lock()
	l.ev = append(l.ev, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *c12log) take() (ev, enc string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	ev, enc = strings.Join(l.ev, " "), strings.Join(l.enc, " ")
	l.ev, l.enc = nil, nil
	return
}

type c12coder struct {
	id int
	l  *c12log
}

func (t c12coder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	t.l.mu.Lock()
	t.l.enc = append(t.l.enc, fmt.Sprintf("E%d", t.id))
	t.l.mu.Unlock()
	return m
}
func (t c12coder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	t.l.add("D%d", t.id)
	return m
}

// act performs the directives meant for id.
func c12act(ctx *arpc.Context, id int) {
	body := string(ctx.Body())
	if body == "slow" {
		return
	}
	for _, w := range strings.Fields(body) {
		var n int
		fmt.Sscanf(w[1:], "%d", &n)
		if n != id {
			continue
		}
		switch w[0] {
		case 'a':
			ctx.Abort()
		case 'n':
			ctx.Next()
		case 'p':
			panic(fmt.Sprintf("handler %d", id))
		}
	}
}

// simulate returns the events, whether the route's handler answered ("" none,
// "H<id>", "d") and whether the answer of the built-in handler is uncertain.
func c12sim(route []c12entry, acts string) (ev []string, answers []string, panicked bool) {
	idx := 0
	var next func()
	run := func(e c12entry) {
		switch e.kind {
		case 'm':
			ev = append(ev, fmt.Sprintf("M%d", e.id))
		case 'h':
			ev = append(ev, fmt.Sprintf("H%d", e.id))
			answers = append(answers, fmt.Sprintf("H%d", e.id))
		case 'd':
			answers = append(answers, "d")
		}
		if e.kind != 'd' {
			for _, w := range strings.Fields(acts) {
				var n int
				fmt.Sscanf(w[1:], "%d", &n)
				if n != e.id {
					continue
				}
				switch w[0] {
				case 'a':
					idx = len(route) + 1
				case 'n':
					next()
				case 'p':
					panic("sim")
				}
			}
		}
		next()
	}
	next = func() {
		if idx < len(route) {
			e := route[idx]
			idx++
			run(e)
		}
	}
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		next()
	}()
	return
}

func c12panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func runC12route(r *vkit.R, c c12route) {
	r.Bubble(func() {
		l := &c12log{}
		arpc.SetHandler(arpc.NewHandler())
		ids := 0
		fresh := func(h arpc.Handler) *c12model {
			return &c12model{h: h, routes: map[string][]c12entry{}, async: map[string]bool{}, streams: map[string]int{}, strAsyn: map[string]bool{}, opts: c12get(h)}
		}
		fam := []*c12model{fresh(arpc.DefaultHandler)}
		deadNet := vkit.NewNet("nobody")
		var extra []*arpc.Client
		for i, o := range c.Ops {
			m := fam[o.H%len(fam)]
			isDef := o.H%len(fam) == 0
			id := ids
			switch o.K {
			case "clone", "server", "client", "new":
				if len(fam) >= 8 {
					continue
				}
				switch o.K {
				case "clone":
					fam = append(fam, m.clone(m.h.Clone()))
				case "new":
					fam = append(fam, fresh(arpc.NewHandler()))
				case "server":
					s := arpc.NewServer()
					x := fam[0].clone(s.Handler)
					x.opts[12] = 0
					x.srv = s
					fam = append(fam, x)
				case "client":
					cl, err := arpc.NewClient(deadNet.Dial)
					if err != nil {
						r.Failf("client: %v", err)
						return
					}
					extra = append(extra, cl)
					fam = append(fam, fam[0].clone(cl.Handler))
				}
			case "use":
				for k := 0; k < o.N; k++ {
					// ids are positions among the middleware of this handler and
					// shared with other handlers, so directives hit often
					id := len(m.middles)
					tag := 1000*(i+1) + k
					cb := func(ctx *arpc.Context) {
						l.add("M%d/%d", id, tag)
						c12act(ctx, id)
					}
					if isDef {
						arpc.Use(cb)
					} else {
						m.h.Use(cb)
					}
					e := c12entry{id: id, kind: 'm'}
					e.id = tag*1000 + id
					m.middles = append(m.middles, e)
					for k, v := range m.routes {
						m.routes[k] = append(v[:len(v):len(v)], e)
					}
				}
			case "usenil":
				m.h.Use(nil)
				m.h.UseCoder(nil)
			case "handle":
				method := c12methods[o.M]
				ids++
				cb := func(ctx *arpc.Context) {
					l.add("H%d", id)
					if string(ctx.Body()) == "slow" {
						time.Sleep(time.Second)
					}
					ctx.Write(fmt.Sprintf("H%d", id))
					c12act(ctx, id)
				}
				var args []interface{}
				async := m.opts[4] == 1
				if o.A > 0 {
					args = append(args, o.A == 2)
					async = o.A == 2
				}
				_, dup := m.routes[method]
				bad := method == "" || len(method) > 127 || dup
				p := c12panics(func() {
					if isDef {
						arpc.Handle(method, cb, args...)
					} else {
						m.h.Handle(method, cb, args...)
					}
				})
				if p != bad {
					r.Failf("op %d: Handle(%d bytes %s) panicked=%v, want %v (registered before: %v)", i, len(method), vkit.Short(method), p, bad, dup)
					return
				}
				if method != "" && len(method) <= 127 {
					if _, ok := m.routes[""]; !ok {
						m.routes[""] = append(append([]c12entry(nil), m.middles...), c12entry{kind: 'd'})
					}
				}
				if !bad {
					m.routes[method] = append(append([]c12entry(nil), m.middles...), c12entry{id: id, kind: 'h'})
					m.async[method] = async
				}
			case "notfound":
				ids++
				cb := func(ctx *arpc.Context) {
					l.add("H%d", id)
					ctx.Write(fmt.Sprintf("H%d", id))
					c12act(ctx, id)
				}
				if isDef {
					arpc.HandleNotFound(cb)
				} else {
					m.h.HandleNotFound(cb)
				}
				m.routes[""] = append(append([]c12entry(nil), m.middles...), c12entry{id: id, kind: 'h'})
			case "stream":
				method := c12methods[o.M]
				if method == "" {
					continue
				}
				ids++
				_, dup := m.streams[method]
				bad := len(method) > 127 || dup
				p := c12panics(func() {
					m.h.HandleStream(method, func(s *arpc.Stream) {
						l.add("S%d", id)
						s.CloseRecv()
						s.CloseSend()
					}, o.A == 2)
				})
				if p != bad {
					r.Failf("op %d: HandleStream panicked=%v, want %v", i, p, bad)
					return
				}
				if !bad {
					m.streams[method] = id
				}
			case "coder":
				for k := 0; k < max(o.N, 1); k++ {
					id := ids
					ids++
					if isDef {
						arpc.UseCoder(c12coder{id, l})
					} else {
						m.h.UseCoder(c12coder{id, l})
					}
					m.coders = append(m.coders, id)
				}
			case "opt":
				m.setOpt(o.M, o.N)
			case "executor":
				ids++
				m.exec = id + 1
				c12via(m.h).SetAsyncExecutor(func(f func()) {
					l.add("X%d", id)
					go func() {
						defer func() { recover() }()
						f()
					}()
				})
			case "cancel":
				m.h.Cancel()
				m.dead = true
			}
			// nobody else may have changed
			for k, x := range fam {
				if got := c12get(c12via(x.h)); got != x.opts {
					for j := range got {
						if got[j] != x.opts[j] {
							r.Failf("op %d (%s on handler %d): %s of handler %d is %d, want %d", i, o.K, o.H%len(fam), c12optNames[j], k, got[j], x.opts[j])
							return
						}
					}
				}
				if n := len(x.h.Coders()); n != len(x.coders) {
					r.Failf("op %d (%s on handler %d): handler %d has %d coders, want %d", i, o.K, o.H%len(fam), k, n, len(x.coders))
					return
				}
				cx, _ := x.h.Context()
				if (cx.Err() != nil) != x.dead {
					r.Failf("op %d (%s on handler %d): context of handler %d: %v", i, o.K, o.H%len(fam), k, cx.Err())
					return
				}
			}
		}
		r.Class("handlers=%d", len(fam))
		for _, cl := range extra {
			cl.Stop()
		}
		deadNet.Close()
		synctest.Wait()
		l.take()

		for k, m := range fam {
			e := c12attach(c.Role[k%len(c.Role)], m.h, m.srv)
			if !c12drive(r, l, k, m, e, c.Msgs) {
				e.stop()
				return
			}
			e.stop()
			l.take()
		}
	})
}

func c12attach(role string, h arpc.Handler, srv *arpc.Server) *endpoint {
	e := &endpoint{}
	got := make(chan *arpc.Client, 4)
	if role == "accept" || srv != nil {
		if srv == nil {
			srv = arpc.NewServer()
			srv.Handler = h
		}
		w := &server{net: vkit.NewNet("s"), srv: srv, done: make(chan error, 1)}
		w.start()
		e.srv, e.net = w, w.net
		e.raw = w.net.DialConn()
		e.own = e.raw.Other()
		synctest.Wait()
		srv.ForEach(func(c *arpc.Client) { got <- c })
		e.cli = <-got
		return e
	}
	n := vkit.NewNet("raw")
	e.net = n
	cli, err := arpc.NewClient(n.Dial, h)
	if err != nil {
		panic(err)
	}
	e.cli = cli
	e.own = n.Conns[0]
	e.raw = e.own.Other()
	synctest.Wait()
	return e
}

// c12list renders the model's list with the tags the middlewares log.
func c12render(route []c12entry) []c12entry { return route }

func c12drive(r *vkit.R, l *c12log, k int, m *c12model, e *endpoint, msgs []c12msg) bool {
	go io.Copy(io.Discard, e.raw)
	seq := uint64(100)
	exec := func(method string) string {
		if m.exec > 0 && m.async[method] {
			return fmt.Sprintf("X%d", m.exec-1)
		}
		return ""
	}
	for mi, msg := range msgs {
		method := c12methods[msg.M]
		seq++
		cmd := byte(vkit.CRequest)
		if msg.Note {
			cmd = vkit.CNotify
		}
		before := e.own.SentLen()
		e.raw.Write(vkit.Frame{Cmd: cmd, Seq: seq, Method: method, Data: []byte(msg.Acts)}.Encode())
		synctest.Wait()
		ev, enc := l.take()
		sent := e.own.Sent()[before:]

		route, known := m.routes[method]
		if !known {
			var ok bool
			if route, ok = m.routes[""]; !ok {
				route = append(append([]c12entry(nil), m.middles...), c12entry{kind: 'd'})
			}
		}
		// ids of middlewares carry their tag
		plain := make([]c12entry, len(route))
		tags := map[int]string{}
		for i, en := range route {
			plain[i] = en
			if en.kind == 'm' {
				plain[i].id = en.id % 1000
				tags[plain[i].id] = fmt.Sprintf("M%d/%d", en.id%1000, en.id/1000)
			}
		}
		sev, answers, panicked := c12sim(plain, msg.Acts)
		var want []string
		for i := len(m.coders) - 1; i >= 0; i-- {
			want = append(want, fmt.Sprintf("D%d", m.coders[i]))
		}
		if x := exec(method); known && x != "" {
			want = append(want, x)
		}
		for _, s := range sev {
			if s[0] == 'M' {
				var n int
				fmt.Sscanf(s, "M%d", &n)
				s = tags[n]
			}
			want = append(want, s)
		}
		if g, w := ev, strings.Join(want, " "); g != w {
			r.Failf("handler %d, message %d (%s, acts %q): ran [%s], want [%s]", k, mi, vkit.Short(method), msg.Acts, g, w)
			return false
		}
		// answer
		fs, err := vkit.DecodeFrames(sent)
		if err != nil {
			r.Failf("handler %d, message %d: response bytes: %v", k, mi, err)
			return false
		}
		uncertain := false
		lastD := -1
		for i, en := range route {
			if en.kind == 'd' {
				lastD = i
			}
		}
		if lastD >= 0 && (len(sev) < len(m.middles)) && len(sev) >= lastD {
			// something after the built-in handler's slot aborted: where that
			// handler stands among them is not specified
			uncertain = true
		}
		wantN := len(answers)
		if msg.Note {
			wantN = 0
			uncertain = false
		}
		if len(fs) != wantN && !(uncertain && len(fs) <= 1) {
			r.Failf("handler %d, message %d (%s, acts %q): %d responses %v, want %d", k, mi, vkit.Short(method), msg.Acts, len(fs), fs, wantN)
			return false
		}
		for i, f := range fs {
			wd, fl := "", byte(0)
			if i < len(answers) {
				wd = answers[i]
			}
			if lastD >= 0 {
				wd, fl = arpc.ErrMethodNotFound.Error(), vkit.FlagError
			}
			if f.Seq != seq || string(f.Data) != wd || f.Flag&vkit.FlagError != fl || f.Cmd != vkit.CResponse {
				r.Failf("handler %d, message %d (%s): response %v, want %q", k, mi, vkit.Short(method), f, wd)
				return false
			}
		}
		var wenc []string
		for range fs {
			for _, id := range m.coders {
				wenc = append(wenc, fmt.Sprintf("E%d", id))
			}
		}
		if w := strings.Join(wenc, " "); enc != w {
			r.Failf("handler %d, message %d: coders applied on sending [%s], want [%s]", k, mi, enc, w)
			return false
		}
		if panicked {
			r.Class("panic")
		}
		if len(sev) < len(route)-1 {
			r.Class("cut-short")
		}
		if len(sev) > 2 {
			r.NonTrivial()
		}
		if len(route) >= 128 {
			r.Class("128+")
		}
	}
	// which stream handler, and synchronous or not
	for _, method := range c12methods[:6] {
		seq += 4
		if id, ok := m.streams[method]; ok || seq%3 == 0 {
			e.raw.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal | vkit.StreamEOF, Seq: seq, Method: method, Data: []byte("v")}.Encode())
			synctest.Wait()
			ev, _ := l.take()
			got := ""
			for _, w := range strings.Fields(ev) {
				if w[0] == 'S' {
					got += w
				}
			}
			want := ""
			if ok {
				want = fmt.Sprintf("S%d", id)
			}
			if got != want {
				r.Failf("handler %d: the stream handlers run for %s: %q, want %q", k, vkit.Short(method), got, want)
				return false
			}
		}
		if _, ok := m.routes[method]; !ok {
			continue
		}
		f1 := vkit.Frame{Cmd: vkit.CRequest, Seq: seq + 1, Method: method, Data: []byte("slow")}
		f2 := f1
		f2.Seq++
		e.raw.Write(append(f1.Encode(), f2.Encode()...))
		synctest.Wait()
		ev, _ := l.take()
		n := 0
		for _, w := range strings.Fields(ev) {
			if w[0] == 'H' {
				n++
			}
		}
		time.Sleep(3 * time.Second)
		synctest.Wait()
		ev, _ = l.take()
		if want := map[bool]int{true: 2, false: 1}[m.async[method]]; n != want {
			r.Failf("handler %d: %d handlers of %s ran at once, want %d", k, n, vkit.Short(method), want)
			return false
		}
	}
	return true
}

// ---- hooks: callbacks of one handler never fire for another ----

type c12hook struct {
	H, K int // handler, hook kind
}

type c12hooks struct {
	Ops  []c12op // "clone", "new", "set" (M: kind), "recvbuf" (N)
	Role []string
}

var c12kinds = []string{"connected", "disconnected", "overstock", "dropped", "sessionmiss", "msgdone", "contextdone", "beforerecv", "beforesend", "malloc", "append", "free", "reader", "pool", "nopool"}

func genC12hooks(rt *rapid.T) c12hooks {
	var c c12hooks
	for i := vkit.Int(rt, 1, 18, "ops"); i > 0; i-- {
		o := c12op{K: vkit.Pick(rt, "k", "clone", "clone", "new", "set", "set", "set", "set", "recvbuf"), H: vkit.Int(rt, 0, 4, "h")}
		o.M = vkit.Int(rt, 0, len(c12kinds)-1, "m")
		o.N = vkit.Pick(rt, "n", 16, 64, 333, 5000, 20000)
		c.Ops = append(c.Ops, o)
	}
	for i := 0; i < 5; i++ {
		c.Role = append(c.Role, vkit.Pick(rt, "role", "accept", "dial"))
	}
	return c
}

type c12hm struct {
	h    arpc.Handler
	tag  map[string]int // kind -> id of the hook that must fire
	recv int
}

func runC12hooks(r *vkit.R, c c12hooks) {
	r.Bubble(func() {
		var mu sync.Mutex
		cnt := map[string]map[int]int{}
		hit := func(kind string, id int) {
			mu.Lock()
			if cnt[kind] == nil {
				cnt[kind] = map[int]int{}
			}
			cnt[kind][id]++
			mu.Unlock()
		}
		prep := func(h arpc.Handler) *c12hm {
			h.SetSendQueueSize(2)
			h.SetBatchSend(false)
			h.Handle("a", func(ctx *arpc.Context) { ctx.Write("ok") })
			return &c12hm{h: h, tag: map[string]int{}, recv: h.RecvBufferSize()}
		}
		arpc.SetHandler(arpc.NewHandler())
		fam := []*c12hm{prep(arpc.DefaultHandler)}
		for i, o := range c.Ops {
			m := fam[o.H%len(fam)]
			id := i + 1
			switch o.K {
			case "clone", "new":
				if len(fam) >= 5 {
					continue
				}
				if o.K == "new" {
					fam = append(fam, prep(arpc.NewHandler()))
					continue
				}
				h := m.h.Clone()
				if o.M%3 == 0 {
					m = fam[0]
					h = arpc.NewServer().Handler
				}
				x := &c12hm{h: h, tag: map[string]int{}, recv: m.recv}
				for k, v := range m.tag {
					x.tag[k] = v
				}
				fam = append(fam, x)
			case "recvbuf":
				c12via(m.h).SetRecvBufferSize(o.N)
				m.recv = o.N
			case "set":
				k := c12kinds[o.M]
				h := c12via(m.h)
				switch k {
				case "connected":
					h.HandleConnected(func(*arpc.Client) { hit(k, id) })
				case "disconnected":
					h.HandleDisconnected(func(*arpc.Client) { hit(k, id) })
				case "overstock":
					h.HandleOverstock(func(*arpc.Client, *arpc.Message) { hit(k, id) })
				case "dropped":
					h.HandleMessageDropped(func(*arpc.Client, *arpc.Message) { hit(k, id) })
				case "sessionmiss":
					h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) { hit(k, id) })
				case "msgdone":
					h.HandleMessageDone(func(*arpc.Client, *arpc.Message) { hit(k, id) })
				case "contextdone":
					h.HandleContextDone(func(*arpc.Context) { hit(k, id) })
				case "beforerecv":
					h.BeforeRecv(func(net.Conn) error { hit(k, id); return nil })
				case "beforesend":
					h.BeforeSend(func(net.Conn) error { hit(k, id); return nil })
				case "malloc":
					h.HandleMalloc(func(n int) []byte { hit(k, id); return make([]byte, n) })
				case "append":
					h.HandleAppend(func(b []byte, more ...byte) []byte { hit(k, id); return append(b, more...) })
				case "free":
					h.HandleFree(func([]byte) { hit(k, id) })
				case "reader":
					h.SetReaderWrapper(func(c net.Conn) io.Reader { hit(k, id); return c })
				case "pool":
					h.EnablePool(true)
				case "nopool":
					h.EnablePool(false)
				}
				if k == "pool" || k == "nopool" {
					for _, x := range []string{"malloc", "append", "free", "msgdone", "contextdone"} {
						delete(m.tag, x)
					}
				} else {
					m.tag[k] = id
				}
			}
		}
		r.Class("handlers=%d", len(fam))
		if len(fam) > 1 {
			r.NonTrivial()
		}
		for k, m := range fam {
			mu.Lock()
			cnt = map[string]map[int]int{}
			mu.Unlock()
			role := c.Role[k%len(c.Role)]
			e := c12attach(role, m.h, nil)
			go io.Copy(io.Discard, e.raw)
			const reqs, misses = 3, 2
			for i := 0; i < reqs; i++ {
				e.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(i + 1), Method: "a", Data: []byte("x")}.Encode())
				synctest.Wait()
			}
			for i := 0; i < misses; i++ {
				e.raw.Write(vkit.Frame{Cmd: vkit.CResponse, Flag: byte(2 * i), Seq: uint64(i + 100000), Method: "a", Data: []byte("x")}.Encode())
				synctest.Wait()
			}
			// fill the queue
			e.own.StallWrites(true)
			over := 0
			for i := 0; i < 6; i++ {
				synctest.Wait()
				if err := e.cli.PushMsg(e.cli.NewMessage(arpc.CmdNotify, "n", "x"), 0); err == arpc.ErrClientOverstock {
					over++
				}
			}
			synctest.Wait()
			if over == 0 {
				r.Failf("handler %d: nothing was refused on a full queue", k)
			}
			// lose the connection for good
			e.net.Close()
			e.raw.Reset()
			time.Sleep(time.Minute)
			synctest.Wait()
			e.stop()
			time.Sleep(time.Minute)
			synctest.Wait()
			mu.Lock()
			for kind, ids := range cnt {
				for id, n := range ids {
					if m.tag[kind] != id {
						r.Failf("handler %d: %d %s callbacks registered on another handler (op %d) ran, its own is op %d", k, n, kind, id-1, m.tag[kind]-1)
					}
				}
			}
			want := map[string]int{"connected": 1, "disconnected": 1, "overstock": over, "sessionmiss": misses, "contextdone": reqs}
			for kind, n := range want {
				if id := m.tag[kind]; id != 0 {
					if got := cnt[kind][id]; got != n {
						r.Failf("handler %d (%s): its %s callback ran %d times, want %d", k, role, kind, got, n)
					}
				}
			}
			for _, kind := range []string{"msgdone", "beforerecv", "beforesend", "malloc"} {
				if id := m.tag[kind]; id != 0 && cnt[kind][id] == 0 {
					r.Failf("handler %d (%s): its %s hook never ran", k, role, kind)
				}
			}
			if id := m.tag["reader"]; id != 0 && cnt["reader"][id] == 0 {
				r.Failf("handler %d (%s): its reader wrapper was never used", k, role)
			}
			mu.Unlock()
			if m.tag["reader"] == 0 {
				// same size of reads as a new handler configured alike
				ref := arpc.NewHandler()
				ref.SetRecvBufferSize(m.recv)
				x := c12attach(role, ref, nil)
				x.raw.Write(vkit.Frame{Cmd: vkit.CNotify, Seq: 1, Method: "a", Data: []byte("x")}.Encode())
				synctest.Wait()
				a, b := e.own.MaxRead(), x.own.MaxRead()
				x.net.Close()
				x.stop()
				if a != b {
					r.Failf("handler %d: with RecvBufferSize %d it reads at most %d bytes at once, a new handler with that size reads %d", k, m.recv, a, b)
				}
			}
			if r.Failed() {
				return
			}
		}
	})
}

var _ = context.Background

func init() {
	vkit.Register("C12", "route", vkit.Opts{Quick: 20000, Rule: "a message ran at least three functions of its route"}, genC12route, runC12route)
	vkit.Register("C12", "hooks", vkit.Opts{Quick: 10000, Rule: "at least two handlers exist"}, genC12hooks, runC12hooks)
}
